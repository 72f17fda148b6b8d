// Compares a table of the code under test with the model (either program's headers must come first).
#pragma once
#include "tabmodel.hpp"
static bool diff_remain = true;     // also compare the runs left (as a new table has them)
static inline vector<cl_t *> table_lines(cf_t *cf) {
    vector<cl_t *> v;
    for (cl_t *l = cf->cf_line_base; l; l = l->cl_next) v.push_back(l);
    std::reverse(v.begin(), v.end());
    return v;
}
static inline std::set<int> bits(bitstr_t *b, int lo, int hi, int off = 0) {
    std::set<int> s;
    for (int i = lo; i <= hi; i++) if (bit_test(b, i)) s.insert(i + off);
    return s;
}
static inline string setstr(const std::set<int> &s) { string o = "{"; for (int x : s) o += strf("%s%d", o.size() > 1 ? "," : "", x); return o + "}"; }
static inline string cs(const char *s) { return s ? s : "(null)"; }

// differences between an expected job and a parsed line; "" when none. what: 1 = text (C01), 2 = options (C02)
static inline string diff_job(const Job &j, cl_t *l, int what) {
    string d;
    auto ne = [&](const char *n, const string &want, const string &got) { if (want != got) d += strf("%s: documented %s, parsed %s; ", n, want.c_str(), got.c_str()); };
    auto nb = [&](const char *n, bool want, bool got) { ne(n, want ? "true" : "false", got ? "true" : "false"); };
    auto nl = [&](const char *n, long want, long got) { ne(n, strf("%ld", want), strf("%ld", got)); };
    const Opts &o = j.o;
    if (what & 1) {
        ne("command", j.shell, cs(l->cl_shell));
        nb("uptime-based", j.kind == FREQ, is_freq(l->cl_option));
        if (j.kind == FREQ) {
            if (j.timefreq >= 0) nl("frequency", j.timefreq, l->cl_timefreq);
            nl("first", o.first, (long)l->cl_first);
        } else {
            ne("minutes", setstr(j.mins), setstr(bits(l->cl_mins, 0, 59)));
            ne("hours", setstr(j.hrs), setstr(bits(l->cl_hrs, 0, 23)));
            ne("days", setstr(j.days), setstr(bits(l->cl_days, 1, 31)));
            ne("months", setstr(j.mons), setstr(bits(l->cl_mons, 0, 11, 1)));
            ne("days of week", setstr(j.dow), setstr(bits(l->cl_dow, 0, 7)));
        }
        if (j.kind != FREQ) { nl("runfreq", o.runfreq, l->cl_runfreq); if (diff_remain) nl("remain", o.runfreq, l->cl_remain); }
        if (j.keyword.size()) {
            const string &k = j.keyword;
            bool ly = k.size() > 2 && k.substr(k.size() - 2) == "ly";
            bool mid = k.compare(0, 3, "mid") == 0 || k == "nightly";
            nb("once-per-period keyword", ly, is_freq_periodically(l->cl_option));
            nb("mid", mid, is_freq_mid(l->cl_option));
            if (ly) {
                nb("period hour", k.find("hourly") != string::npos, is_freq_hrs(l->cl_option));
                nb("period day", k == "daily" || k == "middaily" || k == "nightly", is_freq_days(l->cl_option));
                nb("period month", k.find("monthly") != string::npos, is_freq_mons(l->cl_option));
                nb("period week", k.find("weekly") != string::npos, is_freq_dow(l->cl_option));
                nb("period minute", false, is_freq_mins(l->cl_option));
            } else {
                int from = k == "mins" ? 0 : k == "hours" ? 1 : k == "days" ? 2 : k == "mons" ? 3 : 4;
                nb("ignore minutes", from > 0, is_freq_mins(l->cl_option));
                nb("ignore hours", from > 1, is_freq_hrs(l->cl_option));
                nb("ignore days", from > 2, is_freq_days(l->cl_option));
                nb("ignore months", from > 3, is_freq_mons(l->cl_option));
                nb("ignore dow", false, is_freq_dow(l->cl_option));
            }
        }
    }
    if (what & 2) {
        nb("serial", o.serial, is_serial(l->cl_option));
        nb("serialonce", o.serialonce, !is_serial_sev(l->cl_option));
        nb("lavgonce", o.lavgonce, !is_lavg_sev(l->cl_option));
        nb("exesev", o.exesev, is_exe_sev(l->cl_option));
        nb("bootrun", o.bootrun, is_bootrun(l->cl_option));
        nb("rebootreset", o.rebootreset, is_rebootreset(l->cl_option));
        nb("runatreboot", o.runatreboot, is_runatreboot(l->cl_option));
        nb("runatresume", o.runatresume, is_runatresume(l->cl_option));
        nb("runonce", o.runonce, is_runonce(l->cl_option));
        nb("strict", o.strict, is_strict(l->cl_option));
        nb("noticenotrun", o.noticenotrun, is_notice_notrun(l->cl_option));
        nb("lavgor", o.lavgor, is_lor(l->cl_option));
        nb("mail", o.mail, is_mail(l->cl_option));
        nb("forcemail", o.forcemail, is_mailzerolength(l->cl_option));
        nb("erroronlymail", o.erroronlymail, is_erroronlymail(l->cl_option));
        nb("dayor", o.dayor, is_dayor(l->cl_option));
        nb("nolog", o.nolog, is_nolog(l->cl_option));
        nb("volatile", o.vol, is_volatile(l->cl_option));
        nb("stdout", o.sout, is_stdout(l->cl_option));
        nb("random", o.random, is_random(l->cl_option));
        nb("lavg", o.lavg[0] || o.lavg[1] || o.lavg[2], is_lavg(l->cl_option));
        for (int i = 0; i < 3; i++) nl(i == 0 ? "lavg1 x10" : i == 1 ? "lavg5 x10" : "lavg15 x10", o.lavg[i], l->cl_lavg[i]);
        nl("until", o.until, (long)l->cl_until);
        nl("nice", o.nice, (signed char)l->cl_nice);
        nl("jitter", o.jitter, l->cl_jitter);
        if (j.kind != FREQ) nl("runfreq", o.runfreq, l->cl_runfreq);
        else nl("first", o.first, (long)l->cl_first);
        ne("runas", o.runas, cs(l->cl_runas));
        ne("mailto", o.mailto, cs(l->cl_mailto));
        ne("mailfrom", o.has_mailfrom && !o.mailfrom.empty() ? o.mailfrom : "(null)", l->cl_mailfrom && *l->cl_mailfrom ? cs(l->cl_mailfrom) : "(null)");   // an empty one is none
        ne("timezone", o.has_tz ? o.tz : "(null)", cs(l->cl_tz));
    }
    return d;
}
static inline vector<string> table_env(cf_t *cf) {
    vector<string> v;
    for (env_t *e = env_list_first(cf->cf_env_list); e; e = env_list_next(cf->cf_env_list)) v.push_back(e->e_envvar);
    return v;
}
