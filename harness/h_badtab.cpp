// C03: malformed lines among valid ones, and arbitrary bytes.
#include "tabglue.hpp"

// what every parsed line must satisfy, whatever the text was
static inline string ill_formed(cl_t *l, const string &user, bool root) {
    if (!l->cl_shell || !*l->cl_shell) return "empty command";
    if (strlen(l->cl_shell) >= LINE_LEN) return "command longer than a line";
    if (strchr(l->cl_shell, '\n')) return "newline in the command";
    if (!l->cl_runas || !l->cl_mailto) return "no runas or mailto";
    if (!root && user != l->cl_runas) return string("runas is ") + l->cl_runas;
    if (!getpwnam(l->cl_runas)) return string("runas unknown: ") + l->cl_runas;
    if (is_freq(l->cl_option)) {
        if (l->cl_timefreq < 1) return strf("frequency %ld", (long)l->cl_timefreq);
        if (l->cl_first < 0) return strf("first %ld", (long)l->cl_first);
        if (l->cl_runfreq != 0) return strf("runfreq %d in an @-line", l->cl_runfreq);
    }
    if (l->cl_until < 0) return strf("until %ld", (long)l->cl_until);
    int n = (signed char)l->cl_nice;
    if (n < (root ? -20 : 0) || n > 20) return strf("nice %d", n);
    if (l->cl_tz && (strlen(l->cl_tz) >= LINE_LEN || strchr(l->cl_tz, ')'))) return "bad time zone";
    // bits above the last value of a field are never set
    for (int i = 60; i < 64; i++) if (bit_test(l->cl_mins, i)) return "minute out of range";
    for (int i = 12; i < 16; i++) if (bit_test(l->cl_mons, i)) return "month out of range";
    return "";
}
static inline string check_table(const string &user, bool root) {
    if (!file_base) return "no table";
    for (cl_t *l : table_lines(file_base)) {
        string s = ill_formed(l, user, root);
        if (!s.empty()) return "job (" + cs(l->cl_shell) + "): " + s;
    }
    for (auto &e : table_env(file_base)) {
        size_t p = e.find('=');
        if (p == string::npos || p == 0) return "environment entry without a name: " + pbt::quote(e);
        if (e.find('\n') != string::npos) return "newline in the environment";
    }
    if (file_base->cf_tzdiff < -24 || file_base->cf_tzdiff > 24) return strf("tzdiff %d", file_base->cf_tzdiff);
    return "";
}

#ifndef FUZZ
// a line which fcrontab(5) does not allow: it must be reported and dropped
static string bad_field(Gen &g, int f) {
    static const int HI[] = {59, 23, 31, 12, 7};
    static const vector<string> BIG[] = {{"60", "99", "4294967296", "18446744073709551617"}, {"24", "100", "4294967297"}, {"32", "99"}, {"0", "13", "12-0", "0-5", "4294967297"}, {"8", "100"}};
    static const vector<string> ANY = {"x", "5x", "5-", "5,,6", "5-x", "-5", "*/", "*/0", "5-6/0", "*~", "*~x", "5-6~99", "5/2", "5..5", "5-6-7", "?", "5;6", "2-99", "*/999", "99999999999999999999", "5,", "janx", "mond", "5.", ".", "5~5~"};
    (void)HI;
    if (g.chance(1, 3)) return g.pick(BIG[f]);
    if (f < 3 && g.chance(1, 6)) return g.pick(MON);
    if (f == F_MON && g.chance(1, 6)) return "sun";
    if (f == F_DOW && g.chance(1, 6)) return "jan";
    return g.pick(ANY);
}
static const vector<string> &bad_opts() {
    static const vector<string> v = {"nice(21)", "nice(99999999999)", "nice", "nice()", "nice(x)", "lavg(1,2)", "lavg(1,2,3,4)", "lavg1(25.6)", "lavg1(26)", "lavg5(255)", "lavg15(256)", "lavg(1,100,1)", "lavg1(1.2.3)", "lavg1", "mail(maybe)",
        "until()", "until(0)", "until", "until(5x)", "until(99999999999999999999999)", "first", "first(1y)", "first(9999999999999999999m)", "jitter(256)", "jitter", "runfreq(1)", "runfreq(65536)", "runfreq(0)", "runfreq", "tzdiff(25)",
        "tzdiff(-25)", "tzdiff", "serial(", "serial(true", "bootrun(2)", "bootrun(truely)", "dayor(on)", "timezone", "mailto", "mailfrom", "timezone( Europe/Paris)", "mailto(\"bob\")", "mailfrom('x)", "runas", "runas()", "mail(true)x(", "volatile( true)"};
    return v;
}
static string unknown_opt(Gen &g) {
    static const vector<string> v = {"foo", "seria", "serials", "abcdefghijklmnopqrs", "Serial", "mail1", "x1", "hourl"};
    return g.pick(v);
}
struct Bad { string text; bool keeps_job = false; Job job; string why; };
static Bad gen_bad(Gen &g, Model &m) {
    Bad b;
    JobShape sh; sh.opts = false; sh.maxcmd = 20;
    string cmd = gen_cmd(g, 10);
    string ok5 = "1 2 3 4 5";
    switch (g.raw(13)) {
    case 0: { // a bad field
        int f = (int)g.raw(5);
        string t = g.chance(1, 2) ? "& " : "%days,mail ";
        for (int i = 0; i < 5; i++) t += (i == f ? bad_field(g, i) : gen_field(g, i, nullptr).text) + " ";
        b.text = t + cmd; b.why = "bad-field"; return b;
    }
    case 1: { // fields or command missing
        string t = g.chance(1, 2) ? "& " : "%mins ";
        int n = (int)g.range(0, 5);
        for (int i = 0; i < n; i++) t += gen_field(g, i, nullptr).text + (i + 1 < n ? " " : "");
        if (g.chance(1, 2)) t += "  ";
        b.text = t; b.why = "truncated-line"; return b;
    }
    case 2: { // frequency
        static const vector<string> v = {"@ 0 ", "@ ", "@ x ", "@ 5x ", "@ 5h6y ", "@ 99999999999999999999999999 ", "@ 9223372036854775807m ", "@ -5 ", "@ 0s ", "@5y 10 ", "@99999999999999999999999m 10 ", "@first(5) ", "@mail(maybe) 10 ", "@ 1.5 ", "@ 200000000000000000 ", "@ 9223372036854775807 ", "@ 9223372036854775807s9223372036854775807s "};
        b.text = g.pick(v) + "x_" ; b.why = "bad-frequency";
        return b;
    }
    case 3: { static const vector<string> v = {"@ 5", "@ 5 ", "@5 5", "@reboot", "@daily ", "@hourly\t", "@mail 5h ", "%hourly 5", "%daily 5 5 ", "%monthly 1 1 1", "%mins 1 2 3 4 5", "& 1 2 3 4 5"}; b.text = g.pick(v); b.why = "no-command"; return b; }
    case 4: { static const vector<string> v = {"@dailyx x_", "@reboot,mail x_", "@hourly(5) x_", "@abcdefghijklmnopqrstuvwxyz 5 x_x", "@weekly,serial x_"}; b.text = g.pick(v);
        // an unknown option is only skipped
        if (b.text.compare(0, 4, "@abc") == 0 || b.text.compare(0, 6, "@daily") == 0) { b.text = "@daily; x_"; } 
        if (g.chance(1, 6)) { static const string C = "abcdefghijklmnopqrstuvwxyzABZ0123456789"; b.text = "@" + g.pick(vector<string>{"daily", "x", "mail", "reboot"}); for (int n = g.chance(1, 3) ? (int)g.range(100, 900) : (int)g.range(1, 40); n > 0; n--) b.text += C[g.raw(C.size())]; b.text += "; x_"; }    // words of any length
        b.why = "bad-shortcut"; return b; }
    case 5: { static const vector<string> v = {"%mins * * * * * ", "%hours * * * * * ", "%hours 5 * * * * ", "%days 1 1 * * * ", "%mons 1 1 1 * * ", "%dow 1 1 1 1 * ", "%days * * 1-31 * * ", "%days * * 1-31 1-12 0-7 ", "%mins 0-59 0-23 1-31 1-12 0-6 ", "%dow 5 5 5 5 sun-sat ", "%dow 5 5 5 5 1-7 "};
        b.text = g.pick(v) + cmd; b.why = "no-interval"; return b; }
    case 6: { // bad option on a job line: "skipping end of line"
        static const vector<string> pre = {"&", "@", "%mins,"};
        int k = (int)g.raw(3);
        string o = g.pick(bad_opts());
        b.text = pre[k] + (g.chance(1, 4) ? "serial," : "") + o + " " + (k == 1 ? "10" : ok5) + " " + cmd; b.why = "bad-option"; return b;
    }
    case 7: b.text = "%runfreq(3),hourly 5 " + cmd; b.why = "runfreq-in-period"; return b;
    case 8: { // an unknown option is reported and skipped, the job stays
        int k = (int)g.raw(3);
        string o = unknown_opt(g);
        JobShape s2 = sh; s2.shortcut = false; s2.runas = false; s2.td = k == 0; s2.freq = k == 1; s2.period = k == 2;
        Job j; do { j = gen_job(g, m, s2); } while (0);
        string t = j.text;
        if (k == 0) { size_t p = t[0] == '&' ? 1 : 0; t = "&" + o + " " + t.substr(p); }
        else if (k == 1) t = "@" + o + t.substr(1);
        else t = "%" + o + "," + t.substr(1);
        b.text = t; b.keeps_job = true; b.job = j; b.job.text = t; b.why = "unknown-option"; return b;
    }
    case 9: { // global option line
        static const vector<string> v = {"!serial blah", "!foo", "!", "!abcdefghijklmnopqrstuvwxyz", "!hourly", "!,"};
        b.text = g.chance(1, 2) ? g.pick(v) : "!" + g.pick(bad_opts());
        if (b.text == "!serial blah") m.def.serial = true;
        // an emptied value before the error was found is not specified
        if (b.text.find("mailfrom(") != string::npos || b.text.find("timezone(") != string::npos || b.text.find("mailto(") != string::npos || b.text.find("lavg(") != string::npos || b.text.find("until") != string::npos || b.text.find("first") != string::npos || b.text.find("serial(") != string::npos || b.text.find("bootrun(t") != string::npos || b.text.find("mail(true") != string::npos || b.text.find("lavg") != string::npos)
            b.text = "!foo(1)";
        b.why = "bad-global"; return b;
    }
    case 10: { static const vector<string> v = {"FOO", "=x", "FOO=\"abc", "FOO='abc\"", "FOO=\"", "FOO='", "foo bar", "FOO BAR=x", "MAILTO=\"x", "?", "(x)", "$A=b", "a-b=c", "\"A\"=b", "~", "-5 * * * * x", "mon 1 1 1 1 x"}; b.text = g.pick(v); b.why = "bad-assignment"; return b; }
    case 11: { // too long, maybe continued
        string s = g.chance(1, 2) ? "0 0 * * * x_" : g.chance(1, 2) ? "LONG=" : "# ";
        size_t n = 1024 + g.skew(0, 3000);
        while (s.size() < n) { s += "word"; if (g.chance(1, 40)) n += 2, s += g.chance(1, 2) ? "\\\n" : "\\\n0 0 * * * x_tail "; }
        s += "\\\n0 0 * * * x_end";
        b.text = s; b.why = "too-long"; return b;
    }
    default: b.text = "& " + ok5 + string(" ") + string((size_t)g.raw(4), ' '); b.why = "blank-command"; return b;
    }
}
// random edits of a text
static string mutate(Gen &g, string t) {
    int n = 1 + (int)g.raw(8);
    static const vector<string> D = {"@", "&", "%", "!", "\n", "\\\n", "\\", "*", "-", "/", "~", ",", "(", ")", ".", "\"", "'", "=", " ", "\t", "0", "9", "99999999999", "jan", "sun", "reset", "runas(root)", "runas(", "mailto(", "timezone(", "lavg(", "first(", "\x80", "\xff", "tzdiff(-", "hourly", "mins", "abcdefghijklmnopqrstuv", "\r\n", "runfreq("};
    while (n--) {
        size_t p = t.empty() ? 0 : g.raw(t.size() + 1);
        switch (g.raw(7)) {
        case 0: t.insert(p, g.pick(D)); break;
        case 1: if (p < t.size()) t.erase(p, 1 + g.raw(4)); break;
        case 2: if (p < t.size()) t[p] = (char)g.raw(256); break;
        case 3: if (p < t.size()) { size_t k = 1 + g.raw(30); t.insert(g.raw(t.size() + 1), t.substr(p, k)); } break;
        case 4: if (p < t.size()) { size_t k = 1 + g.raw(60); t.erase(p, k); } break;
        case 5: t.insert(p, string((size_t)g.raw(1200), g.chance(1, 2) ? 'a' : (char)g.raw(256))); break;
        default: t.insert(p, 1, (char)g.raw(256)); break;
        }
    }
    return t;
}
// a table longer than fcrontab accepts: the first lines keep their jobs, and what is dropped is told
static void prop_long(Gen &g) {
    bool root = g.chance(1, 40);
    string user = root ? "root" : "model";
    int max = root ? 65535 : 1024;
    bool by_lines = g.chance(1, 2);
    int njobs = by_lines ? (int)g.range(1, 30) : max + (int)g.range(-4, 6);
    int nlines = by_lines ? max * 10 + (int)g.range(0, 30) : njobs + (int)g.range(0, 20);
    // the jobs lie anywhere among lines which are no job
    std::vector<char> isjob((size_t)nlines, 0);
    if (by_lines) { for (int k = 0; k < njobs; k++) isjob[(size_t)(g.chance(2, 3) ? nlines - 1 - (int)g.raw(40) : (int)g.raw((uint64_t)nlines))] = 1; }
    else { for (auto &c : isjob) c = 1; for (int k = njobs; k < nlines; k++) isjob[(size_t)g.raw((uint64_t)nlines)] = 0; }
    static const vector<string> FILL = {"", "# nothing", "A=b", "   ", "!nice(3)", "\\\n"};
    string fill = g.pick(FILL);
    string t; vector<string> want; int phys = 0;
    for (int i = 0; i < nlines; i++) {
        if (isjob[(size_t)i]) { string c = pbt::strf("c%zu", want.size()); want.push_back(c); t += "5 4 * * * " + c + "\n"; phys++; }
        else { t += fill + "\n"; phys += fill.size() == 2 ? 2 : 1; }
    }
    pbt::note("user %s, %zu jobs on %d lines (filled with %s)", user.c_str(), want.size(), phys, pbt::quote(fill).c_str());
    int msg = memfd_create("err", 0), old = dup(2);
    fflush(stderr); dup2(msg, 2);
    int r = parse_text(t, user, root);
    fflush(stderr); dup2(old, 2); close(old);
    bool said = lseek(msg, 0, SEEK_END) > 0; close(msg);
    vector<cl_t *> ls = table_lines(file_base);
    if (ls.size() > want.size()) pbt::fail("long-more", "%zu jobs read", ls.size());
    for (size_t i = 0; i < ls.size(); i++) if (want[i] != ls[i]->cl_shell) pbt::fail("long-order", "job %zu is (%s)", i, ls[i]->cl_shell);
    if (ls.size() < want.size() && !said && r == OK) pbt::fail("long-silent", "only %zu of %zu jobs were read and nothing said so", ls.size(), want.size());
    if (want.size() <= (size_t)max && phys < max * 10 && ls.size() < want.size()) pbt::fail("long-lost", "%zu of %zu jobs were read", ls.size(), want.size());
    pbt::label("long:%s", ls.size() < want.size() ? "cut" : "whole");
    pbt::nontrivial(pbt::hash(t));
}
static void prop_lines(Gen &g) {
    if (g.chance(1, 400)) { prop_long(g); return; }
    Shape sh; sh.lines = 5; sh.job.maxcmd = 20;
    bool root = g.chance(1, 2);
    string user = root ? "root" : "model";
    Model m; m.root = root; m.user = user; m.def = fresh_opts(user);
    int nbad = 0;
    do {
        if (g.chance(1, 2)) gen_line(g, m, sh);
        else {
            Bad b = gen_bad(g, m);
            m.text += b.text + "\n";
            pbt::label("bad:%s", b.why.c_str());
            if (b.keeps_job) m.jobs.push_back(b.job);
            nbad++;
        }
    } while (g.more(6));
    pbt::note("user %s\n%s", user.c_str(), m.text.c_str());
    int r = parse_text(m.text, user, root);
    string c = check_table(user, root);
    if (!c.empty()) pbt::fail("ill-formed", "%s", c.c_str());
    if (nbad && r == OK) pbt::fail("not-reported", "a malformed line was not reported");
    if (!nbad && r != OK) pbt::fail("rejected", "a valid table was reported as erroneous");
    vector<cl_t *> ls = table_lines(file_base);
    if (ls.size() != m.jobs.size()) {
        string s; for (auto l : ls) s += string(l->cl_shell).substr(0, 60) + "; ";
        pbt::fail("job-count", "%zu jobs described by well-formed lines, %zu parsed: %s", m.jobs.size(), ls.size(), s.c_str());
    }
    for (size_t i = 0; i < ls.size(); i++) {
        string d = diff_job(m.jobs[i], ls[i], 3);
        if (!d.empty()) pbt::fail("contained", "job %zu (%s): %s", i, m.jobs[i].text.c_str(), d.c_str());
    }
    vector<string> got = table_env(file_base), want;
    for (auto &e : m.env) want.push_back(e.first + "=" + e.second);
    if (got != want) pbt::fail("env", "environment differs");
    if (nbad && m.jobs.size()) pbt::nontrivial(pbt::hash(m.text));
}
static void prop_bytes(Gen &g) {
    bool root = g.chance(1, 2);
    string user = root ? "root" : "model";
    string t;
    if (g.chance(1, 6)) { int n = (int)g.skew(0, 3000); for (int i = 0; i < n; i++) t += (char)g.raw(256); pbt::label("random bytes"); }
    else {
        Shape sh; sh.lines = 5;
        Model m = gen_model(g, sh, root, user);
        t = mutate(g, m.text); pbt::label("mutated text");
    }
    while (!t.empty() && (t.back() == 10 || t.back() == 92)) t.pop_back();
    // whatever it was, the lines which follow keep their meaning
    Model m; m.root = root; m.user = user; m.def = fresh_opts(user);
    Shape sh; JobShape js; js.maxcmd = 10;
    Job j = gen_job(g, m, js);
    string full = t + "\n\n!reset\n" + j.text + "\n";
    pbt::note("user %s\n%s", user.c_str(), pbt::quote(full).c_str());
    parse_text(full, user, root);
    string c = check_table(user, root);
    if (!c.empty()) pbt::fail("ill-formed", "%s", c.c_str());
    vector<cl_t *> ls = table_lines(file_base);
    if (ls.empty()) pbt::fail("tail-lost", "the well-formed last line gave no job");
    string d = diff_job(j, ls.back(), 3);
    if (!d.empty()) pbt::fail("tail-changed", "the well-formed last line (%s) changed: %s", j.text.c_str(), d.c_str());
    pbt::label("jobs:%s", ls.size() < 2 ? "1" : ls.size() < 5 ? "2-4" : "5+");
    if (ls.size() > 1) pbt::nontrivial(pbt::hash(full));
}
int main(int argc, char **argv) {
    pbt::Config c;
#ifdef BYTES
    c.name = "tabbytes"; c.prop = prop_bytes;
#else
    c.name = "badlines"; c.prop = prop_lines;
#endif
    c.batch = 20; c.quick = 60000; c.thorough = 1000000;
    return pbt::main(argc, argv, c);
}
#else
#include "fuzzstats.hpp"
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static bool init = false;
    if (!init) { init = true; freopen("/dev/null", "w", stderr); }
    bool root = size && (data[0] & 1);
    string t((const char *)data, size);
    string user = root ? "root" : "model";
    parse_text(t + "\n\n!reset\n5 4 3 2 1 x_tail\n", user, root);
    string c = check_table(user, root);
    vector<cl_t *> ls = table_lines(file_base);
    if (c.empty() && (ls.empty() || string(ls.back()->cl_shell) != "x_tail" || !bit_test(ls.back()->cl_mins, 5) || bit_test(ls.back()->cl_mins, 6))) c = "the well-formed last line was lost or changed";
    if (!c.empty()) { FILE *f = fopen("/dev/stdout", "w"); fprintf(f, "FUZZ-FAIL %s\n", c.c_str()); fclose(f); abort(); }
    if (ls.size() > 1) fuzz_nontrivial(t); else fuzz_trivial();
    delete_file(user.c_str());
    free(::user); free(::runas); ::user = ::runas = nullptr;
    return 0;
}
#endif
