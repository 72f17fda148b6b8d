// What the documented daemon does, replayed over the log of what the real one did.
#pragma once
#include "vos.hpp"
#include "schedglue.hpp"
#include <memory>

static const int64_t NEVER = 971859427200LL;   // TIME_T_MAX
struct LCfg {
    string name; int kind = 0;                 // 0 &, 1 %, 2 @
    Fields f; Period p{};
    int runfreq = 0; int64_t timefreq = 0, first = 0;
    bool serial = false, serial_sev = true, exesev = false, lavg = false, lavg_sev = false, lor = false, strict = true, notice = false, bootrun = false,
         runonce = false, vol = false, rebreset = false, runreboot = false, runresume = false;
    int lv[3] = {0, 0, 0}; int64_t until = 0;
    string tz; int off = 0, tzd = 0;           // a time zone of its own (off: seconds east; without one, the system's), tzdiff of the table
    int64_t eff() const { return off - tzd * 3600; }       // fields are matched on this many seconds after UTC
    string str() const {
        string o = kind == 2 ? strf("@ every %ld first %ld", (long)timefreq, (long)first) : kind == 1 ? strf("%%%s ", p.kw) + f.str() : strf("&%d ", runfreq) + f.str();
        if (serial) o += " serial"; if (!serial_sev) o += " serialonce"; if (exesev) o += " exesev";
        if (lavg) o += strf(" lavg(%d,%d,%d)/10", lv[0], lv[1], lv[2]); if (lavg_sev) o += " lavgonce(false)"; if (lor) o += " lavgor"; if (lavg && !strict) o += " strict(false)"; if (until) o += strf(" until(%ld)", (long)until);
        if (notice) o += " noticenotrun"; if (bootrun) o += " bootrun"; if (runonce) o += " runonce"; if (vol) o += " volatile"; if (rebreset) o += " rebootreset"; if (runreboot) o += " runatreboot"; if (runresume) o += " runatresume"; if (tz.size()) o += " timezone(" + tz + ")"; if (tzd) o += strf(" tzdiff(%d)", tzd);
        return name + ": " + o;
    }
    void put(cf_t *cf) const {
        cl_t *l = new_line(cf, name.c_str());
        if (kind == 2) { set_freq(l->cl_option); l->cl_timefreq = timefreq; l->cl_first = first; }
        else { put_fields(l, f); set_td(l->cl_option); if (kind == 1) { Period q = p; q.f = f; q.put(l); } else { l->cl_runfreq = l->cl_remain = runfreq; } }
        if (serial) set_serial(l->cl_option); else clear_serial(l->cl_option);
        if (serial_sev) set_serial_sev(l->cl_option); else clear_serial_sev(l->cl_option);
        if (exesev) set_exe_sev(l->cl_option); else clear_exe_sev(l->cl_option);
        if (lavg) { set_lavg(l->cl_option); for (int i = 0; i < 3; i++) l->cl_lavg[i] = lv[i]; } else clear_lavg(l->cl_option);
        if (lavg_sev) set_lavg_sev(l->cl_option); else clear_lavg_sev(l->cl_option);
        if (lor) set_lor(l->cl_option); else set_land(l->cl_option);
        if (strict) set_strict(l->cl_option); else clear_strict(l->cl_option);
        if (notice) set_notice_notrun(l->cl_option);
        if (bootrun) set_bootrun(l->cl_option);
        if (runonce) set_runonce(l->cl_option);
        if (vol) set_volatile(l->cl_option);
        if (rebreset) set_rebootreset(l->cl_option);
        if (runreboot) set_runatreboot(l->cl_option);
        if (runresume) set_runatresume(l->cl_option);
        l->cl_until = until;
        if (tz.size()) l->cl_tz = strdup(tz.c_str());
        cf->cf_tzdiff = (signed char)tzd;
    }
};
static bool same_job(const LCfg &a, const LCfg &b) {
    if (a.name != b.name || (a.kind == 2) != (b.kind == 2)) return false;
    if (a.kind == 2) return a.timefreq == b.timefreq;
    return a.f.mins == b.f.mins && a.f.hrs == b.f.hrs && a.f.days == b.f.days && a.f.mons == b.f.mons && a.f.dow == b.f.dow && a.f.dayor == b.f.dayor;
}
struct Table { vector<LCfg> lines; };
struct Change { bool rm = false; string user; Table t; };   // one fcrontab installed or removed
struct Line { LCfg c; int64_t next = 0; bool inq = false, hasrun = false, alive = true; int remain = 0, numexe = 0; };
typedef std::shared_ptr<Line> LP;
struct DFile { int64_t t_save = 0; vector<Line> lines; };
enum Ctx { DEFAULT_, BOOT_, RESUME_ };

struct Model {
    // configuration
    int first_sleep = 20, save_time = 1800, maxrun = 1, qmax = 30;
    bool check_mail = false, check_wake = false, once = false; int sleep1 = 20;    // this life: with option once, its first sleep
    vector<vector<Change>> changes;
    // on disk
    std::map<string, DFile> disk;
    std::map<string, Table> newf; std::set<string> rmf;
    // in memory
    std::map<string, vector<LP>> files;
    struct Exe { LP line; int pid; bool ser, lser; };
    struct SQ { LP line; int group; };
    struct LQ { LP line; int64_t until; bool late; int group; };
    vector<Exe> exes; vector<SQ> sq; vector<LQ> lq;
    int serial_running, lavg_running, group;
    int64_t now, save, nwt, pending_susp; int load[3] = {0, 0, 0};
    bool chld, term, hup, usr1, usr2, notified;
    LP dynline, dynseg; long dyncmd = 0; int ndyn = 0; int64_t lastdyn = 0;
    // the segment being replayed
    struct Obs { string name; int pid; bool used, fail; };   // the attempts to start a job, in order
    vector<Obs> obs; int nfail; size_t c, segend;
    struct Mail { char kind; string name; int64_t since, next; bool operator<(const Mail &o) const { return std::tie(kind, name, since, next) < std::tie(o.kind, o.name, o.since, o.next); } bool operator==(const Mail &o) const { return !(*this < o) && !(o < *this); } };
    vector<Mail> mails;
    // statistics
    int nstart = 0, nserial = 0, nlavg = 0, ndrop = 0, nfull = 0, nmail = 0, nresume = 0, nreq = 0, nskip = 0, nsync = 0, nfailed = 0, nmissed = 0, nboot = 0, nkeep = 0, nzone = 0, nwrap = 0, nlate = 0, nonce = 0, nlast = 0;

    string tm(int64_t t) const { Civ v = civil(t); return strf("%04d-%02d-%02d %02d:%02d:%02d", v.y, v.mo, v.d, v.h, v.mi, v.s); }
    int64_t firstm(const LCfg &l, int64_t t) const { int64_t e = l.eff(), r = first_match(l.f, t + e, t + e + 86400LL * 366 * 10); if (r < 0) pbt::discard(); return r - e; }
    int64_t fm(const LCfg &l, int64_t t) const { return firstm(l, t - t % 60 + 60); }
    // where there is no first sleep, a %-line which may run now does
    int64_t fm0(const LCfg &l, int64_t t) const { return l.kind == 1 && sleep1 == 0 && l.f.match(civil(t + l.eff())) ? t : fm(l, t); }
    int64_t pend(const LCfg &l, int64_t t) const { Period p = l.p; p.f = l.f; return p.end(t + l.eff()) - l.eff(); }
    int64_t std_next(const LCfg &l) const {
        if (l.kind == 2) return l.timefreq == LONG_MAX ? NEVER : now + l.timefreq;
        if (l.kind == 0) return fm(l, now);
        return firstm(l, pend(l, now));
    }
    int64_t run_next(const LCfg &l, int64_t t) const {     // rescheduled from its current next execution
        if (l.kind == 2) return t >= NEVER || l.timefreq == LONG_MAX ? NEVER : t + l.timefreq;
        if (l.kind == 0) return fm(l, t);
        return firstm(l, pend(l, t));
    }
    void mail(char k, LP l, int64_t since, int64_t next) { if (next) next += l->c.off; since += l->c.off; mails.push_back(Mail{k, l->c.name, since - since % 60, next - next % 60}); nmail++; }
    // starts -----------------------------------------------------------------
    bool take_fail() {
        for (auto &o : obs) if (o.fail && !o.used) { o.used = true; nfail--; nfailed++; return true; }
        return false;
    }
    bool expect_start(LP l, bool ser, bool lser) {
        bool fail_before = false;
        for (auto &o : obs) if (!o.used && o.fail) fail_before = true; else if (!o.used && o.name == l->c.name) {
            if (!ser && fail_before) for (auto &s : sq) if (s.line == l) pbt::discard();     // which of its two executions failed?
            if (fail_before && dynseg == l) pbt::discard();     // the scheduled execution or the one asked for?
            o.used = true; exes.push_back(Exe{l, o.pid, ser, lser}); nstart++;
            if (ser) { serial_running++; nserial++; } if (lser) lavg_running++;
            return true;
        }
        if (take_fail()) { l->numexe--; return false; }
        pbt::fail("start-missing", "%s: %s is due (%s) and was not started", tm(now).c_str(), l->c.name.c_str(), ser ? "serial queue" : l->c.lavg ? "load queue" : "normal");
    }
    bool gate = false;      // still in the first sleep: nothing is started
    void serial_fill() {
        if (gate) return;
        while (!sq.empty() && serial_running < maxrun) {
            size_t n = 1; while (n < sq.size() && sq[n].group == sq[0].group) n++;
            size_t pick = n, k = 0;
            while (k < obs.size() && obs[k].used) k++;
            auto in_tie = [&](const Obs &o) { for (size_t i = 0; i < n; i++) if (!o.fail && sq[i].line->c.name == o.name) return i; return n; };
            if (k < obs.size()) pick = in_tie(obs[k]);
            if (pick == n && k < obs.size() && obs[k].fail) {     // which of those due at the same time was it?
                vector<size_t> cand; std::set<string> names;
                for (size_t i = 0; i < n; i++) {
                    const string &nm = sq[i].line->c.name; int seen = 0, inst = 0;
                    for (auto &o : obs) if (!o.used && !o.fail && o.name == nm) seen++;
                    for (size_t q = 0; q < n; q++) if (sq[q].line->c.name == nm) inst++;
                    if (seen < inst && names.insert(nm).second) cand.push_back(i);
                }
                if (cand.size() != 1) pbt::discard();
                pick = cand[0]; take_fail();
                LP l = sq[pick].line; sq.erase(sq.begin() + pick); l->numexe--;
                continue;
            }
            if (pick == n) {
                for (auto &o : obs) { if (o.used) continue; pick = in_tie(o); if (pick < n) break; }
            }
            if (pick == n) {
                string who; for (auto &o : obs) if (!o.used && !o.fail) who += " " + o.name;
                pbt::fail("serial-start-missing", "%s: %s is next in the serial queue (%d waiting, %d of %d running) and was not started; started instead:%s", tm(now).c_str(), sq[0].line->c.name.c_str(), (int)sq.size(), serial_running, maxrun, who.c_str());
            }
            LP l = sq[pick].line; sq.erase(sq.begin() + pick);
            expect_start(l, true, false);
        }
    }
    // queues -----------------------------------------------------------------
    void add_serial(LP l, int g) {
        if (l->c.serial_sev ? l->numexe >= 255 : l->numexe > 0) { nskip++; return; }
        if ((int)sq.size() >= qmax) {
            for (auto &s : sq) if (s.group == g && s.line != l) pbt::discard();
            nfull++;
            if (l->c.notice) mail('F', l, now, 0);
            return;
        }
        sq.push_back(SQ{l, g}); l->numexe++;
    }
    int64_t interval_end(const LCfg &l, int64_t next) const {
        int64_t t = next - next % 60, e = pend(l, next);
        while (t < e && l.f.match(civil(t + l.eff()))) t += 60;
        if (t > e) t = e;
        return t - 60;
    }
    void add_lavg(LP l, int g) {
        if (l->c.lavg_sev ? l->numexe >= 255 : l->numexe > 0) { nskip++; return; }
        if ((int)lq.size() >= qmax) {
            for (auto &s : lq) if (s.group == g && s.line != l) pbt::discard();
            nfull++;
            if (l->c.notice) mail('F', l, now, 0);
            return;
        }
        l->numexe++;
        LQ q{l, l->c.until > 0 ? now + l->c.until : 0, true, g};
        if (l->c.strict && l->c.kind == 1) {
            int64_t e = interval_end(l->c, l->next);
            if (!(l->c.until > 0 && now + l->c.until < e)) { q.until = e; q.late = false; }
        }
        lq.push_back(q);
    }
    void reap(int pid) {
        for (size_t i = 0; i < exes.size(); i++) if (exes[i].pid == pid) {
            Exe x = exes[i]; exes.erase(exes.begin() + i);
            if (x.line->alive) x.line->numexe--;
            if (x.lser) lavg_running--;
            if (x.ser) serial_running--;
            return;
        }
    }
    // loading ----------------------------------------------------------------
    void load_line(LP l, Ctx ctx, int64_t sleep, bool isnew, int g) {
        const LCfg &k = l->c;
        if (ctx != RESUME_ && l->numexe > 0) {
            l->numexe = 0;
            if (!(k.runreboot && ctx == BOOT_)) {
                if (k.lavg) { if (!(k.strict && k.kind == 1)) { nreq++; add_lavg(l, g); } }
                else { nreq++; add_serial(l, g); }
            }
        }
        if (ctx == BOOT_ || (ctx == DEFAULT_ && k.vol) || (ctx == RESUME_ && k.runresume)) l->hasrun = false;
        if (k.runonce && l->hasrun) { l->inq = false; return; }
        int64_t old = l->next;
        bool atonce = (ctx == BOOT_ && k.runreboot) || (ctx == RESUME_ && k.runresume);
        if (k.kind != 2) {
            if (atonce) {
                l->next = now; nboot++;
                if (k.notice && old > 0 && old <= now && (k.kind == 0 || now >= pend(k, old))) mail('D', l, old, now);
            } else if (l->next <= now) {
                if (old == 0) l->next = fm0(k, now);
                else {
                    nmissed++;
                    if (k.kind == 1) { l->next = fm0(k, now); if (k.notice && l->next >= pend(k, old)) mail('D', l, old, l->next); }
                    else if (k.bootrun && !isnew) {
                        nboot++;
                        if (l->remain > 0 && --l->remain > 0) {}
                        else { l->remain = k.runfreq; if (k.lavg) add_lavg(l, g); else add_serial(l, g); }
                        l->next = std_next(k);
                    } else { l->next = fm(k, now); if (k.notice) mail('D', l, old, l->next); }
                }
            }
        } else {
            if (atonce) l->next = now, nboot++;
            else if (isnew || (k.vol && ctx != RESUME_) || (ctx == BOOT_ && (k.rebreset || k.runonce))) l->next = k.first == LONG_MAX ? NEVER : now + k.first;
            else if (l->next < NEVER) {
                l->next += sleep;
                if (l->next < now) l->next = now;
            }
        }
        l->inq = true;
    }
    LP load_dline(const Line &d, Ctx ctx, int64_t t_save, int g) {
        LP l = std::make_shared<Line>(d); l->inq = false; l->alive = true;
        load_line(l, ctx, now - t_save, t_save == 0, g);
        return l;
    }
    void snapshot(const string &u) {
        DFile d; d.t_save = now;
        for (auto &l : files[u]) d.lines.push_back(*l);
        disk[u] = d;
    }
    void snapshot_all() { for (auto &f : files) snapshot(f.first); }
    void drop_file(const string &u) {
        if (!files.count(u)) return;
        for (auto &l : files[u]) {
            l->alive = false;
            for (size_t i = 0; i < sq.size();) if (sq[i].line == l) sq.erase(sq.begin() + i); else i++;
            for (size_t i = 0; i < lq.size();) if (lq[i].line == l) lq.erase(lq.begin() + i); else i++;
        }
        files.erase(u);
    }
    void dropped(int k) {     // the files of a change were put in the spool directory
        for (auto &ch : changes[k]) if (ch.rm) { rmf.insert(ch.user); newf.erase(ch.user); } else { newf[ch.user] = ch.t; rmf.erase(ch.user); }
    }
    // at the E_SYNC event: the names in the directory are read, then the files; what is installed in between counts for the files
    void sync(bool boot) {
        nsync++;
        std::set<string> rml = rmf, newl; for (auto &f : newf) newl.insert(f.first);
        c++; sigs();
        int g = ++group; Ctx ctx = boot ? BOOT_ : DEFAULT_;
        bool normal = files.empty();
        std::map<string, DFile> d0 = disk;
        for (auto &u : rml) { drop_file(u); disk.erase(u); rmf.erase(u); }
        if (normal) for (auto &f : d0) if (disk.count(f.first)) { auto &v = files[f.first]; for (auto &d : f.second.lines) v.push_back(load_dline(d, ctx, f.second.t_save, g)); }
        for (auto &u : newl) {
            auto it = newf.find(u);
            if (it == newf.end()) continue;      // replaced by a removal meanwhile
            std::pair<string, Table> f = *it; newf.erase(it);
            vector<LP> v; bool had = files.count(f.first);
            for (auto &lc : f.second.lines) { Line d; d.c = lc; d.remain = lc.runfreq; if (lc.kind == 2) d.next = lc.first; v.push_back(load_dline(d, ctx, 0, g)); }
            if (had) {
                for (auto &l : v) for (auto &o : files[f.first]) if (same_job(l->c, o->c)) {
                    nkeep++;
                    if (l->c.runfreq == o->c.runfreq) l->remain = o->remain;
                    if (o->c.runonce && o->hasrun) { if (l->c.runonce) { l->hasrun = true; l->inq = false; if (l->c.kind == 2 || (l->c.tz == o->c.tz && l->c.tzd == o->c.tzd)) l->next = o->next; } }
                    else if (l->c.kind == 2 || (l->c.tz == o->c.tz && l->c.tzd == o->c.tzd)) l->next = o->next;
                    else if (l->c.tz == o->c.tz) { int64_t n = o->next + (l->c.tzd - o->c.tzd) * 3600; if (n > now) l->next = n; nzone++; }
                    else nzone++;        // the fields mean other times now
                    break;
                }
                drop_file(f.first);
            }
            files[f.first] = v;
            snapshot(f.first);
        }
    }
    // an iteration -----------------------------------------------------------
    void due() {
        vector<LP> d;
        for (auto &f : files) for (auto &l : f.second) if (l->inq && l->next <= now) d.push_back(l);
        std::stable_sort(d.begin(), d.end(), [](const LP &a, const LP &b) { return a->next < b->next; });
        int64_t last = -1; int g = 0;
        for (auto &l : d) {
            if (l->next != last) { last = l->next; g = ++group; }
            if (now - l->next > 1) nlate++;
            if (l->remain > 0 && --l->remain > 0) {}
            else {
                l->remain = l->c.runfreq;
                if (l->c.lavg) add_lavg(l, g);
                else if (l->c.serial) add_serial(l, g);
                else if (l->numexe <= 0 || (l->c.exesev && l->numexe < 255)) { l->numexe++; expect_start(l, false, false); }
                else nskip++;
                l->hasrun = true;
            }
            if (l->c.runonce && l->hasrun) l->inq = false;
            else l->next = std_next(l->c);
        }
    }
    // a command of a client of fcrondyn
    void dyn(const Ev &e) {
        int64_t idle = now - lastdyn; lastdyn = now;
        if (e.b && idle > 600) return;      // the connection was closed for being idle, just before the command came
        if (e.b) pbt::fail("dyn-closed", "%s: the daemon closed the connection instead of answering", tm(now).c_str());
        if (dyncmd != 301 && dyncmd != 302) return;
        LP l = dynline;
        bool found = l && l->alive && l->inq, err = strstr(e.name, "not found") != NULL || strstr(e.name, "No corresponding") != NULL;
        (void)err;
        if (!found) return;
        ndyn++;
        int g = ++group;
        if (l->c.lavg) add_lavg(l, g);
        else if (l->c.serial) add_serial(l, g);
        else if (l->numexe <= 0 || (l->c.exesev && l->numexe < 255)) { l->numexe++; expect_start(l, false, false); }
        else nskip++;
        if (dyncmd == 301) l->next = run_next(l->c, std::max(l->next, now));
        serial_fill();
    }
    int64_t next_wake() const {
        int64_t n = save;
        for (auto &f : files) for (auto &l : f.second) if (l->inq) n = std::min(n, l->next);
        return std::max(n, now);
    }
    void check_lavg() {
        for (size_t i = 0; i < lq.size();) {
            LQ q = lq[i];
            if (!(q.until > 0 && q.until < now)) { i++; continue; }
            lq.erase(lq.begin() + i);
            if (!q.late) {
                q.line->numexe--; q.line->hasrun = false; ndrop++;
                int64_t pe = pend(q.line->c, now);
                q.line->next = fm(q.line->c, now); q.line->inq = true;
                if (q.line->c.notice && q.line->next >= pe) mail('L', q.line, now, q.line->next);
            } else { nlavg++; expect_start(q.line, false, q.line->c.serial); }
        }
        vector<size_t> el;
        for (size_t i = 0; i < lq.size(); i++) {
            const LCfg &k = lq[i].line->c; bool all = true, any = false;
            for (int j = 0; j < 3; j++) { bool below = load[j] < k.lv[j] * 10; if (!below && k.lv[j] != 0) all = false; if (below) any = true; }
            if (k.lor ? any : all) el.push_back(i);
        }
        vector<char> gone(lq.size(), 0);
        for (size_t i : el) if (!lq[i].line->c.serial) { gone[i] = 1; nlavg++; expect_start(lq[i].line, false, false); }
        int total = 0, started = 0, cap = std::max(0, maxrun - lavg_running);
        for (size_t i : el) if (lq[i].line->c.serial) total++;
        for (size_t k = 0; k < obs.size() && started < cap; k++) {      // in the order of the starts
            if (obs[k].used || obs[k].fail) continue;
            for (size_t i : el) if (lq[i].line->c.serial && !gone[i] && lq[i].line->c.name == obs[k].name) { gone[i] = 1; started++; nlavg++; expect_start(lq[i].line, false, true); break; }
        }
        if (started < std::min(cap, total)) {
            if (nfail == 0) pbt::fail("lavg-start-missing", "%s: %d lavg serial jobs may start (%d running of %d) and only %d did", tm(now).c_str(), total, lavg_running - started, maxrun, started);
            for (size_t i : el) if (lq[i].line->c.serial && !gone[i]) { if (nfail == 0) pbt::discard(); gone[i] = 1; take_fail(); lq[i].line->numexe--; }
        } else if (nfail > 0 && total > started) pbt::discard();
        vector<LQ> n; for (size_t i = 0; i < lq.size(); i++) if (!gone[i]) n.push_back(lq[i]);
        lq = n;
    }
    // the log ----------------------------------------------------------------
    void sig(const Ev &e) {
        if (e.a == SIGCHLD) chld = true; else if (e.a == SIGTERM) term = true; else if (e.a == SIGHUP) hup = true; else if (e.a == SIGUSR1) usr1 = true; else if (e.a == SIGUSR2) usr2 = true;
    }
    void sigs() { while (c < segend && (W->ev[c].kind == E_SIG || W->ev[c].kind == E_DROP)) { if (W->ev[c].kind == E_DROP) dropped((int)W->ev[c].a); else if (W->ev[c].a > 0) sig(W->ev[c]); c++; } }
    int marker() {
        while (c < segend) {
            const Ev &e = W->ev[c];
            if (e.kind == E_REAP || e.kind == E_REAPEND || e.kind == E_SYNC) return e.kind;
            if (e.kind == E_SIG && e.a > 0) sig(e);
            if (e.kind == E_DROP) dropped((int)e.a);
            c++;
        }
        return 0;
    }
    bool exiting = false;
    void unlock(const Ev &e) {
        if (!(e.b & 1)) pbt::fail("pid-file-left", "%s: the daemon leaves its pid file when it exits", tm(now).c_str());
        if (e.b & 2) pbt::fail("pid-file-early", "%s: the daemon removes its pid file before it has waited for its jobs and saved its tables", tm(now).c_str());
    }
    void do_exit() {
        exiting = true;
        int m;
        while ((m = marker())) { if (m == E_REAP) reap((int)W->ev[c].a); else if (m == E_SYNC) pbt::fail("sync-at-exit", "the spool directory is read after SIGTERM"); c++; }
        if (!exes.empty()) pbt::fail("exit-no-wait", "the daemon exits with %d jobs still running", (int)exes.size());
        snapshot_all();
    }
    void reload() {
        int m;
        while ((m = marker()) == E_REAP || m == E_REAPEND) { if (m == E_REAP) reap((int)W->ev[c].a); c++; }
        if (m != E_SYNC) pbt::fail("reload-missing", "%s: SIGUSR1 did not reload the tables", tm(now).c_str());
        if (!exes.empty()) for (auto &x : exes) if (x.line->alive) pbt::fail("reload-no-wait", "%s: tables reloaded while %s runs", tm(now).c_str(), x.line->c.name.c_str());
        snapshot_all();
        while (!files.empty()) drop_file(string(files.begin()->first));
        sync(false);
    }
    // first: the signals known on waking up; otherwise those which came meanwhile, if the daemon looks at them now
    bool signals(bool first) {
        int m;
        if (chld) {
            m = marker();
            if (first || m == E_REAP || m == E_REAPEND) {
                chld = false;
                for (;;) {
                    m = marker();
                    if (m == E_REAP) { reap((int)W->ev[c].a); c++; sigs(); serial_fill(); continue; }
                    if (m == E_REAPEND) { c++; sigs(); break; }
                    pbt::fail("reap-missing", "%s: SIGCHLD was not answered by looking for ended jobs", tm(now).c_str());
                }
            }
        }
        if (term && (first || (segend < (size_t)W->nev && W->ev[segend].kind == E_EXIT))) { term = false; do_exit(); return true; }
        if (hup) {
            m = marker();
            if (first || m == E_SYNC) {
                if (m != E_SYNC) pbt::fail("hup-ignored", "%s: SIGHUP did not make the daemon read the spool directory", tm(now).c_str());
                hup = false; sync(false);
            }
        }
        if (usr1) { m = marker(); if (first || m) { usr1 = false; reload(); } }
        usr2 = false;
        return false;
    }
    static int64_t scan_date(const char *p) { int y, mo, d, w, h, mi; if (sscanf(p, "%d-%d-%d wday:%d %d:%d", &y, &mo, &d, &w, &h, &mi) != 6) return -1; int64_t t = days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60; return civil(t).wd == w ? t : -2; }
    vector<Mail> observed(size_t a, size_t b) {
        vector<Mail> v;
        for (size_t i = a; i < b; i++) if (W->ev[i].kind == E_MAIL) {
            if (W->ev[i].a < 0) pbt::fail("mail-failed", "a report of non-execution could not be sent (status %ld)", (long)W->ev[i].b);
            string t(W->text + W->ev[i].a, W->ev[i].b);
            Mail m{'?', "", 0, 0};
            size_t p = t.find("Line '"), q;
            if (p != string::npos && (q = t.find("'", p + 6)) != string::npos) {
                m.name = t.substr(p + 6, q - p - 6);
                static const string A = "' has not run since and including ", N = "It will be next executed at ";
                size_t s = t.find(A, q), n = t.find(N, q);
                if (s == q && n != string::npos) {
                    m.since = scan_date(t.c_str() + s + A.size()); m.next = scan_date(t.c_str() + n + N.size());
                    m.kind = t.find("system's down or suspended") != string::npos ? 'D' : t.find("too high system load") != string::npos ? 'L' : '?';
                } else if ((s = t.find("' couldn't be added to lavg or serial queue which is full ( ", q)) == q) { m.kind = 'F'; m.since = scan_date(t.c_str() + q + 60); m.next = 0; }
            }
            if (m.kind == '?') pbt::fail("mail-text", "report of non-execution not understood: %s", pbt::quote(t).c_str());
            v.push_back(m);
        }
        return v;
    }
    void end_segment(size_t a, size_t b) {
        for (auto &o : obs) if (!o.used && !o.fail) {
            LP l; for (auto &f : files) for (auto &x : f.second) if (x->c.name == o.name) l = x;
            pbt::fail("unexpected-start", "%s: %s was started; %s", tm(now).c_str(), o.name.empty() ? "(a job which is in no list)" : o.name.c_str(),
                      !l ? "it is in no table" : strf("its next time is %s, instances queued or running %d%s", tm(l->next).c_str(), l->numexe, l->inq ? "" : ", not scheduled").c_str());
        }
        if (nfail > 0) pbt::fail("unexpected-start", "%s: %d more jobs than due were tried (fork failed)", tm(now).c_str(), nfail);
        if (check_mail) {
            vector<Mail> got = observed(a, b), want = mails;
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            if (!(got == want)) {
                string o = strf("%s: reports of non-execution differ:", tm(now).c_str());
                for (auto &m : want) o += strf("\n  expected %c %s since %s next %s", m.kind, m.name.c_str(), tm(m.since).c_str(), tm(m.next).c_str());
                for (auto &m : got) o += strf("\n  sent     %c %s since %s next %s", m.kind, m.name.c_str(), tm(m.since).c_str(), tm(m.next).c_str());
                pbt::fail("mail-differs", "%s", o.c_str());
            }
        }
        mails.clear();
    }
    void dump() {
        static const char *N[] = {"", "start", "startfail", "select", "wake", "reap", "reapend", "sig", "suspend", "step", "mail", "loadread", "sync", "drop", "exit", "stuck", "name", "killed", "overflow", "load", "dyn", "dynend"};
        for (int i = 0; i < W->nev && i < 500; i++) { Ev &e = W->ev[i]; pbt::note("  %s.%06d %s %ld %ld %s", tm(e.real_us / 1000000).c_str(), (int)(e.real_us % 1000000), N[e.kind], (long)e.a, (long)e.b, e.name); if (e.kind == E_MAIL && e.a >= 0 && check_mail) pbt::note("%s", string(W->text + e.a, e.b).c_str()); }
    }
    // replay one life of the daemon
    void replay(bool boot, const double *load0) {
        files.clear(); exes.clear(); sq.clear(); lq.clear(); serial_running = lavg_running = 0; group = 0;
        chld = term = hup = usr1 = usr2 = notified = false; pending_susp = 0; exiting = false; gate = true; mails.clear();
        for (int i = 0; i < 3; i++) load[i] = (int)(load0[i] * 100 + .5);
        if (pbt::noting()) dump();
        size_t i = 0, n = W->nev; bool first = true;
        int start0 = nstart; int64_t start = 0; size_t progress_i = 0; int64_t progress_t = 0; int idle = 0;
        (void)progress_i;
        while (i < n) {
            size_t b = i;
            while (b < n && W->ev[b].kind != E_SELECT && W->ev[b].kind != E_EXIT && W->ev[b].kind != E_KILLED && W->ev[b].kind != E_STUCK ) b++;
            for (size_t k = i; k < n && k <= b; k++) if (W->ev[k].kind == E_OVERFLOW) pbt::discard();
            if (b >= n) pbt::fail("daemon-died", "the log ends without end of the daemon");
            int term_k = W->ev[b].kind;
            if (term_k == E_STUCK && W->ev[b].real_us - W->ev[0].real_us > (int64_t)W->nselect * 500000) pbt::discard();   // many wake-ups, but over a long time
            obs.clear(); nfail = 0; dynseg = nullptr;
            // what came before the wake-up belongs to the sleep
            size_t a = i;
            if (!first) {
                for (; a < b && W->ev[a].kind != E_WAKE; a++) {
                    const Ev &e = W->ev[a];
                    if (e.kind == E_SIG && e.a > 0) sig(e);
                    if (e.kind == E_DROP) dropped((int)e.a);
                    if (e.kind == E_DYN) { dyncmd = e.a; dynline = nullptr; for (auto &f : files) for (auto &l : f.second) if (l->c.name == e.name) dynline = l; }
                    if (e.kind == E_SUSPEND) { pending_susp += e.a; if (e.b) notified = true; }
                    if (e.kind == E_LOAD) for (int k = 0; k < 3; k++) load[k] = (e.a >> (16 * k)) & 0xffff;
                }
                if (a == b) {   // killed while asleep
                    if (term_k == E_KILLED) return;
                    if (term_k == E_STUCK) pbt::fail("busy-loop", "the daemon wakes up again and again (%d times)", W->nselect);
                    pbt::fail("daemon-died", "the daemon ended while asleep");
                }
                a++;
            }
            for (size_t k = a; k < b; k++) if (W->ev[k].kind == E_START) obs.push_back(Obs{W->ev[k].name, (int)W->ev[k].a, false, false}); else if (W->ev[k].kind == E_STARTFAIL) { obs.push_back(Obs{"", 0, false, true}); nfail++; }
            c = a; segend = b;
            for (size_t k = a; k < b; k++) if (W->ev[k].kind == E_DYNEND) dynseg = dynline;
            if (first) {
                start = now = W->ev[0].real_us / 1000000;
                if (marker() != E_SYNC) pbt::fail("no-sync", "the daemon did not read its tables at startup");
                sync(boot);
                for (;;) { size_t c0 = c; marker(); signals(false); if (c == c0 || exiting) break; }
                save = now + save_time;
            } else {
                now = W->ev[a - 1].real_us / 1000000;
                if (!signals(true)) {
                    int64_t d = 0;
                    if (notified || now - nwt > 5) { d = pending_susp / 1000000; pending_susp = 0; }
                    notified = false;
                    if (d > 0) { nresume++; int g = ++group; for (auto &f : files) for (auto &l : f.second) load_line(l, RESUME_, d, false, g); }
                    if (now >= start + sleep1) gate = false;
                    if (!gate) { due(); serial_fill(); }
                    if (once && !gate) {      // all which can run, then the end
                        size_t nq = sq.size();
                        for (;;) {
                            check_lavg(); serial_fill();
                            if (exes.empty() || term) break;
                            while (!exes.empty()) { int m = marker(); if (m == E_REAP) reap((int)W->ev[c].a); else if (m != E_REAPEND) pbt::fail(m ? "sync-at-exit" : "exit-no-wait", "%s: with option once, the daemon does not wait for its jobs", tm(now).c_str()); c++; }
                        }
                        if (!term) now = W->ev[b].real_us / 1000000;
                        nonce += nstart - start0; nlast += (int)nq;
                        do_exit(); marker(); end_segment(i, b);
                        if (term_k != E_EXIT) { if (term_k == E_KILLED) return; pbt::fail("no-exit", "%s: the daemon goes on in spite of option once", tm(now).c_str()); }
                        if (W->ev[b].a != 0) pbt::fail("exit-status", "the daemon exits with status %ld after option once", (long)W->ev[b].a);
                        unlock(W->ev[b]);
                        return;
                    }
                    if (save <= now) { save = now + save_time; snapshot_all(); }
                    for (size_t k = a; k < b; k++) if (W->ev[k].kind == E_DYNEND) dyn(W->ev[k]);
                    if (!gate) check_lavg();
                    while (marker() || c < segend) { if (exiting) break; size_t c0 = c; if (signals(false)) break; if (c == c0 && marker()) pbt::fail("unexpected-wait", "%s: event %d without reason", tm(now).c_str(), W->ev[c].kind); if (c == c0) break; }
                    if (term && term_k == E_EXIT && !exiting) { term = false; do_exit(); }
                }
            }
            marker();
            end_segment(i, b);
            if (term_k == E_EXIT) {
                if (!exiting) pbt::fail("daemon-died", "%s: the daemon exited (status %ld) without SIGTERM", tm(now).c_str(), (long)W->ev[b].a);
                if (W->ev[b].a != 0) pbt::fail("exit-status", "the daemon exits with status %ld after SIGTERM", (long)W->ev[b].a);
                unlock(W->ev[b]);
                return;
            }
            if (exiting) pbt::fail("no-exit", "%s: the daemon sleeps after SIGTERM", tm(now).c_str());
            if (term_k == E_KILLED) return;
            // E_SELECT: how long does it intend to sleep?
            int64_t req = W->ev[b].real_us + W->ev[b].a;
            nwt = (req + 10) / 1000000;
            if (check_wake) {
                if (W->ev[b].a < 0) pbt::fail("sleeps-forever", "%s: the daemon sleeps without limit", tm(now).c_str());
                int64_t lim = next_wake();
                if (gate) { lim = std::max(lim, start + sleep1); if (!sq.empty() || !lq.empty()) lim = start + sleep1; lim = std::max(now, std::min(lim, save)); }
                else if (!lq.empty()) lim = std::min(lim, now + 30);
                if (chld || hup || term || usr1) lim = now;
                int64_t lim_us = std::max(lim * 1000000, W->ev[b].real_us) + 10000;
                if (req > lim_us) pbt::fail("sleeps-too-long", "%s: the daemon intends to sleep until %s, but something is due at %s%s%s", tm(now).c_str(), tm(req / 1000000).c_str(), tm(lim).c_str(), lq.empty() ? "" : " (load queue not empty)", chld || hup || term || usr1 ? " (a signal is pending)" : "");
                // no busy loop: many wake-ups in a row which find nothing to do
                if (W->ev[b].a < 1500 && obs.empty()) { if (++idle > 1 && W->ev[b].real_us - progress_t < 900000 && idle > 60) pbt::fail("busy-loop", "%s: the daemon wakes up again and again with nothing to do", tm(now).c_str()); }
                else { idle = 0; progress_t = W->ev[b].real_us; }
            }
            first = false;
            i = b + 1;
        }
        pbt::fail("daemon-died", "the log ends without end of the daemon");
    }
};
