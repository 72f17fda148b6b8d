// Whole lives of the daemon on the virtual OS, against the reference daemon.
// WHAT selects the property: which features are generated and which extra checks are made.
#include "refdaemon.hpp"
#include <ftw.h>

struct Prof {       // weights and switches of a flavour
    int kinds[3] = {3, 2, 2};
    int maxlines = 5, maxlives = 1;
    bool serial = false, lavg = false, exesev = false, runfreq = false, runonce = false, boot = false, notice = false, at_opts = false;
    int hup = 0, usr1 = 0, susp = 0, forkfail = 0, mid = 0, lat = 0, usr2 = 0, qsmall = 0, users = 1;     // chances in %
    bool mail = false, wake = false, silent_susp = false, dyn = false, once = false;
};
static Prof profile() {
    Prof p;
    switch (WHAT) {
    case 7: p.kinds[0] = p.kinds[1] = 0; p.maxlives = 4; p.at_opts = true; p.runonce = true; p.susp = 30; p.hup = 15; p.usr1 = 10; p.lat = 15; break;
    case 8: p.exesev = p.runfreq = p.runonce = true; p.forkfail = 25; p.mid = 25; p.lat = 30; p.hup = 10; p.susp = 5; p.usr2 = 5; p.maxlines = 7; break;
    case 9: p.runonce = p.exesev = p.serial = true; p.kinds[2] = 5; p.maxlines = 12; p.forkfail = 20; p.mid = 20; p.hup = 25; p.usr1 = 12; p.lat = 20; p.qsmall = 35; p.boot = true; p.maxlives = 2; p.users = 2; p.exesev = true; break;
    case 10: p.lavg = p.serial = p.runonce = p.exesev = p.boot = true; p.maxlines = 8; p.forkfail = 12; p.mid = 10; p.hup = 10; p.lat = 20; p.qsmall = 30; p.usr1 = 5; p.maxlives = 2; break;
    case 11: p.serial = p.lavg = p.runfreq = p.runonce = p.boot = p.at_opts = true; p.maxlives = 4; p.maxlines = 6; p.hup = 10; p.usr1 = 10; p.susp = 10; break;
    case 12: p.serial = p.lavg = p.boot = p.notice = p.runonce = p.exesev = true; p.kinds[2] = 1; p.maxlives = 4; p.susp = 35; p.qsmall = 25; p.mail = true; p.hup = 10; p.lat = 10; p.runfreq = true; p.maxlines = 7; break;
    case 16: p.serial = p.lavg = p.exesev = p.runfreq = p.runonce = true; p.hup = 90; p.usr1 = 15; p.users = 4; p.maxlives = 2; p.maxlines = 4; p.mid = 15; p.at_opts = true; break;
    case 22: p.serial = p.lavg = p.exesev = p.runfreq = p.runonce = p.at_opts = p.notice = p.mail = true; p.hup = 20; p.usr1 = 8; p.susp = 8; p.forkfail = 15; p.mid = 20; p.lat = 15; p.qsmall = 20; p.maxlives = 2; p.maxlines = 7; p.wake = p.dyn = true; break;
    case 28: p.serial = p.lavg = p.exesev = p.boot = p.at_opts = p.runonce = true; p.hup = 25; p.usr1 = 12; p.usr2 = 5; p.mid = 40; p.lat = 25; p.forkfail = 10; p.susp = 10; p.maxlives = 3; p.wake = true; p.notice = true; break;
    case 33: p.notice = p.mail = p.serial = p.lavg = p.exesev = p.runfreq = p.runonce = p.boot = p.at_opts = true; p.maxlives = 6; p.maxlines = 9; p.hup = 8; p.usr1 = 4; p.forkfail = 10; p.qsmall = 15; p.once = true; p.mid = 10; break;
    case 29: p.susp = 100; p.silent_susp = true; p.boot = p.at_opts = p.runfreq = p.runonce = p.serial = p.lavg = true; p.lat = 20; p.maxlives = 2; p.kinds[2] = 4; break;
    }
    return p;
}
static const Prof P = profile();
static const vector<std::pair<const char *, int>> ZONES = {{"UTC", 0}, {"IST-5:30", 19800}, {"HST10", -36000}, {"NPT-5:45", 20700}, {"XYZ-14", 50400}, {"ABC12", -43200}};
static bool zoned; static int sysoff;
static void set_tzdiff(vector<LCfg> &v, int d) { for (auto &l : v) { l.tzd = d; if (d) { l.tz.clear(); l.off = sysoff; } } }
struct Scale { int64_t dur; int unit; };   // unit: minutes between runs of a typical line

static LCfg gen_line(Gen &g, const string &name, const Scale &sc, int64_t start) {
    LCfg l; l.name = name; l.off = sysoff;
    if (zoned && g.chance(2, 5)) { int z = (int)g.raw(ZONES.size()); l.tz = ZONES[z].first; l.off = ZONES[z].second; }
    start += l.off;
    l.kind = g.weighted({P.kinds[0], P.kinds[1], P.kinds[2]});
    Fields f; fill(f.mins, 0, 59); fill(f.hrs, 0, 23); fill(f.days, 1, 31); fill(f.mons, 1, 12); fill(f.dow, 0, 6);
    if (l.kind == 2) {
        static const int64_t Q[] = {20, 45, 60, 90, 300, 600, 1800, 3600, 7200};
        l.timefreq = g.chance(1, 3) ? g.range(10, 4000) : Q[g.raw(9)];
        l.timefreq = std::max<int64_t>(l.timefreq, sc.dur / 150);
        if (g.chance(1, 12)) l.timefreq = g.chance(1, 2) ? LONG_MAX : 86400 * 40;
        l.first = g.chance(1, 2) ? l.timefreq : g.chance(1, 4) ? 0 : g.range(1, 2000);
        if (g.chance(1, 30)) l.first = LONG_MAX;
        if (l.timefreq == LONG_MAX && g.chance(1, 2)) l.first = g.range(0, 600);
    } else if (l.kind == 0 || g.chance(1, 2)) {
        int step = std::max(1, sc.unit / 2) * (int)g.range(1, 6);
        f.mins.clear();
        int off = (int)g.raw(step < 60 ? step : 60);
        if (g.chance(1, 4)) f.mins = gen_set(g, 0, 59, 0); else for (int m = off; m < 60; m += step) f.mins.insert(m);
        if (f.mins.empty()) f.mins.insert(off);
        if (sc.dur > 3 * 3600 && g.chance(1, 3)) f.hrs = gen_set(g, 0, 23, 1);
        if (sc.dur > 86400 && g.chance(1, 3)) { f.dow = gen_set(g, 0, 6, 1); f.dayor = g.chance(1, 4); if (g.chance(1, 3)) f.days = gen_set(g, 1, 31, 1); }
        if (l.kind == 1) {
            static const char *KW[] = {"hourly", "midhourly", "daily", "middaily"};
            if (g.chance(1, 2)) { int k = (int)g.raw(sc.dur > 40000 ? 4 : 2); l.p.kw = KW[k]; l.p.ly = true; l.p.mid = k & 1; l.p.unit = k / 2; f.dayor = false; if (l.p.unit == 0) fill(f.hrs, 0, 23); }
            else {
                l.p.kw = "mins"; l.p.unit = 0;
                if (g.chance(1, 2)) { f.mins.clear(); int len = (int)g.range(1, 12), gap = (int)g.range(1, 12); for (int m = off; m < 60; m += len + gap) for (int q = m; q < m + len && q < 60; q++) f.mins.insert(q); if (f.mins.size() == 60) f.mins.erase(59); }
                if (f.mins.size() == 60) f.mins.erase((int)g.raw(60));
            }
        }
    } else {
        l.p.kw = "hours"; l.p.unit = 1;
        f.mins = {(int)g.raw(60)}; f.hrs = gen_set(g, 0, 23, 0); if (f.hrs.size() == 24) f.hrs.erase((int)g.raw(24));
    }
    if (l.kind == 0 && g.chance(1, 12)) { Civ v = civil(start + g.range(0, sc.dur)); f.mins = {v.mi}; f.hrs = {v.h}; if (g.chance(1, 2)) f.days = {v.d}; }
    l.f = f; l.p.f = f;
    if (l.kind == 1) { l.runfreq = 1; if (!l.p.ly && !l.p.has_gap()) { l.f.mins.erase(l.f.mins.begin()); l.p.f = l.f; } }
    else if (l.kind == 0 && P.runfreq && g.chance(1, 4)) l.runfreq = (int)g.range(2, 4);
    if (P.lavg && g.chance(WHAT == 10 ? 4 : 1, WHAT == 10 ? 5 : 4)) {
        l.lavg = true;
        do { for (int i = 0; i < 3; i++) if (g.chance(1, 2)) l.lv[i] = (int)g.range(1, 30); } while (!(l.lv[0] | l.lv[1] | l.lv[2]) && (l.lv[(int)g.raw(3)] = 10, false));
        l.lor = g.chance(1, 3); l.strict = !g.chance(1, 3);
        if (g.chance(1, 2)) l.until = g.chance(1, 2) ? g.range(1, 100) : g.range(60, 3600);
        l.lavg_sev = g.chance(1, 6) && !(l.kind == 1 && l.strict);
    }
    if (P.serial && g.chance(WHAT == 9 ? 4 : 1, WHAT == 9 ? 5 : 3)) { l.serial = true; l.serial_sev = g.chance(1, 2); if (l.lavg_sev) l.until = 0; }   // which of several instances starts first is not specified
    if (P.exesev && !l.serial && !l.lavg && g.chance(1, 4)) l.exesev = true;
    if (P.notice && g.chance(4, 5)) l.notice = true;
    bool at = false;
    if (P.boot || P.at_opts) {
        if (l.kind == 2 ? P.at_opts : P.boot) {
            if (g.chance(1, 6) && l.runfreq < 2) { l.runreboot = true; at = true; }
            if (g.chance(1, 6) && l.runfreq < 2) { l.runresume = true; at = true; }
        }
        if (l.kind == 0 && P.boot && !at && !l.exesev && g.chance(1, 2)) l.bootrun = true;
        if (l.kind == 2 && P.at_opts) { l.vol = g.chance(1, 5); l.rebreset = g.chance(1, 5); }
    }
    if (P.runonce && !l.bootrun && g.chance(1, 8)) { l.runonce = true; if (l.kind != 2 && g.chance(1, 3)) l.vol = true; }
    return l;
}
static void write_table(const string &path, const string &user, const Table &t) {
    cf_t *cf = new_file(user.c_str());
    for (auto &l : t.lines) l.put(cf);
    if (save_file_safe(cf, (char *)path.c_str(), (char *)"fcrontab", 0, 0, 0) != OK) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(3); }
}
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rmtree(const string &d) { nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); }

static void prop(Gen &g) {
    vos_init();
    memset(W, 0, offsetof(World, ev)); W->nev = 0; W->textlen = 0;
    Model M;
    static const char *USERS[] = {"root", "daemon", "bin", "games"};
    string dir = pbt::scratch() + strf("/c%d", (int)getpid());
    rmtree(dir); mkdir(dir.c_str(), 0755); mkdir((dir + "/spool").c_str(), 0755); mkdir((dir + "/pend").c_str(), 0755);
    fclose(fopen((dir + "/fcron.conf").c_str(), "w"));
    struct Clean { string d; ~Clean() { rmtree(d); } } clean{dir};

    static const Scale SC[] = {{900, 1}, {3600, 4}, {6 * 3600, 20}, {3 * 86400, 60}};
    Scale sc = SC[g.weighted({5, 5, 3, WHAT == 7 || WHAT == 11 || WHAT == 12 || WHAT == 16 ? 2 : 0})];
    int64_t start = 1000000000 + (int64_t)g.range(0, 1400000000);
    if (g.chance(1, 4)) { Civ v = civil(start); start = days_from_civil(v.y, v.mo, v.d) * 86400 + 86400 - g.range(0, sc.dur); }
    W->mono_us = 5000000000LL + (int64_t)g.raw(1000000); W->boot_off = 0;
    W->real_off = start * 1000000 + (g.chance(1, 3) ? 0 : (int64_t)g.raw(1000000)) - W->mono_us;
    zoned = g.chance(1, 4);
    { int z = zoned ? (int)g.raw(ZONES.size()) : 0; setenv("TZ", ZONES[z].first, 1); tzset(); sysoff = ZONES[z].second; if (zoned) pbt::note("time zone of the system: %s", ZONES[z].first); }
    M.first_sleep = g.chance(1, 2) ? 20 : (int)g.range(1, 90);
    M.save_time = g.chance(1, 2) ? 1800 : (int)g.range(60, 900);
    M.maxrun = g.chance(1, 2) ? 1 : (int)g.range(1, 4);
    if (sc.dur > 86400 && M.save_time < 900) M.save_time += 900;       // saves are what costs most
    M.save_time = std::max(M.save_time, M.first_sleep);
    M.qmax = g.chance((unsigned)P.qsmall, 100) ? (int)g.range(5, 8) : 30;
    M.check_mail = P.mail; M.check_wake = P.wake;
    vector<string> args = {"-f", "-y", "-l", strf("%d", M.first_sleep), "-s", strf("%d", M.save_time), "-m", strf("%d", M.maxrun)};
    if (M.qmax != 30) { args.push_back("-q"); args.push_back(strf("%d", M.qmax)); }
    pbt::note("start %s first_sleep %d save every %d maxserial %d queue %d", M.tm(start).c_str(), M.first_sleep, M.save_time, M.maxrun, M.qmax);

    // tables
    int nu = P.users > 1 ? (int)g.range(1, P.users) : 1, serialno = 0;
    std::map<string, Table> cur;
    auto put_change = [&](const Change &ch, const string &d) {
        write_table(d + "/new." + ch.user, ch.user, ch.t);
    };
    bool many = P.serial && g.chance(1, 3) && (WHAT == 9 || WHAT == 10 || WHAT == 12);
    for (int u = 0; u < nu; u++) {
        Table t; int n = (int)g.range(1, many && u == 0 ? 40 : P.maxlines);
        for (int i = 0; i < n; i++) t.lines.push_back(gen_line(g, strf("job%d", serialno++), sc, start));
        set_tzdiff(t.lines, zoned && g.chance(1, 3) ? (int)g.range(-24, 24) : 0);
        if (many && u == 0) for (auto &l : t.lines) if (l.kind == 2 && l.timefreq < sc.dur / 8) { int64_t q = sc.dur / 8 + (l.timefreq % 100); if (l.first == l.timefreq) l.first = g.range(0, sc.dur / 4); l.timefreq = q; }
        cur[USERS[u]] = t;
        Change ch; ch.user = USERS[u]; ch.t = t;
        put_change(ch, dir + "/spool");
        M.newf[ch.user] = t;
        for (auto &l : t.lines) pbt::note("%s: %s", USERS[u], l.str().c_str());
    }
    auto edit = [&]() -> int {      // a change of one user's table, prepared in pend/<k>
        int k = (int)M.changes.size();
        string d = dir + strf("/pend/%d", k); mkdir(d.c_str(), 0755);
        Change ch; ch.user = USERS[g.raw(P.users > 1 ? P.users : 1)];
        if (cur.count(ch.user) && g.chance(1, 6)) {
            ch.rm = true; fclose(fopen((d + "/rm." + ch.user).c_str(), "w")); cur.erase(ch.user);
            pbt::note("change %d: %s's table removed", k, ch.user.c_str());
        } else {
            Table t; if (cur.count(ch.user)) t = cur[ch.user];
            int tzd = t.lines.empty() ? 0 : t.lines[0].tzd;
            int nch = (int)g.range(0, 3);
            for (int i = 0; i < nch; i++) {
                switch (g.weighted({3, 2, 3, 2, WHAT == 16 ? 5 : 1})) {
                case 0: t.lines.push_back(gen_line(g, strf("job%d", serialno++), sc, start)); break;
                case 1: if (!t.lines.empty()) t.lines.erase(t.lines.begin() + g.raw(t.lines.size())); break;
                case 2: if (!t.lines.empty()) {     // other options or times for a job
                        LCfg &o = t.lines[g.raw(t.lines.size())]; LCfg n = gen_line(g, o.name, sc, start);
                        if (g.chance(1, 2) && n.kind == o.kind) { n.f = o.f; n.p = o.p; n.timefreq = o.timefreq; if (n.kind == 0) n.runfreq = o.runfreq; }
                        else if (n.kind != o.kind && (n.kind == 2) == (o.kind == 2)) n.name = strf("job%d", serialno++);
                        if (n.kind == o.kind && n.kind == 1) { n.f = o.f; n.p = o.p; }
                        if (n.runfreq > 1) n.runreboot = n.runresume = false;
                        if (n.kind == 1 && n.lavg && n.strict) n.lavg_sev = false;
                        o = n; break; }
                case 3: if (t.lines.size() > 1) { std::swap(t.lines[g.raw(t.lines.size())], t.lines[g.raw(t.lines.size())]); } break;
                case 4: if (!t.lines.empty()) {     // exactly one field of a job changed
                        LCfg &o = t.lines[g.raw(t.lines.size())];
                        if (o.kind == 2) { if (o.timefreq < 1000000) { if (g.chance(1, 2)) o.timefreq += g.range(1, 60); else o.first = g.range(0, 600); } break; }
                        if (zoned && g.chance(1, 4)) { if (g.chance(1, 3)) { o.tz.clear(); o.off = sysoff; } else { int z = (int)g.raw(ZONES.size()); o.tz = ZONES[z].first; o.off = ZONES[z].second; } break; }
                        Fields f = o.f; Civ v = civil(start + o.eff() + (g.chance(1, 2) ? g.range(0, sc.dur) : g.chance(1, 2) ? 0 : 86400));
                        int what = g.weighted({4, 3, 2, 3, 3, 1});
                        auto tw = [&](set<int> &s, int val, int lo, int hi) {
                            switch (g.raw(3)) {
                            case 0: s.erase(val); break;
                            case 1: s = {val}; break;
                            default: { int x = (int)g.range(lo, hi); if (s.count(x)) s.erase(x); else s.insert(x); }
                            }
                            if (s.empty()) s = {val};
                        };
                        switch (what) {
                        case 0: tw(f.dow, v.wd, 0, 6); break;
                        case 1: tw(f.days, v.d, 1, 31); break;
                        case 2: tw(f.mons, v.mo, 1, 12); break;
                        case 3: tw(f.hrs, v.h, 0, 23); break;
                        case 4: tw(f.mins, v.mi, 0, 59); break;
                        case 5: f.dayor = !f.dayor; break;
                        }
                        if (o.kind == 1) { Period q = o.p; q.f = f; if (!q.ly && (!q.has_gap() || q.unit)) break; if (q.ly && (what == 5 || (q.unit == 0 && what == 3))) break; }
                        if (first_match(f, start, start + 86400LL * 366 * 9) < 0) break;
                        o.f = f; o.p.f = f;
                        break; }
                }
            }
            if (t.lines.empty()) t.lines.push_back(gen_line(g, strf("job%d", serialno++), sc, start));
            if (zoned && g.chance(1, 4)) tzd = g.chance(1, 3) ? 0 : (int)g.range(-24, 24);
            set_tzdiff(t.lines, tzd);
            ch.t = t; cur[ch.user] = t;
            put_change(ch, d);
            for (auto &l : t.lines) pbt::note("change %d: %s: %s", k, ch.user.c_str(), l.str().c_str());
        }
        M.changes.push_back({ch});
        return k;
    };
    // what jobs take
    W->ndur = (int)g.range(1, 12);
    for (int i = 0; i < W->ndur; i++) { int64_t d; switch (g.raw(4)) { case 0: d = g.range(1000, 900000); break; case 1: d = g.range(1, 30) * 1000000; break; case 2: d = g.range(30000, 400000) * 1000; break; default: d = g.range(1, sc.dur / 3) * 1000000; } W->dur_us[i] = d; }
    if (g.chance((unsigned)P.lat, 100)) { W->nlat = (int)g.range(1, 16); for (int i = 0; i < W->nlat; i++) W->lat_us[i] = g.chance(1, 2) ? 0 : g.chance(1, 2) ? g.range(0, 5000000) : g.range(0, 90000000); }
    if (P.lavg) for (int i = 0; i < 3; i++) W->load[i] = (double)g.range(0, 350) / 100;
    int lives = (int)g.range(P.maxlives > 1 && (WHAT == 11 || WHAT == 12) ? 2 : 1, P.maxlives);
    bool boot = !g.chance(1, 4);
    for (int life = 0; life < lives; life++) {
        W->nact = W->iact = 0; W->nmid = 0; W->nforkfail = 0;
        int64_t dur = life + 1 < lives ? g.range(5, sc.dur) : sc.dur;
        int64_t t = 0, t0 = W->mono_us;
        auto act = [&](int64_t at, int kind, int64_t a = 0, int64_t b = 0) { if (W->nact < 390) W->act[W->nact++] = Act{at, kind, a, b}; };
        struct Plan { int64_t at; int kind; int64_t a, b; };
        vector<Plan> plan;
        auto when = [&] { return t0 + (g.chance(1, 5) ? g.range(0, std::min<int64_t>(dur, 120)) * 1000000 : (int64_t)g.raw((uint64_t)dur) * 1000000) + (g.chance(1, 4) ? 0 : (int64_t)g.raw(1000000)); };
        if (g.chance((unsigned)P.hup, 100)) for (int k = 0, n = (int)g.range(1, WHAT == 16 ? 6 : 3); k < n; k++) plan.push_back({when(), A_HUP, -2, 0});
        if (g.chance((unsigned)P.usr1, 100)) for (int k = 0, n = (int)g.range(1, 2); k < n; k++) plan.push_back({when(), A_USR1, 0, 0});
        if (g.chance((unsigned)P.usr2, 100)) plan.push_back({when(), A_USR2, 0, 0});
        if (g.chance((unsigned)P.susp, 100)) for (int k = 0, n = (int)g.range(1, 4); k < n; k++) {
            int64_t d = g.chance(1, 3) ? g.range(1, 20) : g.chance(1, 2) ? g.range(20, 4000) : g.range(1, 3 * 86400);
            plan.push_back({when(), A_SUSPEND, d * 1000000 + 200000, P.silent_susp && g.chance(1, 3) ? 0 : 1});
        }
        if (P.lavg) for (int k = 0, n = (int)g.range(0, 25); k < n; k++) {
            int64_t v = 0; for (int j = 0; j < 3; j++) v |= (int64_t)(g.chance(1, 5) ? g.range(0, 30) * 10 : g.range(0, 320)) << (16 * j);
            plan.push_back({when(), A_LOAD, v, 0});
        }
        if (P.dyn) for (int k = 0, n = (int)g.range(1, 30); k < n; k++) {
            int64_t at = when(), c = g.weighted({4, 4, 1, 1, 1}); c = c == 0 ? 302 : c == 1 ? 301 : c == 2 ? 105 : c == 3 ? (int)g.range(101, 104) : (int)g.range(401, 402);
            int rep = g.chance(1, 5) ? (int)g.range(2, 4) : 1; int64_t j = (int64_t)g.raw((uint64_t)serialno + 1);
            while (rep--) { plan.push_back({at, A_DYN, c, j}); if (!g.chance(1, 3)) at += g.range(0, 3000000); if (g.chance(1, 3)) j = (int64_t)g.raw((uint64_t)serialno + 1); }
        }
        std::stable_sort(plan.begin(), plan.end(), [](const Plan &a, const Plan &b) { return a.at < b.at; });
        for (auto &p : plan) {
            if (p.kind == A_HUP) { p.a = edit(); if (g.chance(1, 5)) { act(p.at, A_DROP, p.a); p.at += (int64_t)g.range(0, 5000000); p.a = -1; } }
            if (p.kind == A_SUSPEND) pbt::note("life %d: suspended for %ld s%s", life, (long)(p.a / 1000000), p.b ? "" : " (no notification)");
            if (p.kind == A_DYN) pbt::note("life %d: fcrondyn command %ld on job%ld", life, (long)p.a, (long)p.b);
            act(p.at, p.kind, p.a, p.b);
        }
        std::stable_sort(W->act, W->act + W->nact, [](const Act &a, const Act &b) { return a.at_us < b.at_us; });
        bool kill = g.chance(1, 5);
        act(t0 + dur * 1000000 + (g.chance(1, 3) ? 0 : (int64_t)g.raw(1000000)), kill ? A_KILL : A_TERM);
        if (g.chance((unsigned)P.mid, 100)) {
            W->nmid = (int)g.range(1, 5);
            for (int i = 0; i < W->nmid; i++) {
                static const int TK[] = {A_PROCEND, A_PROCEND, A_HUP, A_USR2};
                Mid &m = W->mid[i]; m.trig = (int)g.raw(4); m.nth = (int)g.skew(0, 12); m.kind = TK[g.raw(P.hup ? 4 : 2)]; m.a = m.kind == A_HUP ? edit() : 0; m.done = false;
            }
            // the last one may be the end
        }
        if (g.chance((unsigned)P.forkfail, 100)) { W->nforkfail = (int)g.range(1, 10); for (int i = 0; i < W->nforkfail; i++) W->forkfail[i] = (int)g.skew(0, 40); }
        W->maxselect = 12000;
        vector<string> argv = args;
        M.once = P.once && g.chance(3, 4); M.sleep1 = M.first_sleep; if (P.once && g.chance(1, 4)) { M.sleep1 = 0; argv[3] = "0"; }
        if (M.once) { bool after = g.chance(3, 4); argv.insert(after ? argv.end() : argv.begin(), g.chance(1, 2) ? "-o" : "--once"); if (after) M.sleep1 = 0; }
        if (boot) unlink((dir + "/spool/fcron.reboot").c_str());
        else if (FILE *f = fopen((dir + "/spool/fcron.reboot").c_str(), "w")) fclose(f);
        if (P.once) pbt::note("life %d: first sleep %d", life, M.sleep1); pbt::note("life %d%s: %s, %ld s, then %s", life, M.once ? " (once)" : "", boot ? "system startup" : "daemon start", (long)dur, kill ? "SIGKILL" : "SIGTERM");
        double load0[3] = {W->load[0], W->load[1], W->load[2]};
        vos_run(dir, argv);
        M.replay(boot, load0);
        (void)t;
        if (life + 1 < lives) {
            int64_t gap = g.chance(1, 4) ? 0 : g.chance(1, 2) ? g.range(1, 3600) : g.range(1, WHAT == 7 || g.chance(1, 2) ? 3 * 86400 : 20 * 86400);
            W->mono_us += gap * 1000000 + (int64_t)g.raw(1000000);
            boot = g.chance(1, 2);
            pbt::note("down for %ld s", (long)gap);
            if (g.chance(1, 6) && P.hup) {    // edited while the daemon is down
                int k = edit(); M.dropped(k);
                string d = dir + strf("/pend/%d/", k), s = dir + "/spool/";
                for (const char *u : USERS) {
                    if (!rename((d + "new." + u).c_str(), (s + "new." + u).c_str())) unlink((s + "rm." + u).c_str());
                    if (!rename((d + "rm." + u).c_str(), (s + "rm." + u).c_str())) unlink((s + "new." + u).c_str());
                }
            }
        }
    }
    pbt::label("lives: %d", lives);
    if (M.nstart) pbt::label("jobs started");
    if (M.nserial) pbt::label("serial starts");
    if (M.nlavg) pbt::label("load-average starts");
    if (M.ndrop) pbt::label("lavg jobs dropped at the end of their interval");
    if (M.nfull) pbt::label("queue full");
    if (M.nmail) pbt::label("reports of non-execution");
    if (M.nresume) pbt::label("suspends noticed");
    if (M.nreq) pbt::label("interrupted jobs requeued");
    if (M.nskip) pbt::label("still running or queued");
    if (M.nsync > lives) pbt::label("tables changed or reloaded");
    if (M.nfailed) pbt::label("failed forks");
    if (M.nmissed) pbt::label("missed runs at load or resume");
    if (M.nboot) pbt::label("run at startup or resume");
    if (M.nkeep) pbt::label("lines kept over a change");
    if (zoned) pbt::label("time zones");
    if (M.nzone) pbt::label("lines kept, their time zone changed");
    if (M.nlate) pbt::label("late wake-ups");
    if (M.ndyn) pbt::label("jobs run by fcrondyn");
    if (M.nonce) pbt::label("jobs started in a life with option once");
    if (M.nlast) pbt::label("serial jobs started as others ended, with option once");
    bool ok = WHAT == 7 ? M.nstart > 1 : WHAT == 8 ? M.nstart > 3 : WHAT == 9 ? M.nserial > 3 : WHAT == 10 ? M.nlavg + M.ndrop > 1 : WHAT == 11 ? M.nmissed + M.nreq + M.nboot > 0 : WHAT == 12 ? M.nmail > 0 :
              WHAT == 16 ? M.nkeep > 0 : WHAT == 22 ? M.ndyn > 0 : WHAT == 33 ? M.nonce > 1 : WHAT == 28 ? M.nstart > 1 : M.nresume > 0;
    if (ok) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c;
    c.name = "daemon"; c.prop = prop; c.batch = 1; c.quick = 12000; c.thorough = 400000; c.cpu_s = 20; c.wall_s = 60;
    c.setup = [] { foreground = 1; dosyslog = 0; rootuid = 0; rootgid = 0; };
    return pbt::main(argc, argv, c);
}
