// C14: damaged and foreign spool files, loaded by the daemon beside other users' tables (AddressSanitizer).
#include "spoolglue.hpp"
#ifdef FUZZ
#include "fuzzstats.hpp"
#endif
extern "C" {
#include "save.h"
}
extern "C" int w_rand(void) { return 11; }

#include "spoolrec.hpp"
static string make_table(Gen &g, const string &user, bool by_root, int lines) {
    Shape sh; sh.lines = lines;
    Model m = gen_model(g, sh, by_root, user);
    m.text += "\n@ 10 x_" + user + "\n";
    tab_install(m.text, user, by_root, "tmp.tab");
    string s = slurp("tmp.tab"); unlink("tmp.tab");
    return s;
}
static string damage(Gen &g, string b, const string &other) {
    static const vector<short> SIZES = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 60, 64, 100, 255, 256, 1000, 4096, 32767, -1, -2, -128, -32768};
    static const vector<short> TYPES = {S_HEADER_T, S_USER_T, S_TIMEDATE_T, S_TZDIFF_T, S_ENVVAR_T, S_SHELL_T, S_RUNAS_T, S_MAILTO_T, S_OPTION_T, S_NEXTEXE_T, S_NUMEXE_T, S_LAVG_T,
        S_UNTIL_T, S_NICE_T, S_RUNFREQ_T, S_REMAIN_T, S_TZ_T, S_JITTER_T, S_FIRST_T, S_TIMEFREQ_T, S_MINS_T, S_HRS_T, S_DAYS_T, S_MONS_T, S_DOW_T, S_ENDLINE_T, S_MAILFROM_T, 0, 1, 999, -1};
    static const vector<long> NUMS = {0, 1, -1, 59, 60, 255, 256, 65535, 65536, 1L << 31, 1L << 32, LONG_MAX, LONG_MIN, LONG_MAX - 1, 971859427200L, 971859427201L};
    int n = (int)g.range(1, 4);
    while (n--) {
        vector<Rec> v = records(b);
        size_t i = v.empty() ? 0 : g.raw(v.size());
        int k = (int)g.raw(14);
        if (v.empty() && k < 8) k = 8;
        switch (k) {
        case 0: v[i].size = g.pick(SIZES); b = flat(v); break;                                   // a lying size
        case 1: v[i].size = g.pick(SIZES); v[i].data.assign((size_t)std::max<short>(0, v[i].size), (char)g.raw(256)); b = flat(v); break; // a true but unexpected size
        case 2: v[i].type = g.pick(TYPES); b = flat(v); break;
        case 3: { Rec r = v[i]; v.insert(v.begin() + g.raw(v.size() + 1), r); b = flat(v); break; }
        case 4: v.erase(v.begin() + i); b = flat(v); break;
        case 5: { size_t j = g.raw(v.size()); std::swap(v[i], v[j]); b = flat(v); break; }
        case 6: if (v[i].data.size() == 8) { long x = g.pick(NUMS); memcpy(&v[i].data[0], &x, 8); } else for (auto &c : v[i].data) c = (char)g.raw(256); b = flat(v); break;
        case 7: { vector<Rec> o = records(other); if (!o.empty()) { size_t a = g.raw(o.size()), c = a + g.raw(std::min<size_t>(8, o.size() - a)); v.insert(v.begin() + i, o.begin() + a, o.begin() + c); b = flat(v); } break; }
        case 8: b.resize(g.raw(b.size() + 1)); break;                                            // truncated
        case 9: if (b.size()) b[g.raw(b.size())] ^= (char)(1 << g.raw(8)); break;
        case 10: { size_t p = g.raw(b.size() + 1); int c = (int)g.range(1, 9); string x; while (c--) x += (char)g.raw(256); b.insert(p, x); break; }
        case 12: { Rec r; r.type = S_ENVVAR_T; r.data = g.pick(vector<string>{"SHELL", "HOME", "PATH", "A", "=", "=x", "MAILTO", "TZ", "SHELL=", string("A\0=b", 4), "CONTENT_TYPE"}); r.size = (short)r.data.size(); v.insert(v.begin() + g.raw(v.size() + 1), r); b = flat(v); break; }
        default: { Rec r; r.type = g.pick(TYPES); r.data.assign((size_t)g.skew(0, 300), (char)g.raw(256)); r.size = (short)r.data.size(); if (r.data.size() == 8) { long x = g.pick(NUMS); memcpy(&r.data[0], &x, 8); } v.insert(v.begin() + g.raw(v.size() + 1), r); b = flat(v); break; }
        }
    }
    return b;
}
#ifdef FUZZ
#define FAIL(sig, ...) fuzz_fail(sig, __VA_ARGS__)
#endif
// the victim's lines are usable
static void well_formed(cf_t *f, const string &user, bool own) {
    if (user != f->cf_user) pbt::fail("user", "the table loaded for %s is that of %s", user.c_str(), pbt::quote(f->cf_user).c_str());
    for (cl_t *l : lines_of(f)) {
        if (!l->cl_shell || !l->cl_runas || !l->cl_mailto) pbt::fail("null", "a loaded line lacks its command, user or recipient");
        (void)(strlen(l->cl_shell) + strlen(l->cl_runas) + strlen(l->cl_mailto) + strlen(cs(l->cl_tz).c_str()) + strlen(cs(l->cl_mailfrom).c_str()));
        if (own && user != l->cl_runas) pbt::fail("runas", "a line of %s's table runs as %s", user.c_str(), pbt::quote(l->cl_runas).c_str());
        if (!is_td(l->cl_option) && l->cl_timefreq < 1) pbt::fail("freq", "a line has the frequency %ld", l->cl_timefreq);
    }
    for (const char *n : {"SHELL", "HOME", "CONTENT_TYPE", "FOO", "A"}) { char *v = env_list_getenv(f->cf_env_list, (char *)n); if (v) (void)pbt::hash(v, strlen(v)); }
}
static void use(cf_t *f) {
    // each line can be scheduled again, and the table saved
    for (cl_t *l : lines_of(f)) {
        if (is_runonce(l->cl_option) && is_hasrun(l->cl_option)) continue;
        if (is_td(l->cl_option)) { set_next_exe(l, STD, -1); if (l->cl_nextexe <= now) pbt::fail("past", "line %s is scheduled in the past", pbt::quote(l->cl_shell).c_str()); }
    }
}
static void prop(Gen &g) {
    fresh_spool(); daemon_memory(); nforks = 0;
    setenv("TZ", "UTC", 1); tzset();
    now = (time_t)g.range(1000000000, 2000000000);
    string vuser = g.chance(1, 3) ? "root" : "model";
    vector<string> others = {"bin"};
    if (g.chance(1, 2)) others.push_back(vuser == "root" ? "model" : "root");
    for (auto &o : others) { spew(o, make_table(g, o, true, 3)); }
    string good = make_table(g, vuser, g.chance(1, 2), 3);
    if (g.chance(1, 2)) { // as the daemon saved it: with a date, run counts and states
        long t = now - g.range(0, 100000);
        vector<Rec> v = records(good);
        if (v.size() > 2) memcpy(&v[2].data[0], &t, 8);
        good = flat(v);
    }
    string bad = damage(g, good, slurp("bin"));
    bool running = g.chance(1, 2), isnew = running || g.chance(1, 2);
    string vfile = isnew ? "new." + vuser : vuser;
    uid_t owner = g.weighted({isnew ? 3 : 6, isnew ? 3 : 1, 1}) == 0 ? 0 : g.chance(3, 4) ? uid_of(vuser) : 4242;
    bool old = running && g.chance(1, 2);
    pbt::note("%s (owner %d) of %zu bytes%s%s; others: %zu", vfile.c_str(), (int)owner, bad.size(), running ? ", given to the running daemon" : ", present at startup", old ? " which has an earlier table" : "", others.size());
    string sold, dold;
    int sys = g.chance(1, 2) ? 1 : 0;
    // what the other tables are without it
    if (old) spew(vuser, good);
    synchronize_dir(".", sys);
    std::map<string, string> st, dy, by;
    auto snap = [&](std::map<string, string> &s, std::map<string, string> &d) {
        for (auto &o : others) { cf_t *f = table_of(o); s[o] = f ? table_static(f, false) : "none"; d[o] = f ? table_dynamic(f, false) : "none"; }
    };
    snap(st, dy);
    if (old) { cf_t *f = table_of(vuser); if (f) { sold = table_static(f, false); dold = table_dynamic(f, false); } }
    for (auto &o : others) by[o] = slurp(o);
    string oldbytes = slurp(vuser);
    spew(vfile, bad); if (chown(vfile.c_str(), owner, 0)) abort();
    if (running) synchronize_dir(".", 0);
    else { daemon_memory(); synchronize_dir(".", sys); }
    check_queues();
    std::map<string, string> st2, dy2;
    snap(st2, dy2);
    for (auto &o : others) {
        if (st2[o] != st[o]) pbt::fail("other-table", "the table of %s is changed", o.c_str());
        if (dy2[o] != dy[o]) pbt::fail("other-schedule", "the schedule of %s is changed", o.c_str());
        if (slurp(o) != by[o]) pbt::fail("other-file", "the stored table of %s is changed", o.c_str());
    }
    int seen = 0;
    for (cf_t *f = file_base; f; f = f->cf_next) { if (vuser == f->cf_user) seen++; else if (std::find(others.begin(), others.end(), f->cf_user) == others.end()) pbt::fail("foreign", "a table of %s is loaded", pbt::quote(f->cf_user).c_str()); }
    if (seen > 1) pbt::fail("twice", "%s has %d tables", vuser.c_str(), seen);
    cf_t *f = table_of(vuser);
    bool may = owner == 0 || (isnew && owner == uid_of(vuser));
    bool still = false;     // the new file is left in place: it was rejected
    for (auto &x : listing()) {
        if (x == vfile) still = true;
        else if (std::find(others.begin(), others.end(), x) == others.end() && x != vuser) pbt::fail("stray", "the file %s appeared", x.c_str());
    }
    if (isnew && still) {
        // rejected as a whole
        if (old) {
            if (!f) pbt::fail("old-lost", "a rejected file took the earlier table of %s away", vuser.c_str());
            if (table_static(f, false) != sold) pbt::fail("old-changed", "a rejected file changed the earlier table of %s", vuser.c_str());
            if (table_dynamic(f, false) != dold) pbt::fail("old-schedule", "a rejected file changed the schedule of the earlier table of %s", vuser.c_str());
            if (slurp(vuser) != oldbytes) pbt::fail("old-file", "a rejected file changed the stored table of %s", vuser.c_str());
        } else if (f) pbt::fail("part", "%s is kept but a table of %s is loaded", vfile.c_str(), vuser.c_str());
    } else if (isnew && !f) pbt::fail("eaten", "%s is gone but no table of %s is loaded", vfile.c_str(), vuser.c_str());
    if (!may && (isnew ? !still : f != nullptr)) pbt::fail("owner", "%s owned by uid %d was loaded", vfile.c_str(), (int)owner);
    if (f && !(isnew && still)) {
        well_formed(f, vuser, isnew && owner != 0);
        use(f);
        check_queues();
        save_file(NULL);
        auto shells = [](cf_t *f) { std::multiset<string> s; for (cl_t *l : lines_of(f)) s.insert(string(l->cl_shell) + "\n" + l->cl_runas); return s; };
        auto a = shells(f);
        daemon_memory(); synchronize_dir(".", 0);
        f = table_of(vuser);
        if (!f) pbt::fail("again", "a table the daemon saved is not loaded again");
        if (shells(f) != a) pbt::fail("roundtrip", "a loaded table has other lines when saved and loaded again");
        check_queues();
        pbt::label("loaded");
    } else pbt::label("rejected");
    pbt::label("%s%s", isnew ? "new file" : "stored file", old ? " over an earlier table" : "");
    if (bad != good) pbt::nontrivial(pbt::hash(bad));
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "damage"; c.quick = 40000; c.thorough = 1000000; c.batch = 50; c.prop = prop;
    return pbt::main(argc, argv, c);
}
