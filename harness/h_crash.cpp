// C15: saves by fcrontab and by the daemon with a failure, a short transfer or the death of the process at any system call.
#include "spoolglue.hpp"
#include "faultio.hpp"
extern "C" int w_rand(void) { return 11; }

struct Ver { string text, bytes, st[2]; };
static vector<Ver> V;            // 1.. ; 0 is "no table"
static string U;
static string bytes_of(const string &p) { bool ok; string s = slurp(p, &ok); return ok ? "+" + s : ""; }      // "" : absent
static std::map<string, int> known_bytes;
static bool read_ok(const char *name, int &v) {      // by a process of its own: reading a table schedules its jobs
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
        daemon_memory(); foreground = 0;
        cf_t *f = (cf_t *)calloc(1, sizeof(cf_t));
        if (read_file(name, f, 0) != OK) _exit(100);
        for (size_t i = 1; i < V.size(); i++) if (table_static(f, false) == V[i].st[0] || table_static(f, false) == V[i].st[1]) _exit((int)i);
        _exit(101);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    v = WIFEXITED(st) ? WEXITSTATUS(st) : 102;
    return v < 100;
}
static int version_of(const string &path, const char *when) {
    string b = bytes_of(path);
    if (b.empty()) return 0;
    auto i = known_bytes.find(path.substr(0, 4) == "new." ? "n" + b : b);
    if (i != known_bytes.end()) return i->second;
    int v;
    if (!read_ok(path.c_str(), v)) pbt::fail(v == 100 ? "invalid" : v == 101 ? "mixture" : "crash", "%s: %s (%zu bytes) %s", when, path.c_str(), b.size() - 1, v == 100 ? "is not a valid table" : v == 101 ? "is neither the old nor the new table" : "cannot be loaded");
    return v;
}
static int memory_version() {
    cf_t *f = table_of(U); if (!f) return 0;
    string s = table_static(f, false);
    for (size_t i = 1; i < V.size(); i++) if (s == V[i].st[0] || s == V[i].st[1]) return (int)i;
    pbt::fail("memory", "the daemon's table is none of the installed ones");
}
static bool exists(const string &p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
// the table a restart of the daemon would load
static int logical(const char *when) {
    int s = version_of(U, when), p = version_of("new." + U, when);
    if (exists("rm." + U)) return p;
    return p ? p : s;
}
static string probe(cf_t *f) {
    if (save_file_safe(f, (char *)"probe", (char *)"probe", 0, 0, now) != OK) { perror("probe"); abort(); }
    string b = bytes_of("probe"); unlink("probe"); return b;
}
static int count_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

static void prop(Gen &g) {
    fresh_spool(); daemon_memory(); nforks = 0; F.reset(); F.dirty.clear(); diff_remain = false;
    setenv("TZ", "UTC", 1); tzset();
    now = (time_t)g.range(1000000000, 2000000000);
    U = g.chance(1, 4) ? "john.doe" : "model";
    int nv = (int)g.range(1, 3);
    V.assign(1, Ver()); known_bytes.clear();
    for (int i = 1; i <= nv; i++) {
        Shape sh; sh.lines = (int)g.range(1, 6);
        Model m = gen_model(g, sh, true, U);
        for (auto &l : m.logical) if (l.size() > 1010) pbt::discard();
        if (m.text.size() && m.text.back() != '\n') m.text += "\n";
        int big = (int)g.raw(3);
        Ver v; v.text = m.text + strf("!reset(true)\nVER=%d\n@ 3600 last%d\n", i, i);
        while (big--) v.text += strf("B%d=", big) + string((size_t)g.range(200, 1000), 'b') + "\n";
        { int r = tab_install(v.text, U, true, "new." + U); if (r) pbt::fail("rejected", "a valid fcrontab is rejected (%d)\n%s", r, v.text.c_str()); }
        v.bytes = bytes_of("new." + U);
        if (chown(("new." + U).c_str(), uid_of(U), 0)) abort();
        cf_t *f = (cf_t *)calloc(1, sizeof(cf_t));
        if (read_file(("new." + U).c_str(), f, 0) != OK) pbt::fail("unread", "an installed table cannot be loaded");
        for (int k = 0; k < 2; k++) v.st[k] = table_static(f, k);
        unlink(("new." + U).c_str());
        V.push_back(v); known_bytes["n" + v.bytes] = i;
        daemon_memory();
        pbt::note("version %d:\n%s", i, v.text.c_str());
    }
    bool other = g.chance(1, 2);
    if (other) { if (tab_install("@ 1h x_other\n@ 2h x_other2\n", "bin", true, "new.bin")) abort(); if (chown("new.bin", 2, 0)) abort(); }
    bool start = g.chance(3, 4);
    if (start) { tab_install(V[1].text, U, true, "new." + U); if (chown(("new." + U).c_str(), uid_of(U), 0)) abort(); pbt::note("version 1 is installed and loaded"); }
    synchronize_dir(".", 1);
    if (start) { known_bytes[bytes_of(U)] = 1; if (memory_version() != 1) pbt::fail("memory", "the installed table is not loaded"); }
    string other_bytes = bytes_of("bin");
    int mem = start ? 1 : 0; bool fired = false;
    auto arm = [&](bool tab) {
        F.reset();
        if (g.chance(1, 4)) { F.armed = true; return; }
        int n = g.chance(1, 4) ? 2 : 1;
        for (int i = 0; i < n; i++) F.plan.push_back(gen_fault(g, tab));
        F.armed = true;
    };
    auto disarm = [&]() { F.armed = false; for (auto &x : F.log) pbt::note("    %s", x.c_str()); if (F.nfired) { fired = true; for (auto &x : F.log) pbt::label("%s", x.substr(0, x.find(' ')).c_str()); } };
    int nops = (int)g.range(1, 8);
    for (int o = 0; o < nops; o++) {
        int what = g.weighted({3, 3, 3, 1, 1});
        string s0 = bytes_of(U), p0 = bytes_of("new." + U); bool r0 = exists("rm." + U);
        int before = logical("before"), sv = version_of(U, "before"); int fd0 = count_fds();
        auto reborn = [&]() { setenv("TZ", "UTC", 1); tzset(); daemon_memory(); mem = 0; };
        if (what == 0) {
            int v = (int)g.range(1, nv);
            arm(true);
            pbt::note("fcrontab installs version %d%s", v, F.str().c_str());
            int r = -1; bool died = false;
            if (sigsetjmp(F.jb, 0) == 0) r = tab_install(V[v].text, U, true, "new." + U); else died = true;
            disarm();
            string p1 = bytes_of("new." + U);
            if (p1 != p0 && p1 != V[v].bytes) pbt::fail("partial", "fcrontab's installation %s and leaves %s with %zd bytes, neither the old (%zd) nor the new file (%zd)", died ? "dies" : r ? "fails" : "succeeds", ("new." + U).c_str(), (ssize_t)p1.size() - 1, (ssize_t)p0.size() - 1, (ssize_t)V[v].bytes.size() - 1);
            if (!died && r == 0 && p1 != V[v].bytes) pbt::fail("lost", "fcrontab's installation succeeds but new.%s is %s", U.c_str(), p1.empty() ? "absent" : "the old one");
            if (!died && r != 0 && !F.nfired) pbt::fail("save", "fcrontab's installation fails without any fault");
            if (!died && r != 0 && r != 99) pbt::fail("save", "fcrontab rejects the table (%d)", r);
            if (bytes_of(U) != s0) pbt::fail("stored", "fcrontab changes the daemon's file");
            if (p1.size() && chown(("new." + U).c_str(), uid_of(U), 0)) abort();
            if (!died && count_fds() != fd0) pbt::fail("descriptors", "fcrontab has %d descriptors in place of %d after saving", count_fds(), fd0);
            close_extra(fd0);
            continue;
        }
        if (what == 3) { pbt::note("removal asked"); unlink(("new." + U).c_str()); spew("rm." + U, ""); continue; }
        bool died = false;
        if (what == 2) {
            if (mem <= 0) continue;
            cf_t *f = table_of(U);
            for (cl_t *l : lines_of(f)) {
                if (g.chance(1, 3)) { l->cl_nextexe = now + g.skew(1, 86400 * 400); insert_nextexe(l); }
                if (l->cl_runfreq > 1 && g.chance(1, 2)) l->cl_remain = (unsigned short)g.range(1, l->cl_runfreq);
            }
            now += g.range(1, 5000);
            string want = probe(f), wother = other && table_of("bin") ? probe(table_of("bin")) : "";
            known_bytes[want] = mem;
            bool all = g.chance(1, 2);
            arm(false);
            pbt::note("the daemon saves %s%s", all ? "all tables" : "the table", F.str().c_str());
            if (sigsetjmp(F.jb, 0) == 0) save_file(all ? NULL : f); else died = true;
            disarm();
            string s1 = bytes_of(U), o1 = bytes_of("bin");
            if (s1 != s0 && s1 != want) pbt::fail("partial", "a save %s and leaves %s with %zd bytes, neither the old (%zd) nor the new file (%zd)", died ? "dies" : F.nfired ? "with a fault ends" : "ends", U.c_str(), (ssize_t)s1.size() - 1, (ssize_t)s0.size() - 1, (ssize_t)want.size() - 1);
            if (!died && !F.nfired && s1 != want) pbt::fail("unsaved", "the table is not saved though nothing failed");
            if (other && o1 != other_bytes && o1 != wother) pbt::fail("partial", "a save leaves the other table neither old nor new");
            if (other && !died && all && wother.size() && F.nfired == 1 && s1 != want && o1 != wother) pbt::fail("unsaved", "one failure prevents both tables from being saved");
            if (other) other_bytes = o1;
            if (bytes_of("new." + U) != p0) pbt::fail("new-file", "a save changes new.%s", U.c_str());
        } else {
            bool restart = what == 4 || mem < 0;
            if (restart) reborn();
            bool fresh = restart || !file_base;
            int expct = fresh ? before : p0.size() ? before : r0 ? 0 : mem;
            arm(false);
            pbt::note("%s%s", restart ? "the daemon starts" : "the daemon reads the spool directory", F.str().c_str());
            if (sigsetjmp(F.jb, 0) == 0) synchronize_dir(".", restart && g.chance(1, 2)); else died = true;
            disarm();
            string p1 = bytes_of("new." + U), s1 = bytes_of(U), o1 = bytes_of("bin");
            if (p1 != p0 && !p1.empty()) pbt::fail("new-file", "the daemon changes new.%s", U.c_str());
            if (other) { if (o1 != other_bytes) pbt::fail("other", "the other user's table is damaged"); }
            // the daemon can do nothing for a table it cannot remove, nor for an order which stays in force
            bool rmfail = false; for (auto &x : F.log) if (r0 && x.substr(0, 13) == "remove-failed") rmfail = true;
            if (rmfail) { pbt::label("removal failed"); close_extra(fd0); return; }
            if (!died) {
                int m1 = memory_version();
                bool reads = F.fired_reading();
                if (m1 != expct && !(F.nfired && reads && (m1 == mem || m1 == 0 || (fresh && m1 == sv)))) pbt::fail("memory", "the daemon has version %d in place of %d (it had %d)", m1, expct, mem);
                if (!F.nfired) { if (p1.size() || exists("rm." + U)) pbt::fail("left", "a file is left in place after it was taken into account"); }
                if (m1 && (p0.size() || s1 != s0)) { string want = probe(table_of(U)); known_bytes[want] = m1; if (m1 == expct && s1 != want && s1 != s0 && !(r0 && s1.empty())) pbt::fail("partial", "the daemon leaves %s with %zd bytes, neither the old (%zd) nor the new file (%zd)", U.c_str(), (ssize_t)s1.size() - 1, (ssize_t)s0.size() - 1, (ssize_t)want.size() - 1); }
                mem = m1;
                check_queues();
            }
        }
        int after = logical("afterwards");
        if (after != before) pbt::fail(died ? "lost-death" : "lost", "a restart of the daemon would load version %d in place of %d (file %zd bytes, was %zd; new file %zd, was %zd; removal %d, was %d)", after, before, (ssize_t)bytes_of(U).size() - 1, (ssize_t)s0.size() - 1, (ssize_t)bytes_of("new." + U).size() - 1, (ssize_t)p0.size() - 1, exists("rm." + U), r0);
        if (!died && count_fds() != fd0) pbt::fail("descriptors", "%d descriptors in place of %d", count_fds(), fd0);
        if (died) { close_extra(fd0); reborn(); mem = -1; }
    }
    // in the end the daemon starts without trouble
    int want = logical("at the end");
    daemon_memory();
    pbt::note("the daemon starts again");
    synchronize_dir(".", 0);
    if (memory_version() != want) pbt::fail("restart", "after a restart the daemon has version %d in place of %d", memory_version(), want);
    if (other && !table_of("bin")) pbt::fail("other", "the other user's table is lost");
    for (auto &f : listing()) if (f != U && f != "bin" && !(f.size() > 4 && f.substr(f.size() - 4) == ".tmp")) pbt::fail("left", "%s is left in the spool directory", f.c_str());
    check_queues();
    if (fired) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "crash"; c.quick = 30000; c.thorough = 600000; c.batch = 50; c.prop = prop;
    return pbt::main(argc, argv, c);
}
