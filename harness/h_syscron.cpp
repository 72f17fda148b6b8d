// C36: script/check_system_crontabs.sh, run as an unprivileged user in a
// directory of its own: the paths of its configuration section are replaced by
// paths of that directory, and fcrontab, logger and sleep by recorders.
#include "pbt.hpp"
#include <cerrno>
#include <fcntl.h>
#include <dirent.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <grp.h>
using std::string; using std::vector; using std::map;
using pbt::Gen; using pbt::strf; using pbt::quote;

static string slurp(const string &p) { string s; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return s; char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static void spew(const string &p, const string &s, mode_t m) { unlink(p.c_str()); int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); fchmod(fd, m); close(fd); }
static void subst(string &s, const string &a, const string &b) { for (size_t p = 0; (p = s.find(a, p)) != string::npos; p += b.size()) s.replace(p, a.size(), b); }
static void mtime(const string &p, time_t t) { struct timespec ts[2] = {{t, 0}, {t, 0}}; utimensat(AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW); }
static bool exists(const string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
static vector<string> lines(const string &s) { vector<string> v; string c; for (char x : s) if (x == '\n') { v.push_back(c); c.clear(); } else c += x; if (!c.empty()) v.push_back(c); return v; }
static void rmrf(const string &p) {
    struct stat st; if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        DIR *d = opendir(p.c_str()); vector<string> v; struct dirent *e;
        while (d && (e = readdir(d))) { string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
        if (d) closedir(d);
        for (auto &n : v) rmrf(p + "/" + n);
        rmdir(p.c_str());
    } else unlink(p.c_str());
}

// what a table says: comments and blank lines left out, shortcuts resolved
static const char *SC[][2] = {{"@yearly", "0 0 1 1 *"}, {"@annually", "0 0 1 1 *"}, {"@monthly", "0 0 1 * *"}, {"@weekly", "0 0 * * 0"}, {"@daily", "0 0 * * *"}, {"@midnight", "0 0 * * *"}, {"@hourly", "0 * * * *"}};
static void meaning(const string &text, vector<string> &out) {
    for (auto &l : lines(text)) {
        size_t p = l.find_first_not_of(" \t"); if (p == string::npos || l[p] == '#') continue;
        string s = l.substr(p);
        for (auto &k : SC) { size_t n = strlen(k[0]); if (s.compare(0, n, k[0]) == 0 && (s.size() == n || s[n] == ' ' || s[n] == '\t')) { s = k[1] + s.substr(n); break; } }
        out.push_back(s);
    }
}
static string text(Gen &g) {
    static int uniq; string s; int n = (int)g.range(0, 4);
    for (int i = 0; i < n; i++) {
        string sc = SC[g.raw(7)][0]; int u = ++uniq;
        switch (g.weighted({4, 3, 2, 2, 2, 1, 1, 2})) {
        case 0: s += strf("%d %d * * * root echo job%d", (int)g.range(0, 59), (int)g.range(0, 23), u); break;
        case 1: s += string(g.chance(1, 4) ? " \t" : "") + sc + (g.chance(1, 4) ? "\t" : " ") + strf("root echo job%d", u); break;
        case 2: s += strf("5 4 * * * root mail -s x%d admin%s.example.com </etc/x", u, sc.c_str()); break;
        case 3: s += strf("MAILTO=ops%s.example.com", sc.c_str()); break;
        case 4: s += strf("@ %d echo job%d %s x", (int)g.range(1, 99), u, sc.c_str()); break;
        case 5: s += strf("# comment %s %d", sc.c_str(), u); break;
        case 6: break;
        case 7: s += strf("&bootrun,serial * 4 * * * root echo job%d 'a  b' \"$HOME\" `id` \\%% & *", u); break;
        }
        s += "\n";
    }
    if (!s.empty() && g.chance(1, 4)) s.pop_back();      // last line not ended
    return s;
}

struct File { int kind = 0; string data; time_t m = 0; bool readable = true; };   // 0 absent, 1 file, 2 link to a file, 3 broken link, 4 directory
static const uid_t UID0 = 52000;

static void prop(Gen &g) {
    string R = pbt::scratch() + strf("/sc%d", (int)getpid()); rmrf(R);
    uid_t uid = UID0 + getpid() % 5000;
    auto mk = [&](const string &p) { string q = R + p; if (mkdir(q.c_str(), 0755) || chown(q.c_str(), uid, uid)) abort(); };
    struct Clean { string r; ~Clean() { rmrf(r); } } clean{R};
    for (const char *p : {"", "/bin", "/ubin", "/lbin", "/tmp", "/etc", "/etc/fcron", "/spool", "/rec", "/link"}) mk(p);
    const char *repo = getenv("VERIF_REPO"); string src = slurp(string(repo ? repo : "/repo") + "/script/check_system_crontabs.sh");
    if (src.empty()) { fprintf(stderr, "no script\n"); abort(); }
    subst(src, "/tmp/", "\1/tmp/"); subst(src, "/var/spool/fcron", "\1/spool"); subst(src, "/usr/local/bin/fcrontab", "\1/lbin/fcrontab"); subst(src, "/usr/bin/fcrontab", "\1/ubin/fcrontab");
    // the defaults only: "/etc/..." after a '=' (the rest is text)
    for (const char *p : {"/etc/fcron/fcron.conf", "/etc/cron.d", "/etc/crontab", "/etc/fcrontab"}) for (const char *q : {"=", "=\"", "='"}) subst(src, string(q) + p, string(q) + "\1" + p);
    subst(src, "\1", R);
    spew(R + "/script", src, 0755);
    string rec = "( printf '%s\\n' \"$0\"; for a; do printf '%s\\n' \"$a\"; done; echo --end-- ) >> " + R + "/rec/";
    spew(R + "/bin/logger", "#!/bin/sh\nexit 0\n", 0755);
    spew(R + "/bin/sleep", "#!/bin/sh\n" + rec + "sleep\n[ -e " + R + "/rec/install ] && echo late >> " + R + "/rec/late\ncase \"$1\" in ''|*[!0-9]*) exit 1;; esac\nexit 0\n", 0755);
    string fc = "#!/bin/sh\n[ \"$1\" = -V ] && exit 0\n" + rec + "install\nfor a; do [ -f \"$a\" ] && case \"$a\" in *fcron.conf*) ;; *) cat \"$a\" > " + R + "/rec/text; esac; done\nexit `cat " + R + "/rec/status 2>/dev/null || echo 0`\n";
    // where fcrontab is
    int where = g.weighted({6, 1, 1, 1});
    string wp = where == 0 ? "/bin" : where == 1 ? "/ubin" : where == 2 ? "/lbin" : ""; if (where < 3) spew(R + wp + "/fcrontab", fc, 0755);
    bool other = g.chance(1, 3); if (other) { mk("/opt"); spew(R + "/opt/fcrontab", fc, 0755); }
    bool alt = g.chance(1, 4); string AD = alt ? "/etc/my cron" : "/etc/cron.d", AC = alt ? "/etc/c" : "/etc/crontab", AF = alt ? "/etc/f" : "/etc/fcrontab";
    string D = R + AD, C = R + AC, F = R + AF;
    time_t now = 1700000000, orig = -1; bool dexists = false; time_t dm = 0;
    map<string, File> fs; File fC, fF; bool unsure = false, failed_before = false;
    static const vector<string> NAMES = {"anacron", "e2scrub", "a b", "Zz", "php~", "sysstat.dpkg", ".hidden", "x~y", "~"};
    int steps = (int)g.range(1, 7), runs = 0, installs = 0; bool nt = false;
    if (g.chance(2, 3)) { mk(AD); dexists = true; dm = now; mtime(D, dm); }
    auto put = [&](const string &p, File &f, int kind) {
        rmrf(p); f.kind = kind; f.m = now; f.readable = true;
        if (kind == 1) { f.data = text(g); f.readable = !g.chance(1, 12); spew(p, f.data, f.readable ? 0644 : 0600); if (g.chance(1, 8)) f.m = now - g.range(0, 100000); mtime(p, f.m); }
        else if (kind == 2) { f.data = text(g); string t = R + "/link/" + strf("%d", (int)g.raw(1u << 30)); spew(t, f.data, 0644); mtime(t, now); if (symlink(t.c_str(), p.c_str())) abort(); mtime(p, now); }
        else if (kind == 3) { if (symlink("nowhere", p.c_str())) abort(); mtime(p, now); }
        else if (kind == 4) { if (mkdir(p.c_str(), 0755)) abort(); mtime(p, now); }
    };
    for (int st = 0; st < steps; st++) {
        int ne = (int)g.range(0, 2); if (st == 0) ne += 2;
        for (int e = 0; e < ne; e++) {
            now += g.range(1, 600);
            switch (g.weighted({4, 3, 2, 2, 1, 1, 1})) {
            case 0: case 1: {                                // a file of the directory
                if (!dexists) { mk(AD); dexists = true; }
                string n = g.pick(NAMES); auto &f = fs[n]; bool was = f.kind != 0;
                if (was && f.kind == 1 && f.readable && g.chance(1, 2)) { f.data = text(g); spew(D + "/" + n, f.data, 0644); mtime(D + "/" + n, now); f.m = now; mtime(D, dm); pbt::note("%ld: %s changed in place: %s", (long)now, n.c_str(), quote(f.data).c_str()); break; }
                if (was && g.chance(1, 2)) { rmrf(D + "/" + n); f = File(); pbt::note("%ld: %s removed", (long)now, n.c_str()); }
                else { put(D + "/" + n, f, 1 + g.weighted({10, 1, 1, 1})); pbt::note("%ld: %s made, kind %d: %s%s", (long)now, n.c_str(), f.kind, quote(f.data).c_str(), f.readable ? "" : " (not readable)"); }
                dm = now; mtime(D, dm); break; }
            case 2: put(C, fC, 1 + g.weighted({8, 1, 1, 1})); pbt::note("%ld: crontab written, kind %d: %s", (long)now, fC.kind, quote(fC.data).c_str()); if (fC.kind != 1 || fC.m != now) unsure = true; break;
            case 3: put(F, fF, 1 + g.weighted({8, 1, 1, 1})); pbt::note("%ld: fcrontab written, kind %d: %s", (long)now, fF.kind, quote(fF.data).c_str()); if (fF.kind != 1 || fF.m != now) unsure = true; break;
            case 4: { bool c = g.chance(1, 2); rmrf(c ? C : F); (c ? fC : fF) = File(); unsure = true; pbt::note("%ld: %s removed", (long)now, c ? "crontab" : "fcrontab"); break; }
            case 5: if (dexists) { rmrf(D); dexists = false; fs.clear(); unsure = true; pbt::note("%ld: directory removed", (long)now); } break;
            case 6: unlink((R + "/spool/systab.orig").c_str()); orig = -1; pbt::note("%ld: system table removed", (long)now); break;
            }
        }
        now += g.range(1, 600);
        // the command line
        vector<string> av; bool force = false, help = false, bad = false, badp = false, verbose = false; string sl = "30", prog, conf = R + "/etc/fcron/fcron.conf"; bool d2 = false, c2 = false, f2 = false, empty = false; string stop;
        vector<int> ops; int no = (int)g.range(0, 3); for (int i = 0; i < no; i++) ops.push_back((int)g.weighted({3, 3, 3, 3, 2, 2, 1, 1, 1}));
        if (alt) for (int k : {20, 21, 22}) ops.insert(ops.begin() + g.raw(ops.size() + 1), k);
        for (int o : ops) {
            if (!stop.empty()) break;
            switch (o) {
            case 0: av.push_back("-v"); verbose = true; break;
            case 1: av.push_back("-f"); force = true; break;
            case 2: { string s = g.pick(vector<string>{"0", "5", "120", "x"}); av.push_back("-s"); av.push_back(s); sl = s; break; }
            case 3: av.push_back("-i"); sl = "0"; break;
            case 4: if (other) { av.push_back("-p"); string s = g.chance(1, 2) ? R + "/opt" : R + "/opt/fcrontab"; av.push_back(s); prog = R + "/opt/fcrontab"; badp = false; } break;
            case 5: conf = R + g.pick(vector<string>{"/etc/other fcron.conf", "/fcron.conf2"}); av.push_back("-c"); av.push_back(conf); break;
            case 6: av.push_back("-p"); av.push_back(g.chance(1, 2) ? R + "/nowhere" : R + "/rec"); prog = "?"; badp = true; break;
            case 7: av.push_back("-h"); stop = "help"; break;
            case 8: { av.push_back(g.pick(vector<string>{"-x", "foo", "--force", "-fi"})); stop = "bad"; break; }
            case 20: av.push_back("-D"); av.push_back(D); d2 = true; break;
            case 21: av.push_back("-C"); av.push_back(C); c2 = true; break;
            case 22: av.push_back("-F"); av.push_back(F); f2 = true; break;
            }
        }
        if (stop.empty() && !alt && g.chance(1, 20)) { av.push_back(g.pick(vector<string>{"-D", "-C", "-F"})); av.push_back(""); empty = true; }
        int fstat = g.chance(1, 6) ? 1 : 0; spew(R + "/rec/status", strf("%d\n", fstat), 0644);
        for (const char *p : {"/rec/install", "/rec/sleep", "/rec/text", "/rec/late"}) unlink((R + p).c_str());
        string cmd; for (auto &a : av) cmd += " " + quote(a);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open((R + "/out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2(fd, 1); dup2(fd, 2); fd = open("/dev/null", O_RDONLY); dup2(fd, 0);
            if (setgroups(0, nullptr) || setresgid(uid, uid, uid) || setresuid(uid, uid, uid) || chdir((R + "/tmp").c_str())) _exit(126);
            string pe = "PATH=" + R + "/bin:/usr/bin:/bin"; char lc[] = "LC_ALL=C"; char *env[] = {(char *)pe.c_str(), lc, nullptr};
            vector<char *> a = {(char *)"/bin/sh", (char *)"../script"}; if (getenv("JDBG")) a.insert(a.begin() + 1, (char *)"-x"); string sp = R + "/script"; a.back() = (char *)sp.c_str(); for (auto &x : av) a.push_back((char *)x.c_str()); a.push_back(nullptr);
            execve("/bin/sh", a.data(), env); _exit(127);
        }
        int ws; waitpid(pid, &ws, 0); int rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 128 + WTERMSIG(ws); runs++;
        string out = slurp(R + "/out");
        vector<string> inst = lines(slurp(R + "/rec/install")), slp = lines(slurp(R + "/rec/sleep"));
        pbt::note("%ld: check_system_crontabs%s -> %d, %s%s", (long)now, cmd.c_str(), rc, inst.empty() ? "nothing installed" : "installed", inst.empty() ? "" : (": " + quote(slurp(R + "/rec/text"))).c_str());
        string left; { DIR *d = opendir((R + "/tmp").c_str()); struct dirent *e; while (d && (e = readdir(d))) if (e->d_name[0] != '.') left += string(" ") + e->d_name; if (d) closedir(d); }
        if (getenv("JDBG")) pbt::note("%s", out.c_str());
        // the reference
        bool noprog = prog.empty() && where == 3;
        bool refuse = stop == "bad" || badp || (stop.empty() && (noprog || empty));
        if (stop == "help" && badp) { /* order of the two is not specified here: -h is read first */ refuse = false; }
        if (stop == "bad") refuse = true;
        if (stop == "help") {
            if (!inst.empty()) pbt::fail("c36-help", "-h installed a table");
            if (rc != 0) pbt::fail("c36-help", "-h exited with %d", rc);
            for (const char *w : {"-v", "-f", "-s", "-i", "-p", "-c", "-F", "-C", "-D", "-h"}) if (out.find(w) == string::npos) pbt::fail("c36-help", "the help does not mention %s", w);
            pbt::label("help");
        } else if (refuse) {
            if (!inst.empty()) pbt::fail("c36-refuse", "a wrong command line installed a table");
            if (rc == 0) pbt::fail("c36-refuse", "a wrong command line (or no fcrontab) exited with 0");
            if (out.empty()) pbt::fail("c36-refuse", "no message");
            pbt::label("refused");
        } else {
            // the wait
            bool want_sleep = sl != "0";
            if (want_sleep != !slp.empty()) pbt::fail("c36-sleep", "%s, wanted %s", slp.empty() ? "no wait" : "a wait", want_sleep ? sl.c_str() : "none");
            if (want_sleep && (slp.size() != 3 || slp[1] != sl)) pbt::fail("c36-sleep", "waited for %s, wanted %s", slp.size() > 1 ? slp[1].c_str() : "?", sl.c_str());
            if (exists(R + "/rec/late")) pbt::fail("c36-sleep", "the wait came after the installation");
            if (sl == "x") { if (!inst.empty()) pbt::fail("c36-sleep", "installed after a wait which failed"); if (rc == 0) pbt::fail("c36-sleep", "a wait which failed exited with 0"); pbt::label("wrong delay"); }
            else {
                bool must = force || orig < 0, why_missing = !force && orig < 0;
                if (!must) {
                    if (dexists && dm > orig) must = true;
                    for (auto &f : fs) if (f.second.kind == 1 && f.second.m > orig && f.first[0] != '.' && f.first.back() != '~') must = true;
                    if ((fC.kind == 1 && fC.m > orig) || (fF.kind == 1 && fF.m > orig)) must = true;
                }
                bool any = dexists || fC.kind == 1 || fF.kind == 1;
                if (must && inst.empty() && (any || force)) pbt::fail(why_missing ? "c36-missing" : "c36-change", "%s, and the system table was not rebuilt", force ? "-f was given" : why_missing ? "there is no system table" : "something has changed");
                if (!must && !unsure && !inst.empty()) pbt::fail("c36-nochange", "nothing has changed since %ld, and the system table was rebuilt", (long)orig);
                if (!must) pbt::label(unsure ? "unspecified" : "no change"); else pbt::label(force ? "forced" : why_missing ? "no table yet" : "changed");
                if (verbose && out.empty()) pbt::fail("c36-verbose", "-v said nothing");
                if (!inst.empty()) {
                    installs++; if (must && !force) nt = true;
                    if (inst.size() < 2 || std::count(inst.begin(), inst.end(), "--end--") != 1) pbt::fail("c36-args", "fcrontab was called %d times", (int)std::count(inst.begin(), inst.end(), "--end--"));
                    string wantp = !prog.empty() ? prog : R + wp + "/fcrontab";
                    if (inst[0] != wantp) pbt::fail("c36-args", "%s was called, wanted %s", inst[0].c_str(), wantp.c_str());
                    string gc, gu, gf, rest; for (size_t i = 1; i + 1 < inst.size(); i++) { if (inst[i] == "-c") gc = inst[++i]; else if (inst[i] == "-u") gu = inst[++i]; else if (gf.empty() && inst[i][0] == '/') gf = inst[i]; else rest += " " + inst[i]; }
                    if (gc != conf || gu != "systab" || gf.empty() || !rest.empty()) pbt::fail("c36-args", "fcrontab was called with -c %s -u %s file %s and%s", gc.c_str(), gu.c_str(), gf.c_str(), rest.c_str());
                    vector<string> want, got;
                    if (fC.kind == 1 && fC.readable) meaning(fC.data, want);
                    for (auto &f : fs) if ((f.second.kind == 1 || f.second.kind == 2) && f.second.readable && f.first[0] != '.' && f.first.back() != '~') meaning(f.second.data, want);
                    if (fF.kind == 1 && fF.readable) meaning(fF.data, want);
                    meaning(slurp(R + "/rec/text"), got);
                    for (size_t i = 0; i < want.size() || i < got.size(); i++)
                        if (i >= want.size() || i >= got.size() || want[i] != got[i])
                            pbt::fail("c36-text", "line %zu of the installed table is %s, wanted %s", i + 1, i < got.size() ? quote(got[i]).c_str() : "missing", i < want.size() ? quote(want[i]).c_str() : "none");
                    pbt::label("installed");
                    if (!fstat) { orig = now; spew(R + "/spool/systab.orig", "x", 0644); mtime(R + "/spool/systab.orig", orig); unsure = false; if (failed_before) pbt::label("installed after a failure"); failed_before = false; }
                    else { pbt::label("fcrontab failed"); failed_before = true; }
                } else if (rc != 0) pbt::fail("c36-status", "nothing to do, and the status is %d: %s", rc, out.c_str());
            }
        }
        if (!left.empty()) pbt::fail("c36-leftover", "files left in the temporary directory:%s", left.c_str());
        now += g.range(1, 600);
    }
    if (nt && runs > 1) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "syscron"; c.quick = 4000; c.thorough = 200000; c.prop = prop;
    return pbt::main(argc, argv, c);
}
