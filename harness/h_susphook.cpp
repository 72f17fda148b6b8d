// C37: script/fcron.suspend.sh.in, generated by script/gen-in.pl for paths in
// a scratch directory, run as an unprivileged user with a stand-in for the
// daemon: a process of that user which, as fcron does, reads and deletes the
// suspend file when it gets SIGCONT.  Time passes by moving the file's mtime.
#include "pbt.hpp"
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using std::string; using std::vector;
using pbt::Gen; using pbt::strf; using pbt::quote;
static string slurp(const string &p) { string s; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return s; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static void spew(const string &p, const string &s, mode_t m) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); fchmod(fd, m); close(fd); }
static void rmrf(const string &p) {
    struct stat st; if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        DIR *d = opendir(p.c_str()); vector<string> v; struct dirent *e;
        while (d && (e = readdir(d))) { string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
        if (d) closedir(d);
        for (auto &n : v) rmrf(p + "/" + n);
        rmdir(p.c_str());
    } else unlink(p.c_str());
}
static string R, SUSP; static uid_t uid;
static void drop() { if (setgroups(0, nullptr) || setresgid(uid, uid, uid) || setresuid(uid, uid, uid)) _exit(126); }
static int run(const vector<string> &av, mode_t um) {
    pid_t p = fork();
    if (!p) {
        drop(); umask(um);
        int fd = open((R + "/out").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666); dup2(fd, 1); dup2(fd, 2); fd = open("/dev/null", O_RDONLY); dup2(fd, 0);
        if (chdir(R.c_str())) _exit(126);
        vector<char *> a; for (auto &x : av) a.push_back((char *)x.c_str()); a.push_back(nullptr);
        char e0[] = "PATH=/usr/bin:/bin", e1[] = "LC_ALL=C"; char *env[] = {e0, e1, nullptr};
        execve(a[0], a.data(), env); _exit(127);
    }
    int ws; waitpid(p, &ws, 0); return ws;
}
struct Proc { pid_t pid = 0; int fd = -1; bool stopped = false; };
static void start(Proc &p, bool reads) {
    int pp[2]; if (pipe2(pp, O_CLOEXEC)) abort();
    sigset_t s; sigemptyset(&s); sigaddset(&s, SIGCONT); sigset_t old; sigprocmask(SIG_BLOCK, &s, &old);
    p.pid = fork();
    if (!p.pid) {
        drop(); close(pp[0]);
        if (write(pp[1], "!", 1) < 0) _exit(1);
        for (;;) {
            siginfo_t si; if (sigwaitinfo(&s, &si) != SIGCONT) continue;
            string t = "absent\n"; struct stat st;
            if (!lstat(SUSP.c_str(), &st)) { t = strf("%o %s\n", (unsigned)st.st_mode, quote(slurp(SUSP)).c_str()); if (reads) unlink(SUSP.c_str()); }
            if (write(pp[1], t.data(), t.size()) < 0) _exit(1);
        }
    }
    sigprocmask(SIG_SETMASK, &old, nullptr);
    close(pp[1]); p.fd = pp[0];
    char c; if (read(p.fd, &c, 1) != 1) abort();
}
// state changes of a stand-in, until it is as wanted or a while has passed
static void watch(Proc &p, bool want) {
    for (int i = 0; i < 1000; i++) {
        int ws; while (waitpid(p.pid, &ws, WUNTRACED | WCONTINUED | WNOHANG) == p.pid) {
            if (WIFSTOPPED(ws)) p.stopped = true; else if (WIFCONTINUED(ws)) p.stopped = false;
            else pbt::fail("c37-killed", "the daemon was killed");
        }
        if (p.stopped == want) return;
        usleep(10000);
    }
}
static string readl(int fd, int ms) { struct pollfd q = {fd, POLLIN, 0}; if (poll(&q, 1, ms) <= 0) return ""; char b[4096]; ssize_t n = read(fd, b, sizeof b); return n > 0 ? string(b, n) : ""; }
static void prop(Gen &g) {
    R = pbt::scratch() + strf("/su%d", (int)getpid()); rmrf(R); uid = 57000 + getpid() % 5000;
    struct Clean { vector<Proc *> ps; ~Clean() { for (auto p : ps) if (p->pid > 0) { kill(p->pid, SIGKILL); waitpid(p->pid, nullptr, 0); if (p->fd >= 0) close(p->fd); } rmrf(R); } } clean;
    string rel = g.pick(vector<string>{"/run", "/var/run/fcron", "/p1/run-2"});
    for (string p : {string(""), string("/cfg"), string("/var"), string("/var/run"), string("/p1"), rel}) { mkdir((R + p).c_str(), 0755); if (chown((R + p).c_str(), uid, uid)) abort(); }
    string PIDF = R + rel + "/fcron.pid"; SUSP = R + rel + "/" + g.pick(vector<string>{"fcron.suspend", "suspended"});
    const char *rp = getenv("VERIF_REPO"); string repo = rp ? rp : "/repo";
    // what configure writes: paths are variables of the Makefile
    spew(R + "/cfg/config.h", "/* */\n#define VERSION_QUOTED \"3.4\"\n#define DEBUG 1\n", 0644);
    spew(R + "/cfg/Makefile", strf("DESTSBIN         = /usr/sbin\nPIDDIR           = %s%s\nPIDFILE          = %s\nREBOOT_LOCK      = %s/fcron.reboot\nSUSPEND_FILE     = %s\nFIFOFILE         = /nowhere/fifo\n", R.c_str(), rel.c_str(), PIDF.c_str(), R.c_str(), SUSP.c_str()), 0644); spew(R + "/out", "", 0666);
    int ws = run({"/usr/bin/perl", repo + "/script/gen-in.pl", repo + "/script/fcron.suspend.sh.in", R + "/hook", R + "/cfg"}, 022);
    struct stat st; if (ws || stat((R + "/hook").c_str(), &st) || !st.st_size) pbt::fail("c37-gen", "gen-in.pl failed (%d): %s", ws, slurp(R + "/out").c_str());
    Proc d, by; bool reads = g.chance(4, 5); start(d, reads); start(by, false); clean.ps = {&d, &by};
    bool pidfile = !g.chance(1, 8); if (pidfile) spew(PIDF, strf("%d\n", (int)d.pid), 0644);
    bool have = false, broken = false; long since = 0; time_t at = 0;       // the file, and how long ago the suspension started
    if (g.chance(1, 4)) { spew(SUSP, g.pick(vector<string>{"", "300\n", "junk"}), 0644); if (chown(SUSP.c_str(), uid, uid)) abort(); have = true; since = g.range(100, 100000); struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = time(nullptr) - since; ts[0].tv_nsec = ts[1].tv_nsec = 0; utimensat(AT_FDCWD, SUSP.c_str(), ts, 0); at = time(nullptr); pbt::note("a suspend file is left from %ld s ago", since); }
    static const vector<string> PRE = {"pre", "suspend", "suspend_hybrid", "hibernate"}, POST = {"post", "resume", "thaw"}, BAD = {"", "foo", "PRE", "stop", "pos", "preresume"};
    int n = (int)g.range(1, 6), cycles = 0; bool pres = false, stopped = false;
    for (int i = 0; i < n; i++) {
        int k = g.weighted({5, 5, 1}); if (k < 2 && g.chance(2, 3)) k = pres ? 1 : 0;
        string a = k == 0 ? g.pick(PRE) : k == 1 ? g.pick(POST) : g.pick(BAD); mode_t um = 022;
        vector<string> av = {"/bin/sh", R + "/hook", a}; if (g.chance(1, 2)) av.push_back(g.pick(vector<string>{"suspend", "hibernate", "hybrid-sleep", "post"}));
        if (k == 2 && a.empty()) av.resize(2);
        string before = have ? slurp(SUSP) : "";
        time_t t0 = time(nullptr); spew(R + "/out", "", 0666); run(av, um); time_t t1 = time(nullptr);
        bool is = !lstat(SUSP.c_str(), &st);
        string what; for (size_t j = 2; j < av.size(); j++) what += " " + quote(av[j]);
        if (k == 0) {
            if (pidfile) stopped = true;
            watch(d, stopped);
            pbt::note("fcron.suspend.sh%s: the daemon %s, the file %s", what.c_str(), d.stopped ? "is stopped" : "runs", is ? "is there" : "is absent");
            if (stopped && !d.stopped) pbt::fail("c37-stop", "the daemon was not stopped: %s", slurp(R + "/out").c_str());
            is = !lstat(SUSP.c_str(), &st);
            if (!is) pbt::fail("c37-mark", "the start of the suspension was not recorded: %s", slurp(R + "/out").c_str());
            if (st.st_mtime < t0 - 1 || st.st_mtime > t1 + 1) pbt::fail("c37-mark", "the start of the suspension is recorded as %ld s ago", (long)(t1 - st.st_mtime));
            have = true; since = 0; at = st.st_mtime; pres = true; pbt::label("suspend");
            long len = g.chance(1, 6) ? 0 : g.chance(1, 10) ? -(long)g.range(10, 100) : g.skew(1, 3000000); since += len; broken = len < 0;
            struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = st.st_mtime - len; ts[0].tv_nsec = ts[1].tv_nsec = 0; utimensat(AT_FDCWD, SUSP.c_str(), ts, 0);
            pbt::note("%ld s pass", len);
        } else if (k == 1) {
            bool gets = pidfile; string got; if (gets) { got = readl(d.fd, 10000); stopped = false; watch(d, false); }
            long lo = since + (t0 - at) - 1, hi = since + (t1 - at) + 2;
            pbt::note("fcron.suspend.sh%s: the daemon %s, and found %s", what.c_str(), d.stopped ? "is stopped" : "runs", got.c_str());
            if (gets && (got.empty() || d.stopped)) pbt::fail("c37-cont", "the daemon was not resumed: %s", slurp(R + "/out").c_str());
            is = !lstat(SUSP.c_str(), &st);
            string t; unsigned mode = 0;
            if (gets) { if (got != "absent\n") { char b[200] = ""; if (sscanf(got.c_str(), "%o \"%190[^\n]", &mode, b) < 1) mode = 0; t = b; } }
            else if (is) { mode = st.st_mode; t = slurp(SUSP); }
            bool there = gets ? got != "absent\n" : is;
            if (!have && there) pbt::fail("c37-nostart", "no start of the suspension is known, and a file is left: %s", t.c_str());
            if (have) {
                if (!there) pbt::fail("c37-length", "the daemon was not told that the machine slept %ld s: %s", lo + 1, slurp(R + "/out").c_str());
                char *e; long v = strtol(t.c_str(), &e, 10);
                if (!broken && (e == t.c_str() || v < lo || v > hi)) pbt::fail("c37-length", "the daemon is told %s, the machine slept %ld s", t.c_str(), lo + 1);
                if (mode & 022) pbt::fail("c37-mode", "the file is writable by others: %o", mode);
                pbt::label("resume");
                if (pres && gets && since > 0) cycles++;
            } else pbt::label("resume, unknown length");
            if (gets && reads) { have = false; }
            else if (have) { have = !lstat(SUSP.c_str(), &st); since = 0; at = t1; broken = false; if (have) { long ago = g.range(1, 1000); since = ago; struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = t1 - ago; ts[0].tv_nsec = ts[1].tv_nsec = 0; utimensat(AT_FDCWD, SUSP.c_str(), ts, 0); } }
            pres = false;
        } else {
            usleep(20000); int w; bool ch = waitpid(d.pid, &w, WUNTRACED | WCONTINUED | WNOHANG) == d.pid;
            pbt::note("fcron.suspend.sh%s", what.c_str());
            if (ch) pbt::fail("c37-bad", "a wrong argument signalled the daemon");
            if (is != have || (have && slurp(SUSP) != before)) pbt::fail("c37-bad", "a wrong argument changed the suspend file");
            pbt::label("wrong argument");
        }
        int w; if (waitpid(by.pid, &w, WUNTRACED | WCONTINUED | WNOHANG) == by.pid) pbt::fail("c37-bystander", "another process was signalled");
        string bg = readl(by.fd, 0); if (!bg.empty()) pbt::fail("c37-bystander", "another process was resumed");
    }
    if (cycles) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "susphook"; c.quick = 2000; c.thorough = 40000; c.prop = prop;
    return pbt::main(argc, argv, c);
}
