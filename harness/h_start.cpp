// The daemon's start and end: its real main(), in really forked processes stepped from one system call to the next.
// WHAT=34: several starts, stops and deaths with one or two configurations: one daemon per pid file.
// WHAT=35: command lines.
#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <semaphore.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <ftw.h>
#include <getopt.h>
#include <climits>
#include <cstdarg>
#include <pwd.h>
#include <grp.h>
using std::string; using std::vector; using pbt::Gen; using pbt::strf;
extern "C" {
int daemon_main(int, char **);
extern time_t save_time, first_sleep; extern short serial_max_running, serial_queue_max, lavg_queue_max;
extern char debug_opt, once, foreground; extern int dosyslog; extern char *logfile_path, *fcronconf;
}
enum { READY, UP, DONE };
struct Seen { long save, first; int maxs, sq, lq, debug, once, fg, sys; char log[256], conf[256]; bool ign_pipe, session; };
static const int MAXP = 40;
struct Proc { sem_t go; int state, cmd, status, conf, attempt; pid_t pid; int nsys; bool synced, removed, parent, refused; Seen seen; };
struct World { sem_t sched; int np; Proc p[MAXP]; };
static World *W;
static int me, uid_now; static bool pipe_ign, session;
static void (*handler[65])(int);
static string base;
static void yield() { sem_post(&W->sched); while (sem_wait(&W->p[me].go) && errno == EINTR) {} }
static void done(int st) { W->p[me].status = st; W->p[me].state = DONE; fflush(NULL); sem_post(&W->sched); _exit(0); }
static const char *PIDS[2] = {"run0.pid", "run1.pid"};
static bool is_pid(const char *p) { return strstr(p, "run0.pid") || strstr(p, "run1.pid"); }
extern "C" {
uid_t w_getuid(void) { return uid_now; }
void w_exit(int st) { yield(); done(st); }
void w_syslog(int, const char *f, ...) { pbt_format(f); W->p[me].nsys++; }
void w_openlog(const char *, int, int) {}
void w_closelog(void) {}
int w_setsid(void) { session = true; return 1; }
int w_sigaction(int s, const struct sigaction *n, struct sigaction *) { if (n) { handler[s] = n->sa_handler; if (s == SIGPIPE) pipe_ign = n->sa_handler == SIG_IGN; } return 0; }
int w_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (!strcmp(p, "/dev/tty")) { errno = ENXIO; return -1; } if (is_pid(p)) yield(); return open(p, f, m); }
int w_flock(int fd, int op) { yield(); int r = flock(fd, op); if (r != 0) W->p[me].refused = true; return r; }
int w_lockf(int fd, int op, off_t n) { yield(); int r = lockf(fd, op, n); if (r != 0) W->p[me].refused = true; return r; }
int w_ftruncate(int fd, off_t n) { yield(); return ftruncate(fd, n); }
int w_remove(const char *p) { if (is_pid(p)) { yield(); W->p[me].removed = true; } return remove(p); }
int w_unlink(const char *p) { if (is_pid(p)) { yield(); W->p[me].removed = true; } return unlink(p); }
DIR *w_opendir(const char *p) { if (!strcmp(p, ".")) { yield(); W->p[me].synced = true; } return opendir(p); }
pid_t w_fork(void) {
    int k = W->np++; Proc &c = W->p[k]; c.conf = W->p[me].conf; c.attempt = W->p[me].attempt; c.state = READY; c.status = -1;
    W->p[me].parent = true;
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) { me = k; while (sem_wait(&c.go) && errno == EINTR) {} return 0; }
    c.pid = p;
    return p;
}
int w_select(int, fd_set *, fd_set *, fd_set *, struct timeval *) {
    Proc &p = W->p[me]; Seen &s = p.seen;
    s.save = save_time; s.first = first_sleep; s.maxs = serial_max_running; s.sq = serial_queue_max; s.lq = lavg_queue_max; s.debug = debug_opt; s.once = once; s.fg = foreground; s.sys = dosyslog;
    snprintf(s.log, sizeof s.log, "%s", logfile_path ? logfile_path : ""); snprintf(s.conf, sizeof s.conf, "%s", fcronconf ? fcronconf : ""); s.ign_pipe = pipe_ign; s.session = session;
    p.state = UP; p.cmd = 0;
    yield();
    if (p.cmd && handler[p.cmd]) handler[p.cmd](p.cmd);
    errno = EINTR; return -1;
}
int w_rand(void) { return 1; }
}
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static string slurp(const string &p) { string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spill(const string &p, const string &t, mode_t m = 0644) { FILE *f = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); if (chmod(p.c_str(), m)) abort(); }
static bool run(int k) {        // let process k go on to its next system call
    if (W->p[k].state == UP) W->p[k].state = READY;
    sem_post(&W->p[k].go);
    for (int i = 0;; i++) {
        struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 1;
        int r; while ((r = sem_timedwait(&W->sched, &t)) && errno == EINTR) {}
        if (!r) break;
        int st;
        if (waitpid(W->p[k].pid, &st, WNOHANG) == W->p[k].pid) { W->p[k].state = DONE; pbt::fail("crash", "process %d dies (wait status %x): %s", k, st, slurp(strf("%s/o%d.err", base.c_str(), W->p[k].attempt)).substr(0, 1500).c_str()); }
        if (i >= 20) return false;
    }
    if (W->p[k].state == DONE) { int st; waitpid(W->p[k].pid, &st, 0); }
    return true;
}
static int launch(const vector<string> &args, int conf, int attempt, const string &out) {
    int k = W->np++; Proc &p = W->p[k]; p.conf = conf; p.attempt = attempt; p.state = READY; p.status = -1;
    fflush(NULL);
    pid_t q = fork();
    if (q == 0) {
        me = k; pipe_ign = session = false;
        int o = open((out + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), e = open((out + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), n = open("/dev/null", O_RDONLY);
        dup2(n, 0); dup2(o, 1); dup2(e, 2); close(n); close(o); close(e);
        while (sem_wait(&W->p[me].go) && errno == EINTR) {}
        vector<char *> av; for (auto &s : args) av.push_back(strdup(s.c_str())); av.push_back(nullptr);
        optind = 1; opterr = 1; foreground = 0; dosyslog = 1; debug_opt = 0;
        int st = daemon_main((int)args.size(), av.data()); done(st);
    }
    p.pid = q;
    return k;
}
struct Env {
    string d;
    Env() {
        if (!W) W = (World *)mmap(0, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
        W->np = 0; sem_init(&W->sched, 1, 0);
        for (auto &p : W->p) { memset(&p, 0, sizeof p); sem_init(&p.go, 1, 0); }
        uid_now = 0;
        d = pbt::scratch() + strf("/t%d", (int)getpid()); nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); base = d;
        for (auto s : {"", "/etc", "/spool0", "/spool1", "/cwd"}) mkdir((d + s).c_str(), 0755);
        for (int c = 0; c < 2; c++) {
            string f = d + strf("/etc/fcron%d.conf", c);
            spill(f, strf("fcrontabs = %s/spool%d\npidfile = %s/%s\nfifofile = %s/fifo%d\n", d.c_str(), c, d.c_str(), PIDS[c], d.c_str(), c), 0640);
            if (chown(f.c_str(), 0, 1)) abort();
        }
        if (chdir((d + "/cwd").c_str())) abort();
    }
    ~Env() {
        for (int k = 0; k < W->np; k++) if (W->p[k].state != DONE && W->p[k].pid > 0) { kill(W->p[k].pid, SIGKILL); int st; waitpid(W->p[k].pid, &st, 0); }
        if (chdir("/")) {} nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS);
    }
    string pidf(int c) { return d + "/" + PIDS[c]; }
};
#if WHAT == 34
static void prop(Gen &g) {
    Env E;
    bool atomic = g.chance(1, 3), two = g.chance(1, 4);
    for (int c = 0; c < 2; c++) if (g.chance(1, 3)) { string t = g.pick(vector<string>{"", "1234567890123\n", "99999\n", "1\n2\n3\n", "nothing\n", "77", "0"}); spill(E.pidf(c), t); pbt::note("pid file %d left: %s", c, pbt::quote(t).c_str()); }
    pbt::note("%s", atomic ? "one process at a time" : "interleaved");
    int n = (int)g.range(2, g.chance(1, 2) ? 4 : 9), stick = (int)g.range(0, 95), last = -1, held = -1, steps = 0, ups = 0, refusals = 0, deaths = 0, left = n; vector<int> pre;
    if (!atomic && g.chance(1, 2)) for (int k = 0; k < 2; k++) pre.push_back((int)g.range(1, 60));
    vector<string> before(MAXP);
    auto others = [&](int k) { for (int j = 0; j < W->np; j++) if (j != k && W->p[j].conf == W->p[k].conf && W->p[j].attempt != W->p[k].attempt && W->p[j].state != DONE && !W->p[j].refused) return true; return false; };
    vector<int> met(MAXP); vector<char> bg(MAXP);
    auto check = [&] {
        for (int j = 0; j < W->np; j++) {
            Proc &a = W->p[j]; if (a.state == DONE || !a.synced || a.removed) continue;
            for (int k = 0; k < j; k++) { Proc &b = W->p[k]; if (b.state != DONE && b.synced && !b.removed && a.conf == b.conf) pbt::fail("two-daemons", "daemons %d and %d run at the same time with the same configuration", b.attempt, a.attempt); }
            string t = slurp(E.pidf(a.conf)), w = strf("%d\n", (int)a.pid);
            if (t != w) pbt::fail("pid-file", "the pid file of daemon %d holds %s", a.attempt, t.empty() && access(E.pidf(a.conf).c_str(), F_OK) ? "nothing: it does not exist" : (pbt::quote(t).substr(0, 40) + " instead of its pid" + (t.compare(0, w.size(), w) ? "" : " only")).c_str());
        }
    };
    int attempt = 0;
    for (;;) {
        if (steps++ > 600) pbt::fail("hang", "the processes do not end");
        vector<int> can, up;
        for (int k = 0; k < W->np; k++) { if (W->p[k].state == READY) can.push_back(k); if (W->p[k].state == UP) up.push_back(k); }
        for (int x : pre) if (x == steps && last >= 0 && W->p[last].state == READY) { held = last; pbt::note("process %d is held up", last); }
        int c = -1;
        if (atomic) { if (!can.empty()) c = can.back(); }
        else if (!pre.empty()) { if (last >= 0 && last != held && W->p[last].state == READY) c = last; else for (int k : can) if (k != held) { c = k; break; } }
        else if (last >= 0 && W->p[last].state == READY && g.chance((unsigned)stick, 100)) c = last;
        else if (!can.empty() && !g.chance(1, 4)) c = can[g.raw(can.size())];
        if (c < 0) {
            if (left <= 0 || W->np > MAXP - 3) {
                if (!can.empty()) { c = can[0]; held = -1; }
                else if (!up.empty() && g.chance(4, 5)) { W->p[up[0]].cmd = SIGTERM; c = up[0]; pbt::note("daemon %d is told to end", W->p[c].attempt); }
                else break;
            } else {
                left--;
                int what = g.weighted({5, up.empty() ? 0 : 3, up.empty() ? 0 : 1, up.empty() && !can.empty() ? 2 : 0});
                if (what == 3 && held >= 0) { held = -1; }
                if (what == 0 || what == 3) {
                    int conf = two && g.chance(1, 3); bool b = g.chance(1, 2); vector<string> a = {"fcron", "-c", E.d + strf("/etc/fcron%d.conf", conf)}; a.push_back(b ? "-b" : "-f");
                    c = launch(a, conf, attempt, E.d + strf("/o%d", attempt)); bg[attempt] = b;
                    met[attempt] = others(c); before[attempt] = slurp(E.pidf(conf));
                    pbt::note("start %d (process %d) with configuration %d, %s%s", attempt, c, conf, b ? "background" : "foreground", others(c) ? ", another one being there" : "");
                    attempt++;
                } else {
                    c = up[g.raw(up.size())]; Proc &p = W->p[c];
                    if (what == 1) { p.cmd = SIGTERM; pbt::note("daemon %d is told to end", p.attempt); }
                    else { kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); p.state = DONE; p.status = -9; pbt::note("daemon %d is killed", p.attempt); deaths++; continue; }
                }
            }
        }
        Proc &p = W->p[c]; int was = p.state; bool term = p.cmd == SIGTERM; (void)was; (void)term;
        last = c;
        for (int k = 0; k < W->np; k++) if (W->p[k].state != DONE && others(k)) met[W->p[k].attempt] = 1;
        if (!run(c)) pbt::fail("hang", "a process neither ends nor calls the system");
        if (p.state == READY && W->np && W->p[W->np - 1].attempt == p.attempt && p.parent) last = c;
        check();
        if (p.state == UP) { pbt::note("daemon %d is up (process %d)", p.attempt, c); ups++; if (bg[p.attempt] && !p.seen.session) pbt::fail("session", "the daemon in the background did not leave its session"); if (!p.seen.ign_pipe) pbt::fail("sigpipe", "the daemon does not ignore SIGPIPE"); }
        if (p.state == DONE && p.status != -9) {
            if (p.parent) { if (p.status) pbt::fail("status", "the process started in the background returns %d", p.status); continue; }
            string err = slurp(E.d + strf("/o%d.err", p.attempt));
            pbt::note("process %d of start %d ends with status %d", c, p.attempt, p.status);
            if (p.synced) { if (p.status) pbt::fail("status", "the daemon ends with status %d after SIGTERM", p.status); if (atomic && !access(E.pidf(p.conf).c_str(), F_OK)) pbt::fail("pid-file", "the pid file is left after SIGTERM"); }
            else {
                refusals++;
                if (!met[p.attempt]) pbt::fail("refused", "start %d is refused although no daemon is there: %s", p.attempt, pbt::quote(err).c_str());
                if (!p.status) pbt::fail("status", "a refused start ends with status 0");
                if (bg[p.attempt] && !p.nsys) pbt::fail("message", "nothing is logged of a refused start");
                if (!bg[p.attempt] && err.find("lock") == string::npos) pbt::fail("message", "a refused start says %s", pbt::quote(err).c_str());
                if (atomic && !bg[p.attempt] && err.find(strf("%d", atoi(before[p.attempt].c_str()))) == string::npos) pbt::fail("message", "a refused start does not name the running daemon: %s", pbt::quote(err).c_str());
                if (atomic && slurp(E.pidf(p.conf)) != before[p.attempt]) pbt::fail("pid-file", "a refused start changes the pid file");
            }
        }
    }
    pbt::label("starts refused: %d", std::min(refusals, 3)); if (deaths) pbt::label("daemons killed"); if (ups > 1) pbt::label("several daemons, one after the other or with two configurations");
    if (ups && (refusals || ups > 1)) pbt::nontrivial();
}
#else
static void prop(Gen &g) {
    Env E;
    struct Exp { long save = 1800, first = 20; int maxs = 1, q = 30, debug = 0, once = 0, fg = 0, sys = 1; string log, conf; } x;
    enum { RUN, REFUSED, HELP, VERSION, NEWDIR } end = RUN; string why, ndir; int nkind = 0;
    // -c first: nothing of the machine's own configuration is touched
    vector<string> opts = {"-c", E.d + "/etc/fcron0.conf"}; x.conf = opts[1];
    auto arg = [&](char s, const char *l, const string &v) {
        int how = g.weighted({4, 1, 2, 2});
        if (how == 0) { opts.push_back(strf("-%c", s)); opts.push_back(v); } else if (how == 1 && v.size()) opts.push_back(strf("-%c%s", s, v.c_str()));
        else if (how == 2) opts.push_back(strf("--%s=%s", l, v.c_str())); else { opts.push_back(strf("--%s", l)); opts.push_back(v); }
    };
    auto flag = [&](char s, const char *l) { opts.push_back(g.chance(1, 2) ? strf("-%c", s) : strf("--%s", l)); };
    auto number = [&](long lo, long hi, long &v, bool &ok) -> string {
        ok = true;
        switch (g.weighted({6, 3, 2, 2, 2, 2})) {
        case 0: v = g.range(lo, std::min(hi, lo + 4000)); break;
        case 1: v = g.pick(vector<long>{lo, lo + 1, hi, hi - 1}); break;
        case 2: v = g.pick(vector<long>{lo - 1, hi + 1, hi + 2, -1, -lo, LONG_MIN, LONG_MAX}); ok = v >= lo && v <= hi; break;
        case 3: { long m = g.pick(vector<long>{1L << 16, 1L << 32, 1L << 8, 1L << 15, 1L << 31}); v = g.range(lo, std::min(hi, lo + 50)) + m * (g.chance(1, 3) ? -1 : g.range(1, 3)); ok = v >= lo && v <= hi; break; }
        case 4: ok = false; return g.pick(vector<string>{"99999999999999999999", "-99999999999999999999", "18446744073709551676", "18446744073709551617"});
        default: ok = false; return g.pick(vector<string>{"abc", "-", "x60", "ten", "--", "="});
        }
        return strf("%ld", v);
    };
    int n = (int)g.range(0, 6); bool stop = false, user = g.chance(1, 25);
    for (int i = 0; i < n && !stop; i++) {
        long v = 0; bool ok = true;
        switch (g.weighted({3, 3, 3, 2, 3, 3, 3, 3, 3, 2, 2, 1, 1, 2, 1})) {
        case 0: flag('d', "debug"); x.debug = 1; break;
        case 1: flag('f', "foreground"); x.fg = 1; break;
        case 2: flag('b', "background"); x.fg = 0; break;
        case 3: flag('y', "nosyslog"); x.sys = 0; break;
        case 4: { bool rel = g.chance(1, 3); x.log = rel ? "my.log" : E.d + "/" + g.pick(vector<string>{"log1", "log 2"}); arg('p', "logfilepath", x.log); break; }
        case 5: flag('o', "once"); x.once = 1; x.first = 0; break;
        case 6: { string t = number(60, 971859427199, v, ok); arg('s', "savetime", t); if (ok) x.save = v; break; }
        case 7: { string t = number(0, 971859427199, v, ok); arg('l', "firstsleep", t); if (ok) x.first = v; break; }
        case 8: { string t = number(1, SHRT_MAX - 1, v, ok); arg('m', "maxserial", t); if (ok) x.maxs = (int)v; break; }
        case 9: { string t = number(5, SHRT_MAX - 1, v, ok); arg('q', "queuelen", t); if (ok) x.q = (int)v; break; }
        case 10: { int c = (int)g.raw(2); x.conf = E.d + strf("/etc/fcron%d.conf", c); arg('c', "configfile", x.conf); break; }
        case 11: if (g.chance(1, 2)) { flag('h', "help"); end = HELP; } else { flag('V', "version"); end = VERSION; } stop = true; break;
        case 12: { nkind = (int)g.raw(4); ndir = g.chance(1, 2) ? "newspool" : E.d + "/newspool"; arg('n', "newspooldir", ndir); end = NEWDIR; stop = true; break; }
        case 13: { string t; for (int k = 0, m = (int)g.range(2, 4); k < m; k++) switch (g.raw(5)) { case 0: t += 'd'; x.debug = 1; break; case 1: t += 'f'; x.fg = 1; break; case 2: t += 'b'; x.fg = 0; break; case 3: t += 'y'; x.sys = 0; break; default: t += 'o'; x.once = 1; x.first = 0; } opts.push_back("-" + t); break; }
        default: opts.push_back(g.pick(vector<string>{"-z", "--nothing", "-1", "--debug=3", "--save-time=60"})); ok = false; break;
        }
        if (!ok) { end = REFUSED; stop = true; }
    }
    if (!stop && g.chance(1, 12)) { opts.push_back(g.pick(vector<string>{"-s", "-l", "-m", "-q", "-c", "-p", "--savetime", "-n"})); end = REFUSED; stop = true; }
    else if (!stop && g.chance(1, 10)) { opts.insert(opts.begin() + (g.chance(1, 2) ? 0 : opts.size()), g.pick(vector<string>{"start", "x", "60"})); end = REFUSED; stop = true; }
    else if (stop && end == REFUSED) for (int k = (int)g.raw(3); k > 0; k--) opts.push_back(g.pick(vector<string>{"-f", "-d", "-y"}));
    if (user) { uid_now = 1000; end = REFUSED; }
    struct stat s0; string nd = ndir[0] == '/' ? ndir : E.d + "/cwd/" + ndir; bool dirbad = false;
    if (end == NEWDIR) {
        if (nkind == 1) { mkdir(nd.c_str(), 0755); spill(nd + "/inside", "x"); }
        if (nkind == 2) { spill(nd, "a file\n", 0600); dirbad = true; }
        if (nkind == 3) { mkdir(nd.c_str(), 0); if (chown(nd.c_str(), 65534, 65534)) abort(); }
    }
    vector<string> a = {g.chance(1, 2) ? "fcron" : "/usr/sbin/fcron"}; a.insert(a.end(), opts.begin(), opts.end());
    string line; for (auto &t : a) line += " " + (t.size() ? t : "''"); pbt::note("%s%s", line.c_str(), user ? " (by a user)" : "");
    int conf = x.conf.find("fcron1") != string::npos; string stale = g.chance(1, 3) ? "424242424\n" : "";
    if (stale.size()) spill(E.pidf(conf), stale);
    int k = launch(a, conf, 0, E.d + "/o0");
    int up = -1;
    for (int st = 0; up < 0; st++) {
        if (st > 200) pbt::fail("hang", "the process does not end");
        int c = -1; for (int j = W->np - 1; j >= 0; j--) { if (W->p[j].state == READY) { c = j; break; } }
        if (c < 0) break;
        if (!run(c)) pbt::fail("hang", "the process neither ends nor calls the system");
        if (W->p[c].state == UP) { up = c; for (int j = 0; j < c; j++) if (W->p[j].state == READY && W->p[j].parent) while (W->p[j].state != DONE && run(j)) {} }
    }
    string out = slurp(E.d + "/o0.out"), err = slurp(E.d + "/o0.err"); int st = W->p[k].status;
    auto nothing = [&] { if (up >= 0) pbt::fail("started", "the daemon starts although it should not"); for (int c = 0; c < 2; c++) if (slurp(E.pidf(c)) != (c == conf ? stale : "")) pbt::fail("pid-file", "the pid file is changed although no daemon is started"); };
    switch (end) {
    case REFUSED: nothing(); if (!st) pbt::fail("status", "a wrong command line gives status 0"); if (err.empty() && !W->p[k].nsys && x.sys) pbt::fail("message", "a wrong command line is refused without a word"); pbt::label("refused"); pbt::nontrivial(); return;
    case HELP: nothing(); if (err.find("--savetime") == string::npos && out.find("--savetime") == string::npos) pbt::fail("help", "no help is shown: %s", pbt::quote(err).c_str()); return;
    case VERSION: nothing(); if (st) pbt::fail("status", "-V gives status %d", st); if (err.find("fcron") == string::npos && out.find("fcron") == string::npos) pbt::fail("help", "no version is shown"); return;
    case NEWDIR: {
        nothing();
        if (dirbad) { if (!st) pbt::fail("newdir", "status 0 though %s is a file", nd.c_str()); if (stat(nd.c_str(), &s0) || !S_ISREG(s0.st_mode) || (s0.st_mode & 0777) != 0600 || s0.st_uid || slurp(nd) != "a file\n") pbt::fail("newdir", "a file named as new spool directory is changed"); return; }
        if (st) pbt::fail("newdir", "status %d: %s", st, pbt::quote(err).c_str());
        struct passwd *pw = getpwnam("daemon"); struct group *gr = getgrnam("daemon");
        if (lstat(nd.c_str(), &s0) || !S_ISDIR(s0.st_mode)) pbt::fail("newdir", "the directory is not created");
        if ((s0.st_mode & 07777) != 0770 || s0.st_uid != pw->pw_uid || s0.st_gid != gr->gr_gid) pbt::fail("newdir", "the new directory has mode %o, owner %d and group %d", s0.st_mode & 07777, (int)s0.st_uid, (int)s0.st_gid);
        if (nkind == 1 && slurp(nd + "/inside") != "x") pbt::fail("newdir", "the content of the directory is changed");
        pbt::label("new spool directory"); pbt::nontrivial(); return; }
    default: break;
    }
    if (up < 0) pbt::fail("refused", "a valid command line is refused with status %d: %s", st, pbt::quote(err).c_str());
    const Proc &p = W->p[up]; const Seen &s = p.seen;
    if (p.parent || (x.fg ? up != k : up == k)) pbt::fail("background", "the daemon is in the %s", x.fg ? "background" : "foreground");
    if (!x.fg && st) pbt::fail("status", "status %d of the command which started the daemon", st);
    if (s.save != x.save) pbt::fail("value", "tables are saved every %ld s", s.save);
    if (s.first != x.first) pbt::fail("value", "the first sleep is %ld s", s.first);
    if (s.maxs != x.maxs) pbt::fail("value", "%d serial jobs at most", s.maxs);
    if (s.sq != x.q || s.lq != x.q) pbt::fail("value", "the lengths of the queues are %d and %d", s.sq, s.lq);
    if (s.debug != x.debug || s.once != x.once || !!s.sys != x.sys || !!s.fg != x.fg) pbt::fail("value", "debug %d once %d syslog %d foreground %d", s.debug, s.once, s.sys, s.fg);
    if (s.conf != x.conf) pbt::fail("value", "the configuration file is %s", s.conf);
    if (slurp(E.pidf(conf)) != strf("%d\n", (int)p.pid)) pbt::fail("pid-file", "the pid file holds %s", pbt::quote(slurp(E.pidf(conf))).c_str());
    if (x.sys ? !p.nsys : p.nsys) pbt::fail("syslog", "%d messages are sent to syslog", p.nsys);
    if (x.fg ? err.find("started") == string::npos : !err.empty()) pbt::fail("console", "%s on the console", pbt::quote(err).c_str());
    if (x.fg && x.debug && err.find("Entering main loop") == string::npos) pbt::fail("console", "no debug message on the console");
    if (x.fg && !x.debug && err.find("DEBUG") != string::npos) pbt::fail("console", "debug messages without -d");
    if (x.log.size()) {
        string lf = x.log[0] == '/' ? x.log : E.d + "/cwd/" + x.log, t = slurp(lf);
        if (t.find("started") == string::npos) pbt::fail("logfile", "the log file %s holds %s", x.log.c_str(), pbt::quote(t).c_str());
        pbt::label("log file");
    }
    for (int c = 0; c < 2; c++) if (!access((E.d + strf("/spool%d/my.log", c)).c_str(), F_OK)) pbt::fail("logfile", "a log file is made in the spool directory");
    pbt::label(x.fg ? "foreground" : "background");
    W->p[up].cmd = SIGTERM;
    for (int q = 0; W->p[up].state != DONE; q++) if (q > 50 || !run(up)) pbt::fail("hang", "the daemon does not end");
    if (W->p[up].status) pbt::fail("status", "the daemon ends with status %d", W->p[up].status);
    if (!access(E.pidf(conf).c_str(), F_OK)) pbt::fail("pid-file", "the pid file is left after SIGTERM");
    if (n > 1) pbt::nontrivial();
}
#endif
int main(int argc, char **argv) {
    pbt::Config c; c.name = "start"; c.quick = WHAT == 34 ? 30000 : 40000; c.thorough = 400000; c.prop = prop; c.batch = 20;
    return pbt::main(argc, argv, c);
}
