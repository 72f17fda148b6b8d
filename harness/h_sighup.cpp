// C32: fcronsighup's real main(), several at a time: each process runs from one system call to the next when it is told to.
#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <ftw.h>
#include <climits>
#include <pwd.h>
using std::string; using std::vector; using pbt::Gen; using pbt::strf;
#ifndef DELAY
#define DELAY 60
#endif
extern "C" { int sig_main(int, char **); extern char *prog_name; extern char debug_opt; extern int dosyslog; }
enum { READY, SLEEPING, DONE };
static const int MAXP = 48, MAXE = 400;
struct Proc { sem_t go; int state; long until; int inv; bool child; int status; pid_t pid; int euid; bool atpid; };
struct Ev { int kind, inv, pid, sig, euid; long now; bool child; };
enum { K_START, K_KILL, K_SLEEP, K_DEAD, K_DAEMON };
struct World { sem_t sched; long now, late; int np, ne; int alive; Proc p[MAXP]; Ev e[MAXE]; };
static World *W;
static int me, uid_now; static bool fork_fails;
static void ev(int k, int pid = 0, int sig = 0) { if (W->ne < MAXE) W->e[W->ne++] = Ev{k, W->p[me].inv, pid, sig, W->p[me].euid, W->now, W->p[me].child}; }
static void yield() { sem_post(&W->sched); while (sem_wait(&W->p[me].go) && errno == EINTR) {} }
static void done(int st) { W->p[me].state = DONE; W->p[me].status = st; fflush(NULL); sem_post(&W->sched); _exit(0); }
extern "C" {
uid_t w_getuid(void) { return uid_now; }
int w_seteuid(uid_t u) { if (W->p[me].euid != 0 && (int)u != W->p[me].euid && u != 0) { errno = EPERM; return -1; } W->p[me].euid = u; return 0; }
int w_setegid(gid_t) { return 0; }
time_t w_time(time_t *t) { if (t) *t = W->now; return W->now; }
void w_exit(int st) { done(st); }
void w_syslog(int, const char *f, ...) { pbt_format(f); }
void w_openlog(const char *, int, int) {}
void w_closelog(void) {}
int w_audit_open(void) { return open("/dev/null", O_RDONLY); }
int w_audit_log_user_message(int, int, const char *, const char *, const char *, const char *, int) { return 1; }
pid_t w_fork(void) {
    if (fork_fails) { errno = EAGAIN; return -1; }
    int k = W->np++; Proc &c = W->p[k]; c.inv = W->p[me].inv; c.child = true; c.euid = W->p[me].euid; c.state = READY; c.status = -1;
    pid_t p = fork();
    if (p == 0) { me = k; while (sem_wait(&c.go) && errno == EINTR) {} return 0; }
    c.pid = p;
    return p;
}
unsigned w_sleep(unsigned s) { ev(K_SLEEP, s); W->p[me].state = SLEEPING; W->p[me].until = W->now + s + W->late; yield(); return 0; }
int w_usleep(unsigned) { yield(); return 0; }
int w_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); yield(); return open(p, f, m); }
int w_flock(int fd, int op) { yield(); return flock(fd, op); }
int w_lockf(int fd, int op, off_t n) { yield(); return lockf(fd, op, n); }
int w_close(int fd) { yield(); return close(fd); }
int w_fclose(FILE *f) { yield(); return fclose(f); }
int w_remove(const char *p) { yield(); return remove(p); }
int w_unlink(const char *p) { yield(); return unlink(p); }
FILE *w_fopen(const char *p, const char *m) { yield(); return fopen(p, m); }
int w_kill(pid_t p, int s) { ev(K_KILL, p, s); if (p != W->alive) { errno = ESRCH; return -1; } return 0; }
int w_rand(void) { return 1; }
}
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static bool run(int k) {        // let process k go on to its next system call
    if (W->p[k].state == SLEEPING) W->p[k].state = READY;
    sem_post(&W->p[k].go);
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 20;
    while (sem_timedwait(&W->sched, &t)) if (errno != EINTR) return false;
    return true;
}
static string slurp(const string &p) { string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spill(const string &p, const string &t, mode_t m = 0644) { FILE *f = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); if (chmod(p.c_str(), m)) abort(); }
struct Inv { int uid; long at; vector<string> args; bool denied, unknown, usage; int root = 0; bool running = false; string out; long start = -1, first = -1; int proc = -1; bool excused = false, forkfail = false; };
static const struct { int uid; const char *n; } USERS[] = {{2, "bin"}, {8, "mail"}, {5, "games"}, {65534, "nobody"}, {0, "root"}, {4242, ""}};
static void prop(Gen &g) {
    if (!W) W = (World *)mmap(0, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    W->np = W->ne = 0; W->late = 0; sem_init(&W->sched, 1, 0);
    for (auto &p : W->p) { memset(&p, 0, sizeof p); sem_init(&p.go, 1, 0); }
    string d = pbt::scratch() + strf("/s%d", (int)getpid()); nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS);
    for (auto s : {"", "/etc", "/spool", "/other"}) mkdir((d + s).c_str(), 0755);
    if (chdir(d.c_str())) abort();
    struct Clean { string d; ~Clean() { if (chdir("/")) {} nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); } } clean{d};
    bool alt = g.chance(1, 3);      // a configuration named on the command line
    string spool = alt ? "other" : "spool", pidf = alt ? "other.pid" : "run.pid", deny = alt ? "etc/other.deny" : "etc/my.deny";
    string conf = "fcrontabs = spool\npidfile = run.pid\nfcrondeny = etc/my.deny\nfcronallow = etc/none\n", conf2 = "fcrontabs = other\npidfile = other.pid\nfcrondeny = etc/other.deny\nfcronallow = etc/none\n";
    spill("etc/fcron.conf", conf, 0640); spill("etc/other.conf", conf2, 0640);
    if (chown("etc/fcron.conf", 0, 1) || chown("etc/other.conf", 0, 1)) abort();
    vector<bool> denied; string dt;
    for (auto &u : USERS) { bool b = g.chance(1, 5); denied.push_back(b); if (b && *u.n) dt += string(u.n) + "\n"; }
    spill(deny, dt); spill(alt ? "etc/my.deny" : "etc/other.deny", "all\n");
    bool atomic = g.chance(1, 3); std::vector<int> preempt; if (!atomic && g.chance(2, 3)) for (int k = 0; k < 3; k++) preempt.push_back((int)g.range(1, 90)); int held = -1; int stick = g.chance(1, 4) ? 0 : (int)g.range(50, 95); bool tie = g.chance(1, 2);
    if (g.chance(1, 4)) { spill(spool + "/fcrontab.sig", ""); }      // left by a process which died
    string text; auto setpid = [&](int how) {
        W->alive = 0; text = "";
        switch (how) {
        case 0: { int p = (int)g.range(2, 99999); text = strf("%d\n", p); W->alive = p; break; }
        case 1: unlink(pidf.c_str()); return;
        case 2: text = strf("%d\n", (int)g.range(100000, 199999)); break;      // died without removing it
        case 3: text = g.pick(vector<string>{"", "abc\n", "\n"}); break;
        }
        spill(pidf, text);
    };
    auto pidof = [&] { return access(pidf.c_str(), F_OK) ? 0 : atoi(text.c_str()); };
    int how = g.weighted({12, 1, 1, 1}); setpid(how);
    if (!alt && g.chance(1, 3)) spill("other.pid", "77\n");
    W->now = 1700000000 - 1700000000 % 60 + g.range(0, 59);
    int n = (int)g.range(1, g.chance(1, 2) ? 3 : 8); long t = W->now;
    vector<Inv> I;
    for (int i = 0; i < n; i++) {
        Inv v{}; int u = g.weighted({6, 5, 4, 3, 2, 1}); v.uid = USERS[u].uid; v.denied = denied[u]; v.unknown = !*USERS[u].n; v.root = v.uid == 0;
        if (i) switch (g.weighted({4, 2, 4, 1})) { case 1: t += g.range(1, 5); break; case 2: if (int w = g.weighted({3, 1, 1})) t += w == 1 ? 49 - t % 60 + (t % 60 > 49 ? 60 : 0) : 51 - t % 60 + (t % 60 > 51 ? 60 : 0); else t += DELAY == 60 ? 50 - t % 60 + (t % 60 >= 50 ? 60 : 0) : DELAY; break; case 3: t += g.range(0, 70); }
        v.at = t; v.args = {"fcronsighup"}; if (alt) v.args.push_back("etc/other.conf"); else if (g.chance(1, 4)) v.args.push_back("etc/fcron.conf");
        if (g.chance(1, 20)) { v.usage = true; while (v.args.size() < 3) v.args.push_back("x"); }
        if (g.chance(1, 15) && !v.root) v.forkfail = true;
        I.push_back(v);
    }
    int chg = g.chance(1, 4) ? 1 : 0; long chgat = W->now + g.range(0, t - W->now + 60); int chghow = g.weighted({3, 3, 1});
    int killat = g.chance(1, 6) ? (int)g.range(0, 60) : -1;     // a process is ended
    int step = 0; size_t nexti = 0; int last = -1;
    pbt::note("%s%s, daemon %d, pid file %s, clock at second %ld, users denied: %s", atomic ? "one process at a time" : "interleaved", alt ? ", other configuration" : "", W->alive, pbt::quote(text).c_str(), W->now % 60, pbt::quote(dt).c_str());
    if (chg) pbt::note("at %+ld the daemon is %s", chgat - W->now, chghow == 0 ? "restarted" : chghow == 1 ? "stopped" : "killed");
    long t0 = W->now;
    for (;;) {
        if (step++ > 3000) pbt::fail("hang", "the processes do not end");
        if (chg && W->now >= chgat && !(atomic && last >= 0 && W->p[last].state == READY)) { chg = 0; setpid(chghow); W->p[MAXP - 1].inv = -1; me = MAXP - 1; ev(K_DAEMON); }
        vector<int> can;
        for (int k = 0; k < W->np; k++) if (W->p[k].state == READY || (W->p[k].state == SLEEPING && W->p[k].until <= W->now)) can.push_back(k);
        if (killat == step && !can.empty()) {
            int k = can[g.raw(can.size())]; kill(W->p[k].pid, SIGKILL); usleep(500); W->p[k].state = DONE; W->p[k].status = -9; me = k; ev(K_DEAD); pbt::note("%+ld: the process of invocation %d%s is killed", W->now - t0, W->p[k].inv, W->p[k].child ? " (child)" : "");
            for (auto &v : I) if (v.first < 0) v.excused = true;
            int st; waitpid(W->p[k].pid, &st, WNOHANG); continue;
        }
        for (int x : preempt) if (x == step && last >= 0 && W->p[last].state != DONE) { held = last; pbt::note("%+ld: the process of invocation %d%s is held up", W->now - t0, W->p[last].inv, W->p[last].child ? " (child)" : ""); }
        bool fresh = nexti < I.size() && I[nexti].at <= W->now;
        int c = -1;
        if (atomic && last >= 0 && W->p[last].state == READY) c = last;     // to its end or its sleep
        else if (atomic && !can.empty()) { c = can[0]; for (int k : can) if (W->p[k].child && W->p[k].state == READY) { c = k; break; } if (fresh && tie && W->p[c].state == SLEEPING) c = -1; }
        else if (!atomic && last >= 0 && W->p[last].state == READY && g.chance((unsigned)stick, 100)) c = last;
        else if (!can.empty() && !(fresh && g.chance(1, 3))) c = can[g.raw(can.size())];
        if (!preempt.empty()) {      // in order, but for the process held up until nothing else can be done
            c = -1; if (last >= 0 && last != held && W->p[last].state == READY) c = last; else for (int k : can) if (k != held) { c = k; break; }
            if (c < 0 && !fresh && !can.empty()) { c = can[0]; held = -1; }
        }
        if (c < 0 && fresh) {
            Inv &v = I[nexti]; int k = W->np++; Proc &p = W->p[k]; p.inv = (int)nexti; p.child = false; p.euid = 0; p.state = READY; p.status = -1; v.proc = k; v.start = W->ne;
            v.running = pidof() != 0; nexti++;
            pbt::note("%+ld: invocation %d of uid %d%s%s", W->now - t0, p.inv, v.uid, v.usage ? " with too many arguments" : "", v.forkfail ? ", fork fails" : "");
            me = k; ev(K_START);
            string o = strf("out%d", p.inv); fflush(NULL);
            pid_t q = fork();
            if (q == 0) {
                me = k; uid_now = v.uid; int f = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(f, 2); close(f);
                while (sem_wait(&W->p[me].go) && errno == EINTR) {}
                fork_fails = v.forkfail;
                vector<char *> av; for (auto &s : v.args) av.push_back((char *)s.c_str()); av.push_back(nullptr);
                dosyslog = 0; debug_opt = 0;
                int st = sig_main((int)v.args.size(), av.data()); done(st);
            }
            p.pid = q; last = k; continue;
        }
        if (c < 0) {
            long nx = nexti < I.size() ? I[nexti].at : LONG_MAX;
            for (int k = 0; k < W->np; k++) if (W->p[k].state == SLEEPING) nx = std::min(nx, W->p[k].until);
            if (chg) nx = std::min(nx, std::max(chgat, W->now + 1));
            if (nx == LONG_MAX) break;
            W->now = std::max(nx, W->now); continue;
        }
        int was = W->ne; last = c;
        if (!run(c)) pbt::fail("hang", "a process neither ends nor calls the system");
        if (W->p[c].state == DONE) { int st; waitpid(W->p[c].pid, &st, WNOHANG); }
        for (int j = was; j < W->ne; j++) {
            Ev &e = W->e[j]; Inv &v = I[e.inv];
            if (e.kind == K_KILL) {
                pbt::note("%+ld: invocation %d sends signal %d to %d", e.now - t0, e.inv, e.sig, e.pid);
                if (e.sig != SIGHUP) pbt::fail("signal", "signal %d is sent", e.sig);
                if (e.pid != pidof()) pbt::fail("signal", "a signal is sent to %d but the pid file says %s", e.pid, pbt::quote(text).c_str());
                if (e.euid != 0) pbt::fail("privilege", "the signal is sent as user %d", e.euid);
                if (v.denied || v.unknown || v.usage) pbt::fail("unauthorised", "a user who may not use fcron signals the daemon");
                for (auto &x : I) if (x.start >= 0 && x.start <= j && x.first < 0) x.first = j;
            }
            if (e.kind == K_SLEEP) {
                pbt::note("%+ld: invocation %d waits %d s", e.now - t0, e.inv, e.pid);
                if (!e.child) pbt::fail("blocked", "fcronsighup waits %d s before returning", e.pid);
                if (v.denied || v.unknown || v.usage) pbt::fail("unauthorised", "a user who may not use fcron gets a process waiting");
                if (atomic) for (int k = 0; k < W->np; k++) if (k != c && W->p[k].state == SLEEPING) pbt::fail("several", "invocations %d and %d are both waiting", W->p[k].inv, e.inv);
            }
        }
    }
    for (int k = 0; k < W->np; k++) { int st; kill(W->p[k].pid, 0); waitpid(W->p[k].pid, &st, WNOHANG); }
    // what has come of each
    bool changed = false; for (int j = 0; j < W->ne; j++) if (W->e[j].kind == K_DAEMON) changed = true;
    for (size_t i = 0; i < I.size(); i++) {
        Inv &v = I[i]; int st = W->p[v.proc].status; string o = slurp(strf("out%zu", i)); int kills = 0;
        if (st == -9) continue;
        for (int j = 0; j < W->ne; j++) if (W->e[j].kind == K_KILL && W->e[j].inv == (int)i) kills++;
        if (kills > 1) pbt::fail("signal", "one invocation sends %d signals", kills);
        if (v.denied || v.unknown || v.usage) { if (!st) pbt::fail("status", "a refused invocation ends with status 0"); continue; }
        if (changed) { if (v.start >= 0 && v.first < 0) continue; }
        else if (!v.running) {
            if (kills) pbt::fail("signal", "a signal is sent though there is no daemon");
            if (st) pbt::fail("status", "status %d though the daemon is just not running", st);
            if (o.find("not running") == string::npos) pbt::fail("message", "the user is told %s though the daemon is not running", pbt::quote(o).c_str());
            continue;
        }
        if (v.forkfail && !v.root && DELAY && (!changed || st)) { if (!st) pbt::fail("status", "status 0 though fork() failed"); continue; }
        if (v.excused) continue;
        if (v.root || DELAY == 0) {
            if (!changed && !kills) pbt::fail("lost", "root's invocation %zu does not signal the daemon", i);
            if (!changed && st != (W->alive ? 0 : st)) pbt::fail("status", "status %d", st);
            if (!changed && !W->alive && !st) pbt::fail("status", "status 0 though the daemon could not be signalled");
            continue;
        }
        if (changed) continue;
        if (st) pbt::fail("status", "status %d: %s", st, pbt::quote(o).c_str());
        int h, mi, s; size_t at = o.find("into account at ");
        if (at == string::npos || sscanf(o.c_str() + at + 16, "%d:%d:%d", &h, &mi, &s) != 3) pbt::fail("message", "no time is announced: %s", pbt::quote(o).c_str());
        long e = h * 3600 + mi * 60 + s - v.at % 86400; if (e < 0) e += 86400;
        if (DELAY == 60 && s != 50) pbt::fail("delay", "the change is announced for second %d", s);
        if (e > DELAY || e < 1) pbt::fail("delay", "the change is announced for %ld s later", e);
        if (v.first < 0) pbt::fail("lost", "the daemon is never signalled after invocation %zu", i);
        if (W->e[v.first].now > v.at + e) pbt::fail("late", "announced for %+ld, signalled at %+ld", v.at + e - t0, W->e[v.first].now - t0);
        pbt::label("signalled");
        if (W->e[v.first].inv != (int)i) pbt::label("signalled by another invocation");
    }
    if (atomic && killat < 0) {
        // never signalled more often than the waits allow: not twice in the same second for users
        long prev = -1; for (int j = 0; j < W->ne; j++) if (W->e[j].kind == K_KILL && W->e[j].child) { if (W->e[j].now == prev) pbt::fail("often", "users signal the daemon twice at %+ld", prev - t0); prev = W->e[j].now; }
    }
    bool waiting = false; for (int j = 0; j < W->ne; j++) if (W->e[j].kind == K_SLEEP) waiting = true;
    if (killat < 0 && waiting && !access((spool + "/fcrontab.sig").c_str(), F_OK)) pbt::label("lock file left");
    if (waiting && n > 1) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "sighup"; c.quick = 12000; c.thorough = 500000; c.prop = prop; c.batch = 20;
    return pbt::main(argc, argv, c);
}
