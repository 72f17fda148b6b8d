// A virtual operating system for the daemon: its main() runs in a forked child
// with virtual clocks, processes, signals, load averages and suspends, driven by
// a script; everything it does is recorded in shared memory.
#pragma once
#include "daemonglue.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
extern "C" int daemon_main(int, char **);

enum EvK { E_START = 1, E_STARTFAIL, E_SELECT, E_WAKE, E_REAP, E_REAPEND, E_SIG, E_SUSPEND, E_STEP, E_MAIL, E_LOADREAD, E_SYNC, E_DROP, E_EXIT, E_STUCK, E_NAME, E_KILLED, E_OVERFLOW, E_LOAD, E_DYN, E_DYNEND };
enum ActK { A_TERM, A_KILL, A_HUP, A_USR1, A_USR2, A_SUSPEND, A_STEP, A_LOAD, A_PROCEND, A_DROP, A_DYN };
enum TrigK { T_FORK, T_WAITEND, T_CLOSEDIR, T_LOADAVG };
struct Ev { int kind; int64_t real_us; int64_t a, b; char name[24]; };
struct Act { int64_t at_us; int kind; int64_t a, b; };
struct Mid { int trig; int nth; int kind; int64_t a; bool done; };
struct VProc { int ctrl, job; int64_t end_us; bool ended, reaped, mail; int64_t endseq; char name[24]; };
struct World {
    char tz0[40]; int badtz;      // the daemon's TZ must be that at each sleep
    int64_t mono_us, real_off, boot_off;
    int nact, iact; Act act[400];
    int nmid; Mid mid[8]; int trigcount[8];
    int nproc; VProc proc[3000]; int64_t endseq;
    double load[3];
    int ndur; int64_t dur_us[64]; int istart;
    int nlat; int64_t lat_us[32]; int ilat;
    int nforkfail; int forkfail[64]; int ifork;     // attempts which fail
    int maxselect, nselect;
    int nev; Ev ev[60000];
    int textlen; char text[1 << 20];                // mails
    int64_t now_us() const { return mono_us + real_off; }
};
static World *W;
static bool vos_on = false;         // in the daemon's process
static bool in_mail = false;        // in the child which mails a notrun report
static void (*vos_handler[65])(int);
static bool vos_tfd_rt, vos_tfd_armed;      // a timer which tells about changes of the real-time clock
static int vos_tfd = -1, vos_last_pipe = -1;
static bool vos_tfd_nb = false, vos_watched = false;      // (the last select() asked about it)
static bool vos_tfd_readable() { struct pollfd p = {vos_tfd, POLLIN, 0}; return poll(&p, 1, 0) > 0; }

static void vos_ev(int k, int64_t a = 0, int64_t b = 0, const char *name = "") {
    if (W->nev >= 60000 - 2) { W->ev[W->nev++] = Ev{E_OVERFLOW, W->now_us(), 0, 0, ""}; _exit(0); }
    Ev &e = W->ev[W->nev++];
    e.kind = k; e.real_us = W->now_us(); e.a = a; e.b = b; snprintf(e.name, sizeof e.name, "%s", name);
}
// the names of the processes started meanwhile, from the daemon's list of running jobs
static void vos_resolve() {
    if (!vos_on || in_mail || !exe_list) return;
    for (int i = W->nproc - 1; i >= 0 && i >= W->nproc - 200; i--) {
        VProc &p = W->proc[i];
        if (p.name[0] || p.mail) continue;
        for (int k = 0; k < exe_list->num_entries; k++) {
            exe_t *x = (exe_t *)((char *)exe_list->entries_array + (size_t)k * exe_list->entry_size);
            if (x->e_ctrl_pid == p.ctrl && x->e_line) {
                snprintf(p.name, sizeof p.name, "%s", x->e_line->cl_shell);
                for (int e = W->nev - 1; e >= 0; e--) if (W->ev[e].kind == E_START && W->ev[e].a == p.ctrl) { snprintf(W->ev[e].name, sizeof p.name, "%s", p.name); break; }
                break;
            }
        }
    }
}
static void vos_signal(int sig, bool mid) {
    vos_ev(E_SIG, sig, mid);
    if (vos_handler[sig]) vos_handler[sig](sig);
}
static void vos_end_proc(VProc &p) { p.ended = true; p.endseq = ++W->endseq; if (p.end_us > W->mono_us) p.end_us = W->mono_us; }
static void vos_drop(int64_t k) {
    // the files of change k, as fcrontab installs them
    string d = strf("../pend/%d", (int)k);
    if (DIR *dir = opendir(d.c_str())) {
        while (struct dirent *de = readdir(dir)) {
            string n = de->d_name;
            if (n == "." || n == "..") continue;
            if (n.compare(0, 4, "new.") == 0) unlink(("rm." + n.substr(4)).c_str());
            else unlink(("new." + n.substr(3)).c_str());
            rename((d + "/" + n).c_str(), n.c_str());
        }
        closedir(dir);
    }
    vos_ev(E_DROP, k);
}
// a client of fcrondyn, in the daemon's own process: one command at a time, to the job named job<b>
extern "C" int listen_fd;
static int vos_cl = -1; static bool vos_busy = false; static string vos_reply;
static int vos_dyn(long cmd, long n) {
    if (vos_busy || listen_fd < 0) return 0;
    char b[1];
    if (vos_cl >= 0 && recv(vos_cl, b, 1, MSG_PEEK | MSG_DONTWAIT) == 0) { close(vos_cl); vos_cl = -1; }
    if (vos_cl < 0) {
        struct sockaddr_un a; socklen_t l = sizeof a;
        if (getsockname(listen_fd, (struct sockaddr *)&a, &l) != 0) return 0;
        vos_cl = socket(AF_UNIX, SOCK_STREAM, 0);
        if (connect(vos_cl, (struct sockaddr *)&a, l) != 0) { close(vos_cl); vos_cl = -1; return 0; }
    }
    string name = strf("job%ld", n); long id = 99999999;
    for (cf_t *f = file_base; f; f = f->cf_next) for (cl_t *x = f->cf_line_base; x; x = x->cl_next) if (name == x->cl_shell) id = x->cl_id;
    long m[3] = {cmd, id, 0}; size_t len = 2 * sizeof(long);
    if (cmd == 401 || cmd == 402) { m[1] = cmd == 401 ? SIGURG : 5; m[2] = id; len = sizeof m; }
    else if (cmd < 105) m[1] = -1;
    if (send(vos_cl, m, len, MSG_NOSIGNAL) != (ssize_t)len) return 0;
    vos_busy = true; vos_reply.clear();
    vos_ev(E_DYN, cmd, 0, name.c_str());
    return 4;
}
static void vos_dyn_reply() {
    char b[4096]; ssize_t k;
    while (vos_busy && (k = recv(vos_cl, b, sizeof b, MSG_DONTWAIT)) >= 0) {
        if (k == 0) { vos_ev(E_DYNEND, 0, 1); vos_busy = false; return; }
        vos_reply.append(b, k);
        if (vos_reply.size() >= 3 && !memcmp(vos_reply.data() + vos_reply.size() - 3, "\0\0\0", 3)) { vos_ev(E_DYNEND, 0, 0, vos_reply.c_str()); vos_busy = false; }
    }
}
// returns 1: a signal was delivered, 2: a descriptor became readable, 4: a client sent something
static int vos_act(const Act &a, bool mid) {
    switch (a.kind) {
    case A_TERM: vos_signal(SIGTERM, mid); return 1;
    case A_KILL: vos_ev(E_KILLED); _exit(0);
    case A_DROP: vos_drop(a.a); return 0;
    case A_DYN: return vos_dyn(a.a, a.b);
    case A_HUP: if (a.a >= 0) vos_drop(a.a); vos_signal(SIGHUP, mid); return 1;
    case A_USR1: vos_signal(SIGUSR1, mid); return 1;
    case A_USR2: vos_signal(SIGUSR2, mid); return 1;
    case A_SUSPEND: W->real_off += a.a; W->boot_off += a.a; vos_ev(E_SUSPEND, a.a, a.b);
        if (a.b && vos_tfd >= 0 && vos_tfd_armed) { uint64_t one = 1; (void)!write(vos_tfd, &one, 8); return vos_watched ? 2 : 0; }
        return 0;
    case A_STEP: W->real_off += a.a; vos_ev(E_STEP, a.a);
        if (vos_tfd >= 0 && vos_tfd_armed) { uint64_t one = 1; (void)!write(vos_tfd, &one, 8); return vos_watched ? 2 : 0; }
        return 0;
    case A_LOAD: vos_ev(E_LOAD, a.a); for (int i = 0; i < 3; i++) W->load[i] = (double)((a.a >> (16 * i)) & 0xffff) / 100.0; return 0;
    case A_PROCEND: {
        VProc *best = NULL;
        for (int i = 0; i < W->nproc; i++) { VProc &p = W->proc[i]; if (!p.ended && (!best || p.end_us < best->end_us)) best = &p; }
        if (!best) return 0;
        vos_end_proc(*best); vos_signal(SIGCHLD, mid); return 1;
    }
    }
    return 0;
}
static void vos_mid(int trig) {
    if (!vos_on || in_mail) return;
    int n = W->trigcount[trig]++;
    for (int i = 0; i < W->nmid; i++) if (!W->mid[i].done && W->mid[i].trig == trig && W->mid[i].nth == n) { W->mid[i].done = true; vos_act(Act{0, W->mid[i].kind, W->mid[i].a, 0}, true); }
}
// let the clock reach mono time t; what happens on the way
static int vos_advance(int64_t t, bool stop_first) {
    int got = 0;
    for (;;) {
        int64_t te = INT64_MAX; int what = 0; VProc *vp = NULL;
        for (int i = 0; i < W->nproc; i++) { VProc &p = W->proc[i]; if (!p.ended && p.end_us < te) { te = p.end_us; what = 1; vp = &p; } }
        if (W->iact < W->nact && W->act[W->iact].at_us <= te) { te = W->act[W->iact].at_us; what = 2; }
        if (te > t) { W->mono_us = std::max(W->mono_us, t); return got; }
        W->mono_us = std::max(W->mono_us, te);
        if (what == 1) {
            // everything which ends at that moment
            for (int i = 0; i < W->nproc; i++) if (!W->proc[i].ended && W->proc[i].end_us <= W->mono_us) vos_end_proc(W->proc[i]);
            (void)vp;
            vos_signal(SIGCHLD, false); got |= 1;
        } else got |= vos_act(W->act[W->iact++], false);
        if (stop_first && got) return got;
    }
}
extern "C" {
time_t w_time(time_t *t) { vos_resolve(); time_t r = W->now_us() / 1000000; if (t) *t = r; return r; }
int w_gettimeofday(struct timeval *tv, void *) { vos_resolve(); int64_t u = W->now_us(); tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; return 0; }
int w_clock_gettime(clockid_t c, struct timespec *ts) {
    int64_t u = c == CLOCK_MONOTONIC ? W->mono_us : c == CLOCK_BOOTTIME ? W->mono_us + W->boot_off : W->now_us();
    ts->tv_sec = u / 1000000; ts->tv_nsec = (u % 1000000) * 1000; return 0;
}
int w_select(int n, fd_set *r, fd_set *wr, fd_set *e, struct timeval *tv) {
    vos_resolve();
    { const char *z = getenv("TZ"); if (!W->badtz && strcmp(z ? z : "", W->tz0)) W->badtz = 1 + W->nev; }
    vos_dyn_reply();
    int64_t to = tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1;
    vos_ev(E_SELECT, to, tv ? tv->tv_usec : 0);
    if (++W->nselect > W->maxselect) { vos_ev(E_STUCK); _exit(0); }
    if (to < 0) to = (int64_t)1 << 60;
    const bool watched = vos_watched = vos_tfd >= 0 && FD_ISSET(vos_tfd, r);
    int got = watched && vos_tfd_readable() ? 2 : 0;      // what has not been read is still there
    fd_set want = *r; if (vos_tfd >= 0) FD_CLR(vos_tfd, &want);
    auto ready = [&]() -> int { struct timeval z = {0, 0}; fd_set x = want; int k = select(n, &x, NULL, NULL, &z); if (k > 0) *r = x; return k > 0 ? k : 0; };
    if (!got && vos_cl >= 0) if (int k = ready()) { vos_ev(E_WAKE, 4); return k; }
    if (!got) got = vos_advance(W->mono_us + to, true);
    if (!got) {
        int64_t lat = W->nlat ? W->lat_us[W->ilat++ % W->nlat] : 0;
        if (lat) got = vos_advance(W->mono_us + lat, false) & 2;   // the signals meanwhile only set flags
        vos_ev(E_WAKE, 0, lat);
        FD_ZERO(r);
        if (got & 2 && watched) { FD_SET(vos_tfd, r); return 1; }
        return 0;
    }
    vos_ev(E_WAKE, got);
    if (got == 4) return ready();
    if (got & 2 && watched) { FD_ZERO(r); FD_SET(vos_tfd, r); return 1; }
    errno = EINTR;                                        // the sets are left as they were
    return -1;
}
int w_pipe(int fd[2]) { int r = pipe(fd); if (!in_mail && r == 0) vos_last_pipe = fd[1]; return r; }
// the pid file is the lock against another daemon: nothing may be done once it has been removed
static int vos_unlock = 0;
static int vos_removed(const char *p, int r) { size_t n = strlen(p); if (!in_mail && n >= 9 && !strcmp(p + n - 9, "fcron.pid") && r == 0) vos_unlock |= 1; return r; }
static void vos_work() { if (!in_mail && vos_unlock & 1) vos_unlock |= 2; }
int w_remove(const char *p) { return vos_removed(p, remove(p)); }
int w_unlink(const char *p) { return vos_removed(p, unlink(p)); }
int w_rename(const char *a, const char *b) { vos_work(); return rename(a, b); }
pid_t w_fork(void) {
    vos_work();
    if (in_mail) return fork();
    vos_resolve();
    if (W->nproc >= 2999) { vos_ev(E_OVERFLOW); _exit(0); }
    if (vos_last_pipe < 0) {
        // a report of non-execution: let the child write it, into the shared memory
        pid_t p = fork();
        if (p == 0) { in_mail = true; return 0; }
        int st = 0; waitpid(p, &st, 0);
        VProc &v = W->proc[W->nproc++]; memset(&v, 0, sizeof v);
        v.ctrl = 1000000 + W->nproc * 2; v.mail = true; v.end_us = W->mono_us + 1000000; strcpy(v.name, "(mail)");
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) vos_ev(E_MAIL, -1, st);
        return v.ctrl;
    }
    int wfd = vos_last_pipe; vos_last_pipe = -1;
    int k = W->ifork++;
    for (int i = 0; i < W->nforkfail; i++) if (W->forkfail[i] == k) { vos_ev(E_STARTFAIL); errno = EAGAIN; vos_mid(T_FORK); return -1; }
    VProc &v = W->proc[W->nproc++]; memset(&v, 0, sizeof v);
    v.ctrl = 1000000 + W->nproc * 2; v.job = v.ctrl + 1;
    v.end_us = W->mono_us + (W->ndur ? W->dur_us[W->istart % W->ndur] : 1000000); W->istart++;
    vos_ev(E_START, v.ctrl);
    pid_t j = v.job; (void)!write(wfd, &j, sizeof j);
    vos_mid(T_FORK);
    return v.ctrl;
}
pid_t w_waitpid(pid_t pid, int *st, int opt) {
    if (in_mail) return waitpid(pid, st, opt);
    vos_resolve();
    for (;;) {
        VProc *best = NULL; bool any = false;
        for (int i = 0; i < W->nproc; i++) { VProc &p = W->proc[i]; if (!p.ended) any = true; else if (!p.reaped && (!best || p.endseq < best->endseq)) best = &p; }
        if (best) { vos_work(); best->reaped = true; if (st) *st = 0; vos_ev(E_REAP, best->ctrl, opt & WNOHANG ? 1 : 0, best->name); return best->ctrl; }
        if (opt & WNOHANG) { vos_ev(E_REAPEND); vos_mid(T_WAITEND); if (any) return 0; errno = ECHILD; return -1; }
        if (!any) { errno = ECHILD; return -1; }
        int64_t te = INT64_MAX;
        for (int i = 0; i < W->nproc; i++) if (!W->proc[i].ended) te = std::min(te, W->proc[i].end_us);
        W->mono_us = std::max(W->mono_us, te);
        for (int i = 0; i < W->nproc; i++) if (!W->proc[i].ended && W->proc[i].end_us <= W->mono_us) vos_end_proc(W->proc[i]);
        vos_signal(SIGCHLD, true);
    }
}
int w_kill(pid_t p, int s) { vos_ev(E_SIG, -s, p); return 0; }
int w_setpriority(int, id_t, int) { return 0; }
void w_exit(int st) { if (in_mail) _exit(43); vos_resolve(); vos_ev(E_EXIT, st, vos_unlock); fflush(NULL); _exit(0); }
int w_sigaction(int s, const struct sigaction *n, struct sigaction *o) { if (n) vos_handler[s] = n->sa_handler == SIG_IGN || n->sa_handler == SIG_DFL ? NULL : n->sa_handler; return 0; }
void (*w_signal(int, void (*)(int)))(int) { return SIG_DFL; }
// a timer without TFD_NONBLOCK about which there is nothing to tell: the daemon would wait for ever
ssize_t w_read(int fd, void *b, size_t n) { if (!in_mail && fd >= 0 && fd == vos_tfd && !vos_tfd_nb && !vos_tfd_readable()) { vos_ev(E_STUCK); _exit(0); } return read(fd, b, n); }
int w_timerfd_create(int c, int fl) { vos_tfd_nb = fl & TFD_NONBLOCK; vos_tfd_rt = c == CLOCK_REALTIME; vos_tfd_armed = false; vos_tfd = eventfd(0, EFD_NONBLOCK); return vos_tfd; }
int w_timerfd_settime(int fd, int fl, const struct itimerspec *v, struct itimerspec *) {
    const int both = TFD_TIMER_ABSTIME | TFD_TIMER_CANCEL_ON_SET;
    vos_tfd_armed = fd == vos_tfd && vos_tfd_rt && (fl & both) == both && (v->it_value.tv_sec || v->it_value.tv_nsec) && v->it_value.tv_sec > 5000000000L;     // (an earlier one would expire)
    return 0;
}
int w_getloadavg(double *l, int n) { vos_resolve(); for (int i = 0; i < n && i < 3; i++) l[i] = W->load[i]; vos_ev(E_LOADREAD, (int64_t)(W->load[0] * 100 + .5) | (int64_t)(W->load[1] * 100 + .5) << 16 | (int64_t)(W->load[2] * 100 + .5) << 32); vos_mid(T_LOADAVG); return 3; }
DIR *w_opendir(const char *p) { if (!in_mail && !strcmp(p, ".")) { vos_resolve(); vos_ev(E_SYNC); } return opendir(p); }
int w_closedir(DIR *d) { int r = closedir(d); vos_mid(T_CLOSEDIR); return r; }
int w_rand(void) { static uint32_t s = 12345; s = s * 1103515245u + 12345; return (s >> 1) & 0x3fffffff; }
void w_srand(unsigned) {}
int w_setsid(void) { return 0; }
int w_fdatasync(int) { return 0; }
int w_gethostname(char *b, size_t n) { snprintf(b, n, "host.test"); return 0; }
int w_initgroups(const char *, gid_t) { return 0; }
int w_setgid(gid_t) { return 0; }
int w_setuid(uid_t) { return 0; }
int w_pam_start(const char *, const char *, const void *, void **h) { *h = (void *)1; return 0; }
int w_pam_x(void *, int) { return 0; }
int w_pam_authenticate(void *, int) { return 0; }
int w_pam_acct_mgmt(void *, int) { return 0; }
int w_pam_setcred(void *, int) { return 0; }
int w_pam_open_session(void *, int) { return 0; }
int w_pam_close_session(void *, int) { return 0; }
int w_pam_end(void *, int) { return 0; }
char **w_pam_getenvlist(void *) { return NULL; }
int w_is_selinux_enabled(void) { return 0; }
int w_execle(const char *path, const char *, ...) {
    // sendmail: the message is standard input
    if (!in_mail) _exit(44);
    int start = W->textlen; ssize_t r;
    if (start > (int)sizeof(W->text) - 65536) { vos_ev(E_OVERFLOW); _exit(42); }
    while (W->textlen < (int)sizeof(W->text) - 1 && (r = read(0, W->text + W->textlen, sizeof(W->text) - 1 - W->textlen)) > 0) W->textlen += (int)r;
    W->text[W->textlen] = 0;
    vos_ev(E_MAIL, start, W->textlen - start);
    _exit(42);
}
}
#define VOS_WRAP "time gettimeofday clock_gettime select pipe fork waitpid kill setpriority exit sigaction signal timerfd_create timerfd_settime getloadavg opendir closedir rand srand setsid fdatasync gethostname initgroups setgid setuid pam_start pam_authenticate pam_acct_mgmt pam_setcred pam_open_session pam_close_session pam_end pam_getenvlist is_selinux_enabled execle syslog openlog closelog"

static void vos_init() { if (!W) W = (World *)mmap(NULL, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
// run the daemon in dir (holding fcron.conf and spool/) until it ends; the events are in W->ev
static void vos_run(const string &dir, vector<string> args) {
    { const char *z = getenv("TZ"); snprintf(W->tz0, sizeof W->tz0, "%s", z ? z : ""); W->badtz = 0; }
    W->nev = 0; W->nselect = 0; W->nproc = 0; W->endseq = 0; W->textlen = 0; W->istart = W->ilat = W->ifork = 0; memset(W->trigcount, 0, sizeof W->trigcount);
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        vos_on = true;
        if (chdir(dir.c_str()) != 0) _exit(70);
        int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1);
        if (!pbt::noting() || !getenv("VOS_STDERR")) dup2(nul, 2);
        vector<char *> av; static string store[32]; int i = 0;
        store[i++] = "fcron";
        for (auto &a : args) store[i++] = a;
        for (int k = 0; k < i; k++) av.push_back((char *)store[k].c_str());
        av.push_back(NULL);
        optind = 1;
        daemon_main(i, av.data());
        _exit(71);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    if (WEXITSTATUS(st) == 77) _exit(77);
    if (WEXITSTATUS(st) == 99) _exit(99);
    if (W->badtz) pbt::fail("zone-changed", "the daemon sleeps with another TZ than it was started with (%s), event %d", W->tz0, W->badtz - 1);
    if (WEXITSTATUS(st) != 0) pbt::fail("daemon-exit", "the daemon's process ended with status %d", WEXITSTATUS(st));
}
