// C30: the text of log messages at every destination.
#define OWN_SYSLOG
#include "daemonglue.hpp"

#include <sys/socket.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <syslog.h>
extern "C" {
#include "log.h"
extern char *logfile_path; extern int dosyslog; extern pid_t daemon_pid;
}

struct Exit { int st; };
extern "C" int w_rand(void) { return 1; }
static vector<std::pair<int, string>> sys;
extern "C" void w_syslog(int p, const char *f, ...) {
    va_list a; va_start(a, f); char *s; int n = vasprintf(&s, f, a); va_end(a);
    sys.push_back({p, string(s, n)}); free(s);
}
extern "C" time_t w_time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
extern "C" void w_exit(int st) { throw Exit{st}; }
extern "C" const char *w_pam_strerror(void *, int e) { static char b[400]; memset(b, 'P', sizeof b); b[e] = 0; return b; }
extern "C" int w_pam_end(void *, int) { return 0; }
static string slurp_fd(int fd) { string s; char b[8192]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static string str(Gen &g) {
    static const string A = "abc%sn$\\ \t\xc3\xa9'\"";
    int n = g.chance(1, 2) ? (int)g.range(MAX_MSG - 25, MAX_MSG + 25) : g.chance(1, 4) ? (int)g.range(0, 3000) : (int)g.range(0, 60);
    string s; if (g.chance(1, 2)) s = "%s%n%d%1$*2$x";
    if ((int)s.size() > n) s.resize(n);
    if (n > 100) s += string(n - s.size(), (char)('a' + g.raw(26))); else while ((int)s.size() < n) s += A[g.raw(A.size())];
    return s;
}
enum { F_ERR = 1, F_FD = 2, F_PAM = 4, F_EXIT = 8, F_ONLYFD = 16 };
static const struct { const char *n; int prio; const char *type; int fl; } FN[] = {
    {"explain", 0, " INFO", 0}, {"explain_fd", 0, " INFO", F_FD}, {"explain_e", 0, " INFO", F_ERR}, {"warn", 1, " WARN", 0}, {"warn_fd", 1, " WARN", F_FD}, {"warn_e", 1, " WARN", F_ERR},
    {"error", 2, "ERROR", 0}, {"error_fd", 2, "ERROR", F_FD}, {"error_e", 2, "ERROR", F_ERR}, {"Debug", 3, "DEBUG", 0}, {"die", 2, "ERROR", F_EXIT}, {"die_e", 2, "ERROR", F_EXIT | F_ERR},
    {"send_msg_fd", -1, "", F_FD | F_ONLYFD}, {"send_msg_fd_debug", 3, "", F_FD | F_ONLYFD}, {"error_pame", 2, "ERROR", F_PAM}};
static void prop(Gen &g) {
    int prios[] = {EXPLAIN_LEVEL, WARNING_LEVEL, COMPLAIN_LEVEL, DEBUG_LEVEL};
    int n = (int)g.range(1, 4);
    dosyslog = g.chance(3, 4); foreground = g.chance(1, 2); debug_opt = g.chance(1, 2); bool tofile = g.chance(1, 2);
    daemon_pid = g.chance(1, 2) ? getpid() : 1;
    string fpath = pbt::scratch() + strf("/log.%d", (int)getpid()), epath = pbt::scratch() + strf("/err.%d", (int)getpid());
    unlink(fpath.c_str()); unlink(epath.c_str());
    xcloselog(); sys.clear();
    logfile_path = tofile ? strdup(fpath.c_str()) : nullptr;
    fflush(stderr);
    int save2 = dup(2), efd = open(epath.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(efd, 2);
    struct Restore { int s, e; ~Restore() { fflush(stderr); dup2(s, 2); close(s); close(e); xcloselog(); } };
    vector<string> wfull, wtype; vector<int> wprio; string fdgot, fdwant; vector<int> wsys; string why;
    vector<string> fdmsgs; bool done = false;
    {
        Restore rs{save2, efd};
        int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) abort();
        for (int i = 0; i < n && !done; i++) {
            int k = (int)g.raw(sizeof FN / sizeof FN[0]); const auto &F = FN[k];
            static const char *FMT[] = {"%s", "job '%s' ended", "%s: %d", "%-20s|%5d|", "%.40s %lx", "'%s'"};
            int f = (int)g.raw(6); string a = str(g); long x = g.range(-100000, 100000); int err = (int)g.pick(vector<int64_t>{ENOENT, EACCES, EINVAL, 0, EILSEQ, 9999}), pl = (int)g.range(0, 300);
            char *full; int fl;
            switch (f) { case 0: case 1: case 5: fl = asprintf(&full, FMT[f], a.c_str()); break; case 2: case 3: fl = asprintf(&full, FMT[f], a.c_str(), (int)x); break; default: fl = asprintf(&full, FMT[f], a.c_str(), x); }
            string want(full, fl); free(full);
            if (F.fl & F_ERR) want += string(": ") + strerror(err);
            if (F.fl & F_PAM) want += string(": ") + w_pam_strerror(nullptr, pl);
            bool usefd = (F.fl & F_FD) && g.chance(3, 4);
            pbt::note("%s(%s, %s, %ld) errno %d, %zu characters%s", F.n, FMT[f], pbt::quote(a.substr(0, 400)).c_str(), x, err, want.size(), usefd ? ", to a client" : "");
            // the arguments live in memory of exactly their size
            char *arg = strdup(a.c_str()), *fmt = strdup(FMT[f]); int fd = usefd ? sv[0] : -1;
            errno = err; bool ex = false;
#define ARGS fmt, arg, x
            try {
                switch (k) {
                case 0: explain(ARGS); break; case 1: explain_fd(fd, ARGS); break; case 2: explain_e(ARGS); break; case 3: warn(ARGS); break; case 4: warn_fd(fd, ARGS); break; case 5: warn_e(ARGS); break;
                case 6: error(ARGS); break; case 7: error_fd(fd, ARGS); break; case 8: error_e(ARGS); break; case 9: Debug(ARGS); break; case 10: die(ARGS); break; case 11: die_e(ARGS); break;
                case 12: send_msg_fd(fd, ARGS); break; case 13: send_msg_fd_debug(fd, ARGS); break; case 14: error_pame(nullptr, pl, ARGS); break;
                }
            } catch (Exit &e) { ex = true; }
            if (strcmp(arg, a.c_str()) || strcmp(fmt, FMT[f])) why = "an argument was changed";
            free(arg); free(fmt);
            if (ex != !!(F.fl & F_EXIT)) why = ex ? "the program was ended" : "die() returned";
            wfull.push_back(want); wtype.push_back(F.type); wprio.push_back(F.prio < 0 ? -1 : prios[F.prio]);
            wsys.push_back((F.fl & F_ONLYFD ? (F.prio >= 0 && debug_opt ? 1 : 0) : 1) | (F.fl & F_ONLYFD ? 0 : F.fl & F_PAM ? 2 : 6) | (usefd ? 8 : 0));
            if (ex) done = true;
        }
        fflush(stderr);
        char b[65536]; ssize_t r; while ((r = read(sv[1], b, sizeof b)) > 0) fdgot.append(b, r);
        close(sv[0]); close(sv[1]);
    }
    string file, err; int fd;
    if ((fd = open(fpath.c_str(), O_RDONLY)) >= 0) { file = slurp_fd(fd); close(fd); }
    if ((fd = open(epath.c_str(), O_RDONLY)) >= 0) { err = slurp_fd(fd); close(fd); }
    unlink(fpath.c_str()); unlink(epath.c_str());
    logfile_path = nullptr;
    if (!why.empty()) pbt::fail("log", "%s", why.c_str());
    static const string TR = " (truncated)";
    // the message as it may be written: whole when it fits, otherwise its beginning
    auto ok = [&](const string &got, const string &full) {
        if (got == full) return full.size() <= MAX_MSG;
        if (full.size() < MAX_MSG || got.size() > MAX_MSG) return false;
        if (got.size() < TR.size() || got.compare(got.size() - TR.size(), string::npos, TR)) return false;
        size_t k = got.size() - TR.size();
        return k + TR.size() + 4 >= MAX_MSG && full.compare(0, k, got, 0, k) == 0;
    };
    size_t si = 0;
    string date = "2023-11-14 22:13:20 "; size_t fp = 0, ep = 0, dp = 0;
    auto next = [](const string &t, size_t &p, string &l) { size_t e = t.find('\n', p); if (e == string::npos) return false; l = t.substr(p, e - p); p = e + 1; return true; };
    for (size_t i = 0; i < wfull.size(); i++) {
        const string &w = wfull[i]; int d = wsys[i]; string l;
        if (dosyslog && (d & 1)) {
            if (si >= sys.size()) pbt::fail("syslog-missing", "message %zu was not given to syslog", i);
            if (sys[si].first != wprio[i]) pbt::fail("syslog-level", "message %zu has level %d in place of %d", i, sys[si].first, wprio[i]);
            if (!ok(sys[si].second, w)) pbt::fail("syslog-text", "%s became %s", pbt::quote(w).c_str(), pbt::quote(sys[si].second).c_str());
            si++;
        }
        if (tofile && (d & 4)) { if (!next(file, fp, l) || l.compare(0, date.size(), date) || l.compare(date.size(), wtype[i].size() + 1, wtype[i] + " ") || !ok(l.substr(date.size() + wtype[i].size() + 1), w)) pbt::fail("file-text", "%s became %s", pbt::quote(w).c_str(), pbt::quote(l).c_str()); }
        if (foreground && (d & 2)) { if (!next(err, ep, l) || l.compare(0, date.size(), date) || l.compare(date.size(), wtype[i].size() + 1, wtype[i] + " ") || !ok(l.substr(date.size() + wtype[i].size() + 1), w)) pbt::fail("console-text", "%s became %s", pbt::quote(w).c_str(), pbt::quote(l).c_str()); }
        if (d & 8) { if (!next(fdgot, dp, l) || !ok(l, w)) pbt::fail("client-text", "%s became %s", pbt::quote(w).c_str(), pbt::quote(l).c_str()); }
        if (w.size() >= MAX_MSG - 3) pbt::nontrivial();
        if (w.size() > MAX_MSG) pbt::label("truncated"); else pbt::label("whole");
    }
    if (!done && (si != sys.size() || fp != file.size() || ep != err.size() || dp != fdgot.size())) pbt::fail("extra", "more was written than the messages: syslog %zu of %zu, file %s, console %s", si, sys.size(), pbt::quote(file.substr(fp)).c_str(), pbt::quote(err.substr(ep)).c_str());
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "logs"; c.prop = prop; c.batch = 20; c.quick = 60000; c.thorough = 1500000;
    return pbt::main(argc, argv, c);
}
