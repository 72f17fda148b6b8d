// C17, C18, C19: jobs and mails, really forked and piped; identities, PAM, exec and sendmail are stand-ins which record.
#define OWN_SYSLOG
#define OWN_FORK
#include "spoolglue.hpp"
#include "spoolrec.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <security/pam_appl.h>
extern "C" {
#include "save.h"
#include "mail.h"
extern char *maildisplayname, *tmp_path, *shell, *sendmail;
extern mode_t saved_umask;
int run_job(struct exe_t *);
void mail_notrun(struct cl_t *, char, struct tm *);
}
extern "C" int w_rand(void) { return 11; }
typedef std::map<string, string> Env;
// what the processes of a case did, in shared memory
struct Shm { volatile size_t n; char b[(24 << 20)]; };
static Shm *shm;
static void rec(const vector<string> &f) {
    string s;
    for (auto &x : f) { uint32_t n = x.size(); s.append((char *)&n, 4); s += x; }
    uint32_t tot = f.size();
    string h((char *)&tot, 4); h += s;
    size_t o = __sync_fetch_and_add(&shm->n, h.size() + 4);
    if (o + h.size() + 4 > sizeof shm->b) _exit(77);
    memcpy(shm->b + o + 4, h.data(), h.size());
    *(uint32_t *)(shm->b + o) = h.size();
}
static vector<vector<string>> records_of() {
    vector<vector<string>> v; size_t o = 0;
    while (o < shm->n) {
        uint32_t len = *(uint32_t *)(shm->b + o); if (!len) break;
        size_t p = o + 4; uint32_t k = *(uint32_t *)(shm->b + p); p += 4;
        vector<string> f;
        while (k--) { uint32_t n = *(uint32_t *)(shm->b + p); p += 4; f.push_back(string(shm->b + p, n)); p += n; }
        v.push_back(f); o += 4 + len;
    }
    return v;
}
// ---- the process's identity, inherited over fork()
static struct { long uid = 0, gid = 0, nice = 0; string groups = "daemon"; string cwd = "."; } id;
// ---- faults: the n-th call of a kind fails
enum Fault { F_NONE, F_INITGROUPS, F_SETGID, F_SETUID, F_CHDIR_ROOT, F_GETPW, F_PAM, F_TEMP, F_FORK1, F_FORK2, F_PIPE1, F_PIPE2, F_EXEC, NFAULTS };
static const char *FNAME[] = {"none", "initgroups fails", "setgid fails", "setuid fails", "chdir(/) fails", "no passwd entry", "PAM refuses", "no temporary file", "first fork fails", "second fork fails", "first pipe fails", "second pipe fails", "the shell cannot be executed"};
static int fault, pam_step, fork_depth, npipes; static bool mailer_run;
static vector<string> pam_env; static std::set<string> dirs, shells;
static pid_t harness_pid;
static bool short_io, gshort;
extern "C" {
void w_syslog(int p, const char *f, ...) { pbt_format(f); char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); rec({"log", strf("%d", p), b, f}); }
pid_t w_fork(void) {
    if ((fault == F_FORK1 && fork_depth == 0) || (fault == F_FORK2 && fork_depth == 1)) { errno = EAGAIN; return -1; }
    pid_t p = fork();
    if (p == 0) { fork_depth++; short_io = false; }
    return p;
}
int w_pipe(int *fd) { npipes++; if ((fault == F_PIPE1 && npipes == 1) || (fault == F_PIPE2 && npipes == 2)) { errno = EMFILE; return -1; } return pipe(fd); }
static int io_seq;
ssize_t w_read(int fd, void *b, size_t n) {
    if (short_io && n <= 8) { io_seq++; if (io_seq % 3 == 1) { errno = EINTR; return -1; } if (n > 1) n = 1; }
    return read(fd, b, n);
}
void w_exit(int c) { if (getpid() == harness_pid) pbt::fail("daemon-exit", "the daemon exits"); rec({"exit", strf("%d", getpid()), strf("%d", c)}); _exit(c); }
unsigned w_sleep(unsigned s) { return 0; }
int w_initgroups(const char *u, gid_t g) { if (fault == F_INITGROUPS || id.uid) { errno = EPERM; return -1; } id.groups = strf("%s+%d", u, (int)g); return 0; }
int w_setgid(gid_t g) { if (fault == F_SETGID || id.uid) { errno = EPERM; return -1; } id.gid = g; return 0; }
int w_setuid(uid_t u) { if (fault == F_SETUID || (id.uid && id.uid != (long)u)) { errno = fault == F_SETUID ? EAGAIN : EPERM; return -1; } id.uid = u; return 0; }
int w_chdir(const char *d) { if (fault == F_CHDIR_ROOT || !(dirs.count(d))) { errno = ENOENT; return -1; } id.cwd = d; return 0; }
int w_nice(int n) { if (n < 0 && id.uid) { errno = EPERM; return -1; } id.nice += n; return (int)id.nice; }
int w_access(const char *p, int) { if (!shells.count(p)) { errno = strlen(p) % 2 ? EACCES : ENOENT; return -1; } return 0; }
int w_gethostname(char *b, size_t n) { snprintf(b, n, "host.example"); return 0; }
int w_mkstemp(char *t) { if (fault == F_TEMP) { errno = ENOSPC; return -1; } return mkstemp(t); }
int w_is_selinux_enabled(void) { return 0; }
#define PAMSTEP(n) (fault == F_PAM && pam_step == n ? PAM_PERM_DENIED : PAM_SUCCESS)
static char pamdummy;
int w_pam_start(const char *s, const char *u, const struct pam_conv *, pam_handle_t **h) { *h = (pam_handle_t *)&pamdummy; rec({"pam", s, u}); return PAMSTEP(0); }
int w_pam_authenticate(pam_handle_t *, int) { return PAMSTEP(1); }
int w_pam_acct_mgmt(pam_handle_t *, int) { return PAMSTEP(2); }
int w_pam_setcred(pam_handle_t *, int f) { return f & PAM_ESTABLISH_CRED ? PAMSTEP(3) : PAM_SUCCESS; }
int w_pam_open_session(pam_handle_t *, int) { return PAMSTEP(4); }
int w_pam_close_session(pam_handle_t *, int) { return PAM_SUCCESS; }
int w_pam_end(pam_handle_t *, int) { return PAM_SUCCESS; }
const char *w_pam_strerror(pam_handle_t *, int) { return "refused"; }
char **w_pam_getenvlist(pam_handle_t *) { char **v = (char **)calloc(pam_env.size() + 1, sizeof(char *)); for (size_t i = 0; i < pam_env.size(); i++) v[i] = strdup(pam_env[i].c_str()); return v; }
}
// ---- the job
struct Chunk { int fd; string data; };
static struct { vector<Chunk> out, late; int status = 0, sig = 0; } script;
static void put(int fd, const string &d) { size_t o = 0; while (o < d.size()) { ssize_t k = write(fd, d.data() + o, d.size() - o); if (k <= 0) _exit(78); o += k; } }
static std::set<int> open_before;
static std::set<int> leaky() { std::set<int> s; for (int i = 3; i < 64; i++) { int f = fcntl(i, F_GETFD); if (f >= 0 && !(f & FD_CLOEXEC)) s.insert(i); } return s; }
extern "C" int w_execle(const char *path, const char *arg0, ...) {
    vector<string> av; va_list a; va_start(a, arg0);
    if (arg0) { av.push_back(arg0); while (const char *p = va_arg(a, const char *)) av.push_back(p); }
    char **envp = va_arg(a, char **); va_end(a);
    bool mail = string(path) == sendmail;
    vector<string> f = {mail ? "mail" : "job", strf("%d", getpid()), strf("%ld", id.uid), strf("%ld", id.gid), id.groups, id.cwd, strf("%ld", id.nice), path};
    string s; for (auto &x : av) { s += x; s += '\0'; } f.push_back(s);
    s.clear(); for (char **e = envp; e && *e; e++) { s += *e; s += '\0'; } f.push_back(s);
    s.clear(); for (int x : leaky()) if (!open_before.count(x)) { struct stat st; if (!mail || (fstat(x, &st) == 0 && S_ISFIFO(st.st_mode))) s += strf("%d ", x); } f.push_back(s);
    s.clear();
    for (int n = 1; n < 32; n++) { struct sigaction sa; if (sigaction(n, 0, &sa) == 0 && sa.sa_handler == SIG_IGN) s += strf("%d ", n); }
    sigset_t m; sigprocmask(SIG_BLOCK, 0, &m); for (int n = 1; n < 32; n++) if (sigismember(&m, n)) s += strf("blocked %d ", n);
    f.push_back(s);
    mode_t um = umask(0); umask(um); f.push_back(strf("%o", um));
    if (mail) { string body; char b[8192]; ssize_t n; while ((n = read(0, b, sizeof b)) > 0) body.append(b, n); f.push_back(body); rec(f); _exit(0); }
    if (fault == F_EXEC) { errno = ENOENT; return -1; }
    rec(f);
    struct rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore);
    int p[2] = {-1, -1};
    if (script.late.size()) {
        if (pipe(p)) _exit(76);
        if (fork() == 0) { close(p[1]); char c; while (read(p[0], &c, 1) < 0 && errno == EINTR) {} for (auto &c : script.late) put(c.fd, c.data); _exit(0); }
        close(p[0]);
    }
    for (auto &c : script.out) put(c.fd, c.data);
    if (script.sig) { signal(script.sig, SIG_DFL); kill(getpid(), script.sig); _exit(79); }
    _exit(script.status);
}
static vector<string> split0(const string &s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\0', i); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static Env env_of(const string &s, const char *what) {
    Env e;
    for (auto &x : split0(s)) { size_t q = x.find('='); if (q == string::npos) pbt::fail("env-form", "%s has the variable %s", what, pbt::quote(x).c_str()); if (!e.emplace(x.substr(0, q), x.substr(q + 1)).second) pbt::fail("env-twice", "%s has the variable %s twice", what, x.c_str()); }
    return e;
}
static string diff_env(const Env &want, const Env &got) {
    string d;
    for (auto &x : want) { auto i = got.find(x.first); if (i == got.end()) d += strf("%s=%s is missing; ", x.first.c_str(), pbt::quote(x.second).substr(0, 100).c_str()); else if (i->second != x.second) d += strf("%s is %s in place of %s; ", x.first.c_str(), pbt::quote(i->second).substr(0, 100).c_str(), pbt::quote(x.second).substr(0, 100).c_str()); }
    for (auto &x : got) if (!want.count(x.first)) d += strf("%s=%s should not be there; ", x.first.c_str(), pbt::quote(x.second).substr(0, 100).c_str());
    return d;
}
// ---- one run
struct Expect {
    string runas, owner, cmd, mailto, mailfrom, tz; bool mail, force, erronly, sout, nolog, check_env = true; int nice;
    Env table;
};
static string conf_shell, daemon_path; static bool has_path;
static int fgd;
static string path_of_fd(int fd) { char b[512]; ssize_t n = readlink(strf("/proc/self/fd/%d", fd).c_str(), b, sizeof b); return n > 0 ? string(b, n) : ""; }
static void wait_all(pid_t p) { int st = 0; if (p > 0) while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (getenv("JDBG")) pbt::note("ctrl %d status %x", (int)p, st); if (p > 0 && WIFSIGNALED(st)) pbt::fail("ctrl-signal", "the process in charge of the job is ended by signal %d", WTERMSIG(st)); if (p > 0 && WIFEXITED(st) && WEXITSTATUS(st) > 70) pbt::fail("ctrl-crash", "the process in charge of the job exits with status %d", WEXITSTATUS(st)); }
static string headers_of(const string &m, string &body) { size_t i = m.find("\n\n"); if (i == string::npos) pbt::fail("mail-form", "a mail without end of headers: %s", pbt::quote(m.substr(0, 400)).c_str()); body = m.substr(i + 2); return m.substr(0, i + 1); }
static void check_identity(const vector<string> &r, const string &u, const char *what) {
    long uid = uid_of(u), gid = uid ? uid + 500 : 0;
    string want = strf("%ld/%ld/%s+%ld", uid, gid, u.c_str(), gid), got = r[2] + "/" + r[3] + "/" + r[4];
    if (want != got) pbt::fail("identity", "%s has the uid/gid/groups %s in place of %s", what, got.c_str(), want.c_str());
}
static void check_mailer(const vector<string> &r, const Expect &x, const Env &menv) {
    vector<string> av = split0(r[8]);
    if (av.size() != 4 || av[0] != sendmail || av[1] != "-Ffcron" || av[2] != "-odi" || av[3] != x.mailto) { string s; for (auto &q : av) s += pbt::quote(q) + " "; pbt::fail("mailer-argv", "the mailer is called with %s; the recipient is %s", s.c_str(), pbt::quote(x.mailto).c_str()); }
    if (av[3].empty() || av[3][0] == '-') pbt::fail("mailer-option", "the recipient given to the mailer is %s", pbt::quote(av[3]).c_str());
    check_identity(r, x.runas, "the mailer");
    string d = diff_env(menv, env_of(r[9], "the mailer")); if (d.size()) pbt::fail("mailer-env", "the mailer's environment: %s", d.c_str());
    if (r[10].size()) pbt::fail("mailer-pipe", "the mailer keeps the daemon waiting: it inherits the pipe %s", r[10].c_str());
    if (r[5] != "/") pbt::fail("mailer-cwd", "the mailer runs in %s", r[5].c_str());
}
// the values of a header
static vector<string> header(const string &h, const string &name) { vector<string> v; size_t i = 0; while (i < h.size()) { size_t e = h.find('\n', i); string l = h.substr(i, e - i); if (l.compare(0, name.size() + 2, name + ": ") == 0) v.push_back(l.substr(name.size() + 2)); i = e + 1; } return v; }
static void check_run(cl_t *line, const Expect &x) {
    shm->n = 0; memset(shm->b, 0, 64);
    fork_depth = 0; npipes = 0; io_seq = 0;
    string out = pbt::scratch() + "/console";
    int save1 = dup(1), save2 = dup(2);
    fcntl(save1, F_SETFD, FD_CLOEXEC); fcntl(save2, F_SETFD, FD_CLOEXEC);
    int cf = open(out.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600); unlink(out.c_str()); int nf = open("/dev/null", O_WRONLY | O_CLOEXEC);
    dup2(cf, 1); dup2(nf, 2); close(nf);
    open_before = leaky();
    foreground = fgd; dosyslog = !fgd;
    size_t fds0 = 0; for (int i = 0; i < 64; i++) fds0 += fcntl(i, F_GETFD) >= 0;
    exe_t e; memset(&e, 0, sizeof e); e.e_line = line; e.e_job_pid = 4242;
    no_passwd = fault == F_GETPW;
    short_io = gshort;
    int rc = run_job(&e);
    short_io = false;
    size_t fds1 = 0; for (int i = 0; i < 64; i++) fds1 += fcntl(i, F_GETFD) >= 0;
    foreground = 1; dosyslog = 0; no_passwd = false;
    dup2(save1, 1); dup2(save2, 2); close(save1); close(save2);
    if (fault == F_FORK1) { if (rc == OK) pbt::fail("fork1", "run_job succeeds although fork() failed"); }
    else if (rc != OK) pbt::fail("run-job", "run_job fails");
    else wait_all(e.e_ctrl_pid);
    string console; // a process the job left behind is waited for only by those who read its output
    size_t due = 0; if (fgd ? x.sout : !x.mail) for (auto &q : {script.out, script.late}) for (auto &c : q) if (c.fd == 1) due += c.data.size();
    for (int k = 0; k < 400; k++) { console.clear(); char b[8192]; ssize_t n; while ((n = pread(cf, b, sizeof b, (off_t)console.size())) > 0) console.append(b, n); if (console.size() >= due || script.late.empty()) break; usleep(5000); }
    close(cf);
    if (fds1 != fds0) pbt::fail("fd-leak", "the daemon has %zu descriptors after run_job() in place of %zu", fds1, fds0);
    vector<vector<string>> J, M, L;
    for (auto &r : records_of()) { if (r[0] == "job") J.push_back(r); if (r[0] == "mail") M.push_back(r); if (r[0] == "log") L.push_back(r); if (r[0] == "pam" && r[2] != x.runas) pbt::fail("pam-user", "PAM is asked about %s", r[2].c_str()); }
    if (getenv("JDBG")) for (auto &r : records_of()) { string s; for (auto &q : r) s += pbt::quote(q.substr(0, 300)) + " "; pbt::note("REC %s", s.c_str()); }
    // the environments
    Env menv; menv["USER"] = menv["LOGNAME"] = x.runas; menv["HOME"] = pw_dir; menv["PATH"] = has_path ? daemon_path : "/usr/bin:/bin";
    if (x.tz.size()) menv["TZ"] = x.tz;
    string fallback = conf_shell.size() ? conf_shell : pw_shell;
    menv["SHELL"] = fallback;
    if (fault != F_PAM) for (auto &p : pam_env) menv[p.substr(0, p.find('='))] = p.substr(p.find('=') + 1);
    Env jenv = menv; jenv["PATH"] = "/usr/bin:/bin";
    for (auto &t : x.table) jenv[t.first] = t.second;
    if (jenv["SHELL"].empty() || !shells.count(jenv["SHELL"])) jenv["SHELL"] = fallback;
    bool to_stdout = fgd && x.sout, mailing = x.mail && !to_stdout;
    bool nojob = fault != F_NONE && fault != F_PIPE1 && fault != F_EXEC && !(fault == F_CHDIR_ROOT && false) && !(fault == F_TEMP && !mailing) && !(fault == F_PIPE2 && !mailing);
    if (nojob) {
        if (J.size()) pbt::fail("ran-after-failure", "the job runs although %s", FNAME[fault]);
        if (fault != F_PAM || pam_step == 0 || !x.mail) { if (M.size() && !(fault == F_PAM)) pbt::fail("mail-after-failure", "a mail is sent although %s", FNAME[fault]); }
        else if (!to_stdout) {
            if (M.size() != 1) pbt::fail("pam-mail", "%zu mails when PAM refuses (step %d)", M.size(), pam_step);
            check_mailer(M[0], x, menv);
            string body, h = headers_of(M[0][13], body);
            if (body.find("Job '" + x.cmd.substr(0, 60)) == string::npos || (x.cmd.size() < 80 && body.find("has *not* run") == string::npos)) pbt::fail("pam-mail", "the mail about the refusal says %s", pbt::quote(body.substr(0, 300)).c_str());
        }
        if (fault != F_FORK1 && e.e_job_pid > 0 && e.e_job_pid != 4242) pbt::fail("job-pid", "the pid of a job which could not be started is %d", e.e_job_pid);
        if (fault != F_FORK1 && e.e_job_pid == 4242) pbt::fail("job-pid", "the pid of the job is not set");
        return;
    }
    string want; for (auto &c : script.out) want += c.data; for (auto &c : script.late) want += c.data;
    if (fault != F_EXEC) {
        if (J.size() != 1) pbt::fail("runs", "the job is executed %zu times", J.size());
        auto &r = J[0];
        if (fault == F_PIPE1 ? e.e_job_pid > 0 : r[1] != strf("%d", e.e_job_pid)) pbt::fail("job-pid", "the job has the pid %s, the daemon notes %d", r[1].c_str(), e.e_job_pid);
        check_identity(r, x.runas, "the job");
        vector<string> av = split0(r[8]);
        string sh = jenv["SHELL"];
        if (x.check_env) {
            if (r[7] != sh) pbt::fail("shell", "the job is run by %s in place of %s", pbt::quote(r[7]).c_str(), pbt::quote(sh).c_str());
            string d = diff_env(jenv, env_of(r[9], "the job")); if (d.size()) pbt::fail("job-env", "the job's environment: %s", d.c_str());
            string home = jenv["HOME"], cwd = dirs.count(home) ? home : "/";
            if (r[5] != cwd) pbt::fail("cwd", "the job runs in %s in place of %s", r[5].c_str(), cwd.c_str());
        }
        if (av.size() != 3 || av[0] != r[7] || av[1] != "-c" || av[2] != x.cmd) { string s; for (auto &q : av) s += pbt::quote(q) + " "; pbt::fail("command", "the shell is called with %s for %s", s.c_str(), pbt::quote(x.cmd).c_str()); }
        if (r[6] != strf("%d", x.nice)) pbt::fail("nice", "the job runs at nice %s in place of %d", r[6].c_str(), x.nice);
        if (r[10].size()) pbt::fail("fds", "the job inherits the descriptors %s", r[10].c_str());
        if (r[11].size()) pbt::fail("signals", "the job has ignored or blocked signals: %s", r[11].c_str());
        if (r[12] != strf("%o", saved_umask)) pbt::fail("umask", "the job has the umask %s in place of %o", r[12].c_str(), saved_umask);
    } else if (J.size()) abort();
    // the mail
    int status = fault == F_EXEC ? 1 : script.status, sig = fault == F_EXEC ? 0 : script.sig;
    bool failed = status || sig, output = fault == F_EXEC || want.size();
    bool expect = mailing && (x.force || (output && !x.erronly) || failed);
    pbt::label("%s", !mailing ? "no mail wanted" : expect ? "mail" : "mail wanted, not needed");
    if (M.size() != (expect ? 1u : 0u)) pbt::fail(expect ? "no-mail" : "mail", "%zu mails in place of %d: mail %d forcemail %d erroronlymail %d, %zu bytes of output, status %d signal %d", M.size(), expect, x.mail, x.force, x.erronly, want.size(), status, sig);
    if (expect) {
        check_mailer(M[0], x, menv);
        string body, h = headers_of(M[0][13], body);
        string tail;
        if (sig) tail = "Job '" + x.cmd + "' terminated due to signal " + strf("%d", sig) + " (mailing output)";
        else if (status) tail = "Job '" + x.cmd + "' terminated (exit status: " + strf("%d", status) + ") (mailing output)";
        if (fault == F_EXEC) { // which messages and which status: not specified
            size_t at = body.rfind("Job '" + x.cmd + "' terminated (exit status: ");
            if (at == string::npos || body.find("exec") == string::npos) pbt::fail("exec-mail", "the mail about a shell which cannot be executed: %s", pbt::quote(body).c_str()); }
        else if (body != want + tail) {
            size_t i = 0, n = std::min(body.size(), want.size() + tail.size()); string w = want + tail; while (i < n && body[i] == w[i]) i++;
            pbt::fail("body", "the body of the mail has %zu bytes in place of %zu (%zu of output), different from byte %zu: %s in place of %s", body.size(), w.size(), want.size(), i, pbt::quote(body.substr(i, 80)).c_str(), pbt::quote(w.substr(i, 80)).c_str());
        }
        auto one = [&](const char *n, const string &w) { auto v = header(h, n); if (v.size() != 1 || v[0] != w) pbt::fail("header", "%zu headers %s: %s in place of %s", v.size(), n, v.size() ? pbt::quote(v[0]).c_str() : "none", pbt::quote(w).c_str()); };
        if (x.check_env) {
            one("To", x.mailto + (x.mailto.find('@') == string::npos ? "@host.example" : ""));
            one("From", "fcron <" + x.mailfrom + (x.mailfrom.find('@') == string::npos ? "@host.example" : "") + ">");
            one("Subject", "fcron <" + x.owner + "@host.example> " + x.cmd);
            one("Auto-Submitted", "auto-generated");
            one("Content-Type", jenv.count("CONTENT_TYPE") ? jenv["CONTENT_TYPE"] : string("text/plain; charset=") + default_mail_charset);
            auto v = header(h, "Content-Transfer-Encoding");
            if (jenv.count("CONTENT_TRANSFER_ENCODING") ? v.size() != 1 || v[0] != jenv["CONTENT_TRANSFER_ENCODING"] : v.size() != 0) pbt::fail("header", "wrong Content-Transfer-Encoding");
            Env he; for (auto &q : header(h, "X-Cron-Env")) { string z = q.substr(1, q.size() - 2); he[z.substr(0, z.find('='))] = z.substr(z.find('=') + 1); }
            string d = diff_env(jenv, he); if (d.size()) pbt::fail("header-env", "the environment in the mail: %s", d.c_str());
        }
    }
    // output which goes elsewhere
    string w1; if (to_stdout || (!fgd && !mailing)) { for (auto &c : script.out) if (c.fd == 1) w1 += c.data; for (auto &c : script.late) if (c.fd == 1) w1 += c.data; }
    if (fault != F_EXEC && console != w1) pbt::fail("console", "%zu bytes of the job's standard output reach that of fcron in place of %zu", console.size(), w1.size());
    // the log
    if (!fgd) {
        int started = 0, ended = 0, bad = 0;
        for (auto &r : L) { if (r[2].find("' started for user") != string::npos) started++; if (r[2].find("' completed") != string::npos) ended++; if (r[2].find("' terminated") != string::npos) bad++; }
        if (x.cmd.size() < 100 && fault != F_EXEC) {
            if (started != (x.nolog ? 0 : 1)) pbt::fail("log-start", "%d log messages about the start of a job with nolog(%d)", started, x.nolog);
            if (ended != (x.nolog || failed ? 0 : 1) || bad != (failed ? 1 : 0)) pbt::fail("log-end", "%d+%d log messages about the end of a job with nolog(%d), status %d signal %d", ended, bad, x.nolog, status, sig);
        }
    }
}
static string value(Gen &g, int max = 30) { static const string A = "abcXYZ019/._-+=:@,%$()&;|<>*?!~"; string s; int n = (int)g.range(0, max); while (n--) s += A[g.raw(A.size())]; return s; }
static string bytes(Gen &g, size_t n) { string s; s.reserve(n); int k = (int)g.raw(4); uint64_t z = g.raw(1 << 20); for (size_t i = 0; i < n; i++) { z = z * 6364136223846793005ull + 1442695040888963407ull; unsigned char c = z >> 33; if (k == 0) c = 'a' + c % 26; else if (k == 1) c = c % 40 == 0 ? '\n' : 'a' + c % 26; else if (k == 2) c = "\0\n\r.x"[c % 5]; s += (char)c; } return s; }
static void gen_script(Gen &g, bool big) {
    script.out.clear(); script.late.clear(); script.status = script.sig = 0;
    int n = g.chance(1, 3) ? 0 : (int)g.range(1, 5);
    size_t tot = 0;
    auto chunk = [&]() { Chunk c; c.fd = g.chance(1, 3) ? 2 : 1; size_t len = big && g.chance(1, 5) ? g.raw(200000) : g.chance(1, 3) ? 70 + g.raw(2000) : 1 + g.raw(100); if (tot + len > 400000) len = 1; tot += len; c.data = bytes(g, len); return c; };
    while (n--) script.out.push_back(chunk());
    if (g.chance(1, 8)) script.late.push_back(chunk());
    switch (g.weighted({3, 2, 1})) { case 1: script.status = (int)g.pick(vector<int>{1, 2, 126, 127, 128, 200, 255}); break; case 2: script.sig = g.pick(vector<int>{SIGTERM, SIGKILL, SIGSEGV, SIGHUP, SIGPIPE, SIGUSR1, SIGCHLD == 17 ? SIGALRM : SIGALRM, SIGABRT}); break; }
}
static void common(Gen &g) {
    harness_pid = getpid();
    if (!shm) shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    signal(SIGALRM, SIG_DFL);
    id = {}; fault = F_NONE; pam_step = 0; pam_env.clear(); no_passwd = false; short_io = gshort = false; fgd = 0;
    fresh_spool(); if (chmod(".", 0770)) abort();
    daemon_memory(); nforks = 0; rootuid = 0;
    setenv("TZ", "UTC", 1); tzset();
    now = 1700000000;
    tmp_path = strdup((pbt::scratch() + "/").c_str());
    sendmail = strdup("/usr/sbin/sendmail");
    maildisplayname = strdup("fcron");
    dirs = {"/", "/home/u", "/work dir"}; shells = {"/bin/sh", "/bin/bash", "/opt/my shell", "/usr/bin/zsh"};
    saved_umask = 022; umask(022);
    for (int s : {SIGTERM, SIGCHLD, SIGHUP, SIGUSR1, SIGUSR2, SIGCONT}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = [](int) {}; a.sa_flags = SA_RESTART; sigaction(s, &a, 0); }
    signal(SIGPIPE, SIG_IGN);
    pw_dir = "/home/u"; pw_shell = "/bin/bash"; conf_shell = "/bin/sh"; has_path = true; daemon_path = "/sbin:/usr/sbin";
}
static void prop_run(Gen &g) {
    common(g);
    bool root = g.chance(1, 2); string user = root ? "root" : "model";
    Expect x; x.owner = x.runas = x.mailto = user; x.mail = true; x.force = x.erronly = x.sout = x.nolog = false; x.nice = 0; bool hasfrom = false;
    string text;
    vector<string> names = {"HOME", "SHELL", "PATH", "USER", "LOGNAME", "TZ", "FOO", "A1", "_X", "CONTENT_TYPE", "CONTENT_TRANSFER_ENCODING", "LANG", "SHELLX", "HOM", "USERS"};
    int n = g.chance(1, 4) ? 0 : (int)g.range(1, 7);
    bool bigenv = WHAT == 19 && g.chance(1, 25);
    while (n--) {
        string k = g.pick(names), v;
        if (k == "HOME") v = g.pick(vector<string>{"/", "/home/u", "/work dir", "/missing", ""});
        else if (k == "SHELL") v = g.pick(vector<string>{"/bin/bash", "/opt/my shell", "/missing/sh", "/missing/shx", "", "/usr/bin/zsh"});
        else v = value(g);
        if (k == "USER" || k == "LOGNAME") v = g.pick(vector<string>{"root", "bin", "", "x"});
        text += k + (g.chance(1, 2) ? "=" : " = ") + "\"" + v + "\"\n";
        if (k != "USER" && k != "LOGNAME") x.table[k] = v;
        if (g.chance(1, 8)) { string a = g.pick(vector<string>{"jim", "bob@x.org", ""}); text += "MAILFROM=" + a + "\n"; x.mailfrom = a; hasfrom = !a.empty(); }
        if (g.chance(1, 8)) { string a = g.pick(vector<string>{"jim", "bob@x.org", ""}); text += "MAILTO=\"" + a + "\"\n"; if (a.empty()) x.mail = x.force = false; else { x.mailto = a; x.mail = true; } }
    }
    if (bigenv) for (int i = 0, k = (int)g.range(25, 80); i < k; i++) { string v((size_t)g.range(500, 1000), 'v'); text += strf("BIG%d=", i) + v + "\n"; x.table[strf("BIG%d", i)] = v; }
    // the line
    string opts; auto opt = [&](const string &o) { opts += (opts.empty() ? "" : ",") + o; };
    auto tf = [&](bool b) { return b ? "(true)" : "(false)"; };
    int k = (int)g.range(0, 5);
    while (k--) switch (g.raw(11)) {
        case 0: { bool b = g.chance(1, 2); opt(string("mail") + tf(b)); x.mail = b; if (!b) x.force = false; break; }
        case 1: { bool b = g.chance(2, 3); opt(string("forcemail") + tf(b)); x.force = b; if (b) x.mail = true; break; }
        case 2: { bool b = g.chance(2, 3); opt(string("erroronlymail") + tf(b)); x.erronly = b; break; }
        case 3: { string a = g.pick(vector<string>{"jim", "bob@x.org", "a.b+c", "x_y"}); opt("mailto(" + a + ")"); x.mailto = a; x.mail = true; break; }
        case 4: { string a = g.pick(vector<string>{"jim", "bob@x.org", "a.b+c"}); opt("mailfrom(" + a + ")"); x.mailfrom = a; hasfrom = true; break; }
        case 5: { int v = (int)g.range(root ? -20 : 0, 19); opt(strf("nice(%d)", v)); x.nice = v; break; }
        case 6: if (root) { string u = g.pick(vector<string>{"daemon", "mail", "games", "nobody", "root"}); opt("runas(" + u + ")"); x.runas = u; } break;
        case 7: { string z = g.pick(vector<string>{"Europe/Paris", "UTC", "America/New_York"}); opt("timezone(" + z + ")"); x.tz = z; break; }
        case 8: { bool b = g.chance(2, 3); opt(string("stdout") + tf(b)); x.sout = b; break; }
        case 9: { bool b = g.chance(2, 3); opt(string("nolog") + tf(b)); x.nolog = b; break; }
        default: break;
    }
    if (!hasfrom) x.mailfrom = x.runas;
    static const string CA = "abc XYZ019/._-+=:@,%$()&;|<>*?!~'\"\\`";
    x.cmd = "x_"; { int c = g.chance(1, 10) ? (int)g.range(1, 800) : (int)g.range(0, 40); while (c--) x.cmd += CA[g.raw(CA.size())]; x.cmd += "z"; }
    string line = (opts.empty() || g.chance(1, 2)) && !opts.empty() ? "@" + opts + " 60 " + x.cmd : opts.empty() ? "* * * * * " + x.cmd : "&" + opts + " * * * * * " + x.cmd;
    if (line.size() > 1000) pbt::discard();
    text += line + "\n";
    // the system
    conf_shell = g.weighted({6, 2, 1}) == 0 ? "/bin/sh" : g.chance(1, 2) ? "/usr/bin/zsh" : "";
    pw_dir = g.pick(vector<string>{"/home/u", "/", "/home/u", "/missing", "/work dir"}); pw_shell = g.pick(vector<string>{"/bin/bash", "/bin/sh"});
    has_path = g.chance(4, 5); if (has_path) setenv("PATH", daemon_path.c_str(), 1); else unsetenv("PATH");
    fgd = g.chance(1, 4);
    saved_umask = g.pick(vector<mode_t>{022, 077, 002, 0});
    gshort = g.chance(1, 4);
    if (g.chance(1, 3)) { for (auto &p : vector<string>{"LANG=C.UTF-8", "KRB5CCNAME=FILE:/tmp/x", "FOO=pam", "XDG_RUNTIME_DIR=/run/user/1", "EMPTY="}) if (g.chance(1, 2)) pam_env.push_back(p); }
    shell = strdup(conf_shell.c_str());
    gen_script(g, WHAT == 19);
    if (WHAT == 18 ? g.chance(1, 2) : g.chance(1, 20)) { fault = (int)g.range(1, NFAULTS - 1); pam_step = (int)g.raw(5); }
    pbt::note("%s's fcrontab:\n%s%s, %zu+%zu chunks of output, status %d, signal %d; %s%s; fcron.conf shell %s, home %s", user.c_str(), text.substr(0, 1500).c_str(), fgd ? "foreground" : "background", script.out.size(), script.late.size(), script.status, script.sig, FNAME[fault], fault == F_PAM ? strf(" at step %d", pam_step).c_str() : "", pbt::quote(conf_shell).c_str(), pw_dir.c_str());
    tab_asuid = uid_of(user);
    string nf = "new." + user;
    int r = tab_install(text, user, root, nf);
    if (r != 0) pbt::fail("rejected", "a valid fcrontab was reported as erroneous (status %d)", r);
    cf_t *cf; cf = (cf_t *)calloc(1, sizeof(cf_t));
    if (read_file(nf.c_str(), cf, 0) != OK) pbt::fail("unread", "the table is not loaded");
    if (!cf->cf_line_base || cf->cf_line_base->cl_next) pbt::fail("lines", "the table does not have one line");
    check_run(cf->cf_line_base, x);
    pbt::label("%s", fault ? FNAME[fault] : "no fault");
    size_t tot = 0; for (auto &c : script.out) tot += c.data.size();
    if (tot > 65536) pbt::label("more output than a pipe holds");
    if (WHAT == 18 ? (x.table.size() || x.runas != x.owner || fault) : (x.mail && (tot || script.status || script.sig || x.force))) pbt::nontrivial();
}
// C17: hostile tables
static const vector<string> &hostile() {
    static const vector<string> v = {"-oQ/tmp", "-bs", "root", "jim", "a b", "x;id", "|cmd", "root -oA/x", "-", "--", "a\tb", "bob@x.org", "$(id)", "`id`", "-Xlog", "a,b", "\"q\"", "x|y", "/etc/passwd", "a -be"};
    return v;
}
static bool safe_addr(const string &a) { return a[0] != '-' && a.find_first_of(" \t\n;|") == string::npos; }
static void prop_owner(Gen &g) {
    common(g);
    shell = strdup("/bin/sh"); setenv("PATH", daemon_path.c_str(), 1);
    bool rootstable = g.chance(1, 5), byroot = rootstable || g.chance(1, 2);
    string owner = rootstable ? (g.chance(1, 4) ? "systab" : "root") : "model", self = rootstable ? "root" : "model";
    struct L { string runas, mailto, cmd; bool mailto_set; };
    std::map<string, string> runas; std::map<string, vector<string>> to;
    string text; int n = (int)g.range(1, 5);
    string defrun = self;
    string defto = self; bool defmail = true;
    for (int i = 0; i < n; i++) {
        if (g.chance(1, 4)) { string v = g.pick(hostile()); if (v.find('"') == string::npos) { text += g.pick(vector<string>{"USER", "LOGNAME", "FOO", "SHELL", "MAILFROM", "user"}) + "=\"" + v + "\"\n"; } }
        if (g.chance(1, 4)) { string v = g.pick(hostile()); if (v.find('"') == string::npos && v.find('`') == string::npos) { text += "MAILTO=\"" + v + "\"\n"; defto = v; } }
        if (g.chance(1, 4)) { string u = g.pick(vector<string>{"root", "bin", "daemon"}); text += "!runas(" + u + ")\n"; if (byroot) defrun = u; }
        string opts, run = defrun, t = defto;
        if (g.chance(1, 3)) { string u = g.pick(vector<string>{"root", "bin", "daemon", "games"}); opts += ",runas(" + u + ")"; if (byroot) run = u; }
        if (g.chance(1, 3)) { string v = g.pick(hostile()); if (v.find_first_of(" \t,\"()") == string::npos) { opts += ",mailto(" + v + ")"; t = v; } }
        if (g.chance(1, 3)) { string v = g.pick(hostile()); if (v.find_first_of(" \t,\"()") == string::npos) opts += ",mailfrom(" + v + ")"; }
        string pre; if (g.chance(1, 5)) { pre = g.pick(vector<string>{"root ", "bin "}); if (byroot) run = pre.substr(0, pre.size() - 1); }
        string c = strf("j%d", i);
        text += "&mail" + opts + " * * * * * " + pre + c + "\n";
        runas[c] = rootstable ? run : "model"; to[c] = {t};
    }
    tab_asuid = rootstable ? 0 : 1000;
    string nf = "new." + owner; spew("x", "");
    foreground = 1;
    int fd2 = dup(2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
    // systab: run and mailed as root
    tab_install(text, owner, byroot, nf);
    dup2(fd2, 2); close(fd2);
    if (owner == "systab") pbt::label("system table");
    string how = "installed by fcrontab";
    bool crafted = !rootstable && g.chance(1, 2), must_reject = false;
    if (crafted) {
        vector<Rec> v = records(slurp(nf)); unlink(nf.c_str());
        int k = (int)g.range(1, 5);
        auto set = [&](Rec &r, const string &s) { r.data = s; r.size = (short)s.size(); };
        while (k--) {
            int what = (int)g.raw(7);
            vector<size_t> at; for (size_t i = 0; i < v.size(); i++) { short t = v[i].type; if ((what == 0 && t == S_RUNAS_T) || (what == 1 && t == S_USER_T) || (what == 2 && t == S_MAILTO_T) || (what == 3 && t == S_SHELL_T)) at.push_back(i); }
            size_t i = at.empty() ? g.raw(v.size()) : g.pick(at);
            if (what == 0 && at.size()) set(v[i], g.pick(vector<string>{"root", "bin", "", "model", "nosuch"}));
            else if (what == 1 && at.size()) set(v[i], g.pick(vector<string>{"root", "bin", "systab", ""}));
            else if (what == 2 && at.size()) set(v[i], g.pick(hostile()));
            else if (what == 4) { Rec r; r.type = S_RUNAS_T; set(r, "root"); size_t p = std::min<size_t>(v.size(), 3 + g.raw(v.size())); v.insert(v.begin() + p, r); }
            else if (what == 5) { Rec r; r.type = S_ENVVAR_T; set(r, g.pick(vector<string>{"USER=root", "LOGNAME=root", "LD_PRELOAD=/tmp/x.so", "SHELL=/missing", "PATH=/tmp"})); v.insert(v.begin() + std::min<size_t>(3, v.size()), r); }
            else if (what == 6) { Rec r; r.type = S_MAILFROM_T; set(r, g.pick(hostile())); size_t p = std::min<size_t>(v.size(), 3 + g.raw(v.size())); v.insert(v.begin() + p, r); }
        }
        nf = g.pick(vector<string>{"new.model", "new.model", "new.root", "new.systab", "model", "root"});
        spew(nf, flat(v)); if (chown(nf.c_str(), 1000, 0)) abort();
        must_reject = nf == "model" || nf == "root";
        how = "written by the user as " + nf;
    }
    struct stat st; if (stat(nf.c_str(), &st)) abort();
    pbt::note("table of %s, parsed by %s, %s (owner %d)\n%s", owner.c_str(), byroot ? "root" : "the user", how.c_str(), (int)st.st_uid, text.c_str());
    cf_t *cf = (cf_t *)calloc(1, sizeof(cf_t));
    cf->cf_env_list = nullptr;
    int rc = read_file(nf.c_str(), cf, 0);
    if (must_reject && rc == OK) pbt::fail("foreign-owner", "%s owned by a user is loaded", nf.c_str());
    if (rc != OK) { if (!crafted) pbt::fail("unread", "the table is not loaded"); pbt::label("rejected"); return; }
    if (!rootstable && string(cf->cf_user) != "model") pbt::fail("table-user", "a file of model is loaded as the table of %s", cf->cf_user);
    string ctx = strf("%s", how.c_str());
    int lines = 0;
    for (cl_t *l = cf->cf_line_base; l; l = l->cl_next) {
        lines++;
        Expect x; x.owner = cf->cf_user; x.cmd = l->cl_shell; x.runas = "model"; x.check_env = false;
        if (rootstable) { auto i = runas.find(l->cl_shell); if (i == runas.end()) pbt::fail("command", "unknown command %s", pbt::quote(l->cl_shell).c_str()); x.runas = i->second; }
        // the options as loaded: only the identity, the recipient and the command line of the mailer are in question here
        x.mail = is_mail(l->cl_option); x.force = is_mailzerolength(l->cl_option); x.erronly = is_erroronlymail(l->cl_option); x.sout = is_stdout(l->cl_option); x.nolog = is_nolog(l->cl_option); x.nice = l->cl_nice;
        x.tz = l->cl_tz ? l->cl_tz : "";
        x.mailto = l->cl_mailto;
        if (!crafted) { string t = to[l->cl_shell][0]; string w = safe_addr(t) ? t : string(cf->cf_user); if (x.mail && x.mailto != w) pbt::fail("recipient", "the mail of %s goes to %s in place of %s", l->cl_shell, pbt::quote(x.mailto).c_str(), pbt::quote(w).c_str()); }
        else if (!safe_addr(x.mailto) && x.mailto != "model") pbt::fail("recipient-unsafe", "the recipient is %s", pbt::quote(x.mailto).c_str());
        script.out = {{1, "out\n"}}; script.late.clear(); script.status = 0; script.sig = 0;
        if (x.mailto.empty()) { pbt::label("empty recipient"); continue; }
        if (g.chance(2, 3)) { for (Env::iterator q; false;) {} check_run(l, x); pbt::label("job"); }
        else {
            shm->n = 0; memset(shm->b, 0, 64); fork_depth = 0; open_before = leaky(); foreground = 0; dosyslog = 1;
            time_t t = now; struct tm tm = *gmtime(&t);
            l->cl_nextexe = now + 60;
            exe_list = exe_list_init();
            mail_notrun(l, g.pick(vector<char>{SYSDOWN, LAVG, QUEUE_FULL}), &tm);
            foreground = 1; dosyslog = 0;
            exe_t *e = exe_list_first(exe_list); if (!e) pbt::fail("mail-notrun", "no process is noted for a report");
            wait_all(e->e_ctrl_pid);
            vector<vector<string>> M; for (auto &r : records_of()) { if (r[0] == "mail") M.push_back(r); if (r[0] == "job") pbt::fail("mail-notrun", "a job is run in place of a report"); }
            if (M.size() != 1) pbt::fail("mail-notrun", "%zu mails for a report", M.size());
            Env menv; menv["USER"] = menv["LOGNAME"] = x.runas; menv["HOME"] = pw_dir; menv["PATH"] = daemon_path; menv["SHELL"] = "/bin/sh"; if (x.tz.size()) menv["TZ"] = x.tz;
            check_mailer(M[0], x, menv);
            pbt::label("report");
        }
    }
    if (lines) pbt::nontrivial();
    pbt::label("%s", rootstable ? "root's table" : crafted ? "crafted" : "installed");
}
static void prop(Gen &g) { if (WHAT == 17) prop_owner(g); else prop_run(g); }
int main(int argc, char **argv) {
    pbt::Config c; c.name = "job"; c.prop = prop; c.batch = 20; c.quick = 20000; c.thorough = 500000; c.wall_s = 30;
    return pbt::main(argc, argv, c);
}
