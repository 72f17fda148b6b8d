// C27: fcrontab's real main(), run as a set-uid program by several users, with failing steps.
#define OWN_FORK
#include "spoolglue.hpp"
#include "faultio.hpp"
#include <grp.h>
#include <sys/mman.h>
extern "C" {
int tab_main(int argc, char **argv);
extern char *t_tmp_path;
int w_rand(void) { return 11; }
}
static const uid_t FCRON = 1; static const gid_t FCRON_GID = 501;        // fcron's user is called USERNAME
// what the run of fcrontab, in processes of its own, tells the test
struct Edit { int how, kind, status; char text[70000]; size_t len; char before[70000]; size_t blen; };     // how: 0 write in place, 1 replace the file, 2 leave, 3 remove
struct Rep {
    int fired; char log[3000]; char dirty[3000];
    int nsig; char sigpath[200], sigarg[400]; int sig_euid, sig_egid;
    int nedit, nplan; char editbad[300];
    bool exited; int pam_open;
    Edit plan[3];
};
static Rep *R;
static bool in_tab, fail_fork, fork_failed; static int pam_fail;
static string editor_want;
static void report() {
    string a; for (auto &x : F.log) a += x + "\n";
    R->fired = F.nfired; snprintf(R->log, sizeof R->log, "%s", a.c_str());
}
extern "C" {
struct group *w_getgrnam(const char *n) { static struct group gr; static char *none[] = {nullptr}; gr.gr_mem = none; if (!strcmp(n, "root")) gr.gr_gid = 0; else if (!strcmp(n, GROUPNAME)) gr.gr_gid = FCRON_GID; else return nullptr; gr.gr_name = (char *)n; return &gr; }
pid_t w_fork(void) {
    if (!in_tab) { nforks++; return 99999; }
    if (fail_fork) { F.nfired++; F.log.push_back("fork-failed"); errno = EAGAIN; return -1; }
    return fork();
}
void w_exit(int st) { report(); R->exited = true; fflush(stdout); fflush(stderr); _exit(st); }
int w_execl(const char *path, const char *a0, ...) {
    va_list ap; va_start(ap, a0); const char *a1 = va_arg(ap, const char *); va_end(ap);
    R->nsig++; snprintf(R->sigpath, sizeof R->sigpath, "%s %s", path, a0); snprintf(R->sigarg, sizeof R->sigarg, "%s", a1 ? a1 : "(null)"); R->sig_euid = geteuid(); R->sig_egid = getegid();
    _exit(0);
}
// the editor
int w_execlp(const char *file, const char *a0, ...) {
    va_list ap; va_start(ap, a0); const char *a1 = va_arg(ap, const char *), *a2 = va_arg(ap, const char *), *a3 = va_arg(ap, const char *); va_end(ap);
    int k = R->nedit++;
    uid_t ru, eu, su; gid_t rg, eg, sg; getresuid(&ru, &eu, &su); getresgid(&rg, &eg, &sg);
    string want = editor_want + " " + (a3 ? a3 : "");
    if (strcmp(a1, "-c") || want != a2) snprintf(R->editbad, sizeof R->editbad, "the command is %s -c %s in place of %s", a0, a2, want.c_str());
    (void)su; (void)sg;      // exec makes the saved ones those
    if (ru != eu || rg != eg) snprintf(R->editbad, sizeof R->editbad, "the editor runs with uids %d %d %d and gids %d %d %d", ru, eu, su, rg, eg, sg);
    if (k >= R->nplan) _exit(1);
    Edit &e = R->plan[k];
    struct stat st; if (stat(a3, &st)) _exit(1);
    { int fd = open(a3, O_RDONLY); static char b[70001]; ssize_t n = fd < 0 ? -1 : read(fd, b, sizeof b); if (fd >= 0) close(fd);
      if (n != (ssize_t)e.blen || memcmp(b, e.before, e.blen)) snprintf(R->editbad, sizeof R->editbad, "the editor is given %zd characters in place of the %zu of the text", n, e.blen); }
    if (e.how == 0 || e.how == 1) {
        string p = e.how ? string(a3) + "~new" : a3;
        int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || write(fd, e.text, e.len) != (ssize_t)e.len) { snprintf(R->editbad, sizeof R->editbad, "the editor cannot write the file (%s)", strerror(errno)); _exit(1); }
        // a fast editor: well within the second in which the file was created, or later
        struct timespec ts[2] = {st.st_mtim, st.st_mtim};
        if (e.kind == 0) { ts[1].tv_nsec += 5000000; if (ts[1].tv_nsec > 999999999) ts[1].tv_nsec = 999999999; } else ts[1].tv_sec += e.kind;
        futimens(fd, ts); close(fd);
        if (e.how) rename(p.c_str(), a3);
    } else if (e.how == 3) unlink(a3);
    if (e.status >= 1000) { signal(SIGTERM, SIG_DFL); kill(getpid(), SIGTERM); }
    _exit(e.status);
}
int w_is_selinux_enabled(void) { return 0; }
int w_audit_open(void) { return open("/dev/null", O_RDONLY); }
int w_audit_log_user_message(int, int, const char *, const char *, const char *, const char *, int) { return 1; }
static int pam(int n, int bad) { return pam_fail == n ? bad : 0; }
int w_pam_start(const char *, const char *, const void *, void **h) { *h = (void *)&pam_fail; return pam(1, 26); }
int w_pam_authenticate(void *, int) { return pam(2, 7); }
int w_pam_acct_mgmt(void *, int) { return pam(3, 6); }
int w_pam_setcred(void *, int f) { return pam_fail == 4 && f == 2 ? 17 : 0; }
int w_pam_open_session(void *, int) { if (pam_fail == 5) return 14; R->pam_open++; return 0; }
int w_pam_close_session(void *, int) { R->pam_open--; return 0; }
int w_pam_end(void *, int) { return 0; }
const char *w_pam_strerror(void *, int) { return "refused"; }
char **w_pam_getenvlist(void *) { return nullptr; }
// streams whose reads and writes may fail too
static ssize_t ck_read(void *c, char *b, size_t n) { return w_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = w_write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return w_close((int)(long)c); }
FILE *w_fdopen(int fd, const char *m) { return fopencookie((void *)(long)fd, m, {ck_read, ck_write, ck_seek, ck_close}); }
}

struct Text { string text; Model m; bool bad = false; };       // bad: has lines with errors
struct State { bool has = false; string text; bool tab = false; Model m; bool unknown = false; };
static std::map<string, State> S;
static string base, spool, home, tmpd;
struct Snap { string bytes; uid_t uid; gid_t gid; mode_t mode; bool operator==(const Snap &o) const { return bytes == o.bytes && uid == o.uid && gid == o.gid && mode == o.mode; } };
static std::map<string, Snap> snap() {
    std::map<string, Snap> r;
    for (auto &f : listing()) { struct stat s; if (lstat(f.c_str(), &s)) continue; Snap x; x.bytes = slurp(f); x.uid = s.st_uid; x.gid = s.st_gid; x.mode = s.st_mode; r[f] = x; }
    return r;
}
static gid_t gid_of(uid_t u) { return u ? u + 500 : 0; }
static Text gen_text(Gen &g, bool root, const string &u) {
    Text t; Shape sh; sh.lines = (int)g.range(0, 5);
    t.m = gen_model(g, sh, root, u == "systab" ? "root" : u);
    for (auto &l : t.m.logical) if (l.size() > 1010) pbt::discard();
    if (t.m.text.size() && t.m.text.back() != '\n') t.m.text += "\n";
    if (g.chance(1, 4)) { int n = g.chance(1, 2) ? (int)g.range(1, 40) : (int)(g.pick(vector<int>{1024, 4096, 8192}) + g.range(-3, 3)); for (; n > 0; n -= 100) t.m.text += "#" + string((size_t)std::min(99, n), 'c') + "\n"; }
    if (g.chance(1, 12)) { int n = (int)g.range(8000, 50000); while (n > 0) { t.m.text += "# " + string(200, 'z') + "\n"; n -= 500; } }
    if (g.chance(1, 4)) { t.m.text += g.chance(1, 2) ? "99 99 * * * /bin/false\n" : "@ 5x bad\n"; t.bad = true; }
    if (g.chance(1, 4)) { string c = "# "; int n = (int)g.range(1, 60); while (n--) { char b = (char)g.raw(256); if (b == '\n') b = 0; if (b == '\\') b = '/'; c += b; } t.m.text += c + (g.chance(1, 2) ? "\n" : ""); }
    else if (t.m.text.size() && g.chance(1, 6)) t.m.text.pop_back();
    // a comment must not become part of the line which follows
    t.text = t.m.text;
    return t;
}
// loads a file of the spool directory in another process and compares it with the model; 0 when it is right
static int check_new(const string &f, const string &u, const Model &m, string &why) {
    int p[2]; if (pipe(p)) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
        daemon_memory(); foreground = 0;
        cf_t *c = (cf_t *)calloc(1, sizeof(cf_t));
        if (read_file(f.c_str(), c, 0) != OK) { if (write(p[1], "cannot be loaded", 16)) {} _exit(1); }
        file_base = c;
        string w = table_diff(u, m);
        if (w.size()) { if (write(p[1], w.data(), std::min<size_t>(w.size(), 2000))) {} _exit(1); }
        _exit(0);
    }
    close(p[1]); char b[2048]; ssize_t n; why.clear();
    while ((n = read(p[0], b, sizeof b)) > 0) why.append(b, n);
    close(p[0]);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (st && why.empty()) why = "crashes the daemon";
    return st;
}
static void prop(Gen &g) {
    static pid_t owner;
    if (owner != getpid()) { owner = getpid(); R = (Rep *)mmap(nullptr, sizeof(Rep), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    diff_remain = false; F.reset(); in_tab = false; nforks = 0; S.clear();
    setenv("TZ", "UTC", 1); tzset(); now = time(nullptr);
    base = pbt::scratch() + strf("/f.%d", (int)getpid()); spool = base + "/spool"; home = base + "/home"; tmpd = base + "/tmp/";
    static bool made = false;
    if (!made) { made = true; umask(0); mkdir(base.c_str(), 0755); mkdir(spool.c_str(), 0770); mkdir(home.c_str(), 0755); mkdir(tmpd.c_str(), 01777); if (chown(spool.c_str(), FCRON, FCRON_GID)) { perror("chown"); abort(); } umask(022); }
    for (auto &d : {tmpd, home, base, spool}) { if (chdir(d.c_str())) abort(); for (auto &f : listing()) unlink(f.c_str()); }
    daemon_memory();
    // the policy and the configuration
    static const vector<string> USERS = {"model", "john.doe", "root", "systab"};
    vector<string> denied, allowed; bool has_allow = g.chance(1, 6), has_deny = g.chance(1, 3);
    auto put = [&](const string &p, const string &s, uid_t u, gid_t gr, mode_t mo) { unlink(p.c_str()); spew(p, s); if (chown(p.c_str(), u, gr) || chmod(p.c_str(), mo)) abort(); };
    for (auto &u : USERS) { if (has_allow && g.chance(3, 4)) allowed.push_back(u); if (has_deny && g.chance(1, 5)) denied.push_back(u); }
    auto join = [](const vector<string> &v) { string s; for (auto &x : v) s += x + "\n"; return s; };
    if (has_allow) put(base + "/allow", join(allowed), 0, FCRON_GID, 0640);
    if (has_deny) put(base + "/deny", join(denied), 0, FCRON_GID, 0640);
    auto may = [&](const string &u) { auto in = [&](const vector<string> &v) { return std::find(v.begin(), v.end(), u) != v.end(); }; return u == "systab" || ((!has_allow || in(allowed)) && !(has_deny && in(denied))); };
    string conf = base + "/fcron.conf";
    put(conf, "fcrontabs = " + spool + "\nfcronallow = " + base + "/allow\nfcrondeny = " + base + "/deny\neditor = confed\nshell = /bin/sh\n", 0, FCRON_GID, 0640);
    if (has_allow || has_deny) pbt::note("allowed: %s; denied: %s", has_allow ? pbt::quote(join(allowed)).c_str() : "all", pbt::quote(join(denied)).c_str());
    int nops = (int)g.range(1, 9); bool fired = false; int good = 0;
    for (int o = 0; o < nops; o++) {
        if (chdir(spool.c_str())) abort();
        if (g.chance(1, 5)) {      // the daemon reads its directory
            if (g.chance(1, 3)) daemon_memory();
            pbt::note("the daemon reads the spool directory");
            umask(066); synchronize_dir(".", 0); umask(022);
            for (auto &u : USERS) {
                State &s = S[u];
                if (s.unknown) { s.unknown = false; s.tab = table_of(u) != nullptr; if (s.tab) { string w = table_diff(u, s.m); if (w.size()) pbt::fail("loaded", "%s: %s", u.c_str(), w.c_str()); } continue; }
                if (!s.tab) { if (table_of(u)) pbt::fail("not-removed", "the daemon runs a table of %s", u.c_str()); continue; }
                string w = table_diff(u, s.m);
                if (w.size()) pbt::fail("loaded", "%s: %s", u.c_str(), w.c_str());
            }
            for (auto &f : listing()) if (f.compare(0, 4, "new.") == 0 || f.compare(0, 3, "rm.") == 0) { if (f.size() < 4 || f.substr(f.size() - 4) != ".tmp") pbt::fail("left", "%s is left in the spool directory", f.c_str()); }
            check_queues();
            continue;
        }
        string caller = USERS[g.raw(3)], target = caller;
        bool named = false;
        if (g.chance(1, caller == "root" ? 2 : 8)) { named = true; target = g.chance(1, 12) ? "nosuch" : USERS[g.raw(4)]; }
        uid_t cu = uid_of(caller), tu = target == "systab" ? 0 : uid_of(target);
        int what = g.weighted({6, 2, 3, 2, 4, 1});       // install, remove, list, reinstall, edit, mistaken options
        bool nopt = g.chance(1, 5);
        State &s = S[target];
        vector<string> av; av.push_back("/usr/bin/fcrontab");
        if (g.chance(1, 2)) { av.push_back("-c"); av.push_back(conf); } else if (g.chance(1, 2)) { av.push_back("-c"); av.push_back("../fcron.conf"); } else { av.push_back("-c" + conf); }
        string confarg = av.back() == "../fcron.conf" ? home + "/../fcron.conf" : conf;
        bool dashu = named && g.chance(1, 2);
        if (dashu) { av.push_back("-u"); av.push_back(target); }
        if (nopt) av.push_back("-n");
        if (g.chance(1, 12)) av.push_back("-d");
        Text t, t2; bool readable = true; string input; string infile;
        memset(R, 0, offsetof(Rep, plan)); R->nplan = 0;
        unlink((home + "/tab.txt").c_str());
        if (chdir(tmpd.c_str())) abort(); for (auto &x : listing()) unlink(x.c_str()); if (chdir(spool.c_str())) abort();
        bool empty_in = false, changed = false, edit_ok = true; int nedits = 0;
        string env_visual, env_editor; bool set_visual = g.chance(1, 3), set_editor = g.chance(1, 2);
        if (set_visual) env_visual = g.chance(1, 4) ? "" : "vised"; if (set_editor) env_editor = g.chance(1, 4) ? "" : "edited";
        editor_want = set_visual && env_visual.size() ? env_visual : set_editor && env_editor.size() ? env_editor : "confed";
        string opdesc;
        if (what == 0 || what == 4) t = gen_text(g, caller == "root", target == "nosuch" ? "model" : target);
        if (what == 0) {
            int src = g.weighted({4, 3, 2, 1, 1, 1, 1});
            opdesc = strf("installs %s", src == 0 ? "standard input" : "a file");
            if (src == 0) { av.push_back("-"); input = t.text; }
            else {
                infile = "tab.txt"; uid_t fo = cu; mode_t fm = 0600;
                if (src == 2) fm = 0644, fo = 0;
                if (src == 3) fo = g.chance(1, 2) ? 8 : FCRON, readable = caller == "root", opdesc += " which only another user may read";
                if (src == 4) readable = false, opdesc += " which does not exist";
                if (src == 5) readable = false, opdesc += " which is a directory";
                if (src == 6) { readable = false; opdesc += " of the group fcron only"; fo = 0; fm = 0640; if (caller == "root") readable = true; }
                string p = home + "/" + infile;
                if (src == 5) infile = ".."; else if (src != 4) put(p, t.text, fo, src == 6 ? FCRON_GID : gid_of(fo), fm);
                av.push_back(src != 5 && g.chance(1, 2) ? p : infile);
            }
        } else if (what == 1) { av.push_back("-r"); opdesc = "removes"; }
        else if (what == 2) { av.push_back("-l"); opdesc = "lists"; }
        else if (what == 3) { av.push_back("-z"); opdesc = "reinstalls"; }
        else if (what == 4) {
            av.push_back("-e"); opdesc = "edits:";
            int n = 0;
            Text cur = t;
            for (;;) {
                Edit &e = R->plan[n++]; R->nplan = n;
                e.how = g.weighted({8, 3, n == 1 ? 2 : 1, n == 1 ? 1 : 0}); e.kind = g.weighted({2, 3, 1}); e.status = g.chance(1, 14) ? (g.chance(1, 2) ? 1000 : 1) : 0;
                if (e.how == 2 && n > 1) cur = t;
                { const string &b = n > 1 ? t.text : s.text; if (cur.text.size() > sizeof e.text || b.size() > sizeof e.before) pbt::discard(); memcpy(e.before, b.data(), b.size()); e.blen = b.size(); }
                memcpy(e.text, cur.text.data(), cur.text.size()); e.len = cur.text.size();
                opdesc += strf(" %s%s", e.how == 0 ? "writes" : e.how == 1 ? "replaces" : e.how == 2 ? "leaves" : "removes the file", e.status >= 1000 ? " and is killed" : e.status ? " and fails" : e.kind == 0 ? " at once" : "");
                if (e.how == 3 || e.status >= 1000) { edit_ok = false; break; }
                if (e.how == 2 && n == 1) break;
                changed = true; t = cur;
                if (!cur.bad) break;
                string ans;
                while (g.chance(1, 4)) ans += g.pick(vector<string>{"\n", "x\n", "yes\n", "I\n", "zzzz\n"});
                int a = n >= 3 ? 0 : g.weighted({3, 3, 1});
                if (a == 2) { input += ans; edit_ok = false; opdesc += " (end of input)"; break; }
                input += ans + (a == 0 ? "i" : "c") + (g.chance(1, 4) ? "gnore" : "") + "\n";
                opdesc += a == 0 ? " (ignore)" : " (correct)";
                if (a == 0) break;
                cur = gen_text(g, caller == "root", target == "nosuch" ? "model" : target);
                if (cur.text == t.text && g.chance(1, 2)) cur.text += "\n";
            }
            nedits = n;
            // an editor which replaces nothing: nothing to install
        } else {
            static const vector<vector<string>> BAD = {{"-l", "-r"}, {"-r", "-e"}, {"-z", "-l"}, {"-e", "-z"}, {}, {"-l", "a", "b"}, {"a", "b", "c"}, {"-q"}, {"-h"}, {"-u"}, {"-c"}};
            auto b = BAD[g.raw(BAD.size())]; for (auto &x : b) av.push_back(x); opdesc = "is misused:"; for (auto &x : b) opdesc += " " + x;
        }
        if (named && !dashu) av.push_back(target);
        bool refused = (named && caller != "root") || target == "nosuch" || !may(target) || what == 5;
        // faults
        F.reset(); pam_fail = 0; fail_fork = false;
        bool faulty = g.chance(1, 2);
        if (faulty) {
            int n = 1;
            if (g.chance(1, 12)) pam_fail = (int)g.range(1, 5);
            else if (g.chance(1, 14)) fail_fork = true;
            else while (n--) {
                FaultSpec f; f.call = g.weighted({6, 8, 3, 6, 3, 3, 3, 4, 4, 6, 1});
                f.nth = f.call == C_READ || f.call == C_WRITE ? (int)g.range(1, g.chance(1, 2) ? 4 : 20) : (int)g.range(1, g.chance(1, 2) ? 2 : 7);
                f.kind = g.weighted({6, 2, f.call == C_WRITE ? 4 : 0, 2, 2});
                static const int errs[] = {ENOSPC, EIO, EACCES, EDQUOT}; f.err = f.call == C_FOPEN ? EACCES : errs[g.raw(4)];
                F.plan.push_back(f);
            }
        }
        pbt::note("%s %s%s%s%s%s%s", caller.c_str(), opdesc.c_str(), named ? " for " : "", named ? target.c_str() : "", nopt ? " (-n)" : "", F.str().c_str(), pam_fail ? strf(": PAM refuses (%d)", pam_fail).c_str() : fail_fork ? ": fork fails" : "");
        if (what == 0 || what == 4) pbt::note("%s", pbt::quote(t.text).c_str());
        spew(base + "/in", input); put(base + "/out", "", 0, 0, 0644); put(base + "/err", "", 0, 0, 0644);
        auto b4 = snap();
        fflush(nullptr);
        pid_t pid = fork();
        if (!pid) {
            in_tab = true; alarm(20);
            int fi = open((base + "/in").c_str(), O_RDONLY), fo = open((base + "/out").c_str(), O_WRONLY); dup2(fi, 0); dup2(fo, 1); close(fi); close(fo);
            { int n = open((base + "/err").c_str(), O_WRONLY); dup2(n, 2); close(n); }
            unsetenv("VISUAL"); unsetenv("EDITOR"); if (set_visual) setenv("VISUAL", env_visual.c_str(), 1); if (set_editor) setenv("EDITOR", env_editor.c_str(), 1);
            if (chdir(home.c_str())) _exit(98);
            t_tmp_path = (char *)tmpd.c_str();
            if (setgroups(0, nullptr) || setresgid(gid_of(cu), FCRON_GID, FCRON_GID) || setresuid(cu, FCRON, FCRON)) _exit(98);
            stdin = fopencookie((void *)0, "r", {ck_read, nullptr, ck_seek, ck_close}); stdout = fopencookie((void *)1, "w", {nullptr, ck_write, nullptr, ck_close});
            vector<char *> a; for (auto &x : av) a.push_back(strdup(x.c_str())); a.push_back(nullptr);
            optind = 0;
            if (sigsetjmp(F.jb, 0) == 0) { F.armed = true; int r = tab_main((int)av.size(), a.data()); w_exit(r); }
            report(); _exit(97);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) pbt::fail(WTERMSIG(st) == SIGALRM ? "hang" : "signal", "fcrontab %s", WTERMSIG(st) == SIGALRM ? "does not end" : strf("is killed by signal %d", WTERMSIG(st)).c_str());
        int rc = WEXITSTATUS(st);
        if (rc == 99 || rc == 98) pbt::fail("sanitizer", "fcrontab crashes");
        bool died = rc == 97 && !R->exited;
        string log = R->log, out = slurp(base + "/out");
        auto has = [&](const char *x) { return log.find(x) != string::npos; };
        if (R->fired) { fired = true; pbt::note("    %s", log.c_str()); pbt::label("%s", log.substr(0, log.find(' ')).c_str()); }
        if (R->editbad[0]) pbt::fail("editor", "%s", R->editbad);
        auto af = snap();
        string no = target + ".orig", nn = "new." + target, nr = "rm." + target;
        for (auto *m : {&b4, &af}) for (auto &x : *m) {
            const string &f = x.first; if (f == no || f == nn || f == nr || (f.size() > 4 && f.substr(f.size() - 4) == ".tmp")) continue;
            if (!b4.count(f) || !af.count(f) || !(b4[f] == af[f])) pbt::fail("other", "%s, a file of somebody else, is %s", f.c_str(), !b4.count(f) ? "created" : !af.count(f) ? "removed" : "changed");
        }
        auto same = [&](const string &f) { return b4.count(f) == af.count(f) && (!b4.count(f) || b4[f] == af[f]); };
        auto unchanged = [&](const char *why) { for (auto &f : {no, nn, nr}) if (!same(f)) pbt::fail("changed", "%s, but %s is %s", why, f.c_str(), !b4.count(f) ? "created" : !af.count(f) ? "removed" : "changed"); };
        bool ok = !died && rc == 0;
        if (pbt::noting()) { string e = slurp(base + "/err").substr(0, 3000); if (e.size()) pbt::note("    | %s", e.c_str()); }
        pbt::note("    -> %s%s", died ? "dies" : strf("exit %d", rc).c_str(), R->nsig ? ", daemon told" : "");
        if (!died) for (auto &x : af) if (x.first.size() > 4 && x.first.substr(x.first.size() - 4) == ".tmp" && !b4.count(x.first) && !has("remove-failed") && !has("fstat-failed")) pbt::fail("left", "%s is left behind", x.first.c_str());
        if (!died && !has("remove-failed")) { if (chdir(tmpd.c_str())) abort(); auto l = listing(); if (chdir(spool.c_str())) abort(); for (auto &x : l) if (x.find("~new") == string::npos) { if (R->fired && !ok) { pbt::label("temporary file left"); unlink((tmpd + x).c_str()); } else pbt::fail("left-tmp", "the temporary file %s is left behind", x.c_str()); } }
        if (R->nsig > 1) pbt::fail("signal", "the daemon is told %d times", R->nsig);
        if (R->nsig) {
            if (strcmp(R->sigpath, "bin/fcronsighup bin/fcronsighup")) pbt::fail("signal", "the daemon is told by %s", R->sigpath);
            if (confarg != R->sigarg) pbt::fail("signal", "fcronsighup gets the configuration %s in place of %s", R->sigarg, confarg.c_str());
            if (R->sig_egid != (int)FCRON_GID) pbt::fail("signal", "fcronsighup runs without fcron's group");
        }
        if (af.count(nn)) { if (af[nn].uid != tu) pbt::fail("owner", "%s belongs to uid %d in place of %d", nn.c_str(), (int)af[nn].uid, (int)tu); if (af[nn].mode & 077 & ~040) pbt::fail("mode", "%s has mode %o", nn.c_str(), af[nn].mode & 07777); }
        if (af.count(no)) { if (af[no].uid != (tu ? FCRON : 0)) pbt::fail("owner", "%s belongs to uid %d", no.c_str(), (int)af[no].uid); if (af[no].mode & (tu ? 037 : 077)) pbt::fail("mode", "%s has mode %o", no.c_str(), af[no].mode & 07777); }
        if (refused || pam_fail) {
            if (ok) pbt::fail(what == 5 ? "misused" : "allowed", "%s, but the exit status is 0", what == 5 ? "it is misused" : "it is not allowed");
            unchanged(what == 5 ? "it was misused" : "it is not allowed");
            if (out.size()) pbt::fail("allowed", "something is listed");
            if (R->nedit) pbt::fail("allowed", "an editor is started");
            continue;
        }
        // what should have happened
        bool want = false, install = false; string wtext; Model wm;
        if (what == 0) { install = want = readable; wtext = t.text; wm = t.m; }
        else if (what == 3) { install = want = s.has; wtext = s.text; wm = s.m; if (caller != "root") for (auto &j : wm.jobs) if (j.o.nice < 0) j.o.nice = 0; }      // root's text, installed again by the user
        else if (what == 4) { want = edit_ok; install = edit_ok && changed; wtext = t.text; wm = t.m; }
        else want = true;
        if (what == 4) { bool nz = false; for (int i = 0; i < R->nplan; i++) if (R->plan[i].status > 0 && R->plan[i].status < 1000) nz = true; if (nz) { pbt::label("failing editor"); install = ok ? R->nsig > 0 : R->fired > 0; want = ok || R->fired; if (!install && ok) { unchanged("the editor failed and nothing was to be installed"); continue; } } }
        if (what == 4 && want && !install && !died) {}
        if (ok != want && !R->fired && !died) pbt::fail(ok ? "accepted" : "failed", "fcrontab exits with status %d though %s", rc, want ? "nothing failed" : "it cannot do what is asked");
        if (ok && !want) pbt::fail("accepted", "fcrontab exits with status 0 though it cannot do what is asked");
        if (what == 2) {
            unchanged("a list was asked for");
            if (ok && out != (s.has ? s.text : "")) pbt::fail("list", "the text listed is not the one installed (%zu characters in place of %zu)", out.size(), s.text.size());
            if (!ok && s.text.compare(0, out.size(), out)) pbt::fail("list", "the text listed is not the one installed");
            if (ok && s.has) good++;
            continue;
        }
        if (out.size() && what != 2) pbt::fail("output", "something is printed: %s", pbt::quote(out).substr(0, 200).c_str());
        if (what == 1) {
            if (ok) {
                if (af.count(no) || af.count(nn)) pbt::fail("not-removed", "%s is still there", af.count(no) ? no.c_str() : nn.c_str());
                if (!af.count(nr)) pbt::fail("not-removed", "the daemon is not asked to remove the table");
                if (!R->nsig) pbt::fail("not-told", "the daemon is not told of the removal");
                s = State(); good++;
            } else {
                if (af.count(no) && !same(no)) pbt::fail("partial", "%s is changed by a removal which fails", no.c_str());
                if (af.count(nn) && !same(nn)) pbt::fail("partial", "%s is changed by a removal which fails", nn.c_str());
                if (!af.count(no)) { s.has = false; s.text = ""; }
                if (af.count(nr)) s.tab = af.count(nn) != 0; else if (b4.count(nn) && !af.count(nn)) s.unknown = true;
                if (s.unknown) { s.tab = false; if (af.count(nr)) s.unknown = false; }
                if (s.unknown) { pbt::label("half removed"); break; }
            }
            continue;
        }
        // installations
        if (!install && !died) { unchanged("nothing was to be installed"); if (R->nsig) pbt::fail("told", "the daemon is told though nothing changed"); continue; }
        bool norig = af.count(no) && af[no].bytes == wtext;
        auto table_is_new = [&](string &why) {
            if (wm.jobs.empty()) { why = "the removal is not asked for"; return !af.count(nn) && af.count(nr); }
            if (!af.count(nn)) { why = nn + " is absent"; return false; }
            return check_new(nn, target == "systab" ? "systab" : target, wm, why) == 0;
        };
        string why;
        if (ok) {
            if (!norig) pbt::fail("text", "the installation succeeds but %s holds %zd characters in place of %zu", no.c_str(), af.count(no) ? (ssize_t)af[no].bytes.size() : -1, wtext.size());
            if (!table_is_new(why)) pbt::fail("table", "the installation succeeds but the table is not the one of the text: %s", why.c_str());
            if ((nopt || what == 3) && !af.count(nr)) pbt::fail("ignore-previous", "the daemon is not asked to forget the previous table");
            if (!(nopt || what == 3) && !wm.jobs.empty() && af.count(nr) != b4.count(nr)) pbt::fail("removal", "the removal order %s", af.count(nr) ? "appears" : "disappears");
            if (!R->nsig) pbt::fail("not-told", "the daemon is not told of the new table");
            s.has = true; s.text = wtext; s.tab = !wm.jobs.empty(); s.m = wm; s.unknown = false; good++;
            continue;
        }
        // failed, or died
        bool same_table = same(nn) && same(nr);
        if (!died && same(no) && same_table) { continue; }
        if (fork_failed || has("fork-failed")) { if (norig && table_is_new(why)) { s.has = true; s.text = wtext; s.tab = !wm.jobs.empty(); s.m = wm; continue; } }
        bool no_old = same(no), no_new = norig;
        if (!no_old && !no_new) pbt::fail("partial", "%s: %s is neither the old nor the new text", died ? "death" : "failure", no.c_str());
        bool t_old = same_table, t_new = table_is_new(why);
        bool last = !died && has("rename-failed") && t_new && no_old;          // the very last step failed
        // the removal order comes first
        bool between = died && !t_old && !t_new && (nopt || what == 3 || wm.jobs.empty()) && af.count(nr) && (same(nn) || !af.count(nn));
        if (died) {
            if (!t_old && !t_new && !between) pbt::fail("mixture", "death: %s is neither the old nor the new table: %s", nn.c_str(), why.c_str());
        } else if (has("fstat-failed") && same(no) && same(nn)) { pbt::label("an order which was created but not seen"); break; }
        else if (same(no) && log.find("(" + nr + ")", log.find("remove-failed")) != string::npos) { pbt::label("the cleaning up failed too"); break; }
        else if (!last) pbt::fail("failed-install", "the installation fails (status %d) but %s%s%s", rc, no_old ? "" : "the text is replaced", !no_old && !t_old ? " and " : "", t_old ? "" : "the table is replaced or removed");
        if (no_new && !no_old) { s.has = true; s.text = wtext; }
        if (between) { pbt::label("died between the two orders"); s.tab = af.count(nn) != 0; }
        else if (t_new && !t_old) { s.tab = !wm.jobs.empty(); s.m = wm; }
        if (no_new != (t_new && !t_old)) { pbt::label("text and table differ after a death or in the last step"); break; }
    }
    pbt::label("steps %d", nops);
    if (good && (fired || nops >= 3)) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "fcrontab"; c.quick = 12000; c.thorough = 300000; c.batch = 20; c.prop = prop;
    return pbt::main(argc, argv, c);
}
