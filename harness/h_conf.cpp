// C26: fcron.conf.
#include "daemonglue.hpp"
#include "mailmodel.hpp"
#include <grp.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
extern "C" {
#include "mail.h"
extern char *fcronconf, *fcrontabs, *pidfile, *suspendfile, *fifofile, *fcronallow, *fcrondeny, *shell, *sendmail, *editor, *maildisplayname;
extern uid_t rootuid; extern gid_t rootgid;
void read_conf(void); void init_conf(void); void free_conf(void);
}
struct Exit { int st; };
static bool fail_group;
static struct group grp;
extern "C" int w_rand(void) { return 1; }
extern "C" struct group *w_getgrnam(const char *n) { if (fail_group) return nullptr; grp.gr_name = (char *)"fcron"; grp.gr_gid = 77; return &grp; }
extern "C" void w_exit(int st) { throw Exit{st}; }
static const char *NAMES[] = {"fcrontabs", "pidfile", "suspendfile", "fifofile", "fcronallow", "fcrondeny", "shell", "sendmail", "editor", "maildisplayname"};
static char **VARS[] = {&fcrontabs, &pidfile, &suspendfile, &fifofile, &fcronallow, &fcrondeny, &shell, &sendmail, &editor, &maildisplayname};
static string blanks(Gen &g, int max = 3) { string s; int n = g.chance(2, 3) ? 0 : (int)g.range(1, max); while (n--) s += g.chance(1, 3) ? '\t' : ' '; return s; }
static string value(Gen &g) {
    static const string A = "/abcxyz019._-#=:, \"'%$\xe9\t";
    string s; int n = g.chance(1, 10) ? 0 : g.chance(1, 15) ? (int)g.range(400, 980) : (int)g.range(1, 30);
    if (g.chance(1, 2)) { s = "/"; while ((int)s.size() < n) s += A[g.raw(14)]; }
    else while ((int)s.size() < n) s += A[g.raw(A.size())];
    if (g.chance(1, 15)) s = "/p%s%n%d";
    size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
    return a == string::npos ? "" : s.substr(a, b - a + 1);
}
static void prop(Gen &g) {
    foreground = 0; dosyslog = 0; debug_opt = g.chance(1, 4);
    uid_t ru = rootuid = g.chance(1, 8) ? 1234 : 0; rootgid = 0;
    // the defaults
    fcronconf = nullptr; init_conf();
    string want[10]; bool known[10]; for (int i = 0; i < 10; i++) { want[i] = *VARS[i] ? *VARS[i] : ""; known[i] = true; }
    free_conf();
    string def[10]; for (int i = 0; i < 10; i++) def[i] = want[i];
    string text; int nl = (int)g.range(0, 14), sets = 0;
    bool crlf = false; (void)crlf;
    for (int i = 0; i < nl; i++) {
        string ln;
        switch (g.weighted({8, 2, 2, 4, 2, 1})) {
        case 0: {
            int k = (int)g.raw(10); string v = k == 9 && g.chance(1, 2) ? gen_disp(g).substr(0, 900) : value(g);
            { size_t a = v.find_first_not_of(" \t"), b = v.find_last_not_of(" \t"); v = a == string::npos ? "" : v.substr(a, b - a + 1); }
            ln = blanks(g) + NAMES[k] + blanks(g) + "=" + blanks(g) + v + blanks(g);
            known[k] = true; sets++;
            if (k == 9) { if (v.find('\\') != string::npos) known[k] = false; char *t = strdup(v.c_str()), *o = format_maildisplayname(t); if (o) want[k] = o; else known[k] = false; }
            else want[k] = v;
            break; }
        case 1: ln = blanks(g) + "#" + (g.chance(1, 2) ? string(NAMES[g.raw(10)]) + " = /commented" : value(g)); break;
        case 2: ln = blanks(g, 8); break;
        case 3: {  // no such name
            string n = NAMES[g.raw(10)];
            switch (g.raw(6)) {
            case 0: n = n.substr(0, 1 + g.raw(n.size() - 1)); break;
            case 1: n += g.chance(1, 2) ? "s" : "_x"; break;
            case 2: n[0] = (char)toupper(n[0]); break;
            case 3: n = "x" + n; break;
            case 4: n = string(1, (char)('a' + g.raw(26))); break;
            default: n = "unknown-name"; }
            bool is = false; for (auto x : NAMES) if (n == x) is = true;
            if (is) n += "q";
            ln = blanks(g) + n + blanks(g) + "=" + blanks(g) + value(g); break; }
        case 4: ln = blanks(g) + (g.chance(1, 2) ? "=" : g.chance(1, 2) ? "= " : "!") + (g.chance(1, 2) ? string(NAMES[g.raw(10)]) + " = " : "") + value(g); break;
        case 5: {  // too long: whatever happens to it, its end is no line of its own
            size_t len = g.range(1015, 1035); if (g.chance(1, 3)) len = 1023 * 2 + g.range(-3, 3);
            string tail = string(NAMES[g.raw(10)]) + "=/tail";
            if (g.chance(1, 2)) { ln = "#"; while (ln.size() < 1023) ln += 'x'; ln += tail; }
            else { int k = (int)g.raw(9); ln = string(NAMES[k]) + "=/"; size_t b = ln.size() - 1; while (ln.size() < len) ln += 'l'; if (ln.size() <= 1023) { want[k] = ln.substr(b); known[k] = true; } else { ln += tail; known[k] = false; } }
            break; }
        }
        text += ln;
        if (i + 1 < nl || g.chance(3, 4)) text += "\n";
    }
    string path = pbt::scratch() + strf("/conf.%d", (int)getpid());
    unlink(path.c_str());
    int kind = g.weighted({12, 1, 4, 2});       // normal, absent, untrusted, other mode
    uid_t uid = ru; gid_t gid = 77; int mode = 0644;
    if (kind == 2) switch (g.raw(4)) {
        case 0: uid = ru + 1 + g.raw(5); break;
        case 1: gid = g.chance(1, 2) ? 0 : 78; break;
        case 2: mode |= 020; break;
        default: mode |= 002; if (g.chance(1, 2)) mode |= 020; }
    if (kind == 3) { static const int M[] = {0600, 0640, 0444, 0400, 0744, 04644}; mode = M[g.raw(6)]; }
    if (kind != 1) {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
        if (write(fd, text.data(), text.size()) != (ssize_t)text.size()) abort();
        if (fchown(fd, uid, gid) || fchmod(fd, (mode_t)mode)) abort();
        close(fd);
    }
    pbt::note("owner %d (root is %d) group %d mode %o%s\n%s", (int)uid, (int)ru, (int)gid, mode, kind == 1 ? " absent" : "", pbt::quote(text).c_str());
    fcronconf = strdup(path.c_str());
    fail_group = false;
    bool exited = false;
    try { read_conf(); } catch (Exit &) { exited = true; }
    unlink(path.c_str());
    if (exited != (kind == 1)) pbt::fail("exit", exited ? "reading the file ended the program" : "a file asked for which does not exist is no error");
    for (int i = 0; i < 10; i++) {
        string got = *VARS[i] ? *VARS[i] : "(null)";
        const string &w = kind == 1 || kind == 2 ? def[i] : want[i];
        if (!exited && (known[i] || kind == 2) && got != w) pbt::fail(kind == 2 ? "untrusted" : "setting", "%s is %s, expected %s", NAMES[i], pbt::quote(got).c_str(), pbt::quote(w).c_str());
    }
    if (!exited && strcmp(fcronconf, path.c_str())) pbt::fail("conf-name", "fcronconf changed");
    if (sets && kind != 1) pbt::nontrivial();
    pbt::label("%s", kind == 1 ? "absent" : kind == 2 ? "untrusted" : "read");
    if (!exited) free_conf();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "conf"; c.prop = prop; c.batch = 20; c.quick = 60000; c.thorough = 1500000;
    return pbt::main(argc, argv, c);
}
