// C25: fcron.allow and fcron.deny.
#include "pbt.hpp"
#include <set>
#include <pwd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
using std::string; using std::vector; using pbt::Gen; using pbt::strf;
extern "C" {
extern char *fcronallow, *fcrondeny; extern char foreground; extern int dosyslog;
int is_allowed(char *); int in_file(char *, char *);
}
struct Exit { int st; };
static string pwuser; static bool ispw; static struct passwd pw;
extern "C" {
uid_t w_getuid(void) { return 1000; }
void w_syslog(int, const char *f, ...) { pbt_format(f); }
void w_openlog(const char *, int, int) {}
void w_closelog(void) {}
void w_exit(int st) { throw Exit{st}; }
struct passwd *w_getpwnam(const char *n) { if (!ispw || pwuser != n) return nullptr; pw.pw_name = (char *)pwuser.c_str(); return &pw; }
int w_audit_open(void) { return open("/dev/null", O_RDONLY); }
int w_audit_log_user_message(int, int, const char *, const char *, const char *, const char *, int) { return 1; }
FILE *w_fopen(const char *p, const char *m) {
    // the tests run as root, which may read everything
    struct stat st; if (stat(p, &st) == 0 && !(st.st_mode & 0444)) { errno = EACCES; return NULL; }
    return fopen(p, m);
}
}
struct Pol { int state = 0; string text; bool user = false, all = false; };     // state 0 absent, 1 read, 2 unreadable
static Pol gen(Gen &g, const string &u, const vector<string> &others) {
    Pol p; p.state = g.weighted({3, 10, 1});
    if (p.state == 2 && g.chance(1, 2)) p.state = 1;
    int n = (int)g.raw(9);
    auto bl = [&] { string s; int k = g.chance(3, 4) ? 0 : (int)g.range(1, 4); while (k--) s += g.chance(1, 3) ? '\t' : ' '; return s; };
    bool us = g.chance(1, 3), al = g.chance(1, 4);
    for (int i = 0; i < n; i++) {
        string l;
        switch (g.weighted({us ? 3 : 0, al ? 3 : 0, 5, 2, 2, 3, 2, 1})) {
        case 0: l = bl() + u + bl(); p.user = true; break;
        case 1: l = bl() + "all" + bl(); p.all = true; break;
        case 2: l = bl() + others[g.raw(others.size())] + bl(); break;
        case 3: l = bl() + "#" + bl() + (g.chance(1, 2) ? u : "all"); break;
        case 4: l = bl(); break;
        case 5: {        // nearly
            string b = g.chance(1, 2) ? u : "all";
            switch (g.raw(7)) {
            case 0: l = b.substr(0, b.size() - 1); break;
            case 1: l = b + "x"; break;
            case 2: l = "x" + b; break;
            case 3: l = b + " " + b; break;
            case 4: l = b + ","; break;
            case 5: l = b; l[0] = (char)toupper(l[0]); if (l == b) l = "_" + b; break;
            default: l = b + "#"; }
            if (l == u || l == "all") l += "_";
            break; }
        case 6: {        // longer than any name
            string b = g.chance(1, 2) ? u : "all";
            size_t k = 1023 * (g.chance(1, 4) ? 2 : 1) + (g.chance(1, 4) ? g.range(-2, 2) : 0);
            char c = g.chance(1, 3) ? ' ' : g.chance(1, 2) ? '#' : 'x';
            if (c == ' ') { l = string(k, c); l = "y" + l.substr(1) + b; }
            else l = string(k, c) + b;
            if (g.chance(1, 3)) l += string(g.range(0, 1100), g.chance(1, 2) ? ' ' : 'z');
            break; }
        case 7: l = others[g.raw(others.size())] + "\r"; if (l == u + "\r") l = "q"; break;
        }
        p.text += l;
        if (i + 1 < n || g.chance(3, 4)) p.text += "\n";
    }
    return p;
}
static void prop(Gen &g) {
    foreground = 0; dosyslog = 0;
    static const vector<string> W = {"root", "model", "joe", "al", "a", "user-name_1", "alla", "fcron", "systemfcrontab"};
    string u = g.chance(1, 12) ? string(g.range(30, 200), 'u') : W[g.raw(W.size())];
    vector<string> others; for (auto &w : W) if (w != u) others.push_back(w);
    pwuser = u; ispw = !g.chance(1, 12);
    Pol a = gen(g, u, others), d = gen(g, u, others);
    string pa = pbt::scratch() + strf("/allow.%d", (int)getpid()), pd = pbt::scratch() + strf("/deny.%d", (int)getpid());
    auto put = [](const string &p, const Pol &x) {
        unlink(p.c_str());
        if (x.state == 0) return;
        int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
        if (write(fd, x.text.data(), x.text.size()) != (ssize_t)x.text.size()) abort();
        if (x.state == 2) fchmod(fd, 0);
        close(fd);
    };
    put(pa, a); put(pd, d);
    pbt::note("user %s%s\nallow (%s): %s\ndeny (%s): %s", u.c_str(), ispw ? "" : " (unknown)", a.state == 0 ? "absent" : a.state == 2 ? "unreadable" : "read", pbt::quote(a.text).c_str(), d.state == 0 ? "absent" : d.state == 2 ? "unreadable" : "read", pbt::quote(d.text).c_str());
    fcronallow = strdup(pa.c_str()); fcrondeny = strdup(pd.c_str());
    int r = -1;
    char *uu = strdup(u.c_str());
    try { r = is_allowed(uu); } catch (Exit &e) { r = 2; }
    free(uu);
    unlink(pa.c_str()); unlink(pd.c_str());
    bool want, any = false;
    if (!ispw) want = false;
    else if (a.state == 2 || d.state == 2) { want = false; }
    else {
        bool al = a.state == 0 || a.user || a.all;
        bool de = d.state == 1 && (d.user || d.all);
        // named in fcron.allow, refused only as one of all
        if (a.state == 1 && a.user && d.state == 1 && d.all && !d.user) de = false;
        want = al && !de;
    }
    (void)any;
    if (r != 0 && r != 1 && r != 2) pbt::fail("result", "is_allowed() returns %d", r);
    if ((r == 1) != want) pbt::fail(want ? "refused" : "allowed", "%s is %s", u.c_str(), r == 1 ? "allowed" : "refused");
    if (a.state == 1 || d.state == 1) pbt::nontrivial();
    pbt::label("allow %s, deny %s", a.state == 0 ? "absent" : a.state == 2 ? "unreadable" : a.user ? "names the user" : a.all ? "all" : "others", d.state == 0 ? "absent" : d.state == 2 ? "unreadable" : d.user ? "names the user" : d.all ? "all" : "others");
    free(fcronallow); free(fcrondeny);
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "allow"; c.prop = prop; c.batch = 20; c.quick = 60000; c.thorough = 1500000;
    return pbt::main(argc, argv, c);
}
