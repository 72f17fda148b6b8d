// C24: fcrondyn, the client: what it sends for a command line, and what it prints of the answer.
#include "pbt.hpp"
#include <pwd.h>
#include <grp.h>
#include <signal.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include <stdlib.h>
#include <getopt.h>
#include <map>
#include <deque>
#include <sys/select.h>
#include <sys/socket.h>
using std::string; using std::vector; using pbt::Gen; using pbt::strf;
extern "C" {
extern char debug_opt, *cmd_str, *user_str, *prog_name, *fifofile; extern uid_t user_uid;
int dyn_main(int, char **);
}
struct Exit { int st; };
struct U { const char *name; uid_t uid; gid_t gid; };
static const vector<U> PW = {{"root", 0, 0}, {"model", 1000, 1001}, {"bin", 2, 77}, {"john", 1001, 3}, {"john.doe", 1002, 100}, {"a-b_c", 1003, 4294967295u}, {"9lives", 1004, 5}, {"big", 4294967293u, 6}, {"Model", 1005, 7}, {"m$", 1006, 8}, {"x@y", 1007, 9}};
static U me; static string conf_seen;
static uid_t ruid; static gid_t rgid; static bool refused_user;
struct Reply { string bytes; vector<int> cuts; int end; };       // end: 0 complete, 1 the daemon closes, 2 nothing within the time
static std::deque<Reply> script; static vector<string> sent; static string inbox; static std::deque<int> cuts; static int in_end; static bool connected; static int nconn, fdopen_;
static std::deque<string> typed; static vector<string> outs; static bool interactive;
static char *obuf, *ebuf; static size_t olen, elen; static FILE *o_, *e_;
static const int FD = 57;
extern "C" {
uid_t w_getuid(void) { return ruid; }
gid_t w_getgid(void) { return rgid; }
int w_setuid(uid_t u) { if (u != me.uid) pbt::fail("setuid", "setuid(%ld) for user %ld", (long)u, (long)me.uid); ruid = u; return 0; }
int w_setgid(gid_t u) { if (u != me.gid) pbt::fail("setgid", "setgid(%ld) for group %ld", (long)u, (long)me.gid); rgid = u + 0; fdopen_ |= 2; return 0; }
void w_seteuid_safe(uid_t u) { if (u == me.uid) fdopen_ |= 1; }
void w_setegid_safe(gid_t) {}
uid_t w_get_user_uid_safe(char *) { return 0; }
gid_t w_get_group_gid_safe(char *) { return 0; }
static struct passwd pwbuf[2];
static struct passwd *mk(const U &u, int i) { pwbuf[i] = {}; pwbuf[i].pw_name = strdup(u.name); pwbuf[i].pw_uid = u.uid; pwbuf[i].pw_gid = u.gid; return &pwbuf[i]; }
struct passwd *w_getpwnam(const char *n) { for (auto &u : PW) if (!strcmp(u.name, n)) return mk(u, 0); return nullptr; }
struct passwd *w_getpwuid(uid_t id) { for (auto &u : PW) if (u.uid == id) return mk(u, 1); return nullptr; }
void w_read_conf(void) { fifofile = (char *)"/nonexistent/fcron.fifo"; }
int w_is_allowed(char *u) { if (strcmp(u, me.name)) pbt::fail("allowed-for", "the permission of %s is checked for user %s", u, me.name); return refused_user ? 0 : 1; }
void w_exit(int st) { throw Exit{st}; }
void (*w_signal(int, void (*h)(int)))(int) { return SIG_DFL; }
void w_syslog(int, const char *f, ...) { pbt_format(f); }
void w_openlog(const char *, int, int) {}
void w_closelog(void) {}
int w_socket(int, int, int) { nconn++; return FD; }
int w_connect(int fd, const struct sockaddr *, socklen_t) {
    if (fd != FD) pbt::fail("connect", "connect() on descriptor %d", fd);
    if (ruid != me.uid || !(fdopen_ & 2)) pbt::fail("privileges", "connected with the privileges of fcrondyn's owner");
    if (refused_user) pbt::fail("not-allowed", "a user who is not allowed is connected");
    connected = true; return 0;
}
int w_close(int fd) { if (fd == FD) { if (!connected) pbt::fail("close", "closed twice"); connected = false; return 0; } return close(fd); }
int w_shutdown(int, int) { return 0; }
ssize_t w_send(int fd, const void *p, size_t n, int) {
    if (fd != FD || !connected) pbt::fail("send-fd", "send() on descriptor %d", fd);
    sent.push_back(string((const char *)p, n));
    if (script.size()) { auto &r = script.front(); inbox += r.bytes; for (int c : r.cuts) cuts.push_back(c); in_end = r.end; script.pop_front(); }
    return (ssize_t)n;
}
int w_select(int n, fd_set *r, fd_set *, fd_set *, struct timeval *) { if (in_end == 2) return 0; if (!r || n <= FD || !FD_ISSET(FD, r)) pbt::fail("select", "select() does not wait for the daemon"); return 1; }
ssize_t w_recv(int fd, void *p, size_t n, int) {
    if (fd != FD || !connected) pbt::fail("recv-fd", "recv() on descriptor %d", fd);
    if (cuts.size() && cuts.front() == 0) { cuts.pop_front(); errno = EINTR; return -1; }
    if (inbox.empty()) { if (in_end == 1) return 0; pbt::fail("hang", "waits for more after the end of the answer"); }
    size_t k = std::min(n, inbox.size());
    if (cuts.size()) { k = std::min<size_t>(k, cuts.front()); cuts.pop_front(); }
    memcpy(p, inbox.data(), k); inbox.erase(0, k);
    return (ssize_t)k;
}
static void flush_out() { fflush(o_); outs.push_back(string(obuf, olen)); rewind(o_); fflush(o_); }
char *w_readline(const char *) { flush_out(); if (typed.empty()) return nullptr; char *s = strdup(typed.front().c_str()); typed.pop_front(); return s; }
void w_add_history(const char *) {}
}
// ---- the model
enum { NOTHING, SEND, HELP, QUIT };
struct Want { int what = NOTHING; vector<long> v; bool unspec = false, extra = false; };
struct C { const char *name; int code; const char *args; };       // u: user, j: job id, s: signal, n: nice
static const vector<C> CMD = {{"ls", 101, "u"}, {"ls_lavgq", 102, "u"}, {"ls_serialq", 103, "u"}, {"ls_exeq", 104, "u"}, {"detail", 105, "j"}, {"runnow", 301, "j"}, {"run", 302, "j"}, {"kill", 401, "sj"}, {"renice", 402, "nj"}, {"quit", 0, ""}, {"q", 0, ""}, {"exit", 0, ""}, {"help", -1, ""}, {"h", -1, ""}};
static const std::map<string, int> SIG = {{"hup", SIGHUP}, {"int", SIGINT}, {"quit", SIGQUIT}, {"kill", SIGKILL}, {"alrm", SIGALRM}, {"term", SIGTERM}, {"usr1", SIGUSR1}, {"usr2", SIGUSR2}, {"cont", SIGCONT}, {"stop", SIGSTOP}, {"tstp", SIGTSTP}};
static bool number(const string &s, long &v) {
    size_t i = s[0] == '-' ? 1 : 0; if (i >= s.size()) return false;
    for (size_t k = i; k < s.size(); k++) if (!isdigit((unsigned char)s[k])) return false;
    __int128 x = 0; for (size_t k = i; k < s.size() && x < ((__int128)1 << 70); k++) x = x * 10 + (s[k] - '0');
    if (i) x = -x;
    v = x > LONG_MAX ? LONG_MAX : x < LONG_MIN ? LONG_MIN : (long)x;
    return true;
}
static Want model(string s) {
    Want w;
    while (s.size() && isspace((unsigned char)s.back())) s.pop_back();
    for (char c : s) if (c == '\n' || c == '\v' || c == '\f' || c == '\r') w.unspec = true;
    size_t p = s.find_first_not_of(" \t"); if (p == string::npos) return w;
    s = s.substr(p);
    size_t k = 0; while (k < s.size() && (isalnum((unsigned char)s[k]) || s[k] == '_' || s[k] == '-')) k++;
    string name = s.substr(0, k); s = s.substr(k);
    const C *c = nullptr; for (auto &x : CMD) if (name == x.name) c = &x;
    if (!c) return w;
    if (s.size() && s[0] != ' ' && s[0] != '\t') { w.unspec |= c->code <= 0; if (c->code > 0) return w; }
    if (c->code <= 0) { w.what = c->code ? HELP : QUIT; return w; }
    vector<string> t; size_t i = 0;
    while (i < s.size()) { if (s[i] == ' ' || s[i] == '\t') { i++; continue; } size_t j = s.find_first_of(" \t", i); if (j == string::npos) j = s.size(); t.push_back(s.substr(i, j - i)); i = j; }
    vector<long> v = {c->code};
    for (size_t a = 0; c->args[a]; a++) {
        if (a >= t.size()) { if (c->args[a] != 'u') return w; v.push_back(me.uid == 0 ? -1 : (long)me.uid); continue; }
        const string &x = t[a]; long n;
        if (x[0] == '+' || x.substr(0, 2) == "-0") w.unspec = true;
        switch (c->args[a]) {
        case 'u': { bool ok = false; if (x == "systab") { v.push_back(-100); ok = true; } else for (auto &u : PW) if (x == u.name) { v.push_back((long)u.uid); ok = true; } if (!ok) return w; break; }
        case 'j': if (!number(x, n) || n < 0 || n == LONG_MAX) return w; v.push_back(n); break;
        case 'n': if (!number(x, n) || n > 20 || n < -20 || (n < 0 && me.uid != 0)) return w; v.push_back(n); break;
        case 's': { string y = x; for (char &ch : y) ch = (char)tolower((unsigned char)ch); auto it = SIG.find(y); if (it != SIG.end()) { v.push_back(it->second); break; } if (!number(x, n) || n <= 0 || n == LONG_MAX) return w; if (n > INT_MAX) w.unspec = true; v.push_back(n); break; }
        }
    }
    w.extra = t.size() > strlen(c->args); w.what = SEND; w.v = v; return w;
}
// ---- what is typed
static string blanks(Gen &g, bool need) { string s = need ? " " : ""; int k = g.chance(1, 4) ? (int)g.range(1, 4) : 0; while (k--) s += g.chance(1, 3) ? '\t' : ' '; return s; }
static string word(Gen &g) {
    static const string A = "abcdefghijklmnopqrstuvwxyzLSHUP0123456789_-.:+/%@$\"'\\;,=#\x01\x7f\x80\xff\xe9";
    string s; int n = (int)g.skew(1, g.chance(1, 10) ? 600 : 12); while (n--) s += A[g.raw(A.size())]; return s;
}
static string arg(Gen &g, char k) {
    switch (k) {
    case 'u': switch (g.weighted({6, 2, 1, 1, 1})) { case 0: return g.pick(PW).name; case 1: return "systab"; case 2: return word(g); case 3: return string(g.pick(PW).name) + g.pick(vector<string>{".", ":x", "x", "-", "@", ",root"}); default: return strf("%ld", (long)g.pick(PW).uid); }
    case 'j': switch (g.weighted({8, 1, 1, 1, 1, 1})) { case 0: return strf("%ld", (long)g.raw(300)); case 1: return strf("%lld", (long long)LONG_MAX - (long long)g.raw(3)); case 2: return strf("-%ld", (long)g.raw(300)); case 3: return word(g); case 4: return strf("%ld", (long)g.raw(300)) + g.pick(vector<string>{"x", ":", "-1", ".0", "e1", ","}); default: return string(g.range(1, 3), '0') + g.pick(vector<string>{"", "7", "9223372036854775808", "18446744073709551617", "4294967297"}); }
    case 'n': switch (g.weighted({8, 2, 1, 1})) { case 0: return strf("%ld", (long)g.range(-20, 20)); case 1: return strf("%ld", (long)(g.chance(1, 2) ? 20 + g.raw(3) : -20 - (long)g.raw(3))); case 2: return word(g); default: return g.pick(vector<string>{"-", "--5", "5-", "18446744073709551615", "-9223372036854775809", "4294967296", "1x", "1.5", "-1-"}); }
    default: switch (g.weighted({6, 4, 1, 1, 1})) {
        case 0: { auto it = SIG.begin(); std::advance(it, g.raw(SIG.size())); string s = it->first; if (g.chance(1, 2)) for (char &c : s) if (g.chance(1, 2)) c = (char)toupper(c); return s; }
        case 1: return strf("%ld", (long)g.range(1, 64));
        case 2: { auto it = SIG.begin(); std::advance(it, g.raw(SIG.size())); string s = it->first; if (g.chance(1, 3)) return s.substr(0, s.size() - 1); return g.chance(1, 2) ? s + g.pick(vector<string>{"1", "x", "-", ".", ":5"}) : "sig" + s; }
        case 3: return word(g);
        default: return g.pick(vector<string>{"0", "-9", "-1", "9x", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551625", "4294967305", "15.", "-"}); }
    }
}
static string line(Gen &g) {
    if (g.chance(1, 12)) { string s; int n = (int)g.raw(5); while (n--) s += word(g) + blanks(g, true); return s; }
    if (g.chance(1, 40)) { string s; int n = (int)g.raw(3000); while (n--) s += (char)g.range(1, 255); return s; }
    const C &c = CMD[g.weighted({8, 4, 4, 4, 8, 8, 8, 12, 12, 1, 1, 1, 1, 1})];
    string n = c.name;
    if (g.chance(1, 12)) switch (g.raw(5)) { case 0: n = n.substr(0, n.size() - 1); break; case 1: n += g.pick(vector<string>{"x", "_", "-", "1", "s"}); break; case 2: n[0] = (char)toupper(n[0]); break; case 3: n += g.pick(vector<string>{":", ".", "=", ",", "/5"}); break; default: n = word(g); }
    string s = blanks(g, false) + n;
    size_t k = strlen(c.args), m = g.chance(1, 8) ? g.raw(k + 1) : k;
    if (c.args[0] == 'u' && g.chance(1, 3)) m = 0;
    string order = c.args; if (g.chance(1, 20)) std::reverse(order.begin(), order.end());
    for (size_t i = 0; i < m; i++) s += blanks(g, true) + arg(g, order[i]);
    if (g.chance(1, 10)) { int e = (int)g.range(1, 4); while (e--) s += blanks(g, true) + (g.chance(1, 2) ? word(g) : arg(g, "ujsn"[g.raw(4)])); }
    if (g.chance(1, 4)) s += blanks(g, false);
    if (g.chance(1, 20)) s += g.pick(vector<string>{"\n", "\r\n", " \n", "\v"});
    return s;
}
static Reply reply(Gen &g, string &text) {
    Reply r; r.end = 0;
    int n = (int)(g.chance(1, 4) ? g.raw(60) : g.raw(5));
    for (int i = 0; i < n; i++) {
        string l; int k = (int)(g.chance(1, 6) ? g.range(180, 195) : g.raw(90)); for (int j = 0; j < k; j++) l += (char)g.range(33, 126);
        if (l.empty()) l = "r";
        if (g.chance(1, 2)) { l += "\n"; if (l == "\n") l = "x\n"; }
        r.bytes += l + string(1, '\0'); text += l; if (l.back() != '\n') text += "\n";
    }
    r.bytes += string(3, '\0');
    if (g.chance(1, 15)) { r.end = 1; r.bytes = r.bytes.substr(0, g.raw(r.bytes.size() - 1)); }
    else if (g.chance(1, 40)) { r.end = 2; r.bytes.clear(); }
    // how it arrives
    int how = g.weighted({3, 3, 2});
    if (how == 1) { size_t left = r.bytes.size(); while (left) { size_t k = std::min<size_t>(left, 1 + g.raw(1 + g.raw(400))); r.cuts.push_back((int)k); if (g.chance(1, 10)) r.cuts.push_back(0); left -= k; } }
    else if (how == 2 && r.bytes.size() > 4) { size_t tail = 1 + g.raw(5); r.cuts = {(int)(r.bytes.size() - std::min(tail, r.bytes.size() - 1))}; while (tail) { int k = 1 + (int)g.raw(tail); r.cuts.push_back(k); tail -= k; } }
    return r;
}
static string text_of(const string &b) { string o; bool in = false; for (char c : b) if (c) { o += c; in = true; } else { if (in && o.back() != '\n') o += '\n'; in = false; } return o; }
static void prop(Gen &g) {
    me = g.chance(1, 3) ? PW[0] : PW[g.raw(PW.size())];
    if (me.uid == 4294967293u && g.chance(1, 2)) me = PW[1];
    ruid = me.uid; rgid = me.gid; refused_user = g.chance(1, 60);
    interactive = g.chance(1, 2);
    int n = interactive ? (int)g.raw(7) : 1;
    script.clear(); sent.clear(); inbox.clear(); cuts.clear(); in_end = 0; connected = false; nconn = 0; fdopen_ = 0; typed.clear(); outs.clear();
    vector<string> lines; vector<Want> want; vector<Reply> rep;
    for (int i = 0; i < n; i++) {
        string l = line(g); for (char &c : l) if (!c) c = ' ';
        if (!interactive && l.empty()) l = " ";
        lines.push_back(l); want.push_back(model(l)); typed.push_back(l);
        pbt::note("%s%s", interactive ? "typed " : "-x ", pbt::quote(l).c_str());
    }
    // the session ends at quit, or when the daemon does not answer
    size_t stop = 0; bool err = false, unspec = false;
    for (; stop < want.size(); stop++) {
        Want &w = want[stop];
        if (w.unspec) unspec = true;
        if (w.what == QUIT) { stop++; break; }
        string t; Reply r = reply(g, t); rep.push_back(r);
        if (w.what == SEND && pbt::noting()) { string c; for (int x : r.cuts) c += strf(" %d", x); pbt::note("answer %s end %d in%s", pbt::quote(r.bytes).c_str(), r.end, c.c_str()); }
        if (w.what == SEND) { script.push_back(r); if (r.end) { err = true; stop++; break; } }
    }
    bool dbg = g.chance(1, 10);
    vector<string> av = {g.chance(1, 2) ? "fcrondyn" : "/usr/bin/fcrondyn"};
    if (dbg) av.push_back("-d");
    if (interactive) { if (g.chance(1, 2)) av.push_back("-i"); } else { av.push_back("-x"); av.push_back(lines[0]); }
    bool badarg = g.chance(1, 40); if (badarg) av.push_back("more");
    vector<char *> argv; for (auto &a : av) argv.push_back((char *)a.c_str());
    int argc = (int)argv.size();
    vector<char *> ex(argv); ex.push_back(nullptr);
    o_ = open_memstream(&obuf, &olen); e_ = open_memstream(&ebuf, &elen);
    FILE *so = stdout, *se = stderr; stdout = o_; stderr = e_;
    optind = 0; debug_opt = 0; if (cmd_str) { free(cmd_str); cmd_str = nullptr; }
    int st = -1;
    try { dyn_main(argc, ex.data()); } catch (Exit &e) { st = e.st; }
    stdout = so; stderr = se;
    flush_out(); fflush(e_); string errs(ebuf, elen); fclose(o_); fclose(e_); free(obuf); free(ebuf);
    pbt::note("user %s (%ld)%s: exit %d, %zu sent, stderr %s", me.name, (long)me.uid, dbg ? ", debug" : "", st, sent.size(), pbt::quote(errs).c_str());
    if (refused_user || badarg) {
        if (sent.size() || nconn) pbt::fail("sent", "sent %zu requests although %s", sent.size(), badarg ? "an argument is unknown" : "the user is not allowed");
        if (!st) pbt::fail("status", "exit status 0"); if (errs.find("(null)") != string::npos) pbt::fail("null", "prints a null string"); pbt::label(badarg ? "unknown argument" : "not allowed"); return;
    }
    if (unspec) { for (auto &s : sent) if (s.size() % sizeof(long) || s.size() > 3 * sizeof(long)) pbt::fail("size", "a request of %zu bytes", s.size()); pbt::label("unspecified"); return; }
    size_t k = 0, rj = 0; bool helped = false;
    // outs: what was printed before each line was read, and at the end
    size_t oi = interactive ? 1 : 0;
    for (size_t i = 0; i < stop; i++, oi++) {
        Want &w = want[i]; string out = oi < outs.size() ? outs[oi] : "(nothing: the session ended)", exp;
        if (oi >= outs.size()) pbt::fail("ended", "the session ended before %s", pbt::quote(lines[i]).c_str());
        if (w.what == SEND) {
            if (k >= sent.size()) pbt::fail("not-sent", "%s sends nothing", pbt::quote(lines[i]).c_str());
            string b((char *)w.v.data(), w.v.size() * sizeof(long));
            if (sent[k] != b) { string h; for (size_t x = 0; x + 8 <= sent[k].size(); x += 8) { long y; memcpy(&y, &sent[k][x], 8); h += strf(" %ld", y); } string q; for (long y : w.v) q += strf(" %ld", y); pbt::fail("request", "%s sends%s (%zu bytes), wanted%s", pbt::quote(lines[i]).c_str(), h.c_str(), sent[k].size(), q.c_str()); }
            k++;
            const Reply &r = rep[rj]; exp = text_of(r.bytes);
            if (r.end == 1) { if (out.compare(0, exp.size(), exp)) pbt::fail("answer", "printed %s of an interrupted answer %s", pbt::quote(out).c_str(), pbt::quote(exp).c_str()); }
            else if (interactive && oi + 1 == outs.size() && out == exp + "\n") {}
            else if (out != exp) pbt::fail("answer", "printed %s for the answer %s", pbt::quote(out).c_str(), pbt::quote(exp).c_str());
            pbt::label(r.end == 1 ? "interrupted" : r.end == 2 ? "no answer" : r.cuts.size() ? "answer in pieces" : "answer");
            if (w.extra) { pbt::label("too many arguments"); if (errs.empty()) pbt::fail("silent", "%s: the rest is ignored silently", pbt::quote(lines[i]).c_str()); }
            rj++; 
        } else {
            if (w.what == HELP) { helped = true; for (auto &c : CMD) if (!strstr(out.c_str(), c.name)) pbt::fail("help", "help does not tell about %s", c.name); }
            else if (w.what == NOTHING) { if (out != "" && out != "\n") pbt::fail("answer", "printed %s for %s", pbt::quote(out).c_str(), pbt::quote(lines[i]).c_str()); if (errs.empty()) pbt::fail("silent", "%s is refused silently", pbt::quote(lines[i]).c_str()); pbt::label("refused"); }
            if (w.what != QUIT) rj++;
        }
    }
    if (k != sent.size()) pbt::fail("sent", "%zu requests sent for %zu commands%s", sent.size(), k, n == 1 ? (": " + pbt::quote(lines[0])).c_str() : "");
    if (!interactive) {
        if (want[0].what == NOTHING && st == 0) pbt::fail("status", "exit status 0 for a line which is refused");
        if (want[0].what == SEND && !err && st != 0) pbt::fail("status", "exit status %d for an accepted command", st);
        if (err && st == 0) pbt::fail("status", "exit status 0 without an answer");
        if (want[0].what != SEND && nconn) pbt::fail("connect", "connected for %s", pbt::quote(lines[0]).c_str());
        if (connected && !err) pbt::fail("open", "the connection is left open");
    } else if (nconn != 1) pbt::fail("connect", "%d connections", nconn);
    (void)helped;
    if (k) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "dyncl"; c.prop = prop; c.batch = 50; c.quick = 150000; c.thorough = 3000000;
    return pbt::main(argc, argv, c);
}
