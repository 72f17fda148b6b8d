// C21, C22, C23: the daemon's side of fcrondyn on a real socket, with clients of several users, good and bad.
#define OWN_SYSLOG
#define OWN_FORK
#include "spoolglue.hpp"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <signal.h>
#include <shadow.h>
#include <deque>
#include <random>
extern "C" {
#include "select.h"
#include "fcrondyn_svr.h"
extern char *fifofile; extern int listen_fd, fcrondyn_cl_num; extern fcrondyn_cl *fcrondyn_cl_base; extern int auth_fail; extern time_t auth_nofail_since;
extern short int serial_running, lavg_serial_running; extern struct job_t *queue_base; extern short int serial_queue_max;
void run_serial_job(void);
}
extern "C" int w_rand(void) { return 7; }
extern "C" void w_syslog(int, const char *f, ...) { pbt_format(f); }
extern "C" void w_exit(int) { pbt::fail("daemon-exit", "the daemon exits"); _exit(1); }
// ---- what the daemon does
struct Act { char what; long a, b; void *p; };
static vector<Act> acts; static int nextpid; static bool run_fails, kill_fails;
extern "C" int w_run_job(struct exe_t *e) { acts.push_back({'r', 0, 0, e->e_line}); if (run_fails) return ERR; e->e_ctrl_pid = nextpid++; e->e_job_pid = nextpid++; return OK; }
extern "C" pid_t w_fork(void) { acts.push_back({'m', 0, 0, nullptr}); return nextpid++; }      // a report about a full queue
extern "C" int w_kill(pid_t p, int s) { acts.push_back({'k', p, s, nullptr}); if (kill_fails) { errno = ESRCH; return -1; } if (s > 64) { errno = EINVAL; return -1; } return 0; }
extern "C" int w_setpriority(__priority_which_t w, id_t p, int n) { acts.push_back({(char)(w == PRIO_PROCESS ? 'n' : 'x'), (long)p, n, nullptr}); if (kill_fails) { errno = ESRCH; return -1; } return 0; }
extern "C" int w_getloadavg(double *l, int n) { for (int i = 0; i < n; i++) l[i] = 0.25 * (i + 1); return n; }
// ---- who is at the other end
static std::deque<long> coming; static bool cred_fails;     // uids in the order of connections (-1: unknown)
extern "C" int w_getsockopt(int fd, int lev, int opt, void *v, socklen_t *n) {
    if (lev == SOL_SOCKET && opt == SO_PEERCRED) {
        long u = coming.empty() ? 4242 : coming.front(); if (!coming.empty()) coming.pop_front();
        if (u < 0) { errno = ENOPROTOOPT; return -1; }
        struct { pid_t p; uid_t u; gid_t g; } c = {4711, (uid_t)u, 0}; memcpy(v, &c, sizeof c); return 0;
    }
    return getsockopt(fd, lev, opt, v, n);
}
static const char *SECRET[][2] = {{"root", "H:secret"}, {"model", "H:pw"}, {"bin", "!"}, {"daemon", "*"}, {"mail", ""}, {"games", "H:"}};
extern "C" struct spwd *w_getspnam(const char *n) { static struct spwd s; for (auto &x : SECRET) if (!strcmp(n, x[0])) { s.sp_namp = (char *)x[0]; s.sp_pwdp = (char *)x[1]; return &s; } errno = 0; return nullptr; }
extern "C" char *w_crypt(const char *p, const char *salt) { static char b[4096]; if (strncmp(salt, "H:", 2)) { if (salt[0]) return strcpy(b, "*0"); errno = EINVAL; return nullptr; } snprintf(b, sizeof b, "H:%s", p); return b; }
// ---- jobs
struct Row { long id; string user, cmd; long next; int numexe; string opts; cl_t *l; long freq; };
static std::map<cl_t *, Row> rows; static vector<cl_t *> alljobs; static vector<cf_t *> files;
static select_instance si;
static const vector<string> USERS = {"root", "model", "bin", "systab", "mail"};
static string opts_of(cl_t *l) {
    string s; auto add = [&](const string &x) { s += (s.empty() ? "" : ",") + x; };
    if (is_lavg(l->cl_option)) add(string("L") + (is_lavg_sev(l->cl_option) ? "" : "O"));
    if (is_serial(l->cl_option)) add(string("S") + (is_serial_sev(l->cl_option) ? "" : "O"));
    if (is_exe_sev(l->cl_option)) add("ES");
    return s;
}
struct Snap { vector<std::pair<cl_t *, string>> lines; vector<cl_t *> queue; vector<std::pair<cl_t *, long>> exes, lavgs; vector<cl_t *> serial; };
static string state_of(cl_t *l, bool full = true) { return strf("next %ld numexe %d", full ? (long)l->cl_nextexe : 0L, l->cl_numexe) + string((char *)l->cl_option, OPTION_SIZE); }
static Snap snap() {
    Snap s;
    for (auto l : alljobs) s.lines.push_back({l, state_of(l)});
    for (job_t *j = queue_base; j; j = j->j_next) s.queue.push_back(j->j_line);
    for (exe_t *e = exe_list_first(exe_list); e; e = exe_list_next(exe_list)) s.exes.push_back({e->e_line, e->e_job_pid});
    for (lavg_t *l = lavg_list_first(lavg_list); l; l = lavg_list_next(lavg_list)) s.lavgs.push_back({l->l_line, (long)l->l_until});
    for (int i = 0; i < serial_num; i++) s.serial.push_back(serial_array[(serial_array_index + i) % serial_array_size]);
    return s;
}
static bool operator==(const Snap &a, const Snap &b) { return a.lines == b.lines && a.queue == b.queue && a.exes == b.exes && a.lavgs == b.lavgs && a.serial == b.serial; }
static string acts_str() { string s; for (auto &a : acts) s += strf("%c(%ld,%ld,%s) ", a.what, a.a, a.b, a.p ? ((cl_t *)a.p)->cl_shell : "-"); return s.empty() ? "nothing" : s; }
// ---- clients
struct Cl { int fd = -1; string user; bool authed = false, dead = false, reads = true, dirty = false, eofsent = false; long last_any = 0, last_cmd = 0; int accepted = 0; };
static vector<Cl> cls; static int base_fds, nfails; static long last_fail;
static bool crowded; static vector<int> filler; static int count_fds() { int n = 0; for (int i = 0; i < (crowded ? 1400 : 1024); i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static int tick() {
    struct timeval tv = {0, 0};
    select_call(&si, &tv);
    int r = si.retcode;
    fcrondyn_socket_check(&si);
    return r;
}
static void settle(const char *why) { for (int i = 0; i < 400; i++) if (tick() <= 0) return; pbt::fail("busy", "the daemon never comes to rest: a descriptor stays readable (%s)", why); }
static string drain(Cl &c) { string s; char b[65536]; ssize_t n; while ((n = recv(c.fd, b, sizeof b, MSG_DONTWAIT)) > 0) s.append(b, n); if (n == 0 || (n < 0 && errno != EAGAIN)) c.dead = true; return s; }
static bool put(Cl &c, const string &m) { return send(c.fd, m.data(), m.size(), MSG_DONTWAIT | MSG_NOSIGNAL) == (ssize_t)m.size(); }
static string msg(std::initializer_list<long> v) { string s; for (long x : v) s.append((const char *)&x, sizeof x); return s; }
// a reply: its lines, when it is complete
static bool long_list;      // more than 150 lines: they may not fit in the socket
static vector<string> lines_of(const string &r, const string &what) {
    if (long_list && (r.size() < 3 || r.compare(r.size() - 3, 3, string(3, 0))) && std::count(r.begin(), r.end(), '\n') > 150) pbt::fail("full-socket", "the reply to %s stops after %ld lines", what.c_str(), (long)std::count(r.begin(), r.end(), '\n'));
    if (r.size() < 3 || r.compare(r.size() - 3, 3, string(3, 0))) pbt::fail("no-end", "the reply to %s has no end: %s", what.c_str(), pbt::quote(r.substr(0, 400)).c_str());
    string b = r.substr(0, r.size() - 3);
    if (b.find(string(2, 0)) != string::npos) pbt::fail("two-ends", "the reply to %s has more than one end: %s", what.c_str(), pbt::quote(r.substr(0, 400)).c_str());
    vector<string> v; string l; for (char c : b) { if (c == 0) continue; if (c == '\n') { v.push_back(l); l.clear(); } else l += c; } if (l.size()) v.push_back(l);
    return v;
}
static string trim(const string &s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == string::npos ? "" : s.substr(a, b - a + 1); }
struct Table { vector<string> cols; vector<std::map<string, string>> rows; vector<string> other; vector<string> raw; };
static Table table_of(const vector<string> &v) {
    Table t;
    for (auto &l : v) {
        bool head = l.compare(0, 2, "ID") == 0 && l.find("|CMD") != string::npos;
        if (head) { size_t i = 0; for (;;) { size_t e = l.find('|', i); t.cols.push_back(trim(l.substr(i, e == string::npos ? e : e - i))); if (e == string::npos) break; i = e + 1; } continue; }
        if (t.cols.size() && isdigit(l[0]) && l.find('|') != string::npos) {
            std::map<string, string> r; size_t i = 0;
            for (size_t c = 0; c < t.cols.size(); c++) { size_t e = c + 1 == t.cols.size() ? string::npos : l.find('|', i); r[t.cols[c]] = c + 1 == t.cols.size() ? l.substr(i) : trim(l.substr(i, e - i)); if (e == string::npos) break; i = e + 1; }
            t.rows.push_back(r); t.raw.push_back(l);
        } else t.other.push_back(l);
    }
    return t;
}
static string stamp(long t) { time_t x = t; struct tm m; localtime_r(&x, &m); return strf("%04d-%02d-%02d %02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); }
typedef std::map<string, string> Want;
static Want want_row(cl_t *l) { return {{"ID", strf("%ld", rows[l].id)}, {"USER", rows[l].user}, {"R&Q", strf("%d", l->cl_numexe)}, {"OPTIONS", opts_of(l)}, {"SCHEDULE", stamp(l->cl_nextexe)}, {"CMD", rows[l].cmd}}; }
static bool same(const Want &w, const std::map<string, string> &g, const string &raw) {
    for (auto &x : g) {
        auto i = w.find(x.first);
        if (i == w.end()) return false;
        if (x.first == "CMD") {
            if (x.second == i->second) continue;
            const string T = " (truncated)";
            if (raw.size() < 160 || x.second.size() < T.size() || x.second.compare(x.second.size() - T.size(), T.size(), T) || i->second.compare(0, x.second.size() - T.size(), x.second, 0, x.second.size() - T.size())) return false;
        } else if (x.first.compare(0, 4, "LAVG") == 0 ? x.second.find(i->second) == string::npos : x.second != i->second) return false;
    }
    return true;
}
static void match(const Table &t, vector<Want> want, bool ordered, const string &what) {
    if (t.rows.size() != want.size()) pbt::fail("rows", "%s shows %zu jobs in place of %zu", what.c_str(), t.rows.size(), want.size());
    for (size_t i = 0; i < t.rows.size(); i++) {
        size_t k = 0; while (k < want.size() && !same(want[k], t.rows[i], t.raw[i])) { if (ordered) { k = want.size(); break; } k++; }
        if (k == want.size()) { string s; for (auto &w : want) { for (auto &x : w) s += x.first + "=" + pbt::quote(x.second).substr(0, 60) + " "; s += "\n"; if (s.size() > 900) break; } pbt::fail("row", "%s shows %s; expected %s", what.c_str(), pbt::quote(t.raw[i]).c_str(), s.c_str()); }
        want.erase(want.begin() + k);
    }
}
static string user_of(long uid) { if (uid == -100) return "systab"; for (auto &f : FAKE) if ((long)f.uid == (long)(uid_t)uid) return f.name; return ""; }
static const char *CMDNAME(long c) { switch (c) { case CMD_LIST_JOBS: return "ls"; case CMD_LIST_LAVGQ: return "ls_lavgq"; case CMD_LIST_SERIALQ: return "ls_serialq"; case CMD_LIST_EXEQ: return "ls_exeq"; case CMD_DETAILS: return "detail"; case CMD_RUN: return "run"; case CMD_RUNNOW: return "runnow"; case CMD_SEND_SIGNAL: return "kill"; case CMD_RENICE: return "renice"; } return "?"; }
// a command, as the daemon has to take it: checks the reply and the effects
static void nothing(const Snap &s0, const string &what) {
    if (!acts.empty()) pbt::fail("effect", "%s: the daemon does %s", what.c_str(), acts_str().c_str());
    if (!(snap() == s0)) pbt::fail("effect", "%s changes the state of the jobs", what.c_str());
}
static void no_rows(const Table &t, const string &what) { if (t.rows.size()) pbt::fail("shown", "%s shows %s", what.c_str(), pbt::quote(t.raw[0]).c_str()); if (t.other.empty()) pbt::fail("silent", "%s is not answered by an error", what.c_str()); }
static void check_cmd(Cl &c, const string &reply, long code, long a, long b, const Snap &s0, bool acting) {
    bool root = c.user == "root";
    string what = strf("%s %ld %ld of %s", CMDNAME(code), a, b, c.user.c_str());
    long_list = code >= CMD_LIST_JOBS && code <= CMD_LIST_EXEQ && s0.queue.size() + s0.exes.size() > 150;
    vector<string> v = lines_of(reply, what); Table t = table_of(v); long_list = false;
    if (code >= CMD_LIST_JOBS && code <= CMD_LIST_EXEQ) {
        string u = a == ALL ? "" : user_of(a);
        bool ok = a == ALL ? root : u.size() && (root || u == c.user);
        if (!ok) { no_rows(t, what); pbt::label("refused list"); }
        else {
            vector<Want> w; auto in = [&](cl_t *l) { return a == ALL || rows[l].user == u; };
            if (code == CMD_LIST_JOBS) for (auto l : s0.queue) if (in(l)) w.push_back(want_row(l));
            if (code == CMD_LIST_EXEQ) for (auto &e : s0.exes) if (e.first && in(e.first)) { Want x = want_row(e.first); x["PID"] = strf("%ld", e.second); w.push_back(x); }
            if (code == CMD_LIST_LAVGQ) for (auto &e : s0.lavgs) if (in(e.first)) { Want x = want_row(e.first); x["LAVG 1,5,15 UNTIL       STRICT"] = strf("%.1f,%.1f,%.1f", e.first->cl_lavg[0] / 10., e.first->cl_lavg[1] / 10., e.first->cl_lavg[2] / 10.) + (e.second > 0 ? " " + stamp(e.second) + " " + (is_strict(e.first->cl_option) ? "Y" : "N") : ""); w.push_back(x); }
            if (code == CMD_LIST_SERIALQ) { int i = 0; for (auto l : s0.serial) { if (in(l)) { Want x = want_row(l); x["INDEX"] = strf("%d", i); w.push_back(x); } i++; } }
            if (w.size() > 150 && t.rows.size() > 150 && t.rows.size() < w.size()) pbt::fail("full-socket", "%s shows %zu jobs in place of %zu", what.c_str(), t.rows.size(), w.size());
            match(t, w, code == CMD_LIST_SERIALQ, what);
            if (t.cols.empty()) pbt::fail("no-header", "%s has no header", what.c_str());
            for (auto need : {string("ID"), string("CMD"), string(a == ALL ? "USER" : "ID"), string(code == CMD_LIST_EXEQ ? "PID" : code == CMD_LIST_SERIALQ ? "INDEX" : "ID"), string(code == CMD_LIST_LAVGQ ? "LAVG 1,5,15 UNTIL       STRICT" : "SCHEDULE")}) if (std::find(t.cols.begin(), t.cols.end(), need) == t.cols.end()) pbt::fail("no-column", "%s has no column %s", what.c_str(), need.c_str());
            if (code == CMD_LIST_EXEQ && root) { size_t n = 0; for (auto &e : s0.exes) if (!e.first) { n++; bool f = false; for (auto &o : t.other) f |= o.find(strf("pid %ld", e.second)) != string::npos; if (!f) pbt::fail("orphan", "%s does not show the pid %ld of a removed job", what.c_str(), e.second); } }
            else if (code == CMD_LIST_EXEQ) for (auto &e : s0.exes) if (!e.first) for (auto &o : t.other) if (o.find(strf("%ld", e.second)) != string::npos) pbt::fail("shown", "%s shows %s", what.c_str(), pbt::quote(o).c_str());
            if (w.empty() && t.other.empty()) pbt::fail("silent", "%s says nothing although there is no job", what.c_str());
            if (w.size()) pbt::label("list with jobs"); else pbt::label("empty list");
            if (w.size()) pbt::nontrivial();
        }
        if (acting) nothing(s0, what);
        return;
    }
    cl_t *target = nullptr; long id = code == CMD_SEND_SIGNAL || code == CMD_RENICE ? b : a;
    for (auto l : s0.queue) if (rows[l].id == id) target = l;
    bool mine = target && (root || rows[target].user == c.user);
    if (code == CMD_DETAILS) {
        if (!mine) no_rows(t, what); else { match(t, {want_row(target)}, true, what); for (auto need : {"ID", "CMD", "USER", "R&Q", "OPTIONS", "SCHEDULE"}) if (std::find(t.cols.begin(), t.cols.end(), need) == t.cols.end()) pbt::fail("no-column", "%s has no column %s", what.c_str(), need); }
        pbt::label("%s", mine ? "detail" : "refused detail");
        if (acting) nothing(s0, what);
        return;
    }
    if (!acting) abort();
    if (t.rows.size()) pbt::fail("shown", "%s shows %s", what.c_str(), pbt::quote(t.raw[0]).c_str());
    Snap s1 = snap();
    bool cut = false; for (auto &o : t.other) if (o.find("(truncated)") != string::npos) cut = true;
    auto says = [&](const char *w) { for (auto &o : t.other) if (o.find(w) != string::npos) return true; return false; };
    if (code == CMD_RUN || code == CMD_RUNNOW) {
        if (!mine) { no_rows(t, what); nothing(s0, what); pbt::label("refused run"); return; }
        pbt::nontrivial();
        cl_t *l = target; string before; for (auto &x : s0.lines) if (x.first == l) before = x.second;
        int n0; sscanf(strstr(before.c_str(), "numexe"), "numexe %d", &n0); long next0; sscanf(before.c_str(), "next %ld", &next0);
        int want = 0; Snap w = s0; vector<Act> wa; bool queued = false;
        if (is_lavg(l->cl_option)) {
            if (is_lavg_sev(l->cl_option) ? n0 < 255 : n0 == 0) { if ((int)s0.lavgs.size() < lavg_list->max_entries) { queued = true; w.lavgs.push_back({l, l->cl_until > 0 ? now + l->cl_until : 0}); want = 1; } else if (is_notice_notrun(l->cl_option)) { wa.push_back({'m', 0, 0, nullptr}); w.exes.push_back({nullptr, 0}); } }
        } else if (is_serial(l->cl_option)) {
            if (is_serial_sev(l->cl_option) ? n0 < 255 : n0 == 0) { if ((int)s0.serial.size() < serial_queue_max) { queued = true; w.serial.push_back(l); want = 1; } else if (is_notice_notrun(l->cl_option)) { wa.push_back({'m', 0, 0, nullptr}); w.exes.push_back({nullptr, 0}); } }
        } else if (n0 == 0 || (is_exe_sev(l->cl_option) && n0 < 255)) { wa.push_back({'r', 0, 0, l}); queued = true; if (!run_fails) { want = 1; w.exes.push_back({l, nextpid - 1}); } }
        if (acts.size() != wa.size() || (wa.size() && (acts[0].what != wa[0].what || acts[0].p != wa[0].p))) pbt::fail("run", "%s: the daemon does %s in place of %s", what.c_str(), acts_str().c_str(), wa.empty() ? "nothing" : wa[0].what == 'r' ? "running the job" : "a report");
        if (s1.lavgs != w.lavgs || s1.serial != w.serial) pbt::fail("run-queue", "%s: wrong queues (%zu load, %zu serial, expected %zu and %zu)", what.c_str(), s1.lavgs.size(), s1.serial.size(), w.lavgs.size(), w.serial.size());
        if (s1.exes != w.exes) pbt::fail("run-exe", "%s: wrong list of running jobs (%zu in place of %zu)", what.c_str(), s1.exes.size(), w.exes.size());
        if (l->cl_numexe != n0 + want) pbt::fail("numexe", "%s: %d running or queued in place of %d", what.c_str(), l->cl_numexe, n0 + want);
        for (size_t i = 0; i < alljobs.size(); i++) if (alljobs[i] != l && s1.lines[i] != s0.lines[i]) pbt::fail("other-job", "%s changes the job %s", what.c_str(), alljobs[i]->cl_shell);
        if (code == CMD_RUN) { if (l->cl_nextexe != next0) pbt::fail("reschedule", "%s moves the next execution from %ld to %ld", what.c_str(), next0, (long)l->cl_nextexe); if (s1.queue != s0.queue) pbt::fail("queue", "%s changes the queue", what.c_str()); }
        else {
            long b = next0 > now ? next0 : (long)now, n = !is_td(l->cl_option) ? b + l->cl_timefreq : (b / 3600 + 1) * 3600;      // the &-lines here are hourly at minute 0
            if (l->cl_nextexe != n) pbt::fail("reschedule", "%s: the next execution is %ld in place of %ld (it was %ld)", what.c_str(), (long)l->cl_nextexe, n, next0);
            if (s1.queue.size() != s0.queue.size() || std::multiset<cl_t *>(s1.queue.begin(), s1.queue.end()) != std::multiset<cl_t *>(s0.queue.begin(), s0.queue.end())) pbt::fail("queue", "%s: the queue has other jobs afterwards", what.c_str());
            for (size_t i = 1; i < s1.queue.size(); i++) if (s1.queue[i - 1]->cl_nextexe > s1.queue[i]->cl_nextexe) pbt::fail("queue-order", "%s: the queue is not sorted", what.c_str());
        }
        if (t.other.empty()) pbt::fail("silent", "%s is not answered", what.c_str());
        if (wa.size() && wa[0].what == 'r' && !cut && says("started") == run_fails) pbt::fail("reply", "%s: the answer is %s although the job %s", what.c_str(), pbt::quote(t.other[0]).c_str(), run_fails ? "could not be started" : "is started");
        if (!queued && !cut && (says("started") || says("inserting"))) if (!says("full") && !says("ull")) pbt::fail("reply", "%s: the answer is %s although nothing was done", what.c_str(), pbt::quote(t.other[0]).c_str());
        pbt::label("%s", !queued ? "run, not possible" : wa.empty() ? "run, queued" : run_fails ? "run, no process" : "run");
        return;
    }
    if (!(s1 == s0)) pbt::fail("effect", "%s changes the state of the jobs", what.c_str());
    if (code == CMD_SEND_SIGNAL || code == CMD_RENICE) {
        vector<long> pids; bool bad = code == CMD_SEND_SIGNAL ? a <= 0 || a > 0x7fffffff : a > 20 || a < -20 || (a < 0 && !root), badpid = false;
        cl_t *tl = nullptr; for (auto &e : s0.exes) if (e.first && rows[e.first].id == id) { tl = e.first; if (e.second > 0) pids.push_back(e.second); else badpid = true; }
        bool m = tl && (root || rows[tl].user == c.user);
        if (!m || bad) { no_rows(t, what); if (says("success")) pbt::fail("reply", "%s is answered by %s", what.c_str(), pbt::quote(t.other[0]).c_str()); nothing(s0, what); pbt::label("refused signal or nice"); return; }
        pbt::nontrivial();
        vector<long> got; for (auto &x : acts) { if (x.what != (code == CMD_SEND_SIGNAL ? 'k' : 'n') || x.b != a) pbt::fail("effect", "%s: the daemon does %s", what.c_str(), acts_str().c_str()); got.push_back(x.a); }
        std::sort(got.begin(), got.end()); std::sort(pids.begin(), pids.end());
        if (got != pids) pbt::fail("target", "%s: the daemon does %s; the job has %zu processes", what.c_str(), acts_str().c_str(), pids.size());
        bool failed = kill_fails || (code == CMD_SEND_SIGNAL && a > 64);
        if (t.other.empty()) pbt::fail("silent", "%s is not answered", what.c_str());
        if (pids.size() && says("success") == failed) pbt::fail("reply", "%s is answered by %s although it %s", what.c_str(), pbt::quote(t.other[0]).c_str(), failed ? "failed" : "succeeded");
        // one answer for each process of the job
        { size_t procs = 0; for (auto &e : s0.exes) if (e.first && rows[e.first].id == id) procs++;
          if (t.other.size() != procs) pbt::fail("reply", "%s: %zu answers for a job with %zu processes, the first is %s", what.c_str(), t.other.size(), procs, pbt::quote(t.other[0]).c_str());
          if (!failed) for (long p : pids) { bool f = false; for (auto &o : t.other) f |= o.find(strf("process %ld.", p)) != string::npos; if (!f) pbt::fail("reply", "%s: no answer for the process %ld", what.c_str(), p); } }
        pbt::label("%s", badpid ? "job without a process" : failed ? "signal or nice, failing" : "signal or nice");
        return;
    }
    no_rows(t, what); nothing(s0, what); pbt::label("unknown command");
}
static void open_client(Gen &g, long uid) {
    Cl c; c.fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, fifofile);
    if (connect(c.fd, (struct sockaddr *)&a, sizeof a) != 0) { close(c.fd); if (errno == EAGAIN) return; pbt::fail("connect", "no connection: %s", strerror(errno)); }
    coming.push_back(uid); c.user = uid < 0 ? "" : user_of(uid); c.authed = c.user.size(); c.last_any = c.last_cmd = now;
    cls.push_back(c);
}
static void check_alive() {
    int alive = 0, ends = 0;
    for (auto &c : cls) { if (c.fd < 0) continue; ends++; if (!c.dead) alive++; }
    int n = count_fds();
    int conns = 0; for (fcrondyn_cl *x = fcrondyn_cl_base; x; x = x->fcl_next) conns++;
    if (conns != fcrondyn_cl_num) pbt::fail("count", "%d connections in the list, %d counted", conns, fcrondyn_cl_num);
    if (n != base_fds + 1 + conns + ends) pbt::fail("fd-leak", "the daemon has %d descriptors for %d connections", n - base_fds - ends, conns);
    if (conns != alive) pbt::fail("connections", "the daemon holds %d connections, %d clients are there", conns, alive);
}
static void prop(Gen &g) {
    crowded = false;
    acts.clear(); rows.clear(); alljobs.clear(); files.clear(); cls.clear(); coming.clear(); nfails = 0; auth_fail = 0; auth_nofail_since = 0;
    signal(SIGPIPE, SIG_IGN);
    if (chdir(pbt::scratch().c_str())) abort();
    now = 1700000000 + (time_t)g.range(0, 100000); nextpid = 2000; run_fails = kill_fails = false; foreground = 0; dosyslog = 1; debug_opt = 0;
    rootuid = 0; rootgid = 0; first_sleep = 20; orig_tz_envvar = nullptr; queue_base = nullptr;
    exe_list = exe_list_init(); lavg_list = lavg_list_init(); lavg_list->max_entries = (int)g.range(2, 8); serial_queue_max = (short)g.range(2, 12);
    serial_array_size = 3; serial_array = (cl_t **)calloc(3, sizeof(cl_t *)); serial_array_index = serial_num = 0; serial_running = lavg_serial_running = 0;
    // jobs
    bool many = WHAT == 22 && g.chance(1, 60); int n = many ? (int)g.range(200, 420) : g.chance(1, 8) ? 0 : (int)g.range(1, 14);
    for (auto &u : USERS) files.push_back(new_file(u.c_str()));
    long id = (long)g.range(0, 3);
    string desc;
    for (int i = 0; i < n; i++) {
        cf_t *f = g.pick(files);
        string cmd = strf("cmd%d", i); if (g.chance(1, 6)) cmd += string((size_t)g.range(1, 300), g.pick(vector<char>{'x', '|', ' ', '%'})) + "e";
        if (g.chance(1, 8)) cmd += g.pick(vector<string>{"%s%n", "|a|b", "\t", "\xff"});
        cl_t *l = new_line(f, cmd.c_str()); l->cl_id = id; id += (long)g.range(1, 3);
        if (g.chance(1, 2)) { set_td(l->cl_option); for (int h = 0; h < 24; h++) bit_set(l->cl_hrs, h); for (int d = 0; d < 32; d++) bit_set(l->cl_days, d); for (int m = 0; m < 12; m++) bit_set(l->cl_mons, m); for (int d = 0; d < 8; d++) bit_set(l->cl_dow, d); bit_set(l->cl_mins, 0); set_dayand(l->cl_option); l->cl_runfreq = 0; l->cl_nextexe = (now / 3600 + 1 + (long)g.range(0, 30)) * 3600; }
        else { set_freq(l->cl_option); l->cl_timefreq = (long)g.range(1, 100000); l->cl_nextexe = now + 1 + (long)g.range(0, 100000); l->cl_runfreq = 0; }
        switch (g.raw(4)) { case 0: set_lavg(l->cl_option); for (int k = 0; k < 3; k++) l->cl_lavg[k] = (unsigned char)g.range(0, 250); if (g.chance(1, 2)) set_lavg_sev(l->cl_option); if (g.chance(1, 2)) l->cl_until = (time_t)g.range(1, 5000); if (g.chance(1, 3)) set_serial(l->cl_option); break; case 1: set_serial(l->cl_option); if (g.chance(1, 2)) set_serial_sev(l->cl_option); break; default: if (g.chance(1, 3)) set_exe_sev(l->cl_option); }
        // who a job runs as and who has its mail gives no right over it (fcrontab lets only root's tables choose, the daemon is not to depend on it)
        if (g.chance(1, 3)) { free(l->cl_runas); l->cl_runas = strdup(g.pick(vector<const char *>{"root", "model", "bin", "mail"})); desc += strf("(runs as %s) ", l->cl_runas); }
        if (g.chance(1, 4)) { free(l->cl_mailto); l->cl_mailto = strdup(g.pick(vector<const char *>{"root", "model", "bin"})); }
        if (g.chance(1, 3)) { set_notice_notrun(l->cl_option); } else clear_notice_notrun(l->cl_option);
        rows[l] = {l->cl_id, f->cf_user, cmd, 0, 0, "", l, 0}; alljobs.push_back(l);
        insert_nextexe(l);
        if (desc.size() < 1500) desc += strf("%ld %s %s next+%ld %s\n", l->cl_id, f->cf_user, opts_of(l).c_str(), (long)(l->cl_nextexe - now), pbt::quote(cmd).substr(0, 30).c_str());
    }
    for (auto l : alljobs) if (g.chance(1, 3)) { int k = g.chance(1, 4) ? 2 : 1; while (k--) { if (is_lavg(l->cl_option)) add_lavg_job(l, -1); else if (is_serial(l->cl_option)) { add_serial_job(l, -1); if (g.chance(1, 3) && serial_num) run_serial_job(); } else run_normal_job(l, -1); } }
    for (exe_t *e = exe_list_first(exe_list); e; e = exe_list_next(exe_list)) { if (g.chance(1, 8)) e->e_line = nullptr; else if (g.chance(1, 12)) e->e_job_pid = -1; }
    acts.clear();
    pbt::note("jobs:\n%s", desc.c_str());
    string sock = "f"; fifofile = strdup(sock.c_str());
    select_init(&si); fcrondyn_cl_base = nullptr; fcrondyn_cl_num = 0;
    base_fds = count_fds();
    fcrondyn_socket_init(&si);
    if (listen_fd < 0) pbt::fail("no-socket", "the daemon does not listen");
    int own = count_fds() - base_fds;
    struct rlimit lim; getrlimit(RLIMIT_NOFILE, &lim);
    if (WHAT == 23 && g.chance(1, 150) && lim.rlim_max > 1500) {       // a daemon with many descriptors
        struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = r.rlim_max; setrlimit(RLIMIT_NOFILE, &r);
        int upto = (int)g.range(1000, 1030), fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
        for (int d = fd; d < upto && d >= 0; ) { filler.push_back(d); d = fcntl(fd, F_DUPFD_CLOEXEC, 0); if (d >= upto) filler.push_back(d); }
        pbt::label("many descriptors"); pbt::note("descriptors up to %d are in use", upto); crowded = true;
    }
    base_fds = count_fds() - own;
    vector<long> uids = {0, 0, 1000, 2, 8, 1000, 0, 1, 65534};
    // the session
    int steps = (int)g.range(1, 25);
    for (int k = 0; k < steps; k++) {
        if (k && !g.more(15)) break;
        acts.clear(); run_fails = g.chance(1, 12); kill_fails = g.chance(1, 10);
        vector<size_t> good, un, any; for (size_t i = 0; i < cls.size(); i++) { auto &c = cls[i]; if (c.fd < 0) continue; any.push_back(i); if (c.dead || c.eofsent || !c.reads) continue; (c.authed ? good : un).push_back(i); }
        int op = (int)g.pick(WHAT == 23 ? vector<int>{0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4, 5} : WHAT == 21 ? vector<int>{0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5} : vector<int>{0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 4, 5});
        if (any.empty()) op = 0;
        if (op == 1 && good.empty()) op = 0;
        if (op == 2 && un.empty()) op = 0;
        if (op == 0 && any.size() > 20) op = 3;
        // other clients may disturb at the same time
        auto disturb = [&](size_t i) {
            Cl &c = cls[i];
            switch (g.raw(6)) {
            case 0: pbt::note("client %zu closes", i); close(c.fd); c.fd = -1; pbt::label("close"); break;
            case 1: pbt::note("client %zu ends its side", i); shutdown(c.fd, SHUT_WR); c.eofsent = true; pbt::label("half close"); break;
            case 2: { string m((size_t)g.range(1, 8 * SOCKET_MSG_LEN + 40), '\0'); for (auto &ch : m) ch = (char)g.raw(g.chance(1, 2) ? 256 : 3); if (m.size() >= 8) { long c0; memcpy(&c0, m.data(), 8); if (c0 >= 300 && c0 < 500) m[7] = 1; } pbt::note("client %zu sends %zu bytes of garbage", i, m.size()); put(c, m); c.dirty = true; c.last_any = now; if (c.authed) c.last_cmd = now; pbt::label("garbage"); break; }
            case 3: { long id = alljobs.empty() ? 1 : g.pick(alljobs)->cl_id; string m = msg({g.pick(vector<long>{CMD_LIST_JOBS, CMD_LIST_EXEQ, CMD_DETAILS, CMD_LIST_LAVGQ}), id}); int r = (int)g.range(1, 40); pbt::note("client %zu sends %d requests and reads nothing", i, r); c.reads = false; while (r--) put(c, m); c.dirty = true; c.last_any = now; if (c.authed) c.last_cmd = now; pbt::label("does not read"); break; }
            case 4: { long id = alljobs.empty() ? 1 : g.pick(alljobs)->cl_id; string m = msg({g.pick(vector<long>{CMD_LIST_JOBS, CMD_LIST_EXEQ, CMD_DETAILS}), id}); pbt::note("client %zu sends a request and closes", i); put(c, m); close(c.fd); c.fd = -1; pbt::label("request and close"); break; }
            default: pbt::note("client %zu does nothing", i);
            }
        };
        auto pass = [&](time_t d) {
            now += d; pbt::note("%ld s pass", (long)d);
            settle("time");
            for (size_t i = 0; i < cls.size(); i++) { auto &c = cls[i]; if (c.fd < 0) continue; bool was = c.dead; string r = drain(c); if (r.size() && !c.dirty) pbt::fail("stale-reply", "a client is sent something although it asked nothing");
                bool must = now - c.last_any > (c.authed ? MAX_IDLE_TIME : MAX_AUTH_TIME) && now - c.last_cmd > (c.authed ? MAX_IDLE_TIME : MAX_AUTH_TIME), mustnot = now - c.last_cmd <= (c.authed ? MAX_IDLE_TIME : MAX_AUTH_TIME);
                if (c.dead && !was && mustnot && !c.eofsent) pbt::fail("dropped", "a client idle for %ld s is dropped", (long)(now - c.last_cmd));
                if (!c.dead && must) pbt::fail("idle", "a client idle for %ld s is not dropped", (long)(now - c.last_any));
                if (must && !was) { pbt::label("idle client dropped"); if (WHAT == 23) pbt::nontrivial(); } }
        };
        if (op == 0) {
            long u = g.chance(WHAT == 23 ? 1 : WHAT == 21 ? 2 : 0, 5) ? g.pick(vector<long>{-1, 4242}) : g.pick(uids);
            size_t before = cls.size(); open_client(g, u); if (cls.size() == before) continue;
            pbt::note("client %zu: uid %ld (%s)", cls.size() - 1, u, cls.back().user.c_str());
            int nf[2] = {-1, -1}; for (int i = 0, n = 0; i < 2000 && n < 2; i++) if (fcntl(i, F_GETFD) < 0) nf[n++] = i;
            settle("connection");
            if (crowded) { Cl &c = cls.back(); drain(c); if (c.dead) { if (nf[0] < FD_SETSIZE) pbt::fail("dropped", "a new connection is closed at once (descriptor %d)", nf[0]); coming.clear(); pbt::label("too many connections"); pbt::nontrivial(); } else if (nf[0] >= FD_SETSIZE) pbt::fail("fd-setsize", "the daemon accepts descriptor %d", nf[0]); }
        } else if (op == 1) {
            bool acting = g.chance(1, 2);
            Snap s0 = snap();
            struct Q { size_t i; long code, a, b; int bytes; };
            vector<Q> qs;
            std::shuffle(good.begin(), good.end(), std::mt19937(g.raw(1000)));
            size_t nq = acting ? 1 : 1 + g.raw(good.size());
            for (size_t q = 0; q < nq; q++) {
                Cl &c = cls[good[q]]; Q x; x.i = good[q]; x.bytes = -1;
                long id = alljobs.empty() || g.chance(1, 6) ? (long)g.range(0, 60) : g.pick(alljobs)->cl_id;
                vector<cl_t *> own; for (auto l : alljobs) if (rows[l].user == c.user) own.push_back(l);
                if (own.size() && g.chance(1, 2)) id = g.pick(own)->cl_id;
                Snap sn = s0; vector<cl_t *> run; for (auto &e : sn.exes) if (e.first) run.push_back(e.first);
                x.a = x.b = 0;
                if (!acting) { x.code = g.pick(vector<long>{CMD_LIST_JOBS, CMD_LIST_JOBS, CMD_LIST_LAVGQ, CMD_LIST_SERIALQ, CMD_LIST_EXEQ, CMD_DETAILS}); x.a = x.code == CMD_DETAILS ? id : g.chance(1, 3) ? (long)uid_of(c.user) : c.user == "root" && g.chance(1, 2) ? ALL : g.pick(vector<long>{ALL, 0, 1000, 2, 8, -100, 4242, -2, 1L << 32, (1L << 32) + 1000}); if (x.code != CMD_DETAILS && x.a == (1L << 32)) x.a = ALL; }
                else {
                    x.code = g.pick(vector<long>{CMD_RUN, CMD_RUNNOW, CMD_SEND_SIGNAL, CMD_RENICE, CMD_RUN, CMD_RUNNOW, CMD_RESCHEDULE, 0, 100, 106, 303, 403, -1, (1L << 32) + CMD_RUN, LONG_MIN});
                    if (g.chance(1, 8)) id += 1L << 32;
                    if (x.code == CMD_SEND_SIGNAL || x.code == CMD_RENICE) { if (run.size() && g.chance(2, 3)) id = g.pick(run)->cl_id; x.b = id; x.a = x.code == CMD_SEND_SIGNAL ? g.pick(vector<long>{9, 15, 1, 64, 0, -1, 65, 1L << 31, (1L << 32) + 9, LONG_MAX}) : g.pick(vector<long>{0, 5, 19, 20, 21, -1, -20, -21, 10, 127, (1L << 32) + 5, -(1L << 32)}); }
                    else x.a = id;
                }
                if (g.chance(1, WHAT == 22 ? 20 : 6)) x.bytes = (int)g.range(1, (x.code == CMD_SEND_SIGNAL || x.code == CMD_RENICE ? 24 : 16) - 1);
                string m = x.code == CMD_SEND_SIGNAL || x.code == CMD_RENICE ? msg({x.code, x.a, x.b}) : msg({x.code, x.a});
                if (x.bytes >= 0) m.resize((size_t)x.bytes);
                pbt::note("client %zu (%s): %s(%ld) %ld %ld%s", x.i, c.user.c_str(), CMDNAME(x.code), x.code, x.a, x.b, x.bytes >= 0 ? strf(", only %d bytes", x.bytes).c_str() : "");
                string stale = drain(c); if (stale.size() && !c.dirty) pbt::fail("stale-reply", "a client is sent %s although it asked nothing", pbt::quote(stale.substr(0, 200)).c_str());
                c.dirty = false;
                if (c.dead) { if (c.last_cmd + MAX_IDLE_TIME >= now) pbt::fail("dropped", "the connection of a client idle for %ld s is closed", (long)(now - c.last_cmd)); pbt::label("idle client dropped"); continue; }
                if (!put(c, m)) pbt::fail("send", "a client cannot send its request");
                c.last_any = c.last_cmd = now;
                qs.push_back(x);
            }
            if (qs.empty()) { acts.clear(); settle("requests"); continue; }
            if (g.chance(WHAT == 23 ? 1 : 0, 2)) for (size_t i : any) if (cls[i].fd >= 0 && std::none_of(qs.begin(), qs.end(), [&](const Q &q) { return q.i == i; }) && g.chance(1, 3)) disturb(i);
            settle("requests");
            for (auto &x : qs) {
                Cl &c = cls[x.i]; string r = drain(c);
                if (r.empty()) pbt::fail("no-reply", "client %zu is not answered%s", x.i, c.dead ? " but dropped" : "");
                if (c.dead) pbt::fail("dropped", "client %zu is dropped after the answer to its request", x.i);
                if (x.bytes >= 0) { Table t = table_of(lines_of(r, "an incomplete request")); no_rows(t, "an incomplete request"); nothing(s0, strf("an incomplete request (%d bytes)", x.bytes)); pbt::label("incomplete request"); if (WHAT != 22) pbt::nontrivial(); }
                else { check_cmd(c, r, x.code, x.a, x.b, s0, acting); if (WHAT == 21 && c.user != "root") pbt::nontrivial(); }
            }
        } else if (op == 2) {
            Cl &c = cls[g.pick(un)]; Snap s0 = snap();
            if (drain(c).size() && !c.dirty) pbt::fail("stale-reply", "an unauthenticated client is sent something"); c.dirty = false;
            if (c.dead) { if (c.last_any + MAX_AUTH_TIME >= now) pbt::fail("dropped", "the connection of a client which is not authenticated is closed after %ld s", (long)(now - c.last_any)); continue; }
            int burst = WHAT != 22 && g.chance(1, 6) ? (int)g.range(2, 24) : 1; bool out = false; size_t me = &c - &cls[0];
            for (int b = 0; b < burst && !out; b++) { Cl &c = cls[me];
            string u = g.pick(vector<string>{"root", "model", "bin", "daemon", "mail", "games", "nosuch", ""}), p = g.pick(vector<string>{"secret", "pw", "", "!", "*", "H:secret", "*0", "secre", "secret "}), m; bool whole = false;
            switch (g.raw(4)) {
            case 0: m = msg({g.pick(vector<long>{CMD_LIST_JOBS, CMD_RUN, CMD_SEND_SIGNAL, CMD_LIST_EXEQ}), g.pick(vector<long>{ALL, 0, 1}), 1}); break;
            case 1: m = u + string(1, 0) + p + string(1, 0); m.resize(g.raw(m.size()) + 1); whole = false; break;
            case 2: m = u + string((size_t)g.range(0, 200), 'a'); break;
            default: m = u + string(1, 0) + p + string(1, 0); whole = true;
            }
            if (m.empty()) m = "x";
            // what the message says, complete or not
            if (b + 1 < burst) m = g.pick(vector<string>{string("root\0x\0", 7), string("model\0secret\0", 13), string("root\0pw\0", 8)});
            else if (burst > 1 && g.chance(1, 2)) { if (g.chance(1, 3)) { pass((time_t)g.range(1, 70)); if (c.dead) break; } m = string("root\0secret\0", 12); }
            size_t z = m.find('\0'); bool right = false, counted = false;
            if (z != string::npos) { size_t y = m.find('\0', z + 1); if (y != string::npos) for (auto &s : SECRET) if (m.substr(0, z) == s[0] && string("H:") + m.substr(z + 1, y - z - 1) == s[1]) right = true; if (y != string::npos) for (auto &s : SECRET) if (m.substr(0, z) == s[0] && s[1][0] && !right) counted = true; }
            if (nfails && now >= last_fail + AUTH_WAIT) nfails = 0;
            pbt::note("unauthenticated client sends %s", pbt::quote(m).substr(0, 200).c_str());
            put(c, m); c.last_any = now;
            settle("authentication");
            string r = drain(c); if (r.empty()) pbt::fail("no-reply", "an unauthenticated client is not answered");
            string full = r.substr(0, 2);
            bool ok = r == string("1\0", 2), no = r == string("0\0", 2) || (r.size() > 2 && r.find_first_not_of(string("0\0", 2)) == string::npos);
            if (!ok && !no) pbt::fail("unauth-reply", "an unauthenticated client is answered %s", pbt::quote(r.substr(0, 200)).c_str());
            if (ok && !right) pbt::fail("auth", "a client is authenticated by %s", pbt::quote(m.substr(0, 100)).c_str());
            if (!ok && right && nfails < MAX_AUTH_FAIL) pbt::fail("auth-refused", "a client is refused although its password is right (%d failures before)", nfails);
            if (ok && nfails >= MAX_AUTH_FAIL) pbt::fail("auth-limit", "a client is authenticated after %d failures, %ld s after the last one", nfails, (long)(now - last_fail));
            if (nfails >= MAX_AUTH_FAIL) pbt::label("too many failures");
            if (!ok) { if (counted && nfails < MAX_AUTH_FAIL) { nfails++; last_fail = now; } } else { out = true; c.authed = true; c.user = m.substr(0, z); pbt::label("authenticated"); }
            nothing(s0, "an unauthenticated client"); pbt::label("unauthenticated message"); if (WHAT != 22) pbt::nontrivial();
            }
        } else if (op == 3) { Snap s0 = snap(); disturb(g.pick(any)); if (g.chance(1, 3)) { vector<size_t> rest; for (size_t i = 0; i < cls.size(); i++) if (cls[i].fd >= 0) rest.push_back(i); if (rest.size()) disturb(g.pick(rest)); } settle("disturbance"); nothing(s0, "a disturbance"); if (WHAT == 23) pbt::nontrivial(); }
        else {
            pass(op == 4 ? (time_t)g.range(1, 100) : (time_t)g.range(500, 1300));
        }
        for (auto &c : cls) if (c.fd >= 0 && !c.dead) { char b; ssize_t n = recv(c.fd, &b, 1, MSG_DONTWAIT | MSG_PEEK); if (n == 0 || (n < 0 && errno != EAGAIN)) { drain(c); c.dead = true; } }
        for (auto &c : cls) if (c.fd >= 0 && !c.dead && c.eofsent) drain(c);
        { bool quiet = true; for (auto &c : cls) if (c.fd >= 0 && !c.reads && !c.dead) quiet = false; if (quiet) check_alive(); }
    }
    // the end
    fcrondyn_socket_close(nullptr);
    for (auto &c : cls) if (c.fd >= 0) close(c.fd);
    int left = count_fds(); for (int d : filler) close(d); filler.clear();
    if (left != base_fds) pbt::fail("fd-leak", "%d descriptors are left open at the end", left - base_fds);
    if (access(fifofile, F_OK) == 0) pbt::fail("socket-file", "the socket file is left behind");
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "dynsrv"; c.prop = prop; c.batch = 50; c.quick = 150000; c.thorough = 2000000; c.wall_s = 30;
    return pbt::main(argc, argv, c);
}
