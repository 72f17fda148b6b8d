// The daemon's loading and saving of tables in a scratch spool directory.
#pragma once
#include "daemonglue.hpp"
#include "tabdiff.hpp"
#include "tabside.hpp"
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <pwd.h>
extern "C" {
#include "conf.h"
#include "exe_list.h"
#include "lavg_list.h"
extern uid_t rootuid; extern gid_t rootgid;
extern char *fcrontabs;
extern unsigned long int next_id;
extern cl_t **serial_array; extern short int serial_array_size, serial_array_index, serial_num;
extern lavg_list_t *lavg_list; extern exe_list_t *exe_list;
extern time_t begin_sleep;
int read_file(const char *file_name, cf_t *cf, int is_system_startup);
}
// a private user database: the tables' owners need not exist here
struct FakePw { const char *name; uid_t uid; };
static const FakePw FAKE[] = {{"root", 0}, {"model", 1000}, {"john.doe", 1007}, {"daemon", 1}, {"bin", 2}, {"mail", 8}, {"games", 5}, {"nobody", 65534}};
static struct passwd fpw;
static string pw_dir = "/", pw_shell = "/bin/sh";
static struct passwd *fill(const FakePw &f) {
    static char x[] = "x";
    fpw.pw_name = (char *)f.name; fpw.pw_passwd = x; fpw.pw_uid = f.uid; fpw.pw_gid = f.uid ? f.uid + 500 : 0; fpw.pw_gecos = x; fpw.pw_dir = (char *)pw_dir.c_str(); fpw.pw_shell = (char *)pw_shell.c_str();
    return &fpw;
}
static bool no_passwd;      // the user database fails
extern "C" struct passwd *w_getpwnam(const char *n) { if (no_passwd) return nullptr; for (auto &f : FAKE) if (!strcmp(f.name, n)) return fill(f); return nullptr; }
extern "C" struct passwd *w_getpwuid(uid_t u) { for (auto &f : FAKE) if (f.uid == u) return fill(f); return nullptr; }
static uid_t uid_of(const string &n) { for (auto &f : FAKE) if (n == f.name) return f.uid; return 4242; }
static int nforks;
#ifndef OWN_FORK
extern "C" pid_t w_fork(void) { nforks++; return 99999; }
#endif
extern "C" time_t w_time(time_t *t) { if (t) *t = now; return now; }

static string slurp(const string &p, bool *ok = nullptr) {
    string s; int fd = open(p.c_str(), O_RDONLY);
    if (ok) *ok = fd >= 0;
    if (fd < 0) return s;
    char b[4096]; ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd);
    return s;
}
static void spew(const string &p, const string &s) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) { perror("spew"); abort(); }
    close(fd);
}
static vector<string> listing() {
    vector<string> v; DIR *d = opendir(".");
    while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
    closedir(d); std::sort(v.begin(), v.end());
    return v;
}
// an empty spool directory, which becomes the current one
static void fresh_spool() {
    string d = pbt::scratch() + strf("/spool.%d", (int)getpid());
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) { perror(d.c_str()); abort(); }
    for (auto &f : listing()) unlink(f.c_str());
}
static void daemon_memory() {
    rootuid = 0; rootgid = 0; foreground = 1; debug_opt = 0;
    file_base = nullptr; queue_base = nullptr; next_id = 0;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    serial_array_size = 10; serial_array = (cl_t **)calloc(serial_array_size, sizeof(cl_t *)); serial_array_index = serial_num = 0;
    orig_tz_envvar = strdup("UTC");
    fcrontabs = strdup("spool");
}
static cf_t *table_of(const string &u) { for (cf_t *f = file_base; f; f = f->cf_next) if (u == f->cf_user) return f; return nullptr; }
static vector<cl_t *> lines_of(cf_t *f) { vector<cl_t *> v; for (cl_t *l = f->cf_line_base; l; l = l->cl_next) v.push_back(l); return v; }
// everything of a line which must survive saving and loading
static string line_static(cl_t *l) {
    unsigned char o[OPTION_SIZE]; memcpy(o, l->cl_option, OPTION_SIZE);
    clear_hasrun(o); clear_serial_once(o); o[1] &= ~2;
    string s = strf("shell %s runas %s mailto %s mailfrom %s tz %s options", pbt::quote(cs(l->cl_shell)).c_str(), cs(l->cl_runas).c_str(), cs(l->cl_mailto).c_str(),
                    l->cl_mailfrom && *l->cl_mailfrom ? l->cl_mailfrom : "-", l->cl_tz ? pbt::quote(l->cl_tz).c_str() : "-");
    for (unsigned char c : o) s += strf(" %02x", c);
    s += strf(" until %ld nice %d runfreq %d jitter %d", (long)l->cl_until, l->cl_nice, l->cl_runfreq, l->cl_jitter);
    if (is_lavg(l->cl_option)) s += strf(" lavg %d,%d,%d", l->cl_lavg[0], l->cl_lavg[1], l->cl_lavg[2]);
    if (is_freq(l->cl_option)) s += strf(" first %ld timefreq %ld", (long)l->cl_first, l->cl_timefreq);
    else {
        s += " fields";
        for (auto p : {std::make_pair((unsigned char *)l->cl_mins, 60), {(unsigned char *)l->cl_hrs, 24}, {(unsigned char *)l->cl_days, 32}, {(unsigned char *)l->cl_mons, 12}, {(unsigned char *)l->cl_dow, 8}}) {
            s += " "; for (int i = 0; i < p.second; i++) s += bit_test(p.first, i) ? '1' : '0';
        }
    }
    return s;
}
static string table_static(cf_t *f, bool reversed) {
    string s = strf("user %s tzdiff %d\n", f->cf_user, f->cf_tzdiff);
    for (auto &e : table_env(f)) s += "env " + pbt::quote(e) + "\n";
    vector<cl_t *> v = lines_of(f);
    if (reversed) std::reverse(v.begin(), v.end());
    for (auto l : v) s += line_static(l) + "\n";
    return s;
}
static string table_dynamic(cf_t *f, bool reversed) {
    string s;
    vector<cl_t *> v = lines_of(f);
    if (reversed) std::reverse(v.begin(), v.end());
    for (auto l : v) s += strf("%s: next %ld remain %d hasrun %d\n", pbt::quote(cs(l->cl_shell)).substr(0, 60).c_str(), (long)l->cl_nextexe, l->cl_remain, is_hasrun(l->cl_option) ? 1 : 0);
    return s;
}
// the loaded table is the one which the text describes
static std::pair<string, string> table_diff2(const string &user, const Model &m) {
    cf_t *f = table_of(user);
    if (!f) return std::make_pair<string, string>("no-table", strf("the table is not loaded"));
    if (f->cf_tzdiff != m.tzdiff) return std::make_pair<string, string>("tzdiff", strf("tzdiff %d in place of %d", f->cf_tzdiff, m.tzdiff));
    vector<string> got = table_env(f), want;
    for (auto &e : m.env) want.push_back(e.first + "=" + e.second);
    if (got != want) return std::make_pair<string, string>("env", strf("the environment differs: %zu variables in place of %zu", got.size(), want.size()));
    vector<cl_t *> ls = lines_of(f);
    if (ls.size() != m.jobs.size()) return std::make_pair<string, string>("job-count", strf("%zu jobs in place of %zu", ls.size(), m.jobs.size()));
    string best;
    for (int rev = 0; rev < 2; rev++) {
        string all;
        for (size_t i = 0; i < ls.size() && all.empty(); i++) {
            cl_t *l = ls[rev ? ls.size() - 1 - i : i];
            cl_t c = *l;
            Job j = m.jobs[i];
            if (user != "root" && user != "systab") j.o.runas = user;      // a user's table only runs as that user
            if (!j.o.has_mailfrom || j.o.mailfrom.empty()) c.cl_mailfrom = j.o.has_mailfrom ? (char *)"" : nullptr;
            if ((!j.o.has_mailfrom || j.o.mailfrom.empty()) && l->cl_mailfrom && *l->cl_mailfrom) all += strf("mailfrom %s in place of none; ", l->cl_mailfrom);
            string d = diff_job(j, &c, 3);
            if (!d.empty()) all += strf("job %zu (%s): %s", i, j.text.substr(0, 100).c_str(), d.c_str());
        }
        if (all.empty()) return std::make_pair<string, string>("", "");
        if (best.empty() || all.size() < best.size()) best = all;
    }
    return std::make_pair<string, string>("job", strf("%s", best.c_str()));
}
static string table_diff(const string &user, const Model &m) { return table_diff2(user, m).second; }
static void check_table(const string &user, const Model &m, const char *when) { auto d = table_diff2(user, m); if (d.second.size()) pbt::fail(d.first.c_str(), "%s: %s", when, d.second.c_str()); }
// the queues hold only lines of loaded tables, in order, each line once
static void check_queues() {
    std::set<cl_t *> all;
    for (cf_t *f = file_base; f; f = f->cf_next) for (cl_t *l : lines_of(f)) { all.insert(l); if (l->cl_file != f) pbt::fail("line-file", "a line of %s belongs to another table", f->cf_user); }
    std::set<cl_t *> q; time_t last = LONG_MIN;
    for (job_t *j = queue_base; j; j = j->j_next) {
        if (!all.count(j->j_line)) pbt::fail("dangling", "the job queue holds a line of no loaded table");
        if (!q.insert(j->j_line).second) pbt::fail("queue-twice", "the job queue holds line %s twice", j->j_line->cl_shell);
        if (j->j_line->cl_nextexe < last) pbt::fail("queue-order", "the job queue is not sorted");
        last = j->j_line->cl_nextexe;
    }
    for (cl_t *l : all) if (!q.count(l) && !(is_runonce(l->cl_option) && is_hasrun(l->cl_option)) && l->cl_nextexe < 971859427200) pbt::fail("unqueued", "line %s is not in the job queue", pbt::quote(cs(l->cl_shell)).c_str());
    int n = 0;
    for (int i = 0; i < serial_array_size; i++) if (serial_array[i]) { n++; if (!all.count(serial_array[i])) pbt::fail("dangling", "the serial queue holds a line of no loaded table"); }
    if (n != serial_num) pbt::fail("serial-count", "the serial queue holds %d lines, serial_num is %d", n, serial_num);
    for (lavg_t *e = lavg_list_first(lavg_list); e; e = lavg_list_next(lavg_list)) if (!all.count(e->l_line)) pbt::fail("dangling", "the load queue holds a line of no loaded table");
}
