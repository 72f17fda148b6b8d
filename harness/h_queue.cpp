// C09, C08: the counters and queues of running and waiting jobs over long bursts: any number of instances, full and
// growing queues, failing starts, tables removed meanwhile.
#include "daemonglue.hpp"
#include "pbt.hpp"
#include <deque>
#include <map>
#include <set>
#include <vector>
#include <sys/wait.h>
extern "C" {
#include "exe_list.h"
#include "lavg_list.h"
#include "conf.h"
}
using pbt::Gen;
struct Ln { cl_t *c; int n, file, kind; bool sev, lserial; unsigned char lav; int inst; };      // kind 0: normal, 1: serial, 2: load
struct Call { cl_t *c; bool ok; pid_t pid; };
struct Run { Ln *l; int ser; int file; };          // ser 0, 1 serial, 2 serial load job; l: null once its table is gone
static std::vector<Call> calls;
static std::deque<pid_t> ended;
static bool reaping; static int failpct; static Gen *G; static pid_t nextpid; static double load1; static int nforks;
static std::map<pid_t, Run> running;
static std::deque<Ln> lines; static std::vector<cf_t *> files; static std::vector<bool> gone;
static std::deque<Ln *> sq; static std::multiset<Ln *> lq;
static int nser, nlser, extra;
static Ln *of(cl_t *c) { for (auto &l : lines) if (l.c == c) return &l; return nullptr; }
static void started(const Call &k, Ln *l, int ser) {
    if (!k.ok) { l->inst--; return; }
    running[k.pid] = {l, ser, l->file}; if (ser == 1) nser++; if (ser == 2) nlser++;
}
static size_t at;       // calls already accounted for
static void over(pid_t p) {
    auto it = running.find(p); if (it == running.end()) { extra--; return; }
    Run &r = it->second; if (r.l) r.l->inst--; if (r.ser == 1) nser--; if (r.ser == 2) nlser--; running.erase(it);
}
extern "C" {
int w_rand(void) { return 4; }
int w_run_job(struct exe_t *e) {
    bool ok = !(failpct && G->chance(failpct, 100));
    pid_t p = ok ? nextpid : 0; if (ok) nextpid += 1 + (int)G->raw(3);
    calls.push_back({e->e_line, ok, p});
    if (reaping) {
        // only serial jobs are started while the ended ones are looked at
        Ln *l = of(e->e_line);
        if (first_exec) pbt::fail("first-sleep", "line %d is started during the first sleep", l ? l->n : -1);
        if (sq.empty() || l != sq.front()) pbt::fail("serial-order", "a job has ended: line %d is started, %s", l ? l->n : -1, sq.empty() ? "none waits" : pbt::strf("line %d is the first of the queue", sq.front()->n).c_str());
        if (nser >= serial_max_running) pbt::fail("serial-bound", "line %d is started while %d serial jobs run", l->n, nser);
        sq.pop_front(); started(calls.back(), l, 1); at++;
    }
    if (calls.size() > 200000) pbt::fail("endless", "jobs are started without end");
    if (!ok) return ERR;
    e->e_ctrl_pid = p; e->e_job_pid = p + 100000;
    return OK;
}
pid_t w_waitpid(pid_t, int *st, int) { if (st) *st = 0; if (ended.empty()) return 0; pid_t p = ended.front(); ended.pop_front(); if (p != 77) over(p); return p; }      // 77: a process nobody knows
int w_getloadavg(double *l, int) { l[0] = load1; l[1] = l[2] = 0.5; return 3; }
pid_t w_fork(void) { nforks++; return 99999; }
}
// as many serial jobs as may run are started, in their order
static void serial_starts(const char *when) {
    while (!sq.empty() && nser < serial_max_running) {
        if (at >= calls.size()) pbt::fail("serial-stuck", "%s: %zu jobs wait and %d run (of at most %d), but none is started", when, sq.size(), nser, serial_max_running);
        Ln *l = of(calls[at].c);
        if (l != sq.front()) pbt::fail("serial-order", "%s: %s is started, line %d is the first of the queue", when, l ? pbt::strf("line %d", l->n).c_str() : "an unknown line", sq.front()->n);
        sq.pop_front(); started(calls[at++], l, 1);
    }
}
static void none_left(const char *when) { if (at < calls.size()) { Ln *l = of(calls[at].c); pbt::fail("unexpected-start", "%s: line %d is started for no reason", when, l ? l->n : -1); } }
static void check(const char *when) {
    none_left(when);
    if (serial_num != (int)sq.size()) pbt::fail("serial-num", "%s: %d jobs are in the serial queue in place of %zu", when, serial_num, sq.size());
    if (serial_running != nser) pbt::fail("serial-running", "%s: %d serial jobs are counted as running in place of %d", when, serial_running, nser);
    if (lavg_serial_running != nlser) pbt::fail("lavg-running", "%s: %d serial load jobs are counted as running in place of %d", when, lavg_serial_running, nlser);
    if (lavg_list->num_entries != (int)lq.size()) pbt::fail("lavg-num", "%s: %d jobs are in the load queue in place of %zu", when, lavg_list->num_entries, lq.size());
    if (exe_list->num_entries != (int)running.size() + extra) pbt::fail("running-num", "%s: %d jobs are listed as running in place of %zu", when, exe_list->num_entries, running.size() + (size_t)extra);
    std::vector<int> fr(files.size(), 0); for (auto &r : running) if (r.second.l) fr[(size_t)r.second.file]++;
    for (size_t i = 0; i < files.size(); i++) if (!gone[i] && files[i]->cf_running != fr[i]) pbt::fail("file-running", "%s: %d jobs of table %zu are counted as running in place of %d", when, files[i]->cf_running, i, fr[i]);
    for (auto &l : lines) if (l.c) {
        if ((l.c->cl_numexe > 0) != (l.inst > 0)) pbt::fail("numexe", "%s: line %d has %d instances, and is taken for %s", when, l.n, l.inst, l.inst ? "neither queued nor running" : "queued or running");
        if (l.inst <= 200 && (int)l.c->cl_numexe != l.inst) pbt::fail("numexe", "%s: line %d has %d instances counted as %d", when, l.n, l.inst, (int)l.c->cl_numexe);
    }
}
static void prop(Gen &g) {
    G = &g; foreground = 0; debug_opt = 0; setenv("TZ", "UTC", 1); tzset(); orig_tz_envvar = strdup("UTC");
    now = 1700000000 + (time_t)g.raw(100000); first_exec = 0; queue_base = NULL; file_base = NULL; next_id = 1;
    calls.clear(); ended.clear(); reaping = false; running.clear(); lines.clear(); files.clear(); gone.clear(); sq.clear(); lq.clear(); nser = nlser = extra = 0; at = 0; nforks = 0; nextpid = 1000; load1 = 0;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    free(serial_array); serial_array_size = SERIAL_INITIAL_SIZE; serial_array = (cl_t **)calloc((size_t)serial_array_size, sizeof(cl_t *)); serial_array_index = serial_num = 0;
    serial_running = lavg_serial_running = 0;
    bool big = g.chance(1, 3);
    serial_max_running = (short)(g.chance(1, 2) ? 1 : g.range(1, big ? 300 : 6)); serial_queue_max = (short)(big ? g.range(100, 900) : g.range(1, 40)); lavg_list->max_entries = (int)(big ? g.range(100, 900) : g.range(1, 40));
    failpct = 0;
    int failbase = g.chance(1, 2) ? (int)g.range(3, 40) : 0; failpct = failbase;
    pbt::note("at most %d serial jobs at a time, queues of %d and %d%s", serial_max_running, serial_queue_max, lavg_list->max_entries, failbase ? pbt::strf(", %d%% of the starts fail", failbase).c_str() : "");
    auto add_file = [&]() {
        int k = (int)files.size(); cf_t *f = new_file(pbt::strf("u%d", k).c_str()); files.push_back(f); gone.push_back(false);
        f->cf_next = file_base; file_base = f;
        int n = (int)g.range(1, 4); std::string s;
        for (int i = 0; i < n; i++) {
            cl_t *c = new_line(f, "x"); c->cl_id = next_id++; c->cl_mins[0] = 1; memset(c->cl_hrs, 255, sizeof c->cl_hrs); memset(c->cl_days, 255, sizeof c->cl_days); memset(c->cl_mons, 255, sizeof c->cl_mons); memset(c->cl_dow, 255, sizeof c->cl_dow);
            Ln l; l.c = c; l.n = (int)lines.size(); l.file = k; l.kind = g.weighted({2, 4, 3}); l.sev = g.chance(1, 2); l.lserial = g.chance(1, 2); l.lav = (unsigned char)g.range(1, 40); l.inst = 0;
            set_td(c->cl_option); c->cl_runfreq = 0; c->cl_nextexe = now + 3600;
            if (l.kind == 0) { if (l.sev) set_exe_sev(c->cl_option); }
            else if (l.kind == 1) { set_serial(c->cl_option); if (l.sev) set_serial_sev(c->cl_option); else clear_serial_sev(c->cl_option); }
            else { set_lavg(c->cl_option); if (l.sev) set_lavg_sev(c->cl_option); else clear_lavg_sev(c->cl_option); if (l.lserial) set_serial(c->cl_option); set_land(c->cl_option); c->cl_lavg[0] = l.lav; }
            lines.push_back(l);
            s += pbt::strf(" %d %s%s%s", l.n, l.kind == 0 ? "normal" : l.kind == 1 ? "serial" : l.lserial ? "load, serial" : "load", l.sev ? ", several" : "", l.kind == 2 ? pbt::strf(" < %.1f", l.lav / 10.0).c_str() : "");
            insert_nextexe(c);
        }
        pbt::note("table %d:%s", k, s.c_str());
    };
    add_file(); if (g.chance(1, 2)) add_file();
    auto due = [&](Ln &l, int times) {
        for (int i = 0; i < times; i++) {
            bool may = l.sev ? l.inst < 200 : l.inst == 0, never = !l.sev && l.inst > 0;
            if (l.kind == 0) {
                size_t b = calls.size(); run_normal_job(l.c, -1);
                if (calls.size() > b + 1 || (calls.size() > b && calls[b].c != l.c)) pbt::fail("unexpected-start", "line %d is due and another job is started", l.n);
                bool acc = calls.size() > b;
                if (acc && never) pbt::fail("overlap", "line %d is started while it runs", l.n);
                if (!acc && may) pbt::fail("lost", "line %d is not started, with %d instances", l.n, l.inst);
                if (acc) { l.inst++; at++; started(calls[b], &l, 0); }
            } else if (l.kind == 1) {
                int b = serial_num; add_serial_job(l.c, -1); int d = serial_num - b;
                if (d != 0 && d != 1) pbt::fail("serial-num", "%d jobs are added to the serial queue", d);
                if (d && never) pbt::fail("overlap", "line %d is queued again", l.n);
                if (d && (int)sq.size() >= serial_queue_max) pbt::fail("serial-full", "line %d is queued as number %zu of %d", l.n, sq.size() + 1, serial_queue_max);
                if (!d && may && (int)sq.size() < serial_queue_max) pbt::fail("lost", "line %d is not queued, with %d instances", l.n, l.inst);
                if (d) { l.inst++; sq.push_back(&l); }
            } else {
                int b = lavg_list->num_entries; add_lavg_job(l.c, -1); int d = lavg_list->num_entries - b;
                if (d != 0 && d != 1) pbt::fail("lavg-num", "%d jobs are added to the load queue", d);
                if (d && never) pbt::fail("overlap", "line %d is queued again", l.n);
                if (d && (int)lq.size() >= lavg_list->max_entries) pbt::fail("lavg-full", "line %d is queued as number %zu of %d", l.n, lq.size() + 1, lavg_list->max_entries);
                if (!d && may && (int)lq.size() < lavg_list->max_entries) pbt::fail("lost", "line %d is not put in the load queue, with %d instances", l.n, l.inst);
                if (d) { l.inst++; lq.insert(&l); }
            }
        }
    };
    auto loop_serial = [&]() { while (serial_num > 0 && serial_running < serial_max_running) { run_serial_job(); if (calls.size() > 100000) break; } serial_starts("the queue is looked at"); };
    auto lavg = [&](double ld) {
        load1 = ld; size_t b = at; check_lavg(now + 600);
        for (; b < calls.size(); b++) {
            Ln *l = of(calls[b].c); auto it = l ? lq.find(l) : lq.end();
            if (it == lq.end()) pbt::fail("unexpected-start", "line %d is started by the load", l ? l->n : -1);
            if (!(ld * 10 < l->lav)) pbt::fail("lavg", "line %d is started at a load of %.2f", l->n, ld);
            lq.erase(it); started(calls[b], l, l->lserial ? 2 : 0);
            if (nlser > serial_max_running) pbt::fail("lavg-bound", "%d serial load jobs run (of at most %d)", nlser, serial_max_running);
        }
        at = b;
        for (auto *l : lq) if (ld * 10 < l->lav && (!l->lserial || nlser < serial_max_running)) pbt::fail("lavg-stuck", "line %d is not started at a load of %.2f (%d serial load jobs run)", l->n, ld, nlser);
    };
    auto reap = [&](int n, bool odd) {
        std::vector<pid_t> v; for (auto &r : running) v.push_back(r.first);
        ended.clear(); std::deque<pid_t> o;
        while (n-- > 0 && !v.empty()) { size_t i = g.raw(v.size()); o.push_back(v[i]); v[i] = v.back(); v.pop_back(); }
        if (odd) { exe_t *e = exe_list_add_line(exe_list, NULL); if (!e) pbt::fail("full", "the list of the running jobs is full"); e->e_ctrl_pid = 500; extra++; o.insert(o.begin() + (long)g.raw(o.size() + 1), 500); if (g.chance(1, 2)) o.push_back(77); }
        ended = o; reaping = true; wait_chld(); reaping = false;
        if (!ended.empty()) pbt::fail("not-reaped", "%zu jobs which have ended are not looked at", ended.size());
        // the main loop goes on with the serial queue
        if (!first_exec) loop_serial();
    };
    long tot = 0, peak = 0; bool removed = false, full = false; int budget = 4000;
    while (g.more(30) && budget > 0) {
        int op = g.weighted({8, 4, 4, 6, 1, 1, 1});
        std::vector<Ln *> alive; for (auto &l : lines) if (l.c) alive.push_back(&l);
        if (op == 0 && !alive.empty()) {
            Ln &l = *alive[g.raw(alive.size())]; int n = (int)(big && l.sev && g.chance(1, 2) ? g.range(100, 400) : g.range(1, g.chance(1, 4) ? 15 : 2));
            budget -= n; pbt::note("line %d is due %d times", l.n, n); due(l, n); tot += n; if (l.inst > peak) peak = l.inst; if ((int)sq.size() == serial_queue_max) full = true;
        } else if (op == 1) { pbt::note("the serial queue is looked at"); loop_serial(); }
        else if (op == 2) { double ld = (double)g.range(0, 45) / 10; pbt::note("load %.1f", ld); lavg(ld); }
        else if (op == 3) {
            int n = (int)g.range(0, g.chance(1, 3) ? (int)running.size() : 3); bool odd = g.chance(1, 6);
            if (g.chance(1, 10)) first_exec = now + 20;
            pbt::note("%d jobs end%s%s", n, odd ? ", and a process which is no job" : "", first_exec ? " (before the first jobs)" : ""); reap(n, odd); first_exec = 0;
        } else if (op == 4) {
            size_t k = g.raw(files.size()); if (gone[k]) continue;
            pbt::note("table %zu is removed", k); removed = removed || files[k]->cf_running || !sq.empty();
            for (auto it = sq.begin(); it != sq.end();) it = (*it)->file == (int)k ? sq.erase(it) : it + 1;
            for (auto it = lq.begin(); it != lq.end();) it = (*it)->file == (int)k ? lq.erase(it) : std::next(it);
            for (auto &r : running) if (r.second.l && r.second.l->file == (int)k) r.second.l = nullptr;
            for (auto &l : lines) if (l.file == (int)k) { l.c = nullptr; l.inst = 0; }
            gone[k] = true; delete_file(pbt::strf("u%zu", k).c_str());
        } else if (op == 5 && files.size() < 5) add_file();
        else if (op == 6) {
            size_t k = g.raw(files.size()); if (gone[k]) continue;
            pbt::note("the end of the jobs of table %zu is waited for", k);
            std::vector<pid_t> v; for (auto &r : running) v.push_back(r.first);
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.raw(i)]);
            ended.assign(v.begin(), v.end()); wait_all(&files[k]->cf_running);
            ended.clear();
            for (auto &r : running) if (r.second.l && r.second.file == (int)k) pbt::fail("not-waited", "a job of the table still runs");
        }
        check("after that");
    }
    // everything comes to its end
    failpct = 0; pbt::note("everything ends");
    for (int i = 0; i < 3000; i++) { loop_serial(); lavg(0); check("at the end"); if (running.empty() && sq.empty() && lq.empty()) break; reap((int)running.size(), false); check("at the end"); }
    if (!running.empty() || !sq.empty() || !lq.empty()) pbt::fail("wedged", "%zu jobs run and %zu and %zu wait for ever", running.size(), sq.size(), lq.size());
    for (auto &l : lines) if (l.c && l.inst) pbt::fail("lost", "line %d still has %d instances", l.n, l.inst);
    if (tot > 3) pbt::nontrivial();
    if (peak > 200) pbt::label("more than 200 instances"); if (removed) pbt::label("table removed"); if (full) pbt::label("serial queue full");
    for (size_t k = 0; k < files.size(); k++) if (!gone[k]) delete_file(pbt::strf("u%zu", k).c_str());
    exe_list_destroy(exe_list); lavg_list_destroy(lavg_list); free(orig_tz_envvar); orig_tz_envvar = NULL;
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "queue"; c.quick = 30000; c.thorough = 1500000; c.batch = 100; c.prop = prop;
    return pbt::main(argc, argv, c);
}
