// C31: the lists of jobs and variables against simple models, under AddressSanitizer.
#include "daemonglue.hpp"
#include "pbt.hpp"
#include <map>
#include <set>
extern "C" {
#include "u_list.h"
#include "exe_list.h"
#include "lavg_list.h"
#include "env_list.h"
}
using pbt::Gen;
extern "C" int w_rand(void) { return 4; }

static uint64_t nops, nremoved_iter, ngrown;

// ---- the unordered list, raw or through one of its wrappers ----------------------
// An element is identified by a number stored in it (so two elements may hold the same number).
struct List {
    int kind;          // 0: u_list, 1: exe_list, 2: lavg_list
    u_list_t *l = nullptr;
    size_t esize; int maxe;
    std::multiset<unsigned> live;                 // model: numbers in the list
    bool iter = false, removed = false; unsigned cur = 0;
    std::multiset<unsigned> due, maybe, seen;     // due: must still be visited; maybe: added during the iteration
};
static const char *KN[] = {"u_list", "exe_list", "lavg_list"};
static std::string bytes_of(const List &L, unsigned id) {
    // the whole content of an element follows from its number
    std::string b(L.esize, 0);
    if (L.kind == 0) {
        for (size_t i = 0; i < L.esize; i++) b[i] = i < 2 ? (char)(id >> (8 * i)) : (char)(id * 31 + i * 7);
    } else if (L.kind == 1) {
        exe_t e; memset(&e, 0, sizeof e); e.e_line = (cl_t *)(uintptr_t)(id + 1); e.e_ctrl_pid = (pid_t)(id * 3 + 1); e.e_job_pid = (pid_t)(id * 5 + 2); e.e_serial = (char)(id & 1);
        memcpy(&b[0], &e, sizeof e);
    } else {
        lavg_t e; memset(&e, 0, sizeof e); e.l_line = (cl_t *)(uintptr_t)(id + 1); e.l_until = (time_t)id * 1000003;
        memcpy(&b[0], &e, sizeof e);
    }
    return b;
}
static unsigned id_of(const List &L, const void *p, const char *what) {
    unsigned id;
    std::string got((const char *)p, L.esize);
    if (L.kind == 1) id = (unsigned)(uintptr_t)((const exe_t *)p)->e_line - 1;
    else if (L.kind == 2) id = (unsigned)(uintptr_t)((const lavg_t *)p)->l_line - 1;
    else id = (unsigned char)got[0] | (L.esize > 1 ? (unsigned)(unsigned char)got[1] << 8 : 0);
    std::string want = bytes_of(L, id);
    bool same = L.kind == 0 ? got == want
              : L.kind == 1 ? ((const exe_t *)p)->e_ctrl_pid == ((exe_t *)&want[0])->e_ctrl_pid && ((const exe_t *)p)->e_job_pid == ((exe_t *)&want[0])->e_job_pid && ((const exe_t *)p)->e_serial == ((exe_t *)&want[0])->e_serial
              : ((const lavg_t *)p)->l_until == ((lavg_t *)&want[0])->l_until;
    if (!same) pbt::fail("content", "%s: %s holds an altered element (number %u)", KN[L.kind], what, id);
    return id;
}
static void *do_add(List &L, unsigned id) {
    std::string b = bytes_of(L, id);
    switch (L.kind) {
    case 1: return exe_list_add(L.l, (exe_t *)&b[0]);
    case 2: return lavg_list_add(L.l, (lavg_t *)&b[0]);
    default: return u_list_add(L.l, &b[0]);
    }
}
static void *do_first(List &L) { return L.kind == 1 ? (void *)exe_list_first(L.l) : L.kind == 2 ? (void *)lavg_list_first(L.l) : u_list_first(L.l); }
static void *do_next(List &L) { return L.kind == 1 ? (void *)exe_list_next(L.l) : L.kind == 2 ? (void *)lavg_list_next(L.l) : u_list_next(L.l); }
static void do_end(List &L) { if (L.kind == 1) exe_list_end_iteration(L.l); else if (L.kind == 2) lavg_list_end_iteration(L.l); else u_list_end_iteration(L.l); }
static void do_remove(List &L) { if (L.kind == 1) exe_list_remove_cur(L.l); else if (L.kind == 2) lavg_list_remove_cur(L.l); else u_list_remove_cur(L.l); }
static void take(std::multiset<unsigned> &s, unsigned id) { auto i = s.find(id); if (i != s.end()) s.erase(i); }

static void visited(List &L, void *p) {
    if (!p) {
        if (!L.due.empty()) pbt::fail("missed", "%s: the iteration ended without visiting element %u (%zu missed)", KN[L.kind], *L.due.begin(), L.due.size());
        L.iter = L.removed = false;
        return;
    }
    unsigned id = id_of(L, p, "an iteration");
    if (L.due.count(id)) take(L.due, id);
    else if (L.maybe.count(id)) take(L.maybe, id);
    else if (L.live.count(id)) pbt::fail("twice", "%s: element %u visited twice in one iteration", KN[L.kind], id);
    else pbt::fail("ghost", "%s: element %u visited, which is not in the list", KN[L.kind], id);
    L.cur = id; L.removed = false;
}
static void check_state(List &L) {
    if (L.l->num_entries != (int)L.live.size()) pbt::fail("count", "%s: num_entries is %d, the list holds %zu elements", KN[L.kind], L.l->num_entries, L.live.size());
    if ((u_list_is_iterating(L.l) != 0) != L.iter) pbt::fail("iterating", "%s: is_iterating is %d", KN[L.kind], u_list_is_iterating(L.l));
}
static void whole(List &L, u_list_t *l, const char *what) {
    // a complete iteration from the start
    std::multiset<unsigned> left = L.live;
    for (void *p = u_list_first(l); p; p = u_list_next(l)) {
        unsigned id = id_of(L, p, what);
        if (!left.count(id)) pbt::fail("copy", "%s: %s visits element %u twice or though it is not in the list", KN[L.kind], what, id);
        take(left, id);
    }
    if (!left.empty()) pbt::fail("copy", "%s: %s misses element %u", KN[L.kind], what, *left.begin());
}
static void lists(Gen &g) {
    List L;
    L.kind = (int)g.raw(3);
    int init = 1, grow = 1;
    if (L.kind == 0) {
        L.esize = (size_t)g.skew(1, 40); init = (int)g.skew(1, 12); grow = (int)g.skew(1, 7);
        L.maxe = g.chance(1, 2) ? (int)g.skew(1, 20) : 0;
        L.l = u_list_init(L.esize, init, grow); L.l->max_entries = L.maxe;
    } else if (L.kind == 1) { L.esize = sizeof(exe_t); L.maxe = 0; L.l = exe_list_init(); }
    else { L.esize = sizeof(lavg_t); L.maxe = L.l ? 0 : 0; L.l = lavg_list_init(); L.maxe = L.l->max_entries; if (g.chance(1, 2)) L.l->max_entries = L.maxe = (int)g.range(5, 60); }
    pbt::note("%s of elements of %zu bytes, %d then +%d, at most %d", KN[L.kind], L.esize, init, grow, L.maxe);
    unsigned nextid = 0;
    unsigned idmod = L.esize == 1 ? 200 : 60000;
    bool dup = g.chance(1, 4);
    int bias = (int)g.raw(3);
    while (g.more(60)) {
        nops++;
        switch (L.iter ? g.weighted({bias == 0 ? 6 : 3, 8, 4, 1, 1}) : g.weighted({bias == 2 ? 3 : 6, 0, 0, 0, 1, 3})) {
        case 0: {
            unsigned id = dup && !L.live.empty() && g.chance(1, 3) ? *L.live.begin() : nextid++ % idmod;
            int before = L.l->num_entries, arr = L.l->array_size;
            (void)before;
            void *p = do_add(L, id);
            bool full = L.maxe > 0 && (int)L.live.size() >= L.maxe;
            pbt::note("add %u%s", id, p ? "" : " refused");
            if (full && p) pbt::fail("bound", "%s: an element is added to a full list (%zu of %d)", KN[L.kind], L.live.size(), L.maxe);
            if (!full && !p) pbt::fail("refused", "%s: an element is refused though the list holds %zu of %d", KN[L.kind], L.live.size(), L.maxe);
            if (p) {
                if (id_of(L, p, "the pointer returned by add") != id) pbt::fail("content", "%s: add returns another element", KN[L.kind]);
                L.live.insert(id); if (L.iter) L.maybe.insert(id);
                if (L.l->array_size != arr) ngrown++;
            }
            break; }
        case 1: { void *p = do_next(L); pbt::note("next"); visited(L, p); break; }
        case 2: {
            if (L.removed) break;          // only one removal per element visited
            pbt::note("remove %u", L.cur);
            do_remove(L); take(L.live, L.cur); L.removed = true; nremoved_iter++;
            break; }
        case 3: pbt::note("end iteration"); do_end(L); L.iter = L.removed = false; break;
        case 4: {
            pbt::note("copy");
            u_list_t *c = u_list_copy(L.l);
            if (u_list_is_iterating(c)) u_list_end_iteration(c);
            if (c->num_entries != (int)L.live.size()) pbt::fail("copy", "%s: a copy holds %d of %zu elements", KN[L.kind], c->num_entries, L.live.size());
            whole(L, c, "a copy");
            // the copy grows on its own, up to the same maximum
            {
                std::multiset<unsigned> want = L.live;
                int k = (int)g.raw(12);
                for (int i = 0; i < k; i++) {
                    unsigned id = (nextid + 7 + (unsigned)i) % idmod;
                    std::string b = bytes_of(L, id);
                    void *p = u_list_add(c, &b[0]);
                    bool full = L.maxe > 0 && (int)want.size() >= L.maxe;
                    if (full == (p != nullptr)) pbt::fail("copyadd", "%s: adding to a copy of %zu elements of at most %d %s", KN[L.kind], want.size(), L.maxe, p ? "succeeds" : "fails");
                    if (p) want.insert(id);
                }
                std::swap(want, L.live);
                whole(L, c, "a copy with more elements");
                std::swap(want, L.live);
                if (!L.iter) whole(L, L.l, "the list after its copy changed");
            }
            // emptying the copy leaves the list alone
            for (void *p = u_list_first(c); p; p = u_list_next(c)) u_list_remove_cur(c);
            if (c->num_entries) pbt::fail("copy", "%s: removing every element of a copy leaves %d", KN[L.kind], c->num_entries);
            u_list_destroy(c);
            break; }
        case 5: {
            pbt::note("first");
            void *p = do_first(L);
            L.due = L.live; L.maybe.clear(); L.iter = p != nullptr; L.removed = false;
            visited(L, p);
            break; }
        }
        check_state(L);
    }
    if (L.iter) { do_end(L); L.iter = false; check_state(L); }
    whole(L, L.l, "the last iteration");
    if (L.kind == 1) exe_list_destroy(L.l); else if (L.kind == 2) lavg_list_destroy(L.l); else u_list_destroy(L.l);
    if (nremoved_iter && nops > 10) pbt::nontrivial();
    pbt::label("%s%s", KN[L.kind], ngrown ? " grown" : "");
}

// ---- environment lists -------------------------------------------------------------
typedef std::vector<std::pair<std::string, std::string>> Vars;
static void same_env(env_list_t *l, const Vars &m, const char *what) {
    if (l->num_entries != (int)m.size()) pbt::fail("envcount", "%s holds %d variables, not %zu", what, l->num_entries, m.size());
    size_t i = 0;
    for (env_t *e = env_list_first(l); e; e = env_list_next(l), i++) {
        if (i >= m.size()) pbt::fail("env", "%s visits more than its %zu variables", what, m.size());
        std::string want = m[i].first + "=" + m[i].second;
        if (want != e->e_envvar) pbt::fail("env", "%s holds %s in place of %s", what, pbt::quote(e->e_envvar).c_str(), pbt::quote(want).c_str());
    }
    if (i != m.size()) pbt::fail("env", "%s visits %zu of %zu variables", what, i, m.size());
}
static void envs(Gen &g) {
    static const std::vector<std::string> NAMES = {"A", "AB", "ABC", "PATH", "PAT", "PATHS", "HOME", "_", "a", "A1", "SHELL", "MAILTO", "X Y"};
    env_list_t *l = env_list_init();
    Vars m;
    auto find = [&](const std::string &n) { for (auto &v : m) if (v.first == n) return &v; return (std::pair<std::string, std::string> *)nullptr; };
    auto value = [&]() {
        static const std::vector<std::string> V = {"", "1", "x=y", "=", "/usr/bin:/bin", " spaced ", "A=B=C", "PATH=/"};
        if (g.chance(1, 5)) return std::string((size_t)g.skew(1, 3000), (char)('a' + g.raw(26)));
        return g.pick(V);
    };
    auto name = [&]() { if (g.chance(1, 4)) return "V" + std::to_string(g.raw(40)); return g.pick(NAMES); };
    int n = 0, over = 0;
    while (g.more(40)) {
        n++;
        std::string nm = name();
        auto *have = find(nm);
        switch (g.weighted({6, 5, 4, 2, 2, 1})) {
        case 0: case 1: {
            bool set = g.chance(1, 2); int ow = g.chance(1, 2) ? 1 : 0;
            std::string v = value();
            pbt::note("%s %s=%s overwrite %d", set ? "setenv" : "putenv", nm.c_str(), v.substr(0, 40).c_str(), ow);
            env_t *e;
            if (set) e = env_list_setenv(l, (char *)nm.c_str(), (char *)v.c_str(), ow);
            else { std::string a = nm + "=" + v; e = env_list_putenv(l, (char *)a.c_str(), ow); }
            if (!have) m.push_back({nm, v}); else if (ow) have->second = v, over++;
            auto *now = find(nm);
            if (!e || now->first + "=" + now->second != e->e_envvar) pbt::fail("envret", "setting %s returns %s", nm.c_str(), e ? e->e_envvar : "NULL");
            break; }
        case 2: {
            char *v = env_list_getenv(l, (char *)nm.c_str());
            pbt::note("getenv %s", nm.c_str());
            if ((v != nullptr) != (have != nullptr) || (have && have->second != v)) pbt::fail("getenv", "getenv(%s) gives %s in place of %s", nm.c_str(), v ? pbt::quote(v).c_str() : "NULL", have ? pbt::quote(have->second).c_str() : "NULL");
            break; }
        case 3: {
            pbt::note("copy");
            env_list_t *c = env_list_copy(l);
            same_env(c, m, "a copy");
            env_list_setenv(c, (char *)"AB", (char *)"changed in the copy", 1);
            Vars mc = m;
            auto cset = [&](const std::string &k, const std::string &v) {
                for (auto &x : mc) if (x.first == k) { x.second = v; return; }
                mc.push_back({k, v});
            };
            cset("AB", "changed in the copy");
            for (int i = 0, k = (int)g.raw(14); i < k; i++) {
                std::string nm2 = "NEW" + std::to_string(i), v2 = std::to_string(i * 7);
                if (!env_list_setenv(c, (char *)nm2.c_str(), (char *)v2.c_str(), 1)) pbt::fail("envret", "adding %s to a copy returns NULL", nm2.c_str());
                cset(nm2, v2);
            }
            same_env(c, mc, "a changed copy");
            env_list_destroy(c);
            break; }
        case 4: {
            pbt::note("export");
            char **e = env_list_export_envp(l);
            size_t i = 0;
            for (; e[i]; i++) if (i >= m.size() || m[i].first + "=" + m[i].second != e[i]) pbt::fail("envp", "the exported environment holds %s at %zu", pbt::quote(e[i]).c_str(), i);
            if (i != m.size()) pbt::fail("envp", "the exported environment holds %zu of %zu variables", i, m.size());
            env_list_free_envp(e);
            break; }
        case 5: {
            // iterate over a part of the list, then give up
            int k = 0; env_t *e = env_list_first(l);
            while (e && k++ < 3) e = env_list_next(l);
            if (e || k < 3) env_list_end_iteration(l);
            break; }
        }
        if (u_list_is_iterating(l)) pbt::fail("enviter", "an iteration is left open");
        same_env(l, m, "the list");
    }
    if (g.chance(1, 3)) env_list_first(l);
    env_list_destroy(l);
    if (over && m.size() > 3) pbt::nontrivial();
    pbt::label("env_list");
}

// ---- the queue of jobs sorted by time ----------------------------------------------------
static void queue(Gen &g) {
    queue_base = NULL;
    debug_opt = 0;
    cf_t *cf = new_file("root");
    std::vector<cl_t *> ls; std::set<cl_t *> in;
    int n = (int)g.range(1, 10);
    for (int i = 0; i < n; i++) { ls.push_back(new_line(cf, "x")); ls.back()->cl_id = i; }
    int moved = 0;
    while (g.more(40)) {
        cl_t *c = ls[g.raw(ls.size())];
        if (g.chance(1, 5)) {
            pbt::note("remove %lu", c->cl_id);
            job_queue_remove(c); in.erase(c);
        } else {
            time_t t = g.chance(1, 4) ? (time_t)g.range(0, 4000000000LL) : (time_t)g.range(0, 6) * 60;
            pbt::note("insert %lu at %ld", c->cl_id, (long)t);
            // a queued line has its time changed just before it is inserted again
            if (in.count(c)) moved++;
            c->cl_nextexe = t; insert_nextexe(c); in.insert(c);
        }
        std::set<cl_t *> got; time_t last = 0; int k = 0;
        for (job_t *j = queue_base; j; j = j->j_next) {
            if (++k > 1000) pbt::fail("loop", "the queue has a loop");
            if (!got.insert(j->j_line).second) pbt::fail("dup", "line %lu is twice in the queue", j->j_line->cl_id);
            if (j->j_line->cl_nextexe < last) pbt::fail("order", "line %lu (at %ld) comes after one at %ld", j->j_line->cl_id, (long)j->j_line->cl_nextexe, (long)last);
            last = j->j_line->cl_nextexe;
        }
        if (got != in) pbt::fail("queue", "the queue holds %zu lines, not the %zu inserted", got.size(), in.size());
    }
    if (moved > 1) pbt::nontrivial();
    pbt::label("job queue");
}
static void prop(Gen &g) {
    nops = nremoved_iter = ngrown = 0;
    foreground = 0;
    switch (g.weighted({5, 3, 2})) { case 0: lists(g); break; case 1: envs(g); break; default: queue(g); }
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "lists"; c.quick = 40000; c.thorough = 1000000; c.batch = 200; c.prop = prop;
    return pbt::main(argc, argv, c);
}
