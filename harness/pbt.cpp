#include "pbt.hpp"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>

extern "C" {
// real versions, whatever the harness wraps (see run.py: these are never wrapped here)
}

namespace pbt {
static const size_t MAXCH = 1 << 16;
static const int MAXSLOT = 16;
struct Slot {
    uint64_t cur;         // index of the case being run
    int done;             // batch finished
    int failed;
    char badfmt[256];     // a format which is not a constant of the program
    char sig[128];
    char msg[4096];
    uint64_t nch;
    uint64_t ch[MAXCH];
    char notes[1 << 16];
    uint32_t nnotes;
};
struct Shared {
    uint64_t evals, discards, nontriv, distinct;
    struct { char name[64]; uint64_t n; } labels[512];
    int lock;
    uint64_t nt_index[64];
    uint64_t n_nt_index;
    Slot slots[MAXSLOT];
    uint64_t set[1 << 21];
};
static Shared *S;
static Slot *me;
static bool verbose, thorough;
static std::string scratch_dir;
static Gen *curgen;
static std::string rundir;

bool thorough_tier() { return thorough; }
const std::string &scratch() { return scratch_dir; }
bool noting() { return verbose; }

uint64_t hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    while (n--) { h ^= *c++; h *= 1099511628211ull; }
    return h;
}
std::string strf(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char b[8192]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    return b;
}
std::string quote(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
        else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) o += strf("\\x%02x", c);
        else o += (char)c;
    }
    return o + "\"";
}

uint64_t Gen::raw(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (pos < prefix.size()) { v = prefix[pos]; if (v >= n) v = v % n; }
    else if (random) v = next() % n;
    else v = 0;
    if (pos < MAXCH) { me->ch[pos] = v; me->nch = pos + 1; }
    else if (random) { random = false; }
    pos++;
    return v;
}

static void lock() { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void unlock() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

static std::map<std::string, int> *label_cache;
static bool counting = true;
void label(const char *fmt, ...) {
    if (!counting) return;
    char b[64]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!label_cache) label_cache = new std::map<std::string, int>();
    auto it = label_cache->find(b);
    int i;
    if (it == label_cache->end()) {
        lock();
        for (i = 0; i < 511; i++) {
            if (!S->labels[i].name[0]) { strcpy(S->labels[i].name, b); break; }
            if (!strcmp(S->labels[i].name, b)) break;
        }
        unlock();
        (*label_cache)[b] = i;
    } else i = it->second;
    __atomic_fetch_add(&S->labels[i].n, 1, __ATOMIC_RELAXED);
}
void note(const char *fmt, ...) {
    if (!verbose) return;
    va_list ap; va_start(ap, fmt);
    size_t left = sizeof me->notes - me->nnotes;
    if (left > 2) {
        int k = vsnprintf(me->notes + me->nnotes, left - 1, fmt, ap);
        if (k > 0) me->nnotes += std::min<size_t>(k, left - 2);
        me->notes[me->nnotes++] = '\n';
        if (me->nnotes >= sizeof me->notes) me->nnotes = sizeof me->notes - 1;
        me->notes[me->nnotes] = 0;
    }
    va_end(ap);
}
static bool nt_done;
void nontrivial(uint64_t key) {
    if (!counting) return;
    if (!nt_done) {
        nt_done = true;
        uint64_t k = __atomic_fetch_add(&S->nontriv, 1, __ATOMIC_RELAXED);
        if (k < 64) { S->nt_index[k] = me->cur; }
    }
    if (!key) key = 1;
    const uint64_t M = (1 << 21) - 1;
    uint64_t i = (key * 0x9E3779B97F4A7C15ull) >> 40;
    for (int probe = 0; probe < 4096; probe++, i++) {
        uint64_t exp = 0;
        uint64_t cur = __atomic_load_n(&S->set[i & M], __ATOMIC_RELAXED);
        if (cur == key) return;
        if (cur == 0) {
            if (__atomic_compare_exchange_n(&S->set[i & M], &exp, key, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&S->distinct, 1, __ATOMIC_RELAXED);
                return;
            }
            if (exp == key) return;
        }
    }
}
void nontrivial() { if (!nt_done) nontrivial(hash(me->ch, me->nch * 8)); }

void fail(const char *sig, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    va_end(ap);
    snprintf(me->sig, sizeof me->sig, "%s", sig);
    me->failed = 1;
    _exit(77);
}
/* Formats: the object files of the code under test call these in place of the C library's functions. A format which
   is not in a part of the program mapped from its file is made of data. Recorded only in the runs which look for it. */
static std::string onlysig;
static std::vector<std::pair<uintptr_t, uintptr_t>> consts;
static void find_consts() {
    FILE *f = fopen("/proc/self/maps", "r"); if (!f) return;
    char l[4400], exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
    while (fgets(l, sizeof l, f)) {
        unsigned long a, b, ino; char pr[8]; int at = 0;
        if (sscanf(l, "%lx-%lx %7s %*s %*s %lu %n", &a, &b, pr, &ino, &at) < 4 || !at) continue;
        l[strcspn(l, "\n")] = 0;
        if (!strcmp(l + at, exe)) consts.push_back({a, b});
    }
    fclose(f);
}
extern "C" bool pbt_format(const char *f) {
    if (onlysig != "format" || !me || !f) return true;
    if (consts.empty()) return true;
    for (auto &c : consts) if ((uintptr_t)f >= c.first && (uintptr_t)f < c.second) return true;
    if (!me->badfmt[0]) snprintf(me->badfmt, sizeof me->badfmt, "the string \"%s\" is used as a format", f);
    return false;
}
extern "C" {
int pbtfmt_vsnprintf(char *b, size_t n, const char *f, va_list a) { return pbt_format(f) ? vsnprintf(b, n, f, a) : snprintf(b, n, "%s", f); }
int pbtfmt_vsprintf(char *b, const char *f, va_list a) { return pbt_format(f) ? vsprintf(b, f, a) : sprintf(b, "%s", f); }
int pbtfmt_vfprintf(FILE *o, const char *f, va_list a) { return pbt_format(f) ? vfprintf(o, f, a) : fprintf(o, "%s", f); }
int pbtfmt_vdprintf(int o, const char *f, va_list a) { return pbt_format(f) ? vdprintf(o, f, a) : dprintf(o, "%s", f); }
int pbtfmt_vasprintf(char **o, const char *f, va_list a) { return pbt_format(f) ? vasprintf(o, f, a) : asprintf(o, "%s", f); }
int pbtfmt_vprintf(const char *f, va_list a) { return pbtfmt_vfprintf(stdout, f, a); }
int pbtfmt_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = pbtfmt_vsnprintf(b, n, f, a); va_end(a); return r; }
int pbtfmt_sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = pbtfmt_vsprintf(b, f, a); va_end(a); return r; }
int pbtfmt_fprintf(FILE *o, const char *f, ...) { va_list a; va_start(a, f); int r = pbtfmt_vfprintf(o, f, a); va_end(a); return r; }
int pbtfmt_dprintf(int o, const char *f, ...) { va_list a; va_start(a, f); int r = pbtfmt_vdprintf(o, f, a); va_end(a); return r; }
int pbtfmt_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int r = pbtfmt_vasprintf(o, f, a); va_end(a); return r; }
int pbtfmt_printf(const char *f, ...) { va_list a; va_start(a, f); int r = pbtfmt_vfprintf(stdout, f, a); va_end(a); return r; }
}
struct Discard {};
void discard() { throw Discard(); }

static double mono() { struct timespec t; syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void limits(const Config &cfg) {
    struct itimerval it = {};
    it.it_value.tv_sec = cfg.cpu_s;
    setitimer(ITIMER_PROF, &it, 0);
    it.it_value.tv_sec = cfg.wall_s;
    setitimer(ITIMER_REAL, &it, 0);
}
static void one(const Config &cfg, Gen &g) {
    limits(cfg);
    me->nch = 0; nt_done = false; me->badfmt[0] = 0;
    curgen = &g;
    try { cfg.prop(g); } catch (Discard &) { if (counting) __atomic_fetch_add(&S->discards, 1, __ATOMIC_RELAXED); }
    if (me->badfmt[0]) fail("format", "%s", me->badfmt);
    if (counting) __atomic_fetch_add(&S->evals, 1, __ATOMIC_RELAXED);
}
static void child_setup(int stderr_fd) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL);
    setpgid(0, 0);
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0); dup2(dn, 1); dup2(stderr_fd >= 0 ? stderr_fd : dn, 2);
    if (dn > 2) close(dn);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 2ull << 30; setrlimit(RLIMIT_FSIZE, &rl);
}
static uint64_t case_seed(uint64_t seed, uint64_t i) {
    uint64_t z = seed * 0xD1342543DE82EF95ull + i * 0x9E3779B97F4A7C15ull + 0x1234567;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void classify(Slot *s, int st) {
    if (s->badfmt[0]) { s->failed = 1; strcpy(s->sig, "format"); snprintf(s->msg, sizeof s->msg, "%s", s->badfmt); }
    if (s->failed) return;
    s->failed = 1;
    if (WIFSIGNALED(st)) {
        int g = WTERMSIG(st);
        if (g == SIGPROF || g == SIGALRM || g == SIGXCPU) { strcpy(s->sig, "hang"); snprintf(s->msg, sizeof s->msg, "the case did not finish (%s)", g == SIGPROF ? "cpu limit" : "wall limit"); }
        else { snprintf(s->sig, sizeof s->sig, "crash:signal-%d", g); snprintf(s->msg, sizeof s->msg, "the code under test died by signal %d (%s)", g, strsignal(g)); }
    } else if (WEXITSTATUS(st) == 99) { strcpy(s->sig, "crash:sanitizer"); strcpy(s->msg, "memory error reported by the sanitizer"); }
    else { snprintf(s->sig, sizeof s->sig, "exit:%d", WEXITSTATUS(st)); snprintf(s->msg, sizeof s->msg, "the code under test called exit(%d)", WEXITSTATUS(st)); }
}
struct Result { bool failed = false; std::string sig, msg, notes; std::vector<uint64_t> ch; };
// run one case from choices in a fresh child
static Result run_choices(const Config &cfg, const std::vector<uint64_t> &ch, bool verb, bool rnd = false, uint64_t seed = 0, const char *errfile = nullptr) {
    Slot *s = &S->slots[MAXSLOT - 1];
    s->done = s->failed = 0; s->badfmt[0] = 0; s->nch = 0; s->nnotes = 0; s->notes[0] = 0; s->msg[0] = s->sig[0] = 0;
    int efd = errfile ? open(errfile, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600) : -1;
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        me = s; counting = false; verbose = verb;
        child_setup(efd);
        Gen g; g.prefix = ch; g.random = rnd; g.state = seed;
        one(cfg, g);
        me->done = 1;
        _exit(0);
    }
    if (efd >= 0) close(efd);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    kill(-p, SIGKILL);
    Result r;
    if (!s->done || s->failed) classify(s, st);
    r.failed = s->failed;
    r.sig = s->sig; r.msg = s->msg; r.notes = s->notes;
    r.ch.assign(s->ch, s->ch + std::min<uint64_t>(s->nch, MAXCH));
    if (errfile && r.failed && (r.sig.rfind("crash", 0) == 0 || r.sig.rfind("exit", 0) == 0)) {
        FILE *f = fopen(errfile, "r");
        if (f) {
            char l[2048]; std::string tail; int n = 0;
            while (fgets(l, sizeof l, f)) { if (strstr(l, "SUMMARY:") || strstr(l, "ERROR: ") || strstr(l, "runtime error")) { r.msg += "; "; r.msg += l; } if (n++ < 60) tail += l; }
            fclose(f);
            r.notes += "--- stderr ---\n" + tail;
        }
    }
    return r;
}
static bool shorter(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}
static Result shrink(const Config &cfg, Result best, double budget) {
    double t0 = mono();
    int runs = 0;
    auto tryit = [&](std::vector<uint64_t> c) -> bool {
        if (mono() - t0 > budget || runs > 6000) return false;
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (!shorter(c, best.ch)) return false;
        runs++;
        Result r = run_choices(cfg, c, false);
        while (!r.ch.empty() && r.ch.back() == 0) r.ch.pop_back();
        if (r.failed && r.sig == best.sig && shorter(r.ch, best.ch)) { best = r; return true; }
        return false;
    };
    bool progress = true;
    while (progress && mono() - t0 < budget && runs < 6000) {
        progress = false;
        for (size_t k = 64; k >= 1; k /= 2)
            for (long i = (long)best.ch.size() - 1; i >= 0; ) {
                if ((size_t)i >= best.ch.size()) { i = (long)best.ch.size() - 1; if (i < 0) break; }
                std::vector<uint64_t> c = best.ch;
                size_t e = std::min(c.size(), (size_t)i + k);
                c.erase(c.begin() + i, c.begin() + e);
                if (tryit(c)) progress = true;
                i -= (long)std::max<size_t>(1, k / 2);
                if (mono() - t0 > budget) break;
            }
        for (size_t k = 16; k >= 1; k /= 2)
            for (size_t i = 0; i + k <= best.ch.size(); i += k) {
                std::vector<uint64_t> c = best.ch;
                bool nz = false;
                for (size_t j = i; j < i + k; j++) { nz |= c[j] != 0; c[j] = 0; }
                if (nz && tryit(c)) progress = true;
            }
        for (size_t i = 0; i < best.ch.size(); i++) {
            uint64_t lo = 0;
            while (i < best.ch.size() && best.ch[i] > lo) {
                std::vector<uint64_t> c = best.ch;
                uint64_t mid = lo + (best.ch[i] - lo) / 2;
                c[i] = mid;
                if (tryit(c)) progress = true; else lo = mid + 1;
                if (mono() - t0 > budget) break;
            }
        }
    }
    return best;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}
static void rmtree(const std::string &d) {
    if (d.compare(0, rundir.size(), rundir) != 0 || rundir.size() < 6) return;
    pid_t p = fork();
    if (p == 0) { execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *)0); _exit(1); }
    int st; waitpid(p, &st, 0);
}

int main(int argc, char **argv, const Config &cfg0) {
    Config cfg = cfg0;
    /* what the caller's shell left behind (ignored signals, descriptors, umask, niceness) is not the subject */
    for (int i = 1; i < 32; i++) { struct sigaction sa; if (sigaction(i, nullptr, &sa) == 0 && sa.sa_handler == SIG_IGN) signal(i, SIG_DFL); }
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr);
    for (int i = 3; i < 1024; i++) close(i);
    umask(022);
    setpriority(PRIO_PROCESS, 0, 0);
    uint64_t seed = 1, cases = 0;
    int workers = 8;
    double maxs = 240;
    std::string out, replay, known, base = "/tmp";
    bool one_case = false; uint64_t only = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--max-seconds") maxs = atof(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--known") known = val();
        else if (a == "--scratch") base = val();
        else if (a == "--only") onlysig = val();
        else if (a == "--thorough") thorough = true;
        else if (a == "--case") { one_case = true; only = strtoull(val().c_str(), 0, 10); }
    }
    find_consts();
    if (!cases) cases = thorough ? cfg.thorough : cfg.quick;
    if (workers > MAXSLOT - 2) workers = MAXSLOT - 2;
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    rundir = base + strf("/pbt.%d.XXXXXX", (int)getpid());
    {
        std::vector<char> t(rundir.begin(), rundir.end()); t.push_back(0);
        if (!mkdtemp(t.data())) { perror("mkdtemp"); return 3; }
        rundir = t.data();
        chmod(rundir.c_str(), 0755);
    }
    auto slotdir = [&](int k) { return rundir + strf("/w%d", k); };
    for (int k = 0; k < MAXSLOT; k++) { mkdir(slotdir(k).c_str(), 0755); chmod(slotdir(k).c_str(), 0755); }
    scratch_dir = slotdir(MAXSLOT - 1);
    me = &S->slots[MAXSLOT - 1];
    if (cfg.setup) cfg.setup();
    auto fresh = [&](int k) { rmtree(slotdir(k)); mkdir(slotdir(k).c_str(), 0755); };
    std::string errf = rundir + "/stderr";

    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) { perror(replay.c_str()); rmtree(rundir); return 3; }
        std::vector<uint64_t> ch; char l[1 << 16]; bool in = false;
        while (fscanf(f, "%65535s", l) == 1) {
            if (!strcmp(l, "choices:")) in = true;
            else if (!strcmp(l, "end-choices")) in = false;
            else if (in) ch.push_back(strtoull(l, 0, 10));
        }
        fclose(f);
        Result r = run_choices(cfg, ch, true, false, 0, errf.c_str());
        printf("%s", r.notes.c_str());
        if (r.failed) printf("FAIL sig=%s\n%s\n", r.sig.c_str(), r.msg.c_str()); else printf("PASS\n");
        rmtree(rundir);
        return r.failed ? 1 : 0;
    }
    if (one_case) {
        Result r = run_choices(cfg, {}, true, true, case_seed(seed, only), errf.c_str());
        printf("%s", r.notes.c_str());
        if (r.failed) printf("FAIL sig=%s\n%s\n", r.sig.c_str(), r.msg.c_str()); else printf("PASS\n");
        rmtree(rundir);
        return r.failed ? 1 : 0;
    }
    std::vector<std::string> knownsigs;
    if (!known.empty()) {
        FILE *f = fopen(known.c_str(), "r"); char l[512];
        if (f) { while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (l[0]) knownsigs.push_back(l); } fclose(f); }
    }
    std::map<std::string, uint64_t> known_hits;
    double t0 = mono();
    bool capped = false;
    uint64_t nexti = 0, minfail = ~0ull;
    int unreproduced = 0;
    struct W { pid_t pid = 0; uint64_t from = 0, to = 0; };
    std::vector<W> ws(workers);
    Result failure; uint64_t fail_index = 0; bool have = false;
    std::vector<std::pair<uint64_t, std::string>> cand; // failing indices
    std::vector<std::pair<uint64_t, uint64_t>> rest;    // ranges to finish after a known failure
    auto start = [&](int k, uint64_t from, uint64_t to) {
        Slot *s = &S->slots[k];
        s->done = s->failed = 0; s->badfmt[0] = 0; s->nch = 0; s->nnotes = 0; s->msg[0] = s->sig[0] = 0; s->cur = from;
        fflush(0);
        pid_t p = fork();
        if (p == 0) {
            me = s; verbose = false;
            child_setup(-1);
            scratch_dir = slotdir(k);
            for (uint64_t i = from; i < to; i++) {
                s->cur = i; s->nnotes = 0;
                Gen g; g.state = case_seed(seed, i);
                one(cfg, g);
            }
            s->done = 1;
            _exit(0);
        }
        ws[k].pid = p; ws[k].from = from; ws[k].to = to;
    };
    int running = 0;
    for (;;) {
        for (int k = 0; k < workers; k++) {
            if (ws[k].pid) continue;
            if (!rest.empty()) { auto r = rest.back(); rest.pop_back(); if (r.first < minfail) { start(k, r.first, r.second); running++; } continue; }
            if (nexti >= cases || nexti >= minfail) continue;
            if (mono() - t0 > maxs) { capped = true; continue; }
            uint64_t to = std::min<uint64_t>(cases, nexti + cfg.batch);
            start(k, nexti, to); nexti = to; running++;
        }
        if (!running) { if (rest.empty()) break; else continue; }
        int st; pid_t p;
        do p = waitpid(-1, &st, 0); while (p < 0 && errno == EINTR);
        if (p < 0) break;
        for (int k = 0; k < workers; k++)
            if (ws[k].pid == p) {
                kill(-p, SIGKILL);
                ws[k].pid = 0; running--;
                Slot *s = &S->slots[k];
                if (s->done && !s->failed) break;
                classify(s, st);
                S->evals++;
                bool isk = !onlysig.empty() && onlysig != s->sig;      // another property's
                if (isk) label("decided elsewhere");
                for (auto &q : knownsigs) if (q == s->sig) { isk = true; known_hits[q]++; }
                if (!isk) {
                    cand.push_back({s->cur, s->sig});
                    if (s->cur < minfail) minfail = s->cur;
                    fresh(k);
                } else {
                    fresh(k);
                    if (s->cur + 1 < ws[k].to) rest.push_back({s->cur + 1, ws[k].to});
                }
                break;
            }
        // confirm candidates once nothing smaller can turn up
        if (!running && !cand.empty() && rest.empty()) {
            std::sort(cand.begin(), cand.end());
            for (auto &c : cand) {
                fresh(MAXSLOT - 1);
                Result r = run_choices(cfg, {}, false, true, case_seed(seed, c.first), errf.c_str());
                if (r.failed) {
                    bool isk = !onlysig.empty() && onlysig != r.sig;
                    for (auto &q : knownsigs) if (q == r.sig) isk = true;
                    if (!isk) { failure = r; fail_index = c.first; have = true; break; }
                } else { unreproduced++; fprintf(stderr, "not reproduced: case %llu %s\n", (unsigned long long)c.first, c.second.c_str()); }
            }
            cand.clear();
            if (have) break;
            if (unreproduced > 20) break;
            minfail = ~0ull;       // not reproducible: carry on
        }
    }
    bool confirmed = false;
    if (have) {
        failure = shrink(cfg, failure, 45);
        int ok = 0;
        Result last;
        for (int i = 0; i < 3; i++) {
            fresh(MAXSLOT - 1);
            Result r = run_choices(cfg, failure.ch, true, false, 0, errf.c_str());
            if (r.failed) { ok++; last = r; }
        }
        confirmed = ok == 3;
        if (confirmed) failure = last;
    }
    // samples
    std::string samples = "[";
    {
        uint64_t n = std::min<uint64_t>(S->nontriv, 64);
        std::vector<uint64_t> idx;
        for (uint64_t i = 0; i < n; i++) idx.push_back(S->nt_index[i]);
        std::sort(idx.begin(), idx.end());
        size_t want = 3, got = 0;
        for (size_t i = 0; i < idx.size() && got < want; i += std::max<size_t>(1, idx.size() / want)) {
            fresh(MAXSLOT - 1);
            Result r = run_choices(cfg, {}, true, true, case_seed(seed, idx[i]));
            std::string t = r.notes.substr(0, 1500);
            samples += (got ? "," : "") + std::string("{\"case\":") + strf("%llu", (unsigned long long)idx[i]) + ",\"text\":" + jstr(t) + "}";
            got++;
        }
    }
    samples += "]";
    std::string labels = "{";
    bool first = true;
    for (int i = 0; i < 511 && S->labels[i].name[0]; i++) {
        labels += (first ? "" : ",") + jstr(S->labels[i].name) + ":" + strf("%llu", (unsigned long long)S->labels[i].n);
        first = false;
    }
    labels += "}";
    std::string js = strf("{\"name\":\"%s\",\"seed\":%llu,\"cases\":%llu,\"evaluations\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"capped\":%s,\"unreproduced\":%d,\"wall_s\":%.2f",
                          cfg.name, (unsigned long long)seed, (unsigned long long)cases, (unsigned long long)S->evals, (unsigned long long)S->discards,
                          (unsigned long long)S->nontriv, (unsigned long long)S->distinct, capped ? "true" : "false", unreproduced, mono() - t0);
    js += ",\"labels\":" + labels + ",\"samples\":" + samples + ",\"known_hits\":{";
    first = true;
    for (auto &k : known_hits) { js += (first ? "" : ",") + jstr(k.first) + ":" + strf("%llu", (unsigned long long)k.second); first = false; }
    js += "}";
    if (have) {
        js += strf(",\"failure\":{\"confirmed\":%s,\"index\":%llu,", confirmed ? "true" : "false", (unsigned long long)fail_index);
        js += "\"sig\":" + jstr(failure.sig) + ",\"msg\":" + jstr(failure.msg) + ",\"notes\":" + jstr(failure.notes) + ",\"choices\":[";
        for (size_t i = 0; i < failure.ch.size(); i++) js += (i ? "," : "") + strf("%llu", (unsigned long long)failure.ch[i]);
        js += "]}";
    }
    js += "}\n";
    rmtree(rundir);
    if (out.empty()) fputs(js.c_str(), stdout);
    else { FILE *f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 3; } fputs(js.c_str(), f); fclose(f); }
    return have && confirmed ? 1 : 0;
}
} // namespace pbt
