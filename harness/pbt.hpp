// A small property-based testing engine: every random decision of a case is a
// recorded "choice"; a case is replayed and shrunk by editing its choice list.
// Every case runs in a forked child, so crashes, exit() and hangs are failures
// of that case only, and no state leaks from case to case.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

extern "C" bool pbt_format(const char *fmt);   // is it a constant of the program?

namespace pbt {

class Gen {
  public:
    uint64_t state = 0;
    std::vector<uint64_t> prefix;      // choices to replay
    bool random = true;                // false: after the prefix, zeros
    size_t pos = 0;
    uint64_t next() {
        uint64_t z = (state += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    uint64_t raw(uint64_t n);
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)raw((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; false is the simplest value
    bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; }
    bool more(unsigned avg) { return raw(avg + 1) != 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[raw(v.size())]; }
    int weighted(std::initializer_list<int> w) {
        int tot = 0;
        for (int x : w) tot += x;
        int r = (int)raw(tot), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    // small numbers most of the time, sometimes large ones
    int64_t skew(int64_t lo, int64_t hi) {
        switch (raw(4)) {
        case 0: return lo;
        case 1: return range(lo, std::min<int64_t>(hi, lo + 5));
        case 2: return hi - (int64_t)raw((uint64_t)std::min<int64_t>(hi - lo, 5) + 1);
        default: return range(lo, hi);
        }
    }
};

struct Config {
    const char *name = "";
    uint64_t quick = 2000, thorough = 40000; // cases
    int batch = 1;                           // cases per child process
    int cpu_s = 20, wall_s = 60;             // limits of one case
    std::function<void(Gen &)> prop;
    std::function<void()> setup;             // once, in the parent
};

// inside a case ------------------------------------------------------------
void label(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool noting();
// this case is non-trivial (by the harness' rule); key makes it distinct
void nontrivial(uint64_t key);
void nontrivial();                        // key: the case's choices
// the property is broken; sig identifies the kind of failure
[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard();              // the case is not in the domain
uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }
const std::string &scratch();             // a private scratch directory of the run
bool thorough_tier();
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string &s);

int main(int argc, char **argv, const Config &cfg);
} // namespace pbt
