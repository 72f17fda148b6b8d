// Counters of a libFuzzer target, written to $FUZZ_STATS at exit.
#pragma once
#include <string>
#include <unordered_set>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
extern "C" bool pbt_format(const char *) { return true; }
namespace pbt { // the few helpers of the engine which the shared headers use
inline std::string strf_v(const char *fmt, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, fmt, ap); return b; }
std::string strf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = strf_v(fmt, ap); va_end(ap); return s; }
std::string quote(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { char b[8]; if (c == '\n') o += "\\n"; else if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }
uint64_t Gen::raw(uint64_t) { return 0; }
}
static inline uint64_t pbt_hash64(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static uint64_t fz_n, fz_t;
static std::unordered_set<uint64_t> fz_set;
static std::vector<std::string> fz_samples;
static void fz_write() {
    const char *p = getenv("FUZZ_STATS");
    FILE *f = p ? fopen(p, "w") : nullptr;
    if (!f) return;
    fprintf(f, "{\"nontrivial\": %llu, \"distinct\": %zu, \"samples\": [", (unsigned long long)fz_n, fz_set.size());
    for (size_t i = 0; i < fz_samples.size(); i++) {
        fprintf(f, "%s\"", i ? ", " : "");
        for (unsigned char c : fz_samples[i]) if (c < 32 || c > 126 || c == '"' || c == '\\') fprintf(f, "\\u%04x", c); else fputc(c, f);
        fprintf(f, "\"");
    }
    fprintf(f, "], \"labels\": {\"non-trivial\": %llu, \"trivial\": %llu}}", (unsigned long long)fz_n, (unsigned long long)fz_t);
    fclose(f);
}
static inline void fz_init() { static bool d; if (!d) { d = true; atexit(fz_write); } }
static inline void fuzz_nontrivial(const std::string &s) {
    fz_init(); fz_n++;
    if (fz_set.insert(pbt_hash64(s)).second && fz_samples.size() < 5 && fz_set.size() % 97 == 1) fz_samples.push_back(s.substr(0, 400));
}
static inline void fuzz_trivial() { fz_init(); fz_t++; }
