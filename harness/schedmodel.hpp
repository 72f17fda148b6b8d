// Calendar arithmetic and matching, independent of /repo's code.
#pragma once
#include "pbt.hpp"
#include <set>
#include <map>
#include <ctime>
using std::string; using std::vector; using std::set;
using pbt::Gen; using pbt::strf;

static inline int64_t days_from_civil(int y, int m, int d) {   // m 1..12
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
struct Civ { int y, mo, d, h, mi, s, wd; };
static inline Civ civil(int64_t t) {  // local seconds
    int64_t z = t / 86400; int64_t r = t % 86400; if (r < 0) { r += 86400; z--; }
    Civ c; c.wd = (int)(((z + 4) % 7 + 7) % 7);
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int y = (int)yoe + (int)era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    c.d = doy - (153 * mp + 2) / 5 + 1; c.mo = mp < 10 ? mp + 3 : mp - 9; c.y = y + (c.mo <= 2);
    c.h = (int)(r / 3600); c.mi = (int)(r / 60 % 60); c.s = (int)(r % 60);
    return c;
}
struct Fields {
    set<int> mins, hrs, days, mons, dow;   // days 1-31, mons 1-12, dow 0-6
    bool dayor = false;
    bool day(const Civ &c) const { return mons.count(c.mo) && (dayor ? (days.count(c.d) || dow.count(c.wd)) : (days.count(c.d) && dow.count(c.wd))); }
    bool match(const Civ &c) const { return day(c) && hrs.count(c.h) && mins.count(c.mi); }
    string str() const {
        string o;
        const set<int> *f[] = {&mins, &hrs, &days, &mons, &dow}; static const int LO[] = {0, 0, 1, 1, 0}, HI[] = {59, 23, 31, 12, 6};
        for (int i = 0; i < 5; i++) {
            if ((int)f[i]->size() == HI[i] - LO[i] + 1) o += "* ";
            else { bool first = true; for (int x : *f[i]) { o += strf("%s%d", first ? "" : ",", x); first = false; } o += f[i]->empty() ? "- " : " "; }
        }
        return o + (dayor ? "(dayor)" : "");
    }
};
// first local minute >= from (a multiple of 60) which matches, -1 if none before limit
static inline int64_t first_match(const Fields &f, int64_t from, int64_t limit) {
    int64_t t = from;
    while (t < limit) {
        Civ c = civil(t);
        if (!f.day(c)) { t += 86400 - (c.h * 3600 + c.mi * 60); continue; }
        if (!f.hrs.count(c.h)) { t += 3600 - c.mi * 60; continue; }
        if (!f.mins.count(c.mi)) { t += 60; continue; }
        return t;
    }
    return -1;
}
static inline void fill(set<int> &s, int lo, int hi) { for (int i = lo; i <= hi; i++) s.insert(i); }
// a random subset of lo..hi: everything, one value, a few, a range, nearly everything
static inline set<int> gen_set(Gen &g, int lo, int hi, int star = 3) {
    set<int> s;
    switch (g.weighted({star, 4, 3, 3, 1})) {
    case 0: fill(s, lo, hi); break;
    case 1: s.insert((int)g.skew(lo, hi)); break;
    case 2: do s.insert((int)g.range(lo, hi)); while (g.more(3)); break;
    case 3: { int a = (int)g.range(lo, hi), b = (int)g.range(lo, hi); if (a > b) std::swap(a, b); int st = g.chance(1, 3) ? (int)g.range(1, 7) : 1; for (int i = a; i <= b; i += st) s.insert(i); break; }
    default: fill(s, lo, hi); do if (s.size() > 1) s.erase((int)g.range(lo, hi)); while (g.more(3)); if (s.empty()) s.insert(lo); break;
    }
    return s;
}
static inline Fields gen_fields(Gen &g) {
    Fields f;
    f.mins = gen_set(g, 0, 59, 2); f.hrs = gen_set(g, 0, 23); f.days = gen_set(g, 1, 31, 4); f.mons = gen_set(g, 1, 12, 4); f.dow = gen_set(g, 0, 6, 4);
    f.dayor = g.chance(1, 4);
    return f;
}
