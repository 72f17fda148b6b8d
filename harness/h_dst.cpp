// C05: schedules across daylight saving changes, and lines of several zones side by side.
#include "daemonglue.hpp"
#include "schedglue.hpp"
extern "C" {
#include "lavg_list.h"
extern lavg_list_t *lavg_list;
}
static Gen *G;
extern "C" int w_rand(void) { return (int)G->raw((uint64_t)RAND_MAX + 1); }

// name, POSIX rule (self-contained: no zoneinfo files needed)
static const vector<const char *> ZONES = {
    "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "GMT0BST,M3.5.0/1,M10.5.0", "NZST-12NZDT,M9.5.0,M4.1.0/3",
    "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "NST3:30NDT,M3.2.0,M11.1.0", "<-04>4<-03>,M9.1.6/24,M4.1.6/24", "<-01>1<+00>,M3.5.0/0,M10.5.0/1",
    "CST5CDT,M3.2.0/0,M11.1.0/1", "IST-1GMT0,M10.5.0,M3.5.0/1", "IST-2IDT,M3.4.4/26,M10.5.0", "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "UTC0", "IST-5:30", "EST5"};

static void use(const char *z) { if (z) setenv("TZ", z, 1); else unsetenv("TZ"); tzset(); }
static int offset_at(int64_t t) { time_t x = t; struct tm tm; localtime_r(&x, &tm); return (int)tm.tm_gmtoff; }

struct Change { int64_t at; int before, after; };   // instant of the change, offsets
static vector<Change> changes(int64_t from, int64_t to) {
    vector<Change> v; int o = offset_at(from);
    for (int64_t t = from; t < to; t += 1800) { int n = offset_at(t + 1800); if (n != o) { v.push_back({t + 1800, o, n}); o = n; } }
    for (auto &c : v) { int64_t lo = c.at - 1800, hi = c.at; while (hi - lo > 1) { int64_t m = (lo + hi) / 2; if (offset_at(m) == c.before) lo = m; else hi = m; } c.at = hi; }
    return v;
}
static bool gap_match(const Fields &f, const Change &c) { for (int64_t l = c.at + c.before; l < c.at + c.after; l += 60) if (f.match(civil(l))) return true; return false; }
struct Line {
    Fields f; Period P; bool period = false, random = false, lavg = false; const char *tz; const char *zone; cl_t *l; vector<int64_t> runs;
};
static string lab(int64_t local) { Civ c = civil(local); return strf("%04d-%02d-%02d %02d:%02d", c.y, c.mo, c.d, c.h, c.mi); }
static string inst(int64_t t) { return lab(t + offset_at(t)) + strf(" (UTC%+.1f)", offset_at(t) / 3600.0); }

static Fields near_fields(Gen &g, const vector<int> &hours) {
    Fields f;
    fill(f.days, 1, 31); fill(f.mons, 1, 12); fill(f.dow, 0, 6);
    f.mins = gen_set(g, 0, 59, 1);
    if (g.chance(3, 4)) { do f.hrs.insert(hours[g.raw(hours.size())]); while (g.more(2)); }
    else f.hrs = gen_set(g, 0, 23);
    if (g.chance(1, 5)) f.days = gen_set(g, 1, 31);
    if (g.chance(1, 5)) f.dow = gen_set(g, 0, 6);
    if (g.chance(1, 6)) f.dayor = true;
    return f;
}
static void check(const Line &L, int64_t start, int64_t end, const char *oz) {
    use(L.zone);
    auto ch = changes(start - 86400, end);
    auto offs = [&](int64_t t) { int o = 0; bool any = false; for (auto &c : ch) if (t >= c.at) { o = c.after; any = true; } if (!any) o = ch.empty() ? offset_at(t) : ch[0].before; return o; };
    std::set<int64_t> runset;
    string s;
    for (int64_t r : L.runs) if (s.size() < 900) s += inst(r) + ", ";
    pbt::note("  %s%s %s in %s: runs %s", L.period ? "%" : "&", L.period ? L.P.kw : "", L.f.str().c_str(), L.zone, s.c_str());
    int extra = 0;
    std::map<int64_t, int> shifted;
    for (int64_t r : L.runs) {
        if (!runset.insert(r).second) pbt::fail("same-instant", "two runs at %s", inst(r).c_str());
        int64_t label = r + offs(r);
        if (L.f.match(civil(label))) continue;
        // the first non-matching kind allowed: a label of the skipped interval, shifted by its length
        bool ok = false;
        for (auto &c : ch) if (c.after > c.before && r >= c.at && r < c.at + (c.after - c.before) && (L.f.match(civil(r + c.before)) || (L.random && gap_match(L.f, c)))) { ok = true; if (++shifted[c.at] > 1) pbt::fail("gap-repeated", "the job of the skipped interval was run more than once: again at %s", inst(r).c_str()); }
        // the end of a random interval inside a repeated hour is ambiguous
        if (L.random) for (auto &c : ch) if (c.after < c.before && r >= c.at - (c.before - c.after) && r < c.at + (c.before - c.after)) ok = true;
        if (!ok) pbt::fail("not-matching", "run at %s, which does not match", inst(r).c_str());
        extra++;
    }
    // the real minutes after the start
    std::map<int64_t, vector<int64_t>> labels;
    int64_t first = start - ((start % 60) + 60) % 60;
    for (int64_t t = first - 7200; t < end; t += 60) { int64_t l = t + offs(t); if (L.f.match(civil(l))) labels[l].push_back(t); }
    if (!L.period) {
        for (auto &kv : labels) {
            auto &v = kv.second;
            int n = 0; for (int64_t t : v) n += runset.count(t);
            bool future = true; for (int64_t t : v) if (t <= start) future = false;
            // labels whose second instance is beyond the window are not decided
            bool amb = v.size() > 1;
            for (auto &c : ch) if (c.after < c.before && v.size() == 1 && ((v[0] < c.at && v[0] + (c.before - c.after) >= c.at) || (v[0] >= c.at && v[0] < c.at + c.before - c.after))) amb = true, future = false;
            if (n > 1) pbt::fail("repeated-twice", "%s exists twice and the job was run in both", lab(kv.first).c_str());
            if (!future) continue;
            if (n == 0) {
                bool excuse = false;
                // a job of a short gap, shifted past other times of the same hour
                for (auto &c : ch) if (c.after > c.before && v[0] >= c.at && v[0] < c.at + (c.after - c.before) && start < c.at)
                    for (int64_t r : L.runs) if (r >= v[0] && r < c.at + (c.after - c.before) && L.f.match(civil(r + c.before))) excuse = true;
                if (!excuse) pbt::fail(amb ? "repeated-lost" : "lost", "no run at %s, which matches%s", lab(kv.first).c_str(), amb ? " (repeated hour)" : "");
            }
        }
        for (auto &c : ch) if (c.after > c.before && start < c.at - 60 && c.at + 2 * (c.after - c.before) < end) {
            bool any = false; int64_t g0 = c.at + c.before, g1 = c.at + c.after, m = 0;
            for (int64_t l = g0; l < g1; l += 60) if (L.f.match(civil(l))) { any = true; m = l; break; }
            if (!any) continue;
            bool ran = false;
            for (int64_t r : L.runs) if (r >= c.at && r < c.at + 2 * (c.after - c.before)) ran = true;
            if (!ran) pbt::fail("gap-lost", "the job of the skipped time %s was not run near it", lab(m).c_str());
            pbt::label("job in a skipped interval");
        }
        for (auto &c : ch) if (c.after < c.before) for (auto &kv : labels) if (kv.second.size() > 1) { pbt::label("job in a repeated interval"); break; }
    } else if (L.P.unit >= 1 && L.P.ly ? true : L.P.unit >= 2) {
        // a period longer than the change: exactly one run per period with an unambiguous match
        std::map<int64_t, int> per;
        if (!(L.P.ly && L.P.unit == 0)) for (int64_t r : L.runs) if (++per[L.P.begin(r + offs(r))] > 1) pbt::fail("period-twice", "second run %s in the period of %s", inst(r).c_str(), lab(L.P.begin(r + offs(r))).c_str());
    }
    use(oz);
}
static void prop(Gen &g) {
    G = &g; queue_base = NULL;
    int sysz = (int)g.raw(ZONES.size() + 1);           // the last: TZ not set at all
    const char *oz = sysz < (int)ZONES.size() ? ZONES[sysz] : NULL;
    const char *effective = oz ? oz : "UTC0";
    int nl = (int)g.range(1, 4);
    int focus_line = -1; const char *fz = effective;
    vector<Line> lines(nl);
    for (int i = 0; i < nl; i++) {
        Line &L = lines[i];
        L.tz = g.chance(1, 2) ? ZONES[g.raw(ZONES.size())] : NULL;
        L.zone = L.tz ? L.tz : effective;
        if (L.tz && focus_line < 0) { focus_line = i; fz = L.tz; }
    }
    if (g.chance(1, 3)) fz = effective;
    int y = (int)g.range(2008, 2036);
    use(fz);
    auto chs = changes(days_from_civil(y, 1, 5) * 86400, days_from_civil(y, 12, 28) * 86400);
    int64_t start;
    vector<int> hours = {0, 1, 2, 3, 4, 23};
    if (!chs.empty()) {
        auto &c = chs[g.raw(chs.size())];
        start = c.at + (g.chance(1, 3) ? g.range(-86400 * 2, 7200) : g.chance(1, 2) ? g.range(-7200, 7200) : g.range(-86400, 0));
        hours.clear(); int h = civil(c.at + c.before).h;
        for (int d = -1; d <= 2; d++) hours.push_back(((h + d) % 24 + 24) % 24);
    } else start = days_from_civil(y, (int)g.range(1, 12), (int)g.range(1, 28)) * 86400 + g.range(0, 86399);
    int64_t end = start + 86400 * 2 + g.range(0, 86400);
    end -= end % 60;
    use(oz); orig_tz_envvar = oz ? strdup(oz) : NULL;
    first_sleep = 20;
    cf_t *cf = new_file("root");
    int late = g.chance(1, 5) ? (int)g.range(1, 40) : 0;
    now = start;
    for (int i = 0; i < nl; i++) {
        Line &L = lines[i];
        L.f = near_fields(g, hours);
        L.l = new_line(cf, strf("x_%d", i).c_str());
        put_fields(L.l, L.f);
        set_td(L.l->cl_option); set_nolog(L.l->cl_option);
        if (g.chance(1, 4)) {
            L.period = true;
            static const char *KW[] = {"hourly", "midhourly", "daily", "middaily", "weekly", "midweekly", "days", "hours"};
            int k = (int)g.raw(8);
            L.P.kw = KW[k]; L.P.ly = k < 6; L.P.mid = L.P.ly && (k & 1); L.P.unit = k < 6 ? k / 2 : k == 6 ? 2 : 1;
            if (L.P.ly) { fill(L.f.hrs, 0, 23); fill(L.f.days, 1, 31); fill(L.f.dow, 0, 6); L.f.dayor = false; if (L.P.unit >= 1 && g.chance(1, 2)) L.f.hrs = near_fields(g, hours).hrs; }
            L.P.f = L.f;
            if (!L.P.ly && !L.P.has_gap()) L.f.dow = {0}, L.f.dayor = false, L.P.f = L.f;
            put_fields(L.l, L.f);
            L.P.put(L.l);
            if (g.chance(1, 3)) { set_random(L.l->cl_option); L.random = true; }
        }
        if (L.tz) L.l->cl_tz = strdup(L.tz);
        if (L.period && g.chance(1, 2)) {
            L.lavg = true; set_lavg(L.l->cl_option); set_strict(L.l->cl_option); L.l->cl_lavg[0] = 10;
            if (g.chance(1, 3)) L.l->cl_until = g.range(1, 20000);
        }
        set_next_exe(L.l, NO_GOTO, -1);
    }
    if (lavg_list) lavg_list_destroy(lavg_list);
    lavg_list = lavg_list_init();
    pbt::note("TZ of the daemon: %s, %d lines, start %ld (%s in %s), late %d", oz ? oz : "(unset)", nl, (long)start, (use(fz), inst(start)).c_str(), fz, late);
    use(oz);
    int guard = 0;
    while (queue_base && queue_base->j_line->cl_nextexe < end && guard++ < 6000) {
        cl_t *l = queue_base->j_line;
        int64_t due = l->cl_nextexe;
        if (guard > 1 && due < now) { if (due < now - late) pbt::fail("past", "%s scheduled %ld s before now", l->cl_shell, (long)(now - due)); }
        for (auto &L : lines) if (L.l == l) { if (!L.runs.empty() && due <= L.runs.back()) pbt::fail("backwards", "%s scheduled at or before its last run", l->cl_shell); L.runs.push_back(due); }
        now = due + late > now ? due + late : now;
        l->cl_remain = l->cl_runfreq;
        for (auto &L : lines) if (L.l == l && L.lavg) {
            l->cl_numexe = 0; add_lavg_job(l, -1); l->cl_numexe = 0;
            lavg_t *q = lavg_list_first(lavg_list);
            int64_t until = q ? q->l_until : -1; bool late_ok = is_run_if_late(l->cl_option);
            if (q) { lavg_list_remove_cur(lavg_list); lavg_list_end_iteration(lavg_list); }
            if (until < 0) pbt::fail("lavg-not-queued", "%s was not put into the load queue", l->cl_shell);
            const char *tz = getenv("TZ");
            if (oz ? (!tz || strcmp(tz, oz)) : tz != NULL) pbt::fail("zone-changed", "TZ is %s after queueing (was %s)", tz ? tz : "(unset)", oz ? oz : "(unset)");
            // strict: the last minute of the interval, in the line's zone (not across a change)
            use(L.zone);
            int64_t e = due - due % 60, o = offset_at(due), pe = L.P.end(due + o) - o;
            if (!L.random && offset_at(due - 7200) == o && offset_at(pe + 7200) == o && changes(due - 86400, pe + 86400).empty()) {
                while (e < pe && L.f.match(civil(e + o))) e += 60;
                e -= 60;
                int64_t want = e; bool wl = false;
                if (l->cl_until > 0 && now + l->cl_until < e) { want = now + l->cl_until; wl = true; }
                if (until != want || late_ok != wl) pbt::fail("strict-interval", "%s due %s, in the load queue until %s%s, expected %s%s", L.zone, inst(due).c_str(), inst(until).c_str(), late_ok ? " and then run" : "", inst(want).c_str(), wl ? " and then run" : "");
                pbt::label("strict interval checked");
            }
            use(oz);
        }
        set_next_exe(l, STD, -1);
        if (l->cl_nextexe <= now) pbt::fail("past", "%s scheduled %ld s in the past", l->cl_shell, (long)(now - l->cl_nextexe));
        const char *tz = getenv("TZ");
        if (oz ? (!tz || strcmp(tz, oz)) : tz != NULL) pbt::fail("zone-changed", "TZ is %s after scheduling (was %s)", tz ? tz : "(unset)", oz ? oz : "(unset)");
    }
    if (guard >= 6000) end = now - now % 60;
    for (auto &L : lines) check(L, start, end, oz);
    use(fz);
    if (!changes(start, end).empty()) pbt::nontrivial();
    pbt::label("%s", changes(start, end).empty() ? "no change in the window" : changes(start, end)[0].after > changes(start, end)[0].before ? "hour skipped" : "hour repeated");
}
int main(int argc, char **argv) {
    pbt::Config c;
    c.name = "dst"; c.prop = prop; c.batch = 50; c.quick = 50000; c.thorough = 1500000;
    c.setup = []{ foreground = 0; dosyslog = 0; };
    return pbt::main(argc, argv, c);
}
