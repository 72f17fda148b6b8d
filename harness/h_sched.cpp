// C04: the next execution of a &-line is the first matching minute.
// C06: a %-line runs exactly once per period.
#include "daemonglue.hpp"
#include "schedglue.hpp"
static Gen *G;
extern "C" int w_rand(void) { return (int)G->raw((uint64_t)RAND_MAX + 1); }

static const vector<std::pair<const char *, int>> FIXED = {{"UTC", 0}, {"IST-5:30", 19800}, {"HST10", -36000}, {"NPT-5:45", 20700}, {"XYZ-14", 50400}, {"ABC12", -43200}};

static int64_t gen_now(Gen &g) {
    // any second between 1971 and 2120, often next to the end of an hour, a day, a month or a year, also of the centuries (2000 is a leap year, 2100 is none)
    int y = g.chance(1, 6) ? g.pick(vector<int>{1971, 1972, 1999, 2000, 2000, 2000, 2096, 2099, 2100, 2100, 2104}) : (int)g.range(1971, 2120), mo = (int)g.range(1, 12), d = (int)g.range(1, 28);
    int64_t t;
    switch (g.raw(6)) {
    case 0: t = days_from_civil(y, mo, d) * 86400 + g.range(0, 86399); break;
    case 1: t = days_from_civil(y, mo, d) * 86400 - g.range(0, 180); break;
    case 2: t = days_from_civil(y, mo, 1) * 86400 - g.range(0, 3 * 86400); break;
    case 3: t = days_from_civil(y, 1, 1) * 86400 - g.range(0, 86400); break;
    case 4: t = days_from_civil(y, mo, d) * 86400 + g.range(0, 23) * 3600 + 3540 + g.range(0, 61); break;
    default: t = days_from_civil(y, 2, 27) * 86400 + g.range(0, 3 * 86400); break;
    }
    return t;
}
#if WHAT == 4
static void prop(Gen &g) {
    G = &g; queue_base = NULL;
    Fields f = gen_fields(g);
    int sysz = (int)g.raw(FIXED.size());
    int linez = g.chance(1, 3) ? (int)g.raw(FIXED.size()) : -1;
    int tzdiff = g.chance(1, 4) ? (int)g.range(-24, 24) : 0;
    int jitter = g.chance(1, 4) ? (int)g.skew(1, 255) : 0;
    int off = linez >= 0 ? FIXED[linez].second : FIXED[sysz].second;
    int64_t local_now = gen_now(g);
    now = local_now - off + tzdiff * 3600;
    setenv("TZ", FIXED[sysz].first, 1); tzset();
    orig_tz_envvar = strdup(FIXED[sysz].first);
    first_sleep = g.chance(1, 2) ? 0 : 20;
    cf_t *cf = new_file("root", tzdiff);
    cl_t *l = new_line(cf, "x_job");
    put_fields(l, f, g.chance(1, 2));
    set_td(l->cl_option);
    l->cl_jitter = jitter;
    l->cl_runfreq = l->cl_remain = g.chance(1, 4) ? (unsigned short)g.range(2, 9) : 0;
    if (linez >= 0) l->cl_tz = strdup(FIXED[linez].first);
    int opt = (int)g.raw(4);
    static const char OPT[] = {STD, NO_GOTO, NO_GOTO_LOG, FROM_CUR_NEXTEXE};
    int64_t base = local_now;
    if (opt == 3) { base = local_now + g.skew(0, 86400 * 40); l->cl_nextexe = base - off + tzdiff * 3600; }
    // neighbours already in the queue
    vector<cl_t *> others;
    int no = (int)g.raw(5);
    int64_t from = base - ((base % 60) + 60) % 60 + 60;
    int64_t want = first_match(f, from, from + (int64_t)8 * 365 * 86400);
    for (int i = 0; i < no; i++) { cl_t *o = new_line(cf, "x_other"); o->cl_nextexe = (want < 0 ? from : want) - off + tzdiff * 3600 + g.range(-120, 120) ; others.push_back(o); insert_nextexe(o); }
    bool present = g.chance(1, 2);
    if (present) { time_t keep = l->cl_nextexe; if (opt != 3) l->cl_nextexe = now - g.range(0, 100); insert_nextexe(l); (void)keep; }
    pbt::note("%s  now %ld (local %04d-%02d-%02d %02d:%02d:%02d) zone %s line zone %s tzdiff %d jitter %d option %d others %d", f.str().c_str(), (long)now,
              civil(base).y, civil(base).mo, civil(base).d, civil(base).h, civil(base).mi, civil(base).s, FIXED[sysz].first, linez >= 0 ? FIXED[linez].first : "-", tzdiff, jitter, OPT[opt], no);
    set_next_exe(l, OPT[opt], -1);
    // the queue is sorted and holds every line once
    int seen = 0, n = 0; time_t prev = 0;
    for (job_t *j = queue_base; j; j = j->j_next) {
        n++;
        if (j->j_line == l) seen++;
        if (j->j_line->cl_nextexe < prev) pbt::fail("queue-order", "the job queue is not in time order");
        prev = j->j_line->cl_nextexe;
        if (n > 100) break;
    }
    if (seen != 1 || n != no + 1) pbt::fail("queue", "the line is %d times in a queue of %d (expected once in %d)", seen, n, no + 1);
    const char *tz = getenv("TZ");
    if (!tz || strcmp(tz, FIXED[sysz].first)) pbt::fail("zone-changed", "TZ is %s after scheduling", tz ? tz : "(unset)");
    if (l->cl_nextexe <= now) pbt::fail("past", "scheduled %ld s in the past", (long)(now - l->cl_nextexe));
    pbt::label(want < 0 ? "no match within 8 years" : want - from < 3600 ? "within the hour" : want - from < 86400 ? "within a day" : want - from < 32 * 86400 ? "within a month" : want - from < 366 * 86400 ? "within a year" : "later");
    if (want < 0) return;
    int64_t got = l->cl_nextexe + off - tzdiff * 3600;
    if (got < want || got > want + jitter || (jitter == 0 && got != want)) {
        Civ a = civil(want), b = civil(got);
        pbt::fail("not-first", "first matching minute %04d-%02d-%02d %02d:%02d, scheduled %04d-%02d-%02d %02d:%02d:%02d (jitter %d)", a.y, a.mo, a.d, a.h, a.mi, b.y, b.mo, b.d, b.h, b.mi, b.s, jitter);
    }
    if (want != from) pbt::nontrivial();
}
#elif WHAT == 6
static void prop(Gen &g) {
    G = &g; queue_base = NULL;
    int k = (int)g.raw(14);
    static const char *KW[] = {"hourly", "midhourly", "daily", "middaily", "weekly", "midweekly", "monthly", "midmonthly", "mins", "hours", "days", "mons", "dow", "mins"};
    Period P; P.kw = KW[k];
    P.ly = k < 8; P.mid = P.ly && (k & 1); P.unit = P.ly ? k / 2 : (k == 13 ? 0 : k - 8);
    Fields f;
    fill(f.mins, 0, 59); fill(f.hrs, 0, 23); fill(f.days, 1, 31); fill(f.mons, 1, 12); fill(f.dow, 0, 6);
    if (P.ly) {
        f.mins = gen_set(g, 0, 59, 2);
        if (P.unit >= 1) f.hrs = gen_set(g, 0, 23);
        if (P.unit == 3) f.days = gen_set(g, 1, 31);
    } else for (int tries = 0;; tries++) {
        f = gen_fields(g); P.f = f;
        if (P.has_gap()) break;
        if (tries > 5) { f.mons = {3}; f.mins = {5}; f.hrs = {5}; f.dow = {2}; f.days = {5}; f.dayor = P.unit == 4 ? false : f.dayor; P.f = f; if (P.has_gap()) break; pbt::discard(); }
    }
    P.f = f;
    int z = (int)g.raw(FIXED.size());
    int linez = g.chance(1, 4) ? (int)g.raw(FIXED.size()) : -1;
    int tzdiff = g.chance(1, 6) ? (int)g.range(-24, 24) : 0;
    int off = (linez >= 0 ? FIXED[linez].second : FIXED[z].second) - tzdiff * 3600;
    bool rnd = g.chance(1, 3);
    int late = g.chance(1, 4) ? (int)g.range(1, 50) : 0;
    setenv("TZ", FIXED[z].first, 1); tzset(); orig_tz_envvar = strdup(FIXED[z].first);
    first_sleep = g.chance(1, 2) ? 0 : 20;
    int64_t start = gen_now(g);
    if (!first_sleep && start % 60 >= 55) start -= 10;  // "run at once" may mean 5 s later
    cf_t *cf = new_file("root", tzdiff);
    cl_t *l = new_line(cf, "x_job");
    put_fields(l, f);
    P.put(l);
    if (rnd) set_random(l->cl_option);
    set_nolog(l->cl_option);
    if (linez >= 0) l->cl_tz = strdup(FIXED[linez].first);
    now = start - off;
    pbt::note("%%%s %s start local %04d-%02d-%02d %02d:%02d:%02d random %d late %d zone %s/%s tzdiff %d first_sleep %d", P.kw, f.str().c_str(), civil(start).y, civil(start).mo, civil(start).d, civil(start).h, civil(start).mi, civil(start).s, rnd, late,
              FIXED[z].first, linez >= 0 ? FIXED[linez].first : "-", tzdiff, (int)first_sleep);
    // how far to look: some tens of runs
    int64_t span = P.span();
    int64_t end = start + span; end -= end % 60;
    set_next_exe(l, NO_GOTO, -1);
    vector<int64_t> runs;
    int guard = 0;
    while (l->cl_nextexe + off < end && guard++ < 400) {
        if (l->cl_nextexe <= now && !(guard == 1 && l->cl_nextexe == now)) pbt::fail("past", "next execution %ld s in the past", (long)(now - l->cl_nextexe));
        runs.push_back(l->cl_nextexe + off);
        now = l->cl_nextexe + late;
        if (civil(now + off).mi != civil(l->cl_nextexe + off).mi) now = l->cl_nextexe;
        // as test_jobs() does
        l->cl_remain = l->cl_runfreq;
        set_next_exe(l, STD, -1);
    }
    if (guard >= 400) end = runs.back();
    string s; for (size_t i = 0; i < runs.size() && i < 12; i++) { Civ c = civil(runs[i]); s += strf("%04d-%02d-%02d %02d:%02d:%02d (wd %d), ", c.y, c.mo, c.d, c.h, c.mi, c.s, c.wd); }
    pbt::note("runs: %s", s.c_str());
    // 1. every run is at a matching minute
    for (int64_t r : runs) { Civ c = civil(r); if (!f.match(c)) pbt::fail("not-matching", "run at %04d-%02d-%02d %02d:%02d:%02d, which does not match", c.y, c.mo, c.d, c.h, c.mi, c.s); }
    // 2. periods: never two runs in one, none of the later ones which has a matching minute is without a run
    std::map<int64_t, int> count;
    for (int64_t r : runs) {
        int64_t b = P.begin(r);
        if (++count[b] > 1) { Civ c = civil(b); Civ d = civil(r); pbt::fail("twice", "second run (%04d-%02d-%02d %02d:%02d) in the period which begins %04d-%02d-%02d %02d:%02d", d.y, d.mo, d.d, d.h, d.mi, c.y, c.mo, c.d, c.h, c.mi); }
    }
    int64_t t = start - ((start % 60) + 60) % 60 + 60;  // a match in the minute of the start may have been used or not
    bool used_first = !runs.empty() && runs[0] < t;
    int periods = 0;
    while (t < end) {
        int64_t m = first_match(f, t, end);
        if (m < 0) break;
        int64_t b = P.begin(m), e = P.end(m);
        if (rnd ? e > end : false) break;
        if (used_first && b == P.begin(runs[0])) { t = e; continue; }
        if (!count.count(b)) { if (e <= end || !rnd) { Civ c = civil(b), d = civil(e); pbt::fail("lost", "no run in the period %04d-%02d-%02d %02d:%02d to %04d-%02d-%02d %02d:%02d", c.y, c.mo, c.d, c.h, c.mi, d.y, d.mo, d.d, d.h, d.mi); } }
        periods++;
        t = e;
    }
    pbt::label("%s%s", P.kw, rnd ? " random" : "");
    pbt::label("periods with a match: %s", periods == 0 ? "0" : periods < 5 ? "1-4" : "5+");
    if (periods >= 3) pbt::nontrivial();
}
#endif
int main(int argc, char **argv) {
    pbt::Config c;
    c.name = "sched"; c.prop = prop; c.batch = 50;
    c.quick = WHAT == 4 ? 1000000 : 400000; c.thorough = WHAT == 4 ? 40000000 : 10000000;
    c.setup = []{ foreground = 0; dosyslog = 0; };
    return pbt::main(argc, argv, c);
}
