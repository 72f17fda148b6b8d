// The periods of a %-line as fcrontab(5) defines them.
#pragma once
struct Period {
    const char *kw; bool ly = false, mid = false; int unit = 0; // ly: 0 hour 1 day 2 week 3 month; else 0 mins 1 hours 2 days 3 mons 4 dow
    Fields f;
    void put(cl_t *l) const {
        set_td(l->cl_option); l->cl_runfreq = l->cl_remain = 1;
        if (ly) {
            set_freq_periodically(l->cl_option); if (mid) set_freq_mid(l->cl_option);
            if (unit == 0) set_freq_hrs(l->cl_option); else if (unit == 1) set_freq_days(l->cl_option); else if (unit == 2) set_freq_dow(l->cl_option); else set_freq_mons(l->cl_option);
        } else {
            if (unit > 0) set_freq_mins(l->cl_option);
            if (unit > 1) set_freq_hrs(l->cl_option);
            if (unit > 2) set_freq_days(l->cl_option);
            if (unit > 3) set_freq_mons(l->cl_option);
        }
    }
    // does the local minute belong to an interval (fields below the keyword are ignored)?
    bool in(const Civ &c) const {
        bool m = unit > 0 || f.mins.count(c.mi), h = unit > 1 || f.hrs.count(c.h), d = unit > 2, mo = unit > 3 || f.mons.count(c.mo);
        bool dd = d || f.days.count(c.d), w = f.dow.count(c.wd);
        return m && h && mo && (f.dayor ? (dd || w) : (dd && w));
    }
    int step() const { return unit == 0 ? 60 : unit == 1 ? 3600 : 86400; }
    bool has_gap() const { // "there must be some non-matching time and dates"
        bool day = f.dayor ? (unit <= 2 && f.days.size() < 31 && f.dow.size() < 7) : ((unit <= 2 && f.days.size() < 31) || f.dow.size() < 7);
        return day || (unit <= 3 && f.mons.size() < 12) || (unit <= 1 && f.hrs.size() < 24) || (unit == 0 && f.mins.size() < 60);
    }
    int64_t begin(int64_t t) const {
        Civ c = civil(t);
        if (ly) {
            if (unit == 0) { int64_t b = t - c.mi * 60 - c.s; return mid ? (c.mi >= 30 ? b + 1800 : b - 1800) : b; }
            int64_t d0 = t - c.h * 3600 - c.mi * 60 - c.s;
            if (unit == 1) return mid ? (c.h >= 12 ? d0 + 43200 : d0 - 43200) : d0;
            if (unit == 2) { int first = mid ? 4 : 1; return d0 - (int64_t)((c.wd - first + 7) % 7) * 86400; }
            if (!mid) return days_from_civil(c.y, c.mo, 1) * 86400;
            if (c.d >= 15) return days_from_civil(c.y, c.mo, 15) * 86400;
            return days_from_civil(c.mo == 1 ? c.y - 1 : c.y, c.mo == 1 ? 12 : c.mo - 1, 15) * 86400;
        }
        int64_t s = step(), b = t - ((t % s) + s) % s;
        int64_t low = b - (int64_t)4000 * 86400;
        while (b > low && in(civil(b - s))) b -= s;
        return b;
    }
    int64_t end(int64_t t) const {   // exclusive
        if (ly) {
            int64_t b = begin(t);
            if (unit == 0) return b + 3600;
            if (unit == 1) return b + 86400;
            if (unit == 2) return b + 7 * 86400;
            Civ c = civil(b);
            return days_from_civil(c.mo == 12 ? c.y + 1 : c.y, c.mo == 12 ? 1 : c.mo + 1, c.d) * 86400;
        }
        int64_t s = step(), e = t - ((t % s) + s) % s;
        int64_t lim = e + (int64_t)4000 * 86400;
        while (e < lim && in(civil(e))) e += s;
        return e;
    }
    int64_t span() const {
        if (ly) { static const int64_t S[] = {3600 * 60, 86400 * 45, 86400 * 7 * 40, 86400LL * 31 * 30}; return S[unit]; }
        static const int64_t S[] = {86400 * 3, 86400 * 20, 86400 * 200, 86400LL * 365 * 4, 86400 * 120}; return S[unit];
    }
};
