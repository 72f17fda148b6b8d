// Model of fcrontab(5): generates fcrontab texts together with the jobs they describe.
#pragma once
#include "pbt.hpp"
#include <set>
#include <map>
#include <climits>
#include <pwd.h>
using std::string; using std::vector;
using pbt::Gen; using pbt::strf;

struct Opts {
    bool serial = false, serialonce = false, lavgonce = true, exesev = false, bootrun = false, rebootreset = false,
         runatreboot = false, runatresume = false, runonce = false, strict = true, noticenotrun = false, lavgor = false,
         mail = true, forcemail = false, erroronlymail = false, dayor = false, nolog = false, vol = false, sout = false, random = false;
    int lavg[3] = {0, 0, 0};
    long first = -1, until = 0;
    int runfreq = 0, nice = 0, jitter = 0;
    bool has_mailfrom = false, has_tz = false;
    string mailfrom, mailto, tz, runas;
};
enum Kind { TD, FREQ, PERIOD };
struct Job {
    Kind kind = TD;
    std::set<int> mins, hrs, days, mons, dow;
    long timefreq = 0;
    string shell, keyword, shortcut;
    Opts o;
    string text;          // the logical line
};
struct Model {
    string user, text;
    bool root = true;     // run by root
    vector<Job> jobs;
    vector<std::pair<string, string>> env;
    int tzdiff = 0;
    Opts def;
    vector<string> logical; // logical lines
    std::map<string, int> feat;
};

static inline Opts fresh_opts(const string &user) { Opts o; o.mailto = user; o.runas = user; return o; }

static const vector<string> MON = {"jan","feb","mar","apr","may","jun","jul","aug","sep","oct","nov","dec"};
static const vector<string> DOW = {"sun","mon","tue","wed","thu","fri","sat"};

static inline string rcase(Gen &g, string s) {
    switch (g.raw(3)) {
    case 1: for (auto &c : s) c = toupper(c); break;
    case 2: s[0] = toupper(s[0]); break;
    }
    return s;
}
// a field: text and values. lo..hi are the documented bounds (days 1-31, months 1-12, dow 0-7)
struct Field { string text; std::set<int> v; };
enum { F_MIN, F_HR, F_DAY, F_MON, F_DOW };
static inline string fnum(Gen &g, int f, int x) {
    if (f == F_MON && g.chance(1, 3)) return rcase(g, MON[x - 1]);
    if (f == F_DOW && x < 7 && g.chance(1, 3)) return rcase(g, DOW[x]);
    if (x < 10 && g.chance(1, 8)) return strf("0%d", x);
    return strf("%d", x);
}
static inline Field gen_field(Gen &g, int f, Model *m) {
    static const int LO[] = {0, 0, 1, 1, 0}, HI[] = {59, 23, 31, 12, 7};
    int lo = LO[f], hi = HI[f];
    Field r;
    if (g.chance(1, 3)) { for (int i = lo; i <= hi; i++) r.v.insert(i); r.text = "*"; return r; }
    int items = g.weighted({6, 2, 1, 1}) + 1;
    for (int k = 0; k < items; k++) {
        if (k) r.text += ",";
        std::set<int> s;
        int kind = g.weighted({4, 4, 1});
        if (kind == 0) {
            int x = (int)g.range(lo, hi);
            r.text += fnum(g, f, x);
            s.insert(x);
            if (m) m->feat["field-number"]++;
            r.v.insert(s.begin(), s.end());
            continue;
        }
        int a, b; bool star = false;
        int st = 1;
        if (kind == 2) { a = lo; b = hi; star = true; r.text += "*"; }
        else {
            a = (int)g.range(lo, hi); b = (int)g.range(lo, hi);
            if (a > b && g.chance(1, 2)) std::swap(a, b);
            r.text += fnum(g, f, a) + "-" + fnum(g, f, b);
        }
        bool wrap = a > b;
        // a step over a wrapping day or week range, or over "*" in the days field, has no documented phase
        bool step_ok = !(wrap && (f == F_DAY || f == F_DOW)) && !(star && (f == F_DAY));
        if (step_ok && g.chance(1, 3)) {
            st = (int)g.range(1, std::min(hi, 12));
            r.text += strf("/%d", st);
            if (m) m->feat["field-step"]++;
        }
        if (!wrap) for (int i = a; i <= b; i += st) s.insert(i);
        else {
            int span = (f == F_MIN) ? 60 : (f == F_HR) ? 24 : (f == F_MON) ? 12 : 0;
            if (m) m->feat["field-wrap"]++;
            if (span) for (int i = a; i <= b + span; i += st) s.insert((i - lo) % span + lo);
            else { for (int i = a; i <= hi; i++) s.insert(i); for (int i = lo; i <= b; i++) s.insert(i); }
        }
        if (f == F_DOW) { if (s.count(0)) s.insert(7); if (s.count(7)) s.insert(0); }
        // exclusions: only of this range, and not of values set by an earlier item
        while (g.more(1) && s.size() > 1) {
            int x = (int)g.range(lo, hi);
            if (f == F_DOW ? (r.v.count(x) || (x % 7 == 0 && (r.v.count(0) || r.v.count(7)))) : r.v.count(x)) continue;
            r.text += "~" + fnum(g, f, x);
            s.erase(x);
            if (f == F_DOW && x % 7 == 0) { s.erase(0); s.erase(7); }
            if (m) m->feat["field-exclusion"]++;
        }
        r.v.insert(s.begin(), s.end());
    }
    if (f == F_DOW) { if (r.v.count(0)) r.v.insert(7); if (r.v.count(7)) r.v.insert(0); }
    return r;
}
static inline string sp(Gen &g) { static const vector<string> S = {" ", "\t", "  ", " \t "}; return g.pick(S); }

// value*multiplier+...: text and seconds
static inline std::pair<string, long> gen_time(Gen &g, bool zero_ok) {
    for (;;) {
        string t; long s = 0;
        static const long MUL[] = {2419200, 604800, 86400, 3600, 1};
        static const char *NAME = "mwdhs";
        int parts = g.weighted({5, 3, 2});
        for (int i = 0; i < parts; i++) {
            int k = (int)g.raw(5);
            long v = g.skew(0, k == 4 ? 5000 : 60);
            t += strf("%ld%c", v, NAME[k]); s += v * MUL[k];
        }
        if (parts == 0 || g.chance(1, 2)) { long v = g.skew(0, 3000); t += strf("%s%ld", v < 10 && g.chance(1, 4) ? "0" : "", v); s += v * 60; }
        if (s > 0 || zero_ok) return {t, s};
        t = "1"; return {t, 60};
    }
}
static inline string gen_word(Gen &g, int avg) {
    static const string C = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./";
    string s;
    do s += C[g.raw(C.size())]; while (g.more(avg));
    return s;
}
static inline vector<string> &users() { static vector<string> u = {"root", "daemon", "nobody", "mail", "games"}; return u; }
static inline string gen_cmd(Gen &g, int maxlen = 60) {
    // the first word is never a user name followed by a blank (the generator begins it so)
    static const string C = "abcdefghijklmnopqrstuvwxyz0123456789 '\"$|&;<>()!%@#*?=~,\\`[]{}^:+-_/.\t";
    static const string P = "'\"$|&;<>()!%@#*?=~,\\`[]{}^:+/.";
    string s;
    int n = (int)g.skew(0, maxlen);
    switch (g.weighted({12, 4, 2, 1})) {
    case 0: s = "x_"; break;
    case 1: s = P[g.raw(P.size())]; s += 'y'; break;
    case 2: s = g.pick(users()); s += P[g.raw(P.size())]; s += 'z'; break;      // begins as a user name, which it is not
    default: return g.pick(users());                                          // is one, with no command after it: the command
    }
    for (int i = 0; i < n; i++) { if (!g.raw(80)) { s += g.chance(1, 2) ? "\xc3\xa9" : "\xff"; continue; } char c = C[g.raw(C.size())]; s += c; }
    while (!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\\')) s.pop_back();
    return s;
}
static inline string gen_addr(Gen &g) {
    string s = "u" + gen_word(g, 6);
    if (g.chance(1, 2)) s += "@h" + gen_word(g, 6);
    return s;
}
static inline vector<string> &zones() {
    static vector<string> z = {"Europe/Paris", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "UTC", "Pacific/Auckland", "America/St_Johns", ":Asia/Tokyo", "EST5EDT"};
    return z;
}
enum OptCtx { O_GLOBAL, O_TD, O_FREQ, O_PERIOD };
// one option: text, applied to o
static inline string gen_opt(Gen &g, Opts &o, Model &m, OptCtx cx) {
    struct B { const char *n1, *n2; };
    static const vector<B> bools = {{"serial", "s"}, {"serialonce", 0}, {"lavgonce", 0}, {"exesev", 0}, {"bootrun", "b"}, {"rebootreset", 0},
        {"runatreboot", 0}, {"runatresume", 0}, {"runonce", 0}, {"strict", 0}, {"noticenotrun", 0}, {"lavgand", 0}, {"lavgor", 0},
        {"mail", "m"}, {"forcemail", 0}, {"erroronlymail", 0}, {"dayand", 0}, {"dayor", 0}, {"nolog", 0}, {"volatile", 0}, {"stdout", 0}, {"random", 0}};
    if (g.chance(3, 5)) {
        int k = (int)g.raw(bools.size());
        string n = (bools[k].n2 && g.chance(1, 2)) ? bools[k].n2 : bools[k].n1;
        bool v = true;
        static const char *A[] = {"", "(true)", "(yes)", "(1)", "(false)", "(no)", "(0)"};
        int a = (int)g.raw(7);
        v = a < 4;
        bool *t[] = {&o.serial, &o.serialonce, &o.lavgonce, &o.exesev, &o.bootrun, &o.rebootreset, &o.runatreboot, &o.runatresume, &o.runonce,
                     &o.strict, &o.noticenotrun, nullptr, &o.lavgor, nullptr, nullptr, &o.erroronlymail, nullptr, &o.dayor, &o.nolog, &o.vol, &o.sout, &o.random};
        if (t[k]) *t[k] = v;
        else if (k == 11) o.lavgor = !v;
        else if (k == 16) o.dayor = !v;
        else if (k == 13) { o.mail = v; if (!v) o.forcemail = false; }
        else if (k == 14) { o.forcemail = v; if (v) o.mail = true; }
        m.feat["opt-bool"]++;
        return n + A[a];
    }
    auto lav = [&](int &out) -> string {
        switch (g.raw(5)) {
        case 0: out = 0; return "0";
        case 1: { int a = (int)g.range(0, 25); out = a * 10; return strf("%d", a); }
        case 2: { int a = (int)g.range(0, 9); out = a; return strf(".%d", a); }
        case 3: { int a = (int)g.range(0, 254), d = (int)g.range(0, 9); out = a + (d >= 5); return strf("%d.%d%d", a / 10, a % 10, d); }
        default: { int a = (int)g.range(0, 255); out = a; return strf("%d.%d", a / 10, a % 10); }
        }
    };
    switch (g.raw(16)) {
    case 0: { string a = lav(o.lavg[0]), b = lav(o.lavg[1]), c = lav(o.lavg[2]); m.feat["opt-lavg"]++; return "lavg(" + a + "," + b + "," + c + ")"; }
    case 1: return "lavg1(" + lav(o.lavg[0]) + ")";
    case 2: return "lavg5(" + lav(o.lavg[1]) + ")";
    case 3: return "lavg15(" + lav(o.lavg[2]) + ")";
    case 4: { auto t = gen_time(g, true); o.first = t.second; m.feat["opt-first"]++; return (g.chance(1, 2) ? "first(" : "f(") + t.first + ")"; }
    case 5: { auto t = gen_time(g, false); o.until = t.second; return (g.chance(1, 2) ? "until(" : "u(") + t.first + ")"; }
    case 6: if (cx != O_PERIOD) { int v = (int)g.skew(2, 65535); o.runfreq = v; return (g.chance(1, 2) ? "runfreq(" : "r(") + strf("%d)", v); }
        // fallthrough
    case 7: { string a = gen_addr(g); if (g.chance(1, 6)) { o.mail = o.forcemail = false; return "mailto()"; }
            o.mailto = a; o.mail = true; m.feat["opt-mailto"]++; return "mailto(" + a + ")"; }
    case 8: { if (g.chance(1, 6)) { o.has_mailfrom = false; o.mailfrom = ""; return "mailfrom()"; } string a = gen_addr(g); o.has_mailfrom = true; o.mailfrom = a; return "mailfrom(" + a + ")"; }
    case 9: { int v = (int)g.range(m.root ? -20 : 0, 19); o.nice = v; return (g.chance(1, 2) ? "nice(" : "n(") + strf("%d)", v); }
    case 10: { int v = (int)g.skew(0, 255); o.jitter = v; return strf("jitter(%d)", v); }
    case 11: { if (g.chance(1, 6)) { o.has_tz = false; o.tz = ""; return "timezone()"; } string z = g.pick(zones()); o.has_tz = true; o.tz = z; m.feat["opt-timezone"]++; return "timezone(" + z + ")"; }
    case 12: if (m.root) { string u = g.pick(users()); o.runas = u; m.feat["opt-runas"]++; return "runas(" + u + ")"; }
        // fallthrough
    case 13: if (g.chance(1, 2)) { int v = (int)g.range(-24, 24); m.tzdiff = v; m.feat["opt-tzdiff"]++; return strf("tzdiff(%d)", v); }
        // fallthrough
    case 14: {
            static const char *A[] = {"reset", "reset(1)", "reset(true)", "reset(no)"};
            int a = (int)g.raw(4);
            if (a < 3) { o = fresh_opts(m.user); m.feat["opt-reset"]++; }
            return A[a];
        }
        // fallthrough
    default: { auto t = gen_time(g, false); o.until = t.second; return "until(" + t.first + ")"; }
    }
}
static inline string gen_opts(Gen &g, Opts &o, Model &m, OptCtx cx, const string &keyword = "") {
    int n = g.weighted({0, 5, 4, 2, 1, 1});
    if (keyword.size()) n = g.weighted({6, 3, 2, 1, 1});
    vector<string> v;
    for (int i = 0; i < n; i++) v.push_back(gen_opt(g, o, m, cx));
    if (keyword.size()) { // a reset would clear a keyword which stands before it
        size_t from = 0;
        for (size_t i = 0; i < v.size(); i++) if (v[i].compare(0, 5, "reset") == 0) from = i + 1;
        v.insert(v.begin() + from + g.raw(v.size() - from + 1), keyword);
    }
    string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
    return s;
}
static inline void all(std::set<int> &s, int lo, int hi) { for (int i = lo; i <= hi; i++) s.insert(i); }

struct JobShape { bool td = true, freq = true, period = true, shortcut = true, opts = true, runas = true; int maxcmd = 60; };

static inline Job gen_job(Gen &g, Model &m, const JobShape &sh = JobShape()) {
    Job j; j.o = m.def;
    string runas_prefix;
    auto prefix = [&]() {
        if (sh.runas && m.root && g.chance(1, 12)) { string u = g.pick(users()); j.o.runas = u; runas_prefix = u + sp(g); m.feat["inline-runas"]++; }
    };
    int kind = g.weighted({sh.td ? 5 : 0, sh.freq ? 4 : 0, sh.period ? 4 : 0, sh.shortcut ? 2 : 0});
    if (kind == 0) {
        j.kind = TD;
        string pre;
        if (g.chance(3, 5)) {
            pre = "&";
            int w = sh.opts ? g.weighted({2, 1, 4}) : 0;
            if (w == 1) { int v = (int)g.skew(2, 65535); j.o.runfreq = v; pre += strf("%d", v) + sp(g); }
            else if (w == 2) pre += gen_opts(g, j.o, m, O_TD) + sp(g);
            else pre += sp(g);   // "&5 ..." would be a runfreq
        }
        string t = pre;
        std::set<int> *fs[] = {&j.mins, &j.hrs, &j.days, &j.mons, &j.dow};
        for (int f = 0; f < 5; f++) {
            Field x = gen_field(g, f, &m);
            // the first field of a line with no "&" must start with a digit or "*"
            t += x.text + sp(g); *fs[f] = x.v;
        }
        prefix();
        j.shell = gen_cmd(g, sh.maxcmd);
        j.text = t + runas_prefix + j.shell;
        m.feat["line-td"]++;
    } else if (kind == 1) {
        j.kind = FREQ;
        string t = "@";
        // "first" of a job line is its own: not set means the global value, or else the frequency
        int w = sh.opts ? g.weighted({2, 2, 4}) : 0;
        if (w == 1) { auto x = gen_time(g, true); j.o.first = x.second; t += x.first + sp(g); }
        else if (w == 2) t += gen_opts(g, j.o, m, O_FREQ) + sp(g);
        else t += sp(g);
        auto fr = gen_time(g, false);
        j.timefreq = fr.second;
        t += fr.first + sp(g);
        if (j.o.first == -1) j.o.first = j.timefreq;
        j.o.runfreq = 0;
        prefix();
        j.shell = gen_cmd(g, sh.maxcmd);
        j.text = t + runas_prefix + j.shell;
        m.feat["line-freq"]++;
    } else if (kind == 2) {
        j.kind = PERIOD;
        static const vector<string> KW = {"hourly", "midhourly", "daily", "middaily", "nightly", "weekly", "midweekly", "monthly", "midmonthly",
                                          "mins", "hours", "days", "mons", "dow"};
        int k = (int)g.raw(KW.size());
        j.keyword = KW[k];
        int tzdiff0 = m.tzdiff;
        string t = "%" + (sh.opts ? gen_opts(g, j.o, m, O_PERIOD, j.keyword) : j.keyword) + sp(g);
        int nf = k < 2 ? 1 : k < 7 ? 2 : k < 9 ? 3 : 5;
        std::set<int> *fs[] = {&j.mins, &j.hrs, &j.days, &j.mons, &j.dow};
        static const int LO[] = {0, 0, 1, 1, 0}, HI[] = {59, 23, 31, 12, 7};
        string ft; bool ok = false;
        // "there must be some non-matching time and dates" in a field the keyword does not ignore
        for (int tries = 0; tries < 4 && !ok; tries++) {
            ft = "";
            for (int f = 0; f < 5; f++) {
                fs[f]->clear();
                if (f < nf) { Field x = gen_field(g, f, &m); ft += x.text + sp(g); *fs[f] = x.v; }
                else all(*fs[f], LO[f], HI[f]);
            }
            if (nf < 5) ok = true;
            else {
                int from = k == 9 ? 0 : k == 10 ? 1 : k == 11 ? 2 : k == 12 ? 3 : 4;
                auto part = [&](int f) { return f >= from && (int)fs[f]->size() < HI[f] - LO[f] + 1; };
                bool days = part(2), dow = part(4);
                if (part(0) || part(1) || part(3)) ok = true;
                else if (!j.o.dayor) ok = days || dow;
                else ok = days && dow;
            }
        }
        if (!ok) { // force one
            static const int FROM[] = {0, 1, 2, 3, 4};
            (void)FROM;
            ft = ""; 
            for (int f = 0; f < 5; f++) { fs[f]->clear(); }
            ft = "5 5 5 5 2" + sp(g); j.mins = j.hrs = j.days = j.mons = {5}; j.dow = {2};
            if (j.o.dayor && k == 13) { // dow with dayor has no interval but the week days; not allowed
                j.keyword = "mins"; k = 9; t = "%mins,reset(0)" + sp(g); j.o = m.def; m.tzdiff = tzdiff0; }
        }
        t += ft;
        j.o.runfreq = 1;
        prefix();
        j.shell = gen_cmd(g, sh.maxcmd);
        j.text = t + runas_prefix + j.shell;
        m.feat["line-period"]++;
    } else {
        static const vector<string> SC = {"hourly", "daily", "midnight", "weekly", "monthly", "yearly", "annually", "reboot", "resume"};
        j.shortcut = g.pick(SC);
        if (j.shortcut == "reboot" || j.shortcut == "resume") {
            j.kind = FREQ; j.o.runonce = true; j.timefreq = -1; j.o.first = 0; j.o.runfreq = 0; j.o.vol = false;
            if (j.shortcut == "reboot") j.o.runatreboot = true; else j.o.runatresume = true;
        } else {
            j.kind = TD; j.mins = {0};
            if (j.shortcut == "hourly") all(j.hrs, 0, 23); else j.hrs = {0};
            if (j.shortcut == "monthly" || j.shortcut == "yearly" || j.shortcut == "annually") j.days = {1}; else all(j.days, 1, 31);
            if (j.shortcut == "yearly" || j.shortcut == "annually") j.mons = {1}; else all(j.mons, 1, 12);
            if (j.shortcut == "weekly") j.dow = {0, 7}; else all(j.dow, 0, 7);
        }
        prefix();
        j.shell = gen_cmd(g, sh.maxcmd);
        j.text = "@" + j.shortcut + sp(g) + runas_prefix + j.shell;
        m.feat["line-shortcut"]++;
    }
    return j;
}
// an environment assignment
static inline string gen_env(Gen &g, Model &m) {
    static const vector<string> N = {"FOO", "PATH", "SHELL", "HOME", "A_1", "_x", "LANG", "TZ", "CONTENT_TYPE", "mailto"};
    string name = g.chance(2, 3) ? g.pick(N) : "V" + strf("%d", (int)g.raw(40));
    string val; bool quoted = false;
    int n = (int)g.skew(0, 40);
    if (g.chance(1, 40)) { name += string((size_t)g.range(100, 300), 'n'); m.feat["long-env-name"]++; }
    if (g.chance(1, 40)) { n = (int)g.range(300, 650); m.feat["long-env-value"]++; }
    static const string C = "abcXYZ019 $/:.=_-\"'#%&@!,;\t\\(){}[]*?~^|<>`";
    for (int i = 0; i < n; i++) { if (!g.raw(60)) { val += g.chance(1, 2) ? "\xc3\xa9" : "\xff"; continue; } val += C[g.raw(C.size())]; }
    char q = g.chance(1, 2) ? '"' : '\'';
    if (g.chance(1, 2)) quoted = true;
    if (!quoted) {
        size_t a = val.find_first_not_of(" \t\"'"); val = a == string::npos ? "" : val.substr(a);
        while (!val.empty() && (val.back() == ' ' || val.back() == '\t' || val.back() == '\\')) val.pop_back();
    }
    static const vector<string> EQ = {"=", " = ", "= ", " =", "\t=\t"};
    string t = name + g.pick(EQ) + (quoted ? string(1, q) + val + string(1, q) : val) + (g.chance(1, 4) ? "  " : "");
    bool found = false;
    for (auto &e : m.env) if (e.first == name) { e.second = val; found = true; }
    if (!found) m.env.push_back({name, val});
    m.feat["env"]++;
    return t;
}
static inline string gen_special_env(Gen &g, Model &m) {
    static const vector<string> EQ = {"=", "=", " = ", "\t= "};
    auto q = [&](const string &a) { return g.pick(EQ) + (g.chance(1, 3) ? "\"" + a + "\"" : g.chance(1, 3) ? "'" + a + "'" : a) + (g.chance(1, 5) ? " \t" : ""); };
    switch (g.raw(5)) {
    case 0: { string a = gen_addr(g); m.def.mailto = a; m.def.mail = true; return "MAILTO" + q(a); }
    case 1: m.def.mail = m.def.forcemail = false; return "MAILTO" + q("");
    case 2: { string a = gen_addr(g); m.def.mailfrom = a; m.def.has_mailfrom = true; return "MAILFROM" + q(a); }
    case 3: m.def.mailfrom = ""; m.def.has_mailfrom = false; return "MAILFROM" + q("");
    default: return g.chance(1, 2) ? "USER=root" : "LOGNAME = root";
    }
}
static inline string lay(Gen &g, const string &l, Model &m) {
    string s;
    if (g.chance(1, 5)) s += sp(g);
    s += l;
    if (g.chance(1, 8) && s.size() > 2) {
        int k = 1 + (int)g.raw(3);
        while (k--) { size_t p = 1 + g.raw(s.size() - 1); s.insert(p, "\\\n"); }
        m.feat["continuation"]++;
    }
    return s;
}
struct Shape { int lines = 8; JobShape job; bool env = true, globals = true, special = true; int w_job = 6, w_global = 3, w_env = 2; };
static inline void gen_line(Gen &g, Model &m, const Shape &sh) {
    string l;
    switch (g.weighted({sh.w_job, sh.globals ? sh.w_global : 0, sh.env ? sh.w_env : 0, 1, 1, sh.special ? 1 : 0})) {
    case 0: { Job j = gen_job(g, m, sh.job); m.jobs.push_back(j); l = j.text; break; }
    case 1: l = "!" + gen_opts(g, m.def, m, O_GLOBAL) + (g.chance(1, 4) ? " " : ""); m.feat["global-options"]++; break;
    case 2: l = gen_env(g, m); break;
    case 3: l = "# " + gen_cmd(g, 30); break;
    case 4: l = g.chance(1, 2) ? "" : "  \t"; break;
    default: l = gen_special_env(g, m); break;
    }
    m.logical.push_back(l);
    m.text += (l.find_first_not_of(" \t") == string::npos ? l : lay(g, l, m)) + "\n";
}
static inline Model gen_model(Gen &g, const Shape &sh, bool root, const string &user) {
    Model m; m.root = root; m.user = user; m.def = fresh_opts(user);
    while (g.more(sh.lines)) gen_line(g, m, sh);
    // the last line may lack its newline
    if (!m.text.empty() && g.chance(1, 10)) m.text.pop_back();
    return m;
}
