// RFC 5322 mailboxes as the documentation of maildisplayname describes them.
#pragma once
#include "pbt.hpp"
#include <string>
using std::string; using pbt::Gen; using pbt::strf;
static const size_t FROM_MAX = 998 - sizeof("From: ");
static bool special(char c) { return strchr("()<>[].,:;@\"\\", c) && c; }
static bool needs_quotes(const string &s) { for (char c : s) if (special(c)) return true; return false; }
static size_t quoted_len(const string &s) { size_t n = s.size(); for (char c : s) if (c == '"') n++; return n + 2; }
// the display name and the address of a From: value; false if it cannot be read
static bool parse_mailbox(const string &v, string &disp, string &addr) {
    disp = addr = "";
    size_t i = 0;
    if (v.empty()) return false;
    if (v[0] == '"') {
        for (i = 1; i < v.size() && v[i] != '"'; i++) { if (v[i] == '\\') { if (++i >= v.size()) return false; } disp += v[i]; }
        if (i >= v.size()) return false;
        i++;
    } else {
        size_t k = v.rfind(" <");
        if (k == string::npos) { addr = v; return true; }
        disp = v.substr(0, k); i = k;
    }
    if (v.compare(i, 2, " <") || v.back() != '>') return false;
    addr = v.substr(i + 2, v.size() - i - 3);
    return true;
}
static string gen_disp(Gen &g) {
    string s; int n;
    switch (g.raw(5)) {
    case 0: n = 0; break;
    case 1: n = (int)g.range(FROM_MAX - 12, FROM_MAX + 12); break;
    case 2: n = (int)g.range(1, 2500); break;
    default: n = (int)g.range(1, 40);
    }
    int sp = (int)g.raw(4);
    static const string PL = "abcXYZ 019'_-!#$%&*+/=?^`{|}~\xc3\xa9", SP = "()<>[].,:;@\"\\";
    if (n > 200) {
        s.assign((size_t)n, PL[g.raw(PL.size())]);
        int k = sp ? (int)g.range(0, 5) : 0;
        while (k--) s[g.chance(1, 2) ? (size_t)n - 1 - g.raw(std::min(n, 5)) : g.raw((uint64_t)n)] = g.chance(1, 2) ? '"' : SP[g.raw(SP.size())];
        if (g.chance(1, 12)) s.assign((size_t)n, '"');
    } else for (int i = 0; i < n; i++) s += sp && g.chance(1, 5) ? SP[g.raw(SP.size())] : PL[g.raw(PL.size())];
    if (!g.chance(1, 10)) for (auto &c : s) if (c == '\\') c = ':'; // a known finding: not in every case
    return s;
}
// what is wrong with the formatted display name (empty: nothing); known: the pinned handling of backslashes
static string disp_wrong(const string &in, const char *out, bool &backslash) {
    backslash = false;
    bool q = needs_quotes(in); size_t need = q ? quoted_len(in) : in.size();
    if (!out) return need < FROM_MAX || (!q && need == FROM_MAX) ? strf("refused (it needs %zu characters, the maximum is %zu)", need, FROM_MAX) : "";
    string o = out;
    if (need > FROM_MAX) return strf("accepted though it needs %zu characters and the maximum is %zu", need, FROM_MAX);
    if (o.size() > FROM_MAX) return strf("%zu characters long, the maximum is %zu", o.size(), FROM_MAX);
    if (!q) return o == in ? "" : "changed to " + pbt::quote(o);
    string d, a, k = "\"";
    for (char c : in) { if (c == '"') k += '\\'; k += c; }
    k += '"';
    if (parse_mailbox(o + " <x>", d, a) && a == "x" && d == in) return "";
    if (in.find('\\') != string::npos && o == k) { backslash = true; return "backslashes are not quoted: " + pbt::quote(o); }
    return "formatted as " + pbt::quote(o);
}
