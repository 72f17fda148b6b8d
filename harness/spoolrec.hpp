// The records of a spool file.
#pragma once
struct Rec { short type; short size; string data; };
static vector<Rec> records(const string &b) {
    vector<Rec> v; size_t i = 0;
    while (i + 4 <= b.size()) {
        Rec r; memcpy(&r.type, &b[i], 2); memcpy(&r.size, &b[i + 2], 2); i += 4;
        size_t n = std::min<size_t>((size_t)std::max<short>(r.size, 0), b.size() - i);
        r.data = b.substr(i, n); i += n; v.push_back(r);
    }
    return v;
}
static string flat(const vector<Rec> &v) {
    string s;
    for (auto &r : v) { s.append((const char *)&r.type, 2); s.append((const char *)&r.size, 2); s += r.data; }
    return s;
}
