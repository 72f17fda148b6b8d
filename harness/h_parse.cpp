// C01 / C02: fcrontab texts against the model of fcrontab(5).
#include "tabglue.hpp"
#ifndef WHAT
#define WHAT 1
#endif
static void prop(Gen &g) {
    Shape sh;
    if (WHAT == 1) { sh.w_global = 1; } else { sh.w_global = 5; sh.w_env = 0; sh.job.maxcmd = 10; sh.lines = 10; }
    bool root = g.chance(2, 3);
    string user = root ? (g.chance(1, 3) ? "model" : "root") : "model";
    Model m = gen_model(g, sh, root, user);
    pbt::note("user %s (run by %s)\n%s", user.c_str(), root ? "root" : "the user", m.text.c_str());
    int r = parse_text(m.text, user, root);
    for (auto &f : m.feat) pbt::label("%s", f.first.c_str());
    pbt::label("jobs:%s", m.jobs.size() == 0 ? "0" : m.jobs.size() < 3 ? "1-2" : m.jobs.size() < 6 ? "3-5" : "6+");
    if (!file_base) pbt::fail("no-table", "no table after parsing");
    vector<cl_t *> ls = table_lines(file_base);
    if (r != OK) pbt::fail("rejected", "a valid fcrontab was reported as erroneous (status %d)", r);
    if (ls.size() != m.jobs.size()) pbt::fail("job-count", "%zu jobs described, %zu parsed", m.jobs.size(), ls.size());
    for (size_t i = 0; i < ls.size(); i++) {
        string d = diff_job(m.jobs[i], ls[i], WHAT);
        if (!d.empty()) pbt::fail("job", "job %zu (%s): %s", i, m.jobs[i].text.c_str(), d.c_str());
    }
    if (WHAT == 1) {
        vector<string> got = table_env(file_base), want;
        for (auto &e : m.env) want.push_back(e.first + "=" + e.second);
        if (got != want) {
            string a, b; for (auto &x : want) a += pbt::quote(x) + " "; for (auto &x : got) b += pbt::quote(x) + " ";
            pbt::fail("env", "environment: documented %s, parsed %s", a.c_str(), b.c_str());
        }
        if (m.jobs.size()) pbt::nontrivial(pbt::hash(m.text));
    } else {
        if (file_base->cf_tzdiff != m.tzdiff) pbt::fail("tzdiff", "tzdiff: documented %d, parsed %d", m.tzdiff, file_base->cf_tzdiff);
        if (m.jobs.size() >= 2 && m.feat.count("global-options")) pbt::nontrivial(pbt::hash(m.text));
    }
}
int main(int argc, char **argv) {
    pbt::Config c;
    c.name = WHAT == 1 ? "parse" : "options"; c.prop = prop; c.batch = 20; c.quick = 120000; c.thorough = 1500000;
    return pbt::main(argc, argv, c);
}
