// C13: tables written by fcrontab, loaded, saved and loaded again by the daemon against the documented jobs.
#include "spoolglue.hpp"
extern "C" int w_rand(void) { return 11; }

static void prop(Gen &g) {
    fresh_spool(); daemon_memory(); nforks = 0;
    diff_remain = false;
    setenv("TZ", "UTC", 1); tzset();
    now = (time_t)g.range(1000000000, 2000000000);
    bool root = g.chance(2, 3);
    string user = root ? (g.chance(1, 2) ? "model" : "root") : "model";
    Shape sh;
    int big = (int)g.raw(3);
    Model m = gen_model(g, sh, root, user);
    for (auto &l : m.logical) if (l.size() > 1010) pbt::discard();      // fcrontab takes lines of up to 1022 characters
    if (m.text.size() && m.text.back() != '\n') m.text += "\n";
    // long variables and commands, up to the longest line fcrontab takes (1022 characters)
    if (big) {
        int k = (int)g.range(1, 6);
        while (k--) {
            int len = g.chance(1, 2) ? (int)g.range(1000, 1022) : (int)g.skew(1, 1022);
            if (g.chance(1, 2)) {
                string name = strf("L%d", (int)g.raw(9));
                string val((size_t)std::max(0, len - (int)name.size() - 1), (char)('a' + g.raw(26)));
                m.text += name + "=" + val + "\n";
                bool found = false;
                for (auto &e : m.env) if (e.first == name) { e.second = val; found = true; }
                if (!found) m.env.push_back({name, val});
            } else {
                Job j; j.kind = FREQ; j.o = m.def; j.timefreq = 3600; j.o.first = j.o.first < 0 ? 3600 : j.o.first; j.o.runfreq = 0;
                j.shell = string((size_t)std::max(1, len - 5), (char)('a' + g.raw(26)));
                j.text = "@ 60 " + j.shell;
                // only when the options in force do not change what it is
                if (m.def.first >= 0 || m.def.runfreq || m.def.jitter || m.def.runonce || m.def.random) continue;
                m.text += j.text + "\n"; m.jobs.push_back(j);
            }
        }
    }
    if (m.jobs.empty()) pbt::discard();
    pbt::note("user %s (run by %s)\n%s", user.c_str(), root ? "root" : "the user", m.text.c_str());
    string nf = "new." + user;
    int r = tab_install(m.text, user, root, nf);
    if (r == 99) pbt::fail("save", "fcrontab could not save the table");
    if (r != 0) pbt::fail("rejected", "a valid fcrontab was reported as erroneous (status %d)", r);
    if (chown(nf.c_str(), uid_of(user), 0)) abort();
    // another user's table stands in the way of nothing
    bool other = g.chance(1, 2);
    if (other) { tab_install("@ 1h x_other\n", "bin", true, "new.bin"); if (chown("new.bin", 2, 0)) abort(); }
    bool had = g.chance(1, 3);
    if (had) { tab_install("OLD=1\n@ 2h x_old\n", user, true, "old"); rename("old", user.c_str()); if (chown(user.c_str(), 0, 0)) abort(); }
    file_base = nullptr;
    synchronize_dir(".", g.chance(1, 2) ? 1 : 0);
    auto compare = [&](const char *when) { check_table(user, m, when); };
    compare("after the installation");
    for (auto &f : listing()) if (f == nf) pbt::fail("left", "%s is left in place", nf.c_str());
    check_queues();
    int rounds = (int)g.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        cf_t *f = table_of(user);
        // the daemon has run for a while
        for (cl_t *l : lines_of(f)) {
            if (g.chance(1, 3)) { l->cl_nextexe = now + g.skew(1, 86400 * 400); insert_nextexe(l); }
            if (l->cl_runfreq > 1 && g.chance(1, 2)) l->cl_remain = (unsigned short)g.range(1, l->cl_runfreq);
            if (is_runonce(l->cl_option) && g.chance(1, 4) && !is_hasrun(l->cl_option)) { set_hasrun(l->cl_option); job_queue_remove(l); }
        }
        string dyn[2], st[2];
        for (int rev = 0; rev < 2; rev++) { st[rev] = table_static(f, rev); dyn[rev] = table_dynamic(f, rev); }
        bool isvol = false, past = false;
        for (cl_t *l : lines_of(f)) { isvol |= is_volatile(l->cl_option) != 0; past |= l->cl_nextexe <= now; }
        save_file(g.chance(1, 2) ? NULL : f);
        if (g.chance(1, 2)) save_file(NULL);
        bool mem = g.chance(1, 2);
        pbt::note("saved, and loaded again%s", mem ? " (same daemon)" : "");
        if (mem) { delete_file(user.c_str()); while (file_base) delete_file(file_base->cf_user); } else daemon_memory();
        synchronize_dir(".", 0);
        compare("after saving and loading");
        f = table_of(user);
        string s = table_static(f, false), d = table_dynamic(f, false);
        auto first = [](string a, string b) {
            size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
            size_t p = a.rfind('\n', i ? i - 1 : 0); p = p == string::npos ? 0 : p + 1;
            return strf("%s ... in place of %s", a.substr(p, a.find('\n', i) - p).c_str(), p < b.size() ? b.substr(p, b.find('\n', i) - p).c_str() : "nothing");
        };
        if (s != st[0] && s != st[1]) pbt::fail("static", "after saving and loading the table holds %s", first(s, st[1]).c_str());
        if (!isvol && !past && d != dyn[0] && d != dyn[1]) pbt::fail("dynamic", "after saving and loading the schedule is %s", first(d, dyn[1]).c_str());
        check_queues();
        struct stat sb;
        if (stat(user.c_str(), &sb) || sb.st_uid != 0 || (sb.st_mode & 07777) != 0600) pbt::fail("mode", "the stored table is not a private file of root (uid %d, mode %o)", (int)sb.st_uid, sb.st_mode & 07777);
    }
    for (auto &x : m.feat) pbt::label("%s", x.first.c_str());
    if (big) pbt::label("big records");
    if (m.jobs.size() >= 2) pbt::nontrivial(pbt::hash(m.text));
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "save"; c.quick = 30000; c.thorough = 600000; c.batch = 50; c.prop = prop;
    return pbt::main(argc, argv, c);
}
