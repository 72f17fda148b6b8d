// C20: display names, mailboxes and the From and To headers of a job's mail.
#include "daemonglue.hpp"
#include "mailmodel.hpp"
extern "C" {
#include "mail.h"
extern char *maildisplayname, *tmp_path;
extern char default_mail_charset[];
FILE *create_mail(cl_t *, char *, char *, char *, char **);
}
static string host; static int host_mode;
extern "C" int w_rand(void) { return 1; }
extern "C" int w_gethostname(char *b, size_t n) {
    if (host_mode == 2) return -1;
    if (host_mode == 1 && host.size() >= n) return -1;            // ENAMETOOLONG
    memset(b, 'Z', n);
    if (host.size() < n) strcpy(b, host.c_str()); else memcpy(b, host.data(), n);      // truncated: no final NUL
    return 0;
}
static string word(Gen &g, int max) { string s; int n = g.chance(1, 12) ? (int)g.range(1, max) : (int)g.range(1, 20); static const string A = "abcxyz019._-+"; for (int i = 0; i < n; i++) s += A[g.raw(A.size())]; return s; }
static void prop(Gen &g) {
    foreground = 1; dosyslog = 0;
    string disp = gen_disp(g); bool bs = false;
    char *in = strdup(disp.c_str()), *out = format_maildisplayname(in);
    free(in);
    string w = disp_wrong(disp, out, bs);
    pbt::note("display name %s (%zu)", pbt::quote(disp.substr(0, 300)).c_str(), disp.size());
    if (!w.empty() && !bs) pbt::fail("displayname", "display name %s: %s", pbt::quote(disp).c_str(), w.c_str());
    if (!out) { pbt::label("display name refused"); pbt::nontrivial(); return; }
    string fmt = out; free(out);
    // the mailbox
    string from = word(g, 1100); bool dom = g.chance(1, 3); if (dom) from += "@" + word(g, 60);
    string h = g.chance(1, 4) ? "" : "@" + word(g, 200);
    size_t base = fmt.size() + from.size() + (fmt.empty() ? 0 : 3);
    if (base + 1 < FROM_MAX && g.chance(1, 4)) h = "@" + string((size_t)std::max<int64_t>(1, (int64_t)(FROM_MAX - base - 1) + g.range(-3, 3)), 'h');
    char *d2 = strdup(fmt.c_str()), *f2 = strdup(from.c_str()), *h2 = strdup(h.c_str());
    char *m = make_mailbox_addr(d2, f2, h2);
    free(d2); free(f2); free(h2);
    size_t need = base + h.size();
    pbt::note("from %s host %s", pbt::quote(from.substr(0, 200)).c_str(), pbt::quote(h.substr(0, 200)).c_str());
    if (!m) { if (need <= FROM_MAX) pbt::fail("mailbox-refused", "a mailbox of %zu characters is refused, the maximum is %zu", need, FROM_MAX); pbt::label("mailbox refused"); }
    else {
        string v = m, pd, pa; free(m);
        if (v.size() > FROM_MAX) pbt::fail("mailbox-length", "a mailbox of %zu characters, the maximum is %zu", v.size(), FROM_MAX);
        if (need > FROM_MAX) pbt::fail("mailbox-cut", "a mailbox which needs %zu characters became %zu long", need, v.size());
        if (!bs) { if (!parse_mailbox(v, pd, pa) || pd != disp || pa != from + h) pbt::fail("mailbox", "display name %s, address %s became %s", pbt::quote(disp).c_str(), pbt::quote(from + h).c_str(), pbt::quote(v).c_str()); }
        else if (v != fmt + " <" + from + h + ">") pbt::fail("mailbox", "%s and %s became %s", pbt::quote(fmt).c_str(), pbt::quote(from + h).c_str(), pbt::quote(v).c_str());
    }
    // the headers of a mail
    host_mode = g.weighted({6, 1, 1});
    host = g.chance(1, 4) ? string((size_t)g.range(120, 140), 'w') : word(g, 300);
    cf_t *cf = new_file("root"); cl_t *l = new_line(cf, "x_cmd");
    string runas = word(g, 30), to = word(g, 300), mf = from;
    if (g.chance(1, 3)) to += "@" + word(g, 60);
    bool has = g.chance(1, 2);
    l->cl_runas = strdup(runas.c_str()); l->cl_mailto = strdup(to.c_str()); l->cl_mailfrom = has ? strdup(mf.c_str()) : NULL;
    maildisplayname = strdup(fmt.c_str());
    tmp_path = strdup((pbt::scratch() + "/").c_str());
    FILE *f = create_mail(l, g.chance(1, 2) ? (char *)"subject" : NULL, NULL, NULL, NULL);
    rewind(f);
    string text; char buf[8192]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
    fclose(f);
    string F, T; int nf = 0, nt = 0; size_t p = 0; bool end = false;
    while (p < text.size() && !end) {
        size_t e = text.find('\n', p); if (e == string::npos) break;
        string ln = text.substr(p, e - p); p = e + 1;
        if (ln.empty()) end = true;
        if (ln.compare(0, 6, "From: ") == 0) { F = ln.substr(6); nf++; }
        if (ln.compare(0, 4, "To: ") == 0) { T = ln.substr(4); nt++; }
    }
    if (!end) pbt::fail("no-end", "the header of the mail has no end: %s", pbt::quote(text.substr(0, 500)).c_str());
    if (nf != 1 || nt != 1) pbt::fail("header-count", "%d From and %d To headers", nf, nt);
    string addr = has ? mf : runas;
    // the host's name: whole, or cut at the length of a name
    auto with_host = [&](const string &got, const string &a) {
        if (a.find('@') != string::npos) return got == a;
        if (got.compare(0, a.size(), a)) return false;
        string r = got.substr(a.size());
        bool whole = host_mode == 0 ? host.size() < 120 : host_mode == 1 && host.size() < 120;
        if (whole) return r == "@" + host;
        return r.empty() || (r[0] == '@' && r.size() > 1 && host.compare(0, r.size() - 1, r, 1, string::npos) == 0) || (r == "@");
    };
    if (!with_host(T, to)) pbt::fail("to", "mail to %s on host %s: the header is To: %s", pbt::quote(to).c_str(), pbt::quote(host).c_str(), pbt::quote(T).c_str());
    string pd, pa; static const string OLD = " (fcron)";
    bool old = F.size() > OLD.size() && F.compare(F.size() - OLD.size(), OLD.size(), OLD) == 0 && F.find('<') == string::npos;
    size_t min = fmt.size() + 3 + addr.size();
    if (fmt.empty() || old) {
        if (!fmt.empty() && min + (addr.find('@') != string::npos ? 0 : 1 + host.size()) <= FROM_MAX) pbt::fail("from-form", "the display name %s is not used: %s", pbt::quote(fmt).c_str(), pbt::quote(F).c_str());
        if (!old || !with_host(F.substr(0, F.size() - OLD.size()), addr)) pbt::fail("from", "mail from %s on host %s: the header is From: %s", pbt::quote(addr).c_str(), pbt::quote(host).c_str(), pbt::quote(F).c_str());
    } else {
        if (F.size() > FROM_MAX) pbt::fail("from-length", "From header of %zu characters", F.size());
        bool ok;
        if (bs) { ok = F.compare(0, fmt.size() + 2, fmt + " <") == 0 && F.back() == '>'; if (ok) pa = F.substr(fmt.size() + 2, F.size() - fmt.size() - 3); }
        else ok = parse_mailbox(F, pd, pa) && pd == disp;
        if (!ok || !with_host(pa, addr)) pbt::fail("from", "display name %s, address %s on host %s: the header is From: %s", pbt::quote(disp).c_str(), pbt::quote(addr).c_str(), pbt::quote(host).c_str(), pbt::quote(F).c_str());
        pbt::label("mail with a display name");
    }
    if (!disp.empty()) pbt::nontrivial();
    if (needs_quotes(disp)) pbt::label("quoted");
    if (bs) pbt::fail("backslash", "display name %s: %s", pbt::quote(disp).c_str(), w.c_str());
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "mail"; c.prop = prop; c.batch = 20; c.quick = 100000; c.thorough = 3000000;
    return pbt::main(argc, argv, c);
}
