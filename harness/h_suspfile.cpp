// C29: the suspend file.
#include "daemonglue.hpp"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
using std::string; using std::vector; using pbt::Gen; using pbt::strf;
extern "C" {
extern char *suspendfile; extern uid_t rootuid; extern gid_t rootgid;
long int read_suspend_duration(time_t slept_from);
int w_rand(void) { return 1; }
}
static int failing, failed;      // 1 open, 2 fstat, 3 read, 4 unlink
static bool on;
static bool bad(int k, int e) { if (!on || failing != k) return false; failed++; errno = e; return true; }
extern "C" {
int w_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return bad(1, EIO) ? -1 : open(p, f, m); }
int w_fstat(int fd, struct stat *s) { return bad(2, EIO) ? -1 : fstat(fd, s); }
ssize_t w_read(int fd, void *b, size_t n) { return bad(3, EIO) ? -1 : read(fd, b, n); }
int w_unlink(const char *p) { return bad(4, EROFS) ? -1 : unlink(p); }
}
static void prop(Gen &g) {
    foreground = 0; dosyslog = 0; debug_opt = g.chance(1, 4);
    rootuid = g.chance(1, 4) ? 1234 : 0; rootgid = g.chance(1, 4) ? 1235 : 0;
    string d = pbt::scratch() + strf("/s%d", (int)getpid()), f = d + "/fcron.suspend", o = d + "/other";
    mkdir(d.c_str(), 0755); unlink(f.c_str()); rmdir(f.c_str()); unlink(o.c_str());
    suspendfile = strdup(f.c_str());
    // the text
    string t; bool exact = true; long v = 0;
    now = (time_t)g.range(1000000000, 2000000000);
    time_t from = now - (g.chance(1, 12) ? -(time_t)g.range(1, 1000) : g.chance(1, 3) ? (time_t)g.range(0, 3) : (time_t)g.skew(0, 1000000));
    string pre; int nsp = g.chance(1, 8) ? (int)g.range(1, 5) : 0; while (nsp--) pre += g.chance(1, 2) ? ' ' : g.chance(1, 2) ? '\t' : '\n';
    switch (g.weighted({8, 2, 2, 2, 2, 1, 1})) {
    case 0: v = g.chance(1, 4) ? (long)(now - from) + g.range(-2, 2) : g.range(0, 1000000); t = pre + (g.chance(1, 12) ? "+" : "") + (g.chance(1, 10) ? "000" : "") ; if (v < 0) v = 0; t += strf("%ld", v); break;
    case 1: v = -(long)g.range(1, 100000); t = pre + strf("%ld", v); break;
    case 2: { t = pre + (g.chance(1, 3) ? "-" : ""); int n = (int)g.range(20, 100); while (n--) t += (char)('1' + g.raw(9)); v = 0; break; }       // out of range
    case 3: { static const vector<string> W = {"", "\n", "abc", "x12", "-", "+", "--5", " ", "\xff", "nan", ","}; t = pre + W[g.raw(W.size())]; v = 0; break; }
    case 4: v = g.range(0, 1000000); t = pre + strf("%ld", v) + g.pick(vector<string>{"abc", "s", ".5", " 7", "e3", "-3"}); exact = false; break;
    case 5: v = LONG_MAX - (long)g.range(0, 3); t = strf("%ld", v); break;
    case 6: v = g.range(0, 1000000); t = string((size_t)g.range(150, 4000), g.chance(1, 2) ? ' ' : '0') + strf("%ld", v); exact = t.size() <= 190; break;
    }
    if (g.chance(2, 3)) t += "\n"; else if (g.chance(1, 5)) t += string((size_t)g.range(1, 500), '\n');
    if (exact && t.size() > 195) { size_t e = t.find_last_not_of("\n"); if (e == string::npos || e > 190) exact = false; }
    if (g.chance(1, 15)) t += string("\0junk", 5);
    // the file
    int kind = g.weighted({12, 2, 1, 1, 1, 1, 1, 1});      // regular, absent, directory, fifo, hard link, symbolic link, dangling link, device
    uid_t u = g.chance(1, 6) ? (g.chance(1, 2) ? 1000 : rootuid ? 0 : 1234) : rootuid; gid_t gr = g.chance(1, 6) ? (g.chance(1, 2) ? 1000 : rootgid ? 0 : 1235) : rootgid;
    static const mode_t MODES[] = {0600, 0644, 0640, 0400, 0664, 0666, 0602, 0000, 0755, 0777, 0646};
    mode_t mo = MODES[g.weighted({4, 6, 2, 1, 1, 2, 1, 1, 1, 1, 1})];
    auto mk = [&](const string &p) { FILE *h = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), h); fclose(h); if (chown(p.c_str(), u, gr) || chmod(p.c_str(), mo)) abort(); };
    switch (kind) {
    case 0: mk(f); break;
    case 1: break;
    case 2: mkdir(f.c_str(), 0700); break;
    case 3: if (mkfifo(f.c_str(), 0600)) abort(); break;
    case 4: mk(f); if (link(f.c_str(), o.c_str())) abort(); break;
    case 5: mk(o); if (symlink(o.c_str(), f.c_str())) abort(); break;
    case 6: if (symlink(o.c_str(), f.c_str())) abort(); break;
    case 7: if (symlink("/dev/zero", f.c_str())) abort(); break;
    }
    failing = g.chance(1, 8) ? (int)g.range(1, 4) : 0; failed = 0;
    static const char *KN[] = {"a regular file", "no file", "a directory", "a fifo", "a file with another name", "a link", "a dangling link", "a link to a device"};
    pbt::note("%s of %d:%d (root is %d:%d) mode %o, slept for %ld%s: %s", KN[kind], (int)u, (int)gr, (int)rootuid, (int)rootgid, mo, (long)(now - from), failing ? strf(", call %d fails", failing).c_str() : "", pbt::quote(t).c_str());
    struct stat a, b; bool was = lstat(f.c_str(), &a) == 0;
    on = true; alarm(10);
    long r = read_suspend_duration(from);
    alarm(0); on = false;
    bool is = lstat(f.c_str(), &b) == 0;
    bool trusted = (kind == 0 || kind == 5) && u == rootuid && gr == rootgid && !(mo & S_IWOTH);
    long slept = (long)(now - from), want = !trusted ? 0 : v <= 0 ? 0 : std::min(v, slept);
    if (r < 0 && slept >= 0) pbt::fail("duration", "a duration of %ld", r);
    if (failed) {
        if (r > 0) pbt::fail("failed-call", "a duration of %ld is read though a system call fails", r);
        if (failing != 4 && failing != 3 && was != is) pbt::fail("failed-call", "the file is removed though it could not be checked");
    } else if (!trusted) {
        if (r > 0) pbt::fail("untrusted", "a duration of %ld is taken from a file which is not to be trusted", r);
        if (was != is || (was && (a.st_ino != b.st_ino || a.st_mode != b.st_mode))) pbt::fail("untrusted", "a file which is not to be trusted is removed or changed");
    } else if (kind == 5) {        // following a link made by root is not specified
        if (r > 0 && r != want && (exact || v <= 0)) pbt::fail("duration", "the duration is %ld in place of %ld", r, want);
    } else {
        if (want > 0 ? (exact ? r != want : r > 0 && r > slept) : r > 0) pbt::fail("duration", "the duration is %ld in place of %ld", r, want);
        if (slept >= 0 && r > slept) pbt::fail("duration", "the duration %ld is longer than the sleep of %ld", r, slept);
        if (is) pbt::fail("not-removed", "the file is not removed: the same suspend would be counted again");
    }
    struct stat c; if ((kind == 4 || kind == 5) && lstat(o.c_str(), &c)) pbt::fail("other-file", "another file is removed");
    free(suspendfile); suspendfile = nullptr;
    pbt::label("%s", KN[kind]); if (trusted && want > 0) pbt::label("a duration");
    if (kind != 1) pbt::nontrivial();
}
int main(int argc, char **argv) {
    pbt::Config c; c.name = "suspfile"; c.quick = 40000; c.thorough = 2000000; c.batch = 200; c.prop = prop;
    return pbt::main(argc, argv, c);
}
