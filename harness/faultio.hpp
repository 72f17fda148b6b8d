// Failing, short and interrupted system calls of the code under test, and the state of the disk after a power failure.
#pragma once
#include <setjmp.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <sys/stat.h>
enum { C_OPEN, C_WRITE, C_SYNC, C_RENAME, C_CLOSE, C_CHOWN, C_CHMOD, C_REMOVE, C_FSTAT, C_READ, C_FOPEN, C_N };
static const char *const CNAME[] = {"open", "write", "fdatasync", "rename", "close", "fchown", "fchmod", "remove", "fstat", "read", "fopen"};
enum { K_FAIL, K_STICKY, K_SHORT, K_DIE, K_DIE_AFTER, K_POWER };
struct FaultSpec { int call, nth, kind, err; };
struct FaultIo {
    bool armed = false; vector<FaultSpec> plan; int count[C_N]; int nfired = 0; vector<string> log; sigjmp_buf jb; bool reading = false;
    std::map<int, string> wr;                  // descriptors open for writing without O_SYNC
    std::map<string, off_t> dirty;             // files with data which is not on the disk yet: what is
    void reset() { armed = false; plan.clear(); memset(count, 0, sizeof count); nfired = 0; log.clear(); reading = false; wr.clear(); }
    bool fired_reading() const { return reading; }
    string str() const { string s; static const char *k[] = {"fails", "and the following ones fail", "is short", "kills the process", "is the last one", "meets a power failure"}; for (auto &f : plan) s += strf("%s%s %d %s", s.empty() ? ": " : ", ", CNAME[f.call], f.nth, k[f.kind]); return s; }
    void die(bool power) {
        if (power) for (auto &d : dirty) { log.push_back("unsynced " + d.first); if (truncate(d.first.c_str(), d.second)) {} }
        dirty.clear(); armed = false;
        siglongjmp(jb, 1);
    }
    // 0: go on; 1: fail with errno; 2: short; 3: die afterwards
    int at(int call, const char *what) {
        if (!armed) return 0;
        int n = ++count[call];
        for (auto &f : plan) {
            if (f.call != call || !(f.nth == n || (f.kind == K_STICKY && n >= f.nth))) continue;
            nfired++; if (call == C_READ || call == C_FOPEN || call == C_FSTAT) reading = true;
            static const char *k[] = {"failed", "failed", "short", "died-before", "died-after", "power-failure"};
            log.push_back(strf("%s-%s %d (%s)", CNAME[call], k[f.kind], n, what));
            if (f.kind == K_DIE || f.kind == K_POWER) die(f.kind == K_POWER);
            if (f.kind == K_DIE_AFTER) return 3;
            if (f.kind == K_SHORT && (call == C_WRITE || call == C_READ)) return 2;
            errno = f.err; return 1;
        }
        return 0;
    }
};
static FaultIo F;
#define AFTER(rc) do { if (a_ == 3) { F.die(false); } return rc; } while (0)
extern "C" {
static int do_open(const char *p, int fl, mode_t m) {
    int a_ = F.at(C_OPEN, p); if (a_ == 1) return -1;
    int fd = open(p, fl, m);
    if (fd >= 0 && F.armed && (fl & O_ACCMODE) != O_RDONLY && !(fl & (O_SYNC | O_DSYNC))) { F.wr[fd] = p; if (fl & O_TRUNC) F.dirty[p] = 0; }
    AFTER(fd);
}
int w_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? (mode_t)va_arg(ap, int) : 0; va_end(ap); return do_open(p, fl, m); }
int w___open_2(const char *p, int fl) { return do_open(p, fl, 0); }
ssize_t w_write(int fd, const void *b, size_t n) {
    int a_ = F.at(C_WRITE, strf("%zu", n).c_str()); if (a_ == 1) return -1;
    if (a_ == 2) n = n > 1 ? n / 2 : n;
    auto i = F.wr.find(fd);
    if (F.armed && i != F.wr.end() && !F.dirty.count(i->second)) { struct stat s; fstat(fd, &s); F.dirty[i->second] = s.st_size; }
    ssize_t r = write(fd, b, n);
    AFTER(r);
}
static int do_sync(int fd) { int a_ = F.at(C_SYNC, ""); if (a_ == 1) return -1; auto i = F.wr.find(fd); if (i != F.wr.end()) F.dirty.erase(i->second); AFTER(0); }
int w_fdatasync(int fd) { return do_sync(fd); }
int w_fsync(int fd) { return do_sync(fd); }
int w_rename(const char *a, const char *b) { int a_ = F.at(C_RENAME, a); if (a_ == 1) return -1; int r = rename(a, b); if (r == 0) { auto i = F.dirty.find(a); F.dirty.erase(b); if (i != F.dirty.end()) { F.dirty[b] = i->second; F.dirty.erase(a); } } AFTER(r); }
int w_close(int fd) { int a_ = F.at(C_CLOSE, ""); F.wr.erase(fd); int r = close(fd); if (a_ == 1) return -1; AFTER(r); }
int w_fchown(int fd, uid_t u, gid_t g) { int a_ = F.at(C_CHOWN, ""); if (a_ == 1) return -1; int r = fchown(fd, u, g); AFTER(r); }
int w_fchmod(int fd, mode_t m) { int a_ = F.at(C_CHMOD, ""); if (a_ == 1) return -1; int r = fchmod(fd, m); AFTER(r); }
static int do_remove(const char *p) { int a_ = F.at(C_REMOVE, p); if (a_ == 1) return -1; int r = remove(p); if (!r) F.dirty.erase(p); AFTER(r); }
int w_remove(const char *p) { return do_remove(p); }
int w_unlink(const char *p) { return do_remove(p); }
int w_fstat(int fd, struct stat *s) { int a_ = F.at(C_FSTAT, ""); if (a_ == 1) return -1; int r = fstat(fd, s); AFTER(r); }
ssize_t w_read(int fd, void *b, size_t n) { int a_ = F.at(C_READ, ""); if (a_ == 1) return -1; ssize_t r = read(fd, b, n); AFTER(r); }
FILE *w_fopen(const char *p, const char *m) { int a_ = F.at(C_FOPEN, p); if (a_ == 1) return nullptr; FILE *f = fopen(p, m); AFTER(f); }
}
static FaultSpec gen_fault(Gen &g, bool tab) {
    FaultSpec f;
    f.call = g.weighted({4, 8, 3, 6, 3, 3, tab ? 1 : 0, 5, 1, 3, 1});
    f.nth = f.call == C_READ ? (int)g.skew(1, 300) : f.call == C_WRITE ? (int)g.range(1, 4) : g.weighted({6, 2, 1}) + 1;
    f.kind = g.weighted({4, 2, f.call == C_WRITE ? 6 : 0, 4, 3, 2});
    static const int errs[] = {ENOSPC, EIO, EACCES, EDQUOT};
    f.err = f.call == C_FOPEN ? EACCES : errs[g.raw(4)];
    return f;
}
static void close_extra(int) { for (int i = 3; i < 64; i++) { char b[64]; ssize_t n = readlink(strf("/proc/self/fd/%d", i).c_str(), b, sizeof b - 1); if (n <= 0) continue; b[n] = 0; if (strstr(b, "/spool.") || strstr(b, "memfd:")) close(i); } }
