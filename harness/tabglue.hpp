// Reads fcrontab texts with the real parser and compares the result with the model.
#pragma once
#include "tabmodel.hpp"
extern "C" {
#include "fcrontab.h"
#include "fileconf.h"
extern char foreground, debug_opt;
extern uid_t rootuid;
extern char *user, *runas;
}
#include <sys/mman.h>

static uid_t fake_uid = 0;
extern "C" uid_t w_getuid(void) { return fake_uid; }
extern "C" void w_syslog(int, const char *f, ...) { pbt_format(f); }
extern "C" void w_openlog(const char *, int, int) {}
extern "C" void w_closelog(void) {}

static inline int memfile(const string &t) {
    int fd = memfd_create("tab", 0);
    size_t o = 0;
    while (o < t.size()) { ssize_t k = write(fd, t.data() + o, t.size() - o); if (k <= 0) abort(); o += k; }
    lseek(fd, 0, SEEK_SET);
    return fd;
}
// parse: returns read_file's status; the table is file_base
static inline int parse_text(const string &t, const string &username, bool root) {
    fake_uid = root ? 0 : 1000;
    rootuid = 0;
    foreground = 1; dosyslog = 0;
    user = strdup(username.c_str()); runas = strdup(username.c_str());
    file_base = nullptr;
    int fd = memfile(t);
    static char nm[] = "tab";
    int r = read_file(nm, fd);
    close(fd);
    return r;
}
#include "tabdiff.hpp"
