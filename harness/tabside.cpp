#include "tabside.hpp"
#define read_file t_read_file
#define save_file t_save_file
#define file_base t_file_base
#define user t_user
#define runas t_runas
#define foreground t_foreground
#define dosyslog t_dosyslog
#define rootuid t_rootuid
#define rootgid t_rootgid
#define asuid t_asuid
#define fcrontab_gid t_fcrontab_gid
extern "C" {
#include "fcrontab.h"
#include "fileconf.h"
#undef main
extern char foreground;
extern uid_t rootuid;
extern char *user, *runas;
extern gid_t fcrontab_gid, rootgid;
extern uid_t asuid;
}
#include <sys/mman.h>
#include <cstdlib>
#include <cstring>
static uid_t fake_uid = 0;
extern "C" uid_t w_getuid(void) { return fake_uid; }
static int jobs;
int tab_jobs() { return jobs; }
int tab_asuid = 0;
int tab_install(const std::string &t, const std::string &username, bool root, const std::string &path) {
    fake_uid = root ? 0 : 1000;
    rootuid = 0; rootgid = 0; asuid = tab_asuid; fcrontab_gid = 0;
    foreground = 1; dosyslog = 0;
    user = strdup(username.c_str()); runas = strdup(username == "systab" ? "root" : username.c_str());
    file_base = nullptr;
    int fd = memfd_create("tab", 0);
    size_t o = 0;
    while (o < t.size()) { ssize_t k = write(fd, t.data() + o, t.size() - o); if (k <= 0) abort(); o += k; }
    lseek(fd, 0, SEEK_SET);
    static char nm[] = "tab";
    int r = read_file(nm, fd);
    close(fd);
    jobs = 0;
    if (file_base) for (cl_t *l = file_base->cf_line_base; l; l = l->cl_next) jobs++;
    if (save_file((char *)path.c_str()) != OK) return 99;
    return r;
}
