// The daemon's own structures, filled from the model.
#pragma once
#include "schedmodel.hpp"
extern "C" {
#include "fcron.h"
#include "database.h"
#include "job.h"
extern time_t first_sleep;
extern char *orig_tz_envvar;
extern char foreground;
#undef main
}
#ifndef OWN_SYSLOG
extern "C" void w_syslog(int, const char *f, ...) { pbt_format(f); }
#endif
extern "C" void w_openlog(const char *, int, int) {}
extern "C" void w_closelog(void) {}

static inline void put_fields(cl_t *l, const Fields &f, bool star_zero = true) {
    memset(l->cl_mins, 0, sizeof l->cl_mins); memset(l->cl_hrs, 0, sizeof l->cl_hrs); memset(l->cl_days, 0, sizeof l->cl_days);
    memset(l->cl_mons, 0, sizeof l->cl_mons); memset(l->cl_dow, 0, sizeof l->cl_dow);
    for (int x : f.mins) bit_set(l->cl_mins, x);
    for (int x : f.hrs) bit_set(l->cl_hrs, x);
    for (int x : f.days) bit_set(l->cl_days, x);
    if (star_zero && f.days.size() == 31) bit_set(l->cl_days, 0);
    for (int x : f.mons) bit_set(l->cl_mons, x - 1);
    for (int x : f.dow) { bit_set(l->cl_dow, x); if (x == 0) bit_set(l->cl_dow, 7); }
    if (f.dayor) set_dayor(l->cl_option); else set_dayand(l->cl_option);
}
static inline cf_t *new_file(const char *user, int tzdiff = 0) {
    cf_t *f = (cf_t *)calloc(1, sizeof(cf_t));
    f->cf_user = strdup(user); f->cf_tzdiff = tzdiff; f->cf_env_list = env_list_init();
    return f;
}
static inline cl_t *new_line(cf_t *f, const char *cmd) {
    cl_t *l = (cl_t *)calloc(1, sizeof(cl_t));
    l->cl_file = f; l->cl_shell = strdup(cmd); l->cl_runas = strdup(f->cf_user); l->cl_mailto = strdup(f->cf_user);
    set_default_opt(l->cl_option);
    l->cl_next = f->cf_line_base; f->cf_line_base = l;
    return l;
}
