// fcrontab's parser and its way of saving tables, linked beside the daemon (its symbols have the prefix t_).
#pragma once
#include <string>
#include <sys/types.h>
// parse text as `username` (run by root or by the user) and write the table to path; returns read_file's status, or 99 if saving failed
int tab_install(const std::string &text, const std::string &username, bool by_root, const std::string &path);
int tab_jobs();             // jobs in the table parsed last
extern int tab_asuid;       // the uid the stored file is given to (that of the table's owner)
