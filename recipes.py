# How each harness is built, and which harnesses decide each property.
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
TABWRAP = ["getuid", "syslog", "openlog", "closelog"]
DWRAP = ["syslog", "openlog", "closelog", "rand"]
VOSWRAP = "read remove unlink rename time gettimeofday clock_gettime select pipe fork waitpid kill setpriority exit sigaction signal timerfd_create timerfd_settime getloadavg opendir closedir rand srand setsid fdatasync gethostname initgroups setgid setuid pam_start pam_authenticate pam_acct_mgmt pam_setcred pam_open_session pam_close_session pam_end pam_getenvlist is_selinux_enabled execle syslog openlog closelog".split()
TABSIDE = ["read_file", "save_file", "file_base", "user", "runas", "foreground", "dosyslog", "rootuid", "rootgid", "asuid", "fcrontab_gid"]
SPOOL = {"daemon": {"wrap": DWRAP + ["fork", "time", "getpwnam", "getpwuid"]}, "tab": {"wrap": TABWRAP, "rename": {x: "t_" + x for x in TABSIDE}, "keep": ["t_" + x for x in TABSIDE]}}
IOWRAP = "open __open_2 write fdatasync fsync rename close fchown fchmod remove unlink fstat read fopen".split()
CRASH = {"daemon": {"wrap": SPOOL["daemon"]["wrap"] + IOWRAP}, "tab": {"wrap": TABWRAP + IOWRAP + ["rand"], "rename": SPOOL["tab"]["rename"], "keep": SPOOL["tab"]["keep"]}}
JOBWRAP = "fork pipe read exit sleep initgroups setgid setuid chdir nice access gethostname mkstemp is_selinux_enabled pam_start pam_authenticate pam_acct_mgmt pam_setcred pam_open_session pam_close_session pam_end pam_strerror pam_getenvlist execle".split()
JOBGROUPS = {"daemon": {"wrap": DWRAP + JOBWRAP + ["time", "getpwnam", "getpwuid"]}, "tab": SPOOL["tab"]}
DYNWRAP = "fork exit time getpwnam getpwuid run_job kill setpriority getloadavg getsockopt getspnam crypt".split()
HARNESS = {
    "parse":   {"src": ["h_parse.cpp"], "groups": {"tab": {"wrap": TABWRAP}}, "hflags": ["-DWHAT=1"]},
    "options": {"src": ["h_parse.cpp"], "groups": {"tab": {"wrap": TABWRAP}}, "hflags": ["-DWHAT=2"]},
    "badlines": {"src": ["h_badtab.cpp"], "groups": {"tab": {"wrap": TABWRAP}}, "san": ASAN},
    "tabfuzz": {"src": ["h_badtab.cpp"], "groups": {"tab": {"wrap": TABWRAP}}, "cc": "clang", "fuzzer": True, "san": ASAN, "hflags": ["-DFUZZ"], "seeds": "tab", "dict": "tab.dict", "runs": 150000, "runs_thorough": 5000000},
    "tabbytes": {"src": ["h_badtab.cpp"], "groups": {"tab": {"wrap": TABWRAP}}, "san": ASAN, "hflags": ["-DBYTES"]},
    "sched4": {"src": ["h_sched.cpp"], "groups": {"daemon": {"wrap": DWRAP}}, "hflags": ["-DWHAT=4"]},
    "sched6": {"src": ["h_sched.cpp"], "groups": {"daemon": {"wrap": DWRAP}}, "hflags": ["-DWHAT=6"]},
    "queue": {"src": ["h_queue.cpp"], "groups": {"daemon": {"wrap": DWRAP + ["run_job", "waitpid", "getloadavg", "fork"]}}, "san": ASAN},
    "lists": {"src": ["h_lists.cpp"], "groups": {"daemon": {"wrap": DWRAP}}, "san": ASAN},
    "syscron": {"src": ["h_syscron.cpp"], "opt": ["-O2", "-g"]},
    "susphook": {"src": ["h_susphook.cpp"], "opt": ["-O2", "-g"]},
    "save": {"src": ["h_save.cpp", "tabside.cpp"], "groups": SPOOL, "san": ASAN},
    "crash": {"src": ["h_crash.cpp", "tabside.cpp"], "groups": CRASH, "san": ASAN},
    "damage": {"src": ["h_damage.cpp", "tabside.cpp"], "groups": SPOOL, "san": ASAN},
    "mail": {"src": ["h_mail.cpp"], "groups": {"daemon": {"wrap": DWRAP + ["gethostname"]}}, "san": ASAN},
    "conf": {"src": ["h_conf.cpp"], "groups": {"daemon": {"wrap": DWRAP + ["getgrnam", "exit"]}}, "san": ASAN},
    "allow": {"src": ["h_allow.cpp"], "groups": {"tab": {"wrap": TABWRAP + ["exit", "getpwnam", "audit_open", "audit_log_user_message", "fopen"]}}, "san": ASAN},
    "suspfile": {"src": ["h_suspfile.cpp"], "groups": {"daemon": {"wrap": DWRAP + "open __open_2 fstat read unlink".split()}}, "san": ASAN},
    **{n: {"src": ["h_sighup.cpp"], "groups": {"sig": {"wrap": "getuid seteuid setegid time exit syslog openlog closelog audit_open audit_log_user_message fork sleep usleep open __open_2 flock lockf close fclose remove unlink fopen kill".split()}}, "san": ASAN, "hflags": ["-DDELAY=%d" % d], "config": {"MAX_FCRONTAB_RELOAD_DELAY_SECONDS": d}, "defs": {"FCRON_CONF": "fcron.conf"}} for n, d in (("sighup", 60), ("sighup5", 5))},
    **{"start%d" % n: {"src": ["h_start.cpp"], "groups": {"daemon": {"wrap": "getuid exit syslog openlog closelog setsid sigaction open __open_2 flock lockf ftruncate remove unlink opendir fork select rand".split()}}, "san": ASAN, "hflags": ["-DWHAT=%d" % n]} for n in (34, 35)},
    "logs": {"src": ["h_logs.cpp"], "groups": {"daemon": {"wrap": DWRAP + ["exit", "time", "pam_strerror", "pam_end"]}}, "san": ASAN},
    **{"job%d" % n: {"src": ["h_job.cpp", "tabside.cpp"], "groups": JOBGROUPS, "san": ASAN, "hflags": ["-DWHAT=%d" % n]} for n in (17, 18, 19)},
    **{"dyn%d" % n: {"src": ["h_dynsrv.cpp"], "groups": {"daemon": {"wrap": DWRAP + DYNWRAP}}, "san": ASAN, "hflags": ["-DWHAT=%d" % n]} for n in (21, 22, 23)},
    "dyncl": {"src": ["h_dyncl.cpp"], "groups": {"dyn": {"wrap": "getuid getgid setuid setgid seteuid_safe setegid_safe get_user_uid_safe get_group_gid_safe getpwnam getpwuid read_conf is_allowed exit signal syslog openlog closelog socket connect close shutdown send select recv readline add_history".split()}}, "san": ASAN, "ldflags": ["-lreadline"]},
    "fcrontab": {"src": ["h_fcrontab.cpp"], "groups": {"daemon": SPOOL["daemon"], "tab": {"wrap": "getpwnam getpwuid getgrnam pam_start pam_authenticate pam_acct_mgmt pam_setcred pam_open_session pam_close_session pam_end pam_strerror pam_getenvlist audit_open audit_log_user_message is_selinux_enabled syslog openlog closelog exit fork execl execlp fdopen rand".split() + IOWRAP, "rename": {"tmp_path": "t_tmp_path"}, "keep": ["tab_main", "t_tmp_path"]}}, "san": ASAN},
    "dst": {"src": ["h_dst.cpp"], "groups": {"daemon": {"wrap": DWRAP}}},
    **{"daemon%d" % n: {"src": ["h_daemon.cpp"], "groups": {"daemon": {"wrap": VOSWRAP}}, "hflags": ["-DWHAT=%d" % n]} for n in (7, 8, 9, 10, 11, 12, 16, 22, 28, 29, 33)},
}
# C30 in all the programs: (harness, quick cases, thorough cases, the failure looked for)
FORMATS = [(h, n, 40 * n, "format") for h, n in (("badlines", 20000), ("fcrontab", 2500), ("job18", 1500), ("job19", 800), ("dyn21", 3000), ("dyn22", 4000), ("dyncl", 20000), ("conf", 10000), ("allow", 10000), ("damage", 4000), ("crash", 3000), ("suspfile", 4000), ("daemon9", 150), ("daemon12", 150), ("daemon22", 150))]
PROPS = {
    "C01": {"technique": "property-based testing: grammar-based generation of fcrontabs against an independent model of fcrontab(5)", "note": "Bounded random exploration of the whole documented line syntax; trusts the model in harness/tabmodel.hpp.", "harness": ["parse"], "rule": "fcrontab texts generated line by line from the fcrontab(5) grammar with the jobs they describe; non-trivial: at least one job line; distinct by text"},
    "C02": {"technique": "property-based testing: generated option histories against a model of scope and inheritance", "note": "Bounded random exploration; trusts the model in harness/tabmodel.hpp.", "harness": ["options"], "rule": "fcrontab texts of global option lines and job lines with options; non-trivial: at least two jobs and one global option line; distinct by text"},
    "C03": {"technique": "property-based testing with malformed-line injection, plus coverage-guided fuzzing (libFuzzer) under AddressSanitizer", "note": "Bounded exploration; memory safety is what AddressSanitizer sees on the executed inputs.", "harness": ["badlines", "tabbytes", "tabfuzz"], "rule": "badlines: tables in which malformed lines of 13 kinds stand among well-formed ones, with the jobs the well-formed ones describe; tables around the maximum number of entries or lines; tabbytes: random bytes and mutated tables followed by a well-formed tail; run with AddressSanitizer; non-trivial: at least one malformed line and one job (badlines), at least two jobs parsed (tabbytes); distinct by text"},
    "C04": {"technique": "property-based testing: scheduler against an exhaustive minute search", "note": "Bounded random exploration over 1971-2120, fixed-offset zones; trusts the calendar arithmetic of harness/schedmodel.hpp.", "harness": ["sched4"], "rule": "random field sets, clock (biased to hour, day, month and year ends), zones, tzdiff, jitter, scheduling mode and queue neighbours; non-trivial: the answer is not simply the next minute; distinct by choices"},
    "C05": {"technique": "property-based testing: simulated run histories across daylight saving changes against the local times of every real minute", "note": "Bounded random exploration; trusts the C library for UTC to local time; the rules are those of the FAQ.", "harness": ["dst"], "rule": "1-4 &- and %-lines in up to 15 zones (13 with daylight saving rules: both hemispheres, changes at midnight, 30 minute shifts, negative daylight saving; daemon TZ set or unset) simulated over 2-3 days around a change; non-trivial: the window holds a change of the zone in focus; distinct by choices"},
    "C06": {"technique": "property-based testing: simulated run histories of one line against independently computed periods", "note": "Bounded random exploration; histories of up to 400 runs per case.", "harness": ["sched6"], "rule": "one %-line of any of the 13 keywords simulated over tens of periods from a random start, with late wake-ups and random execution; non-trivial: at least three periods contain a matching minute; distinct by choices"},
    "C07": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon7"], "rule": "tables of 1-5 lines run by the daemon's main loop over 1-4 lives of 15 minutes to 3 days of virtual time, with jobs of random length, suspends, edits, reloads, late wake-ups, stops, kills and reboots (@-lines only); every start, reap, read of the spool directory and sleep is compared with the model; non-trivial: at least two jobs started; distinct by choices"},
    "C08": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon8", "queue"], "rule": "tables of 1-7 lines run by the daemon's main loop over 1 lives of 15 minutes to 6 hours of virtual time, with jobs of random length, fork failures, late wake-ups, edits and events injected between the daemon's steps; every start, reap, read of the spool directory and sleep is compared with the model; and bursts of up to thousands of instances of 1-20 lines on the queues and counters themselves (several instances, queues up to 900 jobs, failing starts, ends in any order, tables removed); non-trivial: more than three jobs started; more than three instances (bursts); distinct by choices"},
    "C09": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon9", "queue"], "rule": "tables of 1-40 lines run by the daemon's main loop over 1-2 lives of 15 minutes to 6 hours of virtual time, with jobs of random length, small queues, fork failures, edits, reloads and injected events (mostly serial jobs); every start, reap, read of the spool directory and sleep is compared with the model; and bursts of up to thousands of instances of 1-20 lines on the queues and counters themselves (several instances, queues up to 900 jobs, failing starts, ends in any order, tables removed); non-trivial: more than three serial starts; more than three instances (bursts); distinct by choices"},
    "C10": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon10", "queue"], "rule": "tables of 1-40 lines run by the daemon's main loop over 1-2 lives of 15 minutes to 6 hours of virtual time, with jobs of random length, changing load averages, small queues, fork failures and edits (mostly lavg jobs); every start, reap, read of the spool directory and sleep is compared with the model; and bursts of up to thousands of instances of 1-20 lines on the queues and counters themselves (several instances, queues up to 900 jobs, failing starts, ends in any order, tables removed); non-trivial: at least two starts or drops from the load queue; more than three instances (bursts); distinct by choices"},
    "C11": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon11"], "rule": "tables of 1-6 lines run by the daemon's main loop over 2-4 lives of 15 minutes to 3 days of virtual time, with jobs of random length, stops, kills, reboots, suspends and edits; every start, reap, read of the spool directory and sleep is compared with the model; non-trivial: a missed, interrupted or run-at-startup job; distinct by choices"},
    "C12": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon12"], "rule": "tables of 1-40 lines run by the daemon's main loop over 2-4 lives of 15 minutes to 3 days of virtual time, with jobs of random length, downtime, suspends, load and small queues; the mails handed to a stub sendmail are parsed and compared as a multiset; every start, reap, read of the spool directory and sleep is compared with the model; non-trivial: at least one report of non-execution; distinct by choices"},
    "C13": {"technique": "property-based testing: round trip of generated tables through fcrontab's and the daemon's save and load against the model of the text, under AddressSanitizer", "note": "Bounded random exploration; trusts the model in harness/tabmodel.hpp.", "harness": ["save"], "rule": "fcrontab texts parsed and saved by fcrontab's code, loaded by the daemon's, then 1-4 rounds of random changes of the saved state, save and reload; non-trivial: at least one job and one string or round of changes; distinct by choices"},
    "C14": {"technique": "property-based testing: structure-aware mutation of spool files, under AddressSanitizer", "note": "Bounded random exploration; memory safety is what AddressSanitizer sees on the executed inputs.", "harness": ["damage"], "rule": "valid spool files truncated, bit-flipped, spliced, with hostile sizes, types and values, or of another owner, loaded by a daemon which holds other users' tables; non-trivial: the file differs from the valid one; distinct by bytes"},
    "C15": {"technique": "property-based testing: generated histories of saves with injected system-call failures, short transfers and process deaths, under AddressSanitizer", "note": "Bounded random exploration; the files are real, a power failure is modelled as the loss of data neither written with O_SYNC nor synchronised; failures of remove() on the spool's removal orders are outside the property.", "harness": ["crash"], "rule": "histories of 1-8 installations, periodic saves, readings of the spool directory, removals and restarts over 1-3 versions of a table, each with up to two faults at the n-th open, write, fdatasync, rename, close, fchown, fchmod, remove, fstat, read or fopen (failure once or for good, short write, death before or after it, power failure); after each step the files must hold the old or the new bytes, a restart must load the version in force, success must mean stored, and no descriptor may leak; non-trivial: a fault was met; distinct by choices"},
    "C16": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon16"], "rule": "tables of 1-4 for each of 1-4 users lines run by the daemon's main loop over 1-2 lives of 15 minutes to 6 hours of virtual time, with jobs of random length, up to 6 edits per life (lines added, removed, changed, swapped; tables removed), at any moment including during the reload; every start, reap, read of the spool directory and sleep is compared with the model; non-trivial: a line kept over an edit; distinct by choices"},
    "C17": {"technique": "property-based testing: hostile tables and crafted spool files loaded by the daemon's code and run in really forked processes whose identity changes are recorded", "note": "Bounded random exploration; setuid/setgid/initgroups, PAM, exec and the mailer are stand-ins which record; file ownership is real, in a scratch directory.", "harness": ["job17"], "rule": "tables with hostile runas, USER, LOGNAME, MAILTO, MAILFROM, environment and user prefixes, parsed as the user or by root for the user, as root's or the system table, and spool records edited by the user, under several file names; non-trivial: at least one line is loaded and run or reported; distinct by input"},
    "C18": {"technique": "property-based testing: generated tables, options, environments and faults; the job's real forked processes against a model of the documented environment", "note": "Bounded random exploration; identity, PAM, exec and the mailer are stand-ins which record; fork, pipes, descriptors, signals and umask are real.", "harness": ["job18"], "rule": "one line of root or a user with random options, table environment, PAM environment, fcron.conf shell, passwd entry, descriptors with short reads, and in half of the cases one of 12 faults; non-trivial: the table sets a variable, runs as another user or a fault is injected; distinct by input"},
    "C19": {"technique": "property-based testing: generated job outputs and outcomes through real pipes against a model of the mail rules", "note": "Bounded random exploration; exec and the mailer are stand-ins which record; fork, pipes and the temporary file are real.", "harness": ["job19"], "rule": "job outputs of 0-200 KB in chunks on both descriptors (NUL, long lines, no final newline, processes left behind), exit codes and signals, mail options, huge environments, foreground and background; non-trivial: mail wanted and output, failure or forcemail; distinct by input"},
    "C20": {"technique": "property-based testing: generated names, addresses and hosts against an independent parser of mail headers, under AddressSanitizer", "note": "Bounded random exploration; trusts the parser in harness/mailmodel.hpp.", "harness": ["mail"], "rule": "display names (quotes, specials, long runs, lengths around the maximum), senders with and without domain, host names of any length (gethostname failing or not terminating) through format_maildisplayname, make_mailbox_addr and create_mail; non-trivial: a name with a special character, refused, or near a limit; distinct by choices"},
    "C21": {"technique": "property-based testing: stateful model-based testing of the control socket with several real clients", "note": "Bounded random exploration; the sockets are real, the password check, kill, setpriority, fork of the job and the clock are stand-ins.", "harness": ["dyn21"], "rule": "sequences of messages of up to several clients of different identities (peer credentials, password authentication right, wrong, oversized or incomplete, too many failures, commands before authentication, foreign jobs, users and ids) against a daemon with 0-12 lines and jobs in every queue; every reply byte, job state, signal and start is compared with the model; non-trivial: an unauthenticated message, an incomplete one or a command of a user who is not root; distinct by choices"},
    "C22": {"technique": "property-based testing: stateful model-based testing of the control socket with several real clients", "note": "Bounded random exploration; the sockets are real, the password check, kill, setpriority, fork of the job and the clock are stand-ins; one known finding: a client which does not read loses answers.", "harness": ["dyn22", "daemon22"], "rule": "sequences of all commands (list, by queue, detail, run, run and reschedule, signal, renice, unknown) with users and ids present, absent and extreme, against a daemon with jobs waiting, queued and running; the rows listed, replies and effects are compared with the model; and runs of the whole daemon on a virtual operating system in which a client asks for runnow and run at any moment, every start and sleep compared with the model; non-trivial: a list with at least one job or a command acting on one (dyn22), a job started by a command (daemon22); distinct by choices"},
    "C23": {"technique": "property-based testing: stateful fault injection by clients of the control socket, under AddressSanitizer", "note": "Bounded random exploration; exhaustion of the daemon's descriptors by over a thousand connections is outside the property.", "harness": ["dyn23"], "rule": "sequences of connects, garbage, messages in pieces, half closes, closes with a request pending, clients which do not read, idle periods, up to 1100 descriptors, with other clients' sessions going on; replies, connection list, descriptors and jobs are compared with the model; non-trivial: a disturbance, an idle client dropped or too many connections; distinct by choices"},
    "C24": {"technique": "property-based testing: generated command lines and answers against an independent reading of fcrondyn(1), under AddressSanitizer", "note": "Bounded random exploration; the client's real main() runs; socket, accounts and password are stand-ins.", "harness": ["dyncl"], "rule": "command lines of commands, abbreviations, numbers (extreme, signed, hexadecimal), signal names, users, blanks, missing and extra arguments, given by -x or typed in several lines, with options; answers of any lines split at any byte, closed or silent; the bytes sent, the output and the exit status are compared with the model; non-trivial: a command sent or a line rejected for its arguments; distinct by choices"},
    "C25": {"technique": "property-based testing: generated policy files against an independent model of the rules, under AddressSanitizer", "note": "Bounded random exploration.", "harness": ["allow"], "rule": "fcron.allow and fcron.deny absent, unreadable or with users, partial names, 'all', blanks, comments and lines around the length limit, for several users; non-trivial: at least one policy file with a line about the user, a partial name or 'all'; distinct by choices"},
    "C26": {"technique": "property-based testing: generated fcron.conf files against an independent model, under AddressSanitizer", "note": "Bounded random exploration.", "harness": ["conf"], "rule": "fcron.conf texts of valid settings, unknown names, partial names, missing values, comments, quotes and lines around the length limit, with every owner, group and mode; non-trivial: at least one setting and one other line, or a file not trusted; distinct by choices"},
    "C27": {"technique": "property-based testing: generated histories of fcrontab's real main() with injected system-call failures and deaths, against a model of the texts and tables", "note": "Bounded random exploration; fcrontab's main() runs in a process per step on a private spool directory, its system calls failing or ending it at a chosen point; trusts the models of the language (refparse) and of the spool in harness/h_fcrontab.cpp.", "harness": ["fcrontab"], "rule": "histories of 1-9 steps of fcrontab (install from a file or the standard input, -e with editors of every behaviour, -l, -r, -z, -n, for oneself, another user, a bare user as root, systab), by root and by several users, with 0 or 1 system call failing or killing in each step; after each the text, the table, the removal order, the listing, the exit status and the signal to the daemon are compared with the model; non-trivial: a successful installation, removal or listing and either an injected failure or at least three steps; distinct by choices"},
    "C30": {"technique": "property-based testing: generated messages against an independent formatting, under AddressSanitizer", "note": "Bounded random exploration; that strings are never formats is decided on every call of the printf family the generated cases make, in all programs.", "harness": ["logs"] + FORMATS, "rule": "every logging function with formats and arguments of lengths around the maximum, error strings, user names and format directives as data, to syslog, stderr and a client; and the cases of the other harnesses, in which every format given to the printf family, make_msg() and syslog() by fcron, fcrontab and fcrondyn must be a constant of the program; non-trivial: a message at or over the limit or with a directive in its data, or as the other harnesses state; distinct by choices"},
    "C28": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon28"], "rule": "tables of 1-5 lines run by the daemon's main loop over 1-3 lives of 15 minutes to 6 hours of virtual time, with jobs of random length, all queues, signals injected between the daemon's steps; each requested sleep is compared with the earliest event the model knows; every start, reap, read of the spool directory and sleep is compared with the model; non-trivial: at least two jobs started; distinct by choices"},
    "C29": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals, load and suspends; trusts the reference model in harness/refdaemon.hpp.", "harness": ["daemon29", "suspfile"], "rule": "tables of 1-5 lines run by the daemon's main loop over 1-2 lives of 15 minutes to 6 hours of virtual time, with jobs of random length, suspends of 1 s to 3 days with and without notification, late wake-ups; every start, reap, read of the spool directory and sleep is compared with the model; non-trivial: a suspend noticed; suspfile: the suspend file as every kind of file, owner, mode and text (signs, blanks, overflows, NUL, long, junk), with failing calls: a duration is taken only from a regular file of root nobody else can write, never longer than the sleep, and once; distinct by choices"},
    "C31": {"technique": "property-based testing: stateful model-based testing of the lists under AddressSanitizer", "note": "Bounded random exploration; memory safety is what AddressSanitizer sees on the executed operations.", "harness": ["lists"], "rule": "operation sequences (about 60 operations) on u_list (elements of 1 to 40 bytes, any growth), exe_list, lavg_list, env_list and the sorted job queue against multiset, ordered-map and sorted-set models; non-trivial: an element removed during an iteration, a variable overwritten or a queued job moved; distinct by choices"},
    "C32": {"technique": "property-based testing: generated schedules of several processes, interleaved at system call granularity, against a history oracle", "note": "Bounded random exploration of schedules; fcronsighup's real main() runs in each process, on a virtual clock.", "harness": ["sighup", "sighup5"], "rule": "1-6 invocations of fcronsighup by root, allowed and refused users, atomic, interleaved or preempted at any system call, with a daemon, a stale pid file or none, and failing calls; the signals received by the daemon are compared with the requests; non-trivial: one process waited and there were at least two invocations; distinct by choices"},
    "C33": {"technique": "property-based testing: stateful model-based testing of the whole daemon on a virtual operating system", "note": "Bounded random exploration; the daemon's real main() runs with virtual clock, processes, signals and load; a job over its load threshold stays for the next start.", "harness": ["daemon33"], "rule": "histories of 1-5 lives of the daemon, most with option once, over generated tables of every kind of line, down times, load averages, serial limits, queue lengths and lengths of jobs; starts, ends, mails, exit and saved tables are compared with the model; non-trivial: at least two jobs were started in a life with the option; distinct by choices"},
    "C34": {"technique": "property-based testing: generated schedules of several daemons starting, ending and dying, interleaved at system call granularity, against a history oracle", "note": "Bounded random exploration of schedules; the daemon's real main() runs in really forked processes on real files and locks up to its first sleep; its tables are empty there, and the order of the pid file's removal and the last saves is decided in the model-based daemon histories (daemon28).", "harness": ["start34", "daemon28"], "rule": "2-9 starts in foreground or background with one or two configurations, one at a time, interleaved or preempted at any system call, with stale pid files, SIGTERMs and kills; non-trivial: a daemon came up, and a start was refused or another one came up; distinct by choices"},
    "C35": {"technique": "property-based testing: generated command lines against an independent reading of fcron(8)", "note": "Bounded random exploration; the daemon's real main() runs up to its first sleep; numbers followed by other characters and the exit status of -h are not specified and not generated.", "harness": ["start35"], "rule": "0-6 options in all forms and orders with values in range, at the limits, beyond, wrapping 8, 16, 32 and 64 bits or no numbers, unknown options, missing and extra arguments, users, existing and new spool directories; non-trivial: two options or more, or refused, or a new spool directory; distinct by choices"},
    "C36": {"technique": "property-based testing: generated histories of edits, runs and command lines of the script against a reference model", "note": "Bounded random exploration; the script runs under /bin/sh as an unprivileged user on a directory of its own, with its default paths replaced and fcrontab, logger and sleep replaced by recorders; removal of the two single files, unreadable files and links are only decided as far as documented.", "harness": ["syscron"], "rule": "1-7 runs between edits, additions and removals of the files of cron.d (hidden, backup, names with blanks, links, directories), crontab, fcrontab and the installed table, with all options, fcrontab found in four places or nowhere, or failing; non-trivial: an unforced run installed the table because of a change, in a history of two runs or more; distinct by choices"},
    "C37": {"technique": "property-based testing: generated histories of suspends and resumes against a reference model", "note": "Bounded random exploration; the real script, generated by the real gen-in.pl, runs as an unprivileged user on real processes and files of a scratch directory; the length of a suspension is simulated by moving the file's time.", "harness": ["susphook"], "rule": "1-6 calls (suspend and resume words of both frameworks, wrong ones) with suspensions of 0 s to weeks or clocks set back, left-over files, with and without a daemon, which consumes the file or not; non-trivial: the daemon was stopped, resumed and told a length; distinct by choices"},
}
NOT_CLAIMED = {}
