#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as one readable source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A valid fcrontab becomes exactly the jobs its documented syntax describes",
  "Every valid fcrontab line (time-and-date fields with lists, ranges, exclusions, steps, names and random picks; uptime frequencies with unit suffixes; once-per-period keywords and fields; @shortcuts) yields exactly one job, in file order, holding exactly the set of minutes, hours, days, months and week days (or the frequency) and the command that fcrontab(5) describes. Comments, blank lines, backslash continuations, quoted and unquoted environment assignments are interpreted as documented, and the environment variables keep their order and values.",
  ["inputs"], "All fcrontab texts built from the fcrontab(5) grammar: any mix of line kinds, field shapes, names in any case, whitespace, continuations and environment assignments.",
  "The existing tests call four line readers on about twenty fixed strings; the grammar is combinatorial (ranges x exclusions x steps x names x line kinds x continuations).",
  ["fileconf.c", "env_list.c", "cl.c"], [("line readers and field readers", "fileconf.c"), ("get_line continuation handling", "fileconf.c")],
  ["the parsed table: one job record per line, its field sets, frequency, command and environment"])
p("C02", "Line options apply with the documented scope, default, inheritance and effect",
  "An option on a global '!' line applies to every following line until it is changed or reset, an option given on a job line applies to that line only and overrides the global value, and reset restores the documented defaults. Each documented option (with its full or short name, boolean, numeric, time or string argument) sets exactly what it documents, whatever other options stand beside it.",
  ["inputs"], "All sequences of global option lines and job lines with any options, argument forms and orders.",
  "Tests check a couple of options on one line; inheritance, override and reset interact over whole files and over every pair of options.",
  ["fileconf.c", "option.h", "cl.c"], [("option parser and option bit field", "fileconf.c read_opt, option.h")],
  ["option state of each parsed job"])
p("C03", "Any bytes given as an fcrontab are handled safely and bad lines are contained",
  "For any byte sequence the fcrontab parser terminates without memory error, and the jobs it produces are well formed (field values in range, printable by the tools). A malformed line is reported as an error, produces no job, and does not change how any other line of the file is interpreted. When a table is longer than the maximum the jobs which are left out are the last ones, and a message says so.",
  ["inputs"], "All byte strings up to tens of kilobytes, including malformed, truncated, very long and binary lines, alone or among valid lines.",
  "Tests only feed a few dozen hand-written malformed lines one at a time to single line readers, never whole files and never under a memory checker.",
  ["fileconf.c", "cl.c", "env_list.c", "u_list.c"], [("error counting, per-line discard and default-line reset", "fileconf.c")],
  ["parser return status, error log, parsed table, sanitizer"])
p("C04", "A time-and-date job is scheduled at the first matching minute after now",
  "For every time-and-date line, current time and time zone without a clock change in between, the next execution chosen is the earliest whole minute strictly after the current minute that matches the minute, hour and month fields and the day-of-month and day-of-week fields (both, or either when dayor is set). With a jitter the time lies within [that minute, that minute + jitter).",
  ["inputs", "histories"], "All field sets, option settings and current times (years 1971-2120 including leap days, month and year ends), and chains of successive executions.",
  "No existing test computes any execution time; the answer depends on calendar arithmetic over every field combination and date.",
  ["database.c"], [("field-by-field forward search", "database.c set_next_exe")], ["next execution time of the job in the daemon's queue"])
p("C05", "Time zones and daylight saving changes shift schedules as documented",
  "Lines with the timezone or tzdiff option are scheduled in that zone's local time, and scheduling one line never changes the zone used for any other line or for the daemon. Across a daylight-saving change a job whose time exists and is unambiguous still runs exactly once at that local time; one whose time lies in a skipped hour is run once close to the change or left out, as the FAQ says, never repeatedly, one whose time is repeated runs once or at each of its occurrences, and no schedule ever lies in the past.",
  ["inputs", "histories"], "All field sets, zones (with and without DST, both hemispheres, fractional offsets) and current times around DST changes; mixed sequences of lines in different zones.",
  "No test touches time zones; the failures only show within hours of a DST change or on alternation of zones.",
  ["database.c", "subs.c"], [("switch_timezone / set_next_exe restore", "database.c, subs.c")], ["next execution time; process TZ after each scheduling call"])
p("C06", "A once-per-period job runs exactly once in each of its periods",
  "For every '%' line, over any stretch of time during which the daemon runs, the job is executed exactly once in each of its intervals (hour, day, month, week or the field-defined interval of fcrontab(5)) that contains a matching minute, always at a matching minute, and never twice in the same interval.",
  ["inputs", "histories"], "All keyword and field combinations of '%' lines, all start times, histories of many consecutive executions with delays.",
  "No existing test runs or schedules a '%' line; exactness is a statement over a whole history of executions.",
  ["database.c", "fileconf.c"], [("goto_beginning_next_period / ignored-field walk", "database.c")], ["successive execution times"])
p("C07", "Uptime-based jobs run after exactly their frequency of system up time",
  "An '@' line first runs after its first() delay (its frequency by default) and then every frequency, counted in time the daemon is up (or over real time for volatile-style resets as documented); time left is preserved across clean stop, restart and reload, and reset at boot when rebootreset is set. Time during which the system is suspended or the daemon is down is not counted.",
  ["inputs", "histories"], "All frequencies, first values and options, over histories of running, stopping, rebooting, suspending and reloading.",
  "Tests only parse '@' lines; accounting is over multi-step histories with restarts.",
  ["database.c", "conf.c", "fcron.c", "suspend.c"], [("remaining-time bookkeeping", "conf.c save_file/add_line_to_file, database.c set_next_exe_notrun/ set_next_exe_startup")], ["execution times and saved remaining time"])
p("C08", "Every due job is started exactly once, never early, never overlapping itself",
  "At each wake-up every job whose time has come is started (or put in its serial or load queue) exactly once, and no job is started before its time, during the first sleep after the daemon's start, or while an earlier instance of it runs (unless exesev is set, or serialonce or lavgonce are off for a job waiting in those queues). Runfreq, runonce and per-job instance accounting stay correct after job ends, failures to start and wake-ups that come late.",
  ["histories", "schedules", "fault_sequences"], "All sets of jobs and options, all interleavings of clock advances, job completions, failed forks and late wake-ups.",
  "No existing test runs the daemon's dispatch loop; the property is over histories.",
  ["database.c", "job.c", "exe_list.c", "fcron.c"], [("test_jobs, wait_chld, exe list", "database.c")], ["starts and ends of jobs in the order the daemon issues them"])
p("C09", "Serial jobs run in order, within the configured bound, and none is lost",
  "Jobs marked serial are started in the order they became due, at most the configured number at a time, each queued instance being run exactly once as capacity frees up. A job is queued at most once at a time unless serialonce is off, and neither the growth of the queue, nor reaching its limit, nor failed starts nor the removal of tables wedges the queue or changes the order of what is in it.",
  ["histories", "fault_sequences"], "All histories of serial jobs becoming due and finishing, with queue growth, queue limits, removal of queued jobs and failed starts.",
  "No test exercises the serial queue; ordering faults need growth after wrap-around.",
  ["database.c"], [("ring buffer serial_array", "database.c add_serial_job/run_serial_job/remove_from_serial")], ["order of starts; number running"])
p("C10", "Load-average jobs wait for the load they ask for, and no longer than until()",
  "A job with lavg limits is started only when the current load average is below its limits (all of them by default, any of them with lavgor), or once its until() delay has passed (when it is run or dropped as runatlavg-expiry options say). A queued job is queued at most once unless lavgonce is off, every queued job is eventually run or dropped exactly once, and queue limits are respected.",
  ["histories", "inputs"], "All limits, load histories, until values and lavgand/lavgor, lavgonce, strict, serial combinations.",
  "No test exercises the load queue.",
  ["database.c", "lavg_list.c", "u_list.c"], [("check_lavg", "database.c")], ["job starts against the load average history"])
p("C11", "Jobs missed or interrupted across downtime are handled as their options say",
  "After the daemon restarts, each job is run at once, scheduled for its next normal time, or reset exactly as its options (bootrun, runatreboot, runonce, volatile, rebootreset, strict, and whether the system rebooted or was only suspended) document, and a job interrupted before its queue turn is requeued. No job is run twice for the same due time and none is silently forgotten.",
  ["histories", "configurations"], "All line kinds and option combinations, stop and start times, reboot or plain restart or resume.",
  "No test restarts the daemon.",
  ["conf.c", "database.c", "fcron.c"], [("set_next_exe_startup", "database.c/conf.c")], ["queue after load, jobs run at startup, saved state"])
p("C12", "Non-execution is notified exactly when requested and with the true dates",
  "A mail reporting missed executions is sent for a job exactly when it has noticenotrun and executions were missed (system down, suspended, load too high, queue full, or period over), and the dates and cause it states are the true ones. Jobs without the option, and jobs that missed nothing, never trigger one.",
  ["histories", "configurations"], "All line kinds, options, downtime windows and notification causes.",
  "No test covers notices; causes arise only over histories.",
  ["database.c", "mail.c", "job.c"], [("mail_notrun", "database.c")], ["mail text handed to sendmail"])
p("C13", "Saving and loading a table preserves every job, option and variable",
  "A table installed by fcrontab and loaded by the daemon, and one saved by the daemon and loaded again any number of times, has the same jobs with the same fields, options, commands, recipients, zones, remaining times and environment. Nothing that can be expressed in an fcrontab is lost, truncated or altered on the way.",
  ["inputs", "histories"], "All tables the parser can produce, with any string lengths it accepts, over repeated save and load.",
  "No test saves or loads a table.",
  ["conf.c", "save.c", "fcrontab.c", "fileconf.c"], [("save_file/read_file record format", "conf.c, save.c")], ["in-memory table before save and after load"])
p("C14", "A damaged or foreign spool file never harms the daemon",
  "Whatever bytes a spool file holds (truncated, bit-flipped, wrong version, wrong sizes), loading it terminates without memory error and either yields well-formed jobs or is rejected as a whole, leaving the other users' tables and the queue as they were. A file that is not owned as required is never loaded.",
  ["inputs", "fault_sequences"], "All byte strings and all mutations (truncation, bit flips, spliced records, hostile sizes) of valid files; all owners.",
  "No test loads a spool file, valid or not.",
  ["conf.c"], [("read_file / read_strn / Read", "conf.c")], ["return status, queue contents, sanitizer"])
p("C15", "An interrupted save leaves the old or the new table, never a mixture",
  "If saving a table fails or the process dies at any point (any write, sync, rename or permission call failing or being cut short), the stored table is afterwards either the complete previous one or the complete new one, and no partial file is ever taken for a table. A save that reports success has stored everything.",
  ["crash_points", "fault_sequences"], "All save operations, with failure, short transfer or process death at every system call.",
  "No test saves a file or injects a fault.",
  ["save.c", "conf.c", "fcrontab.c"], [("temporary file + fsync + rename", "save.c")], ["directory content after the fault"])
p("C16", "Table changes reach the running daemon completely and without side effects",
  "When a user's table is replaced or removed, the daemon afterwards holds exactly the new table's jobs (or none), lines unchanged from the old table keep their schedule, remaining time and run count, and all other users' jobs are unaffected. Jobs of the old table that are queued or running never run again or corrupt later bookkeeping.",
  ["histories"], "All sequences of install, replace, remove and reload over several users with jobs scheduled, queued and running.",
  "No test exercises reloading; the property is over update histories.",
  ["conf.c", "database.c"], [("synchronize_dir/synchronize_file, delete_file", "conf.c")], ["queue contents after each synchronisation"])
p("C17", "A table can only ever act for its owner",
  "Whatever a non-root user puts in a fcrontab or spool file, every job loaded from it runs as that user: runas is honoured only for tables belonging to root or the system table. Recipient, sender and option strings can never turn into command-line options of the mailer or shell commands run as someone else.",
  ["inputs"], "All table texts and spool records for owner users and root, all values of runas, mailto, mailfrom, USER, LOGNAME.",
  "No test covers ownership.",
  ["fileconf.c", "conf.c", "job.c", "mail.c"], [("runas check in parser and in loader", "fileconf.c, conf.c")], ["user each job is set to run as; mailer argv"])
p("C18", "Jobs run as the right user with the documented environment",
  "Each job is executed by its shell with its exact command, after dropping to the uid, gid and groups of the user it runs as (never with remaining root identity, and not at all if the drop fails), at its nice value. Its environment holds the documented HOME, USER, LOGNAME, SHELL and the table's variables with the documented precedence.",
  ["inputs", "fault_sequences"], "All environment tables, users, nice values and commands; failure of each identity system call.",
  "No test starts a job.",
  ["job.c", "env_list.c"], [("become_user / run_job_child", "job.c")], ["recorded identity system calls, exec arguments and environment"])
p("C19", "Job output is mailed exactly when the options require it, complete",
  "A mail is sent for a job exactly when its options and outcome require it (output with mail set, mailzerolength, forcemail, erroronlymail with a failure, nolog-independent), to its recipient, containing the job's complete output and true exit status. No output is lost, duplicated or truncated, whatever its size, and jobs without a mail requirement send none.",
  ["inputs", "histories"], "All mail option combinations, output sizes and contents, exit statuses and signals.",
  "No test runs a job.",
  ["job.c", "mail.c"], [("end_job / launch_mailer", "job.c")], ["mailer arguments and standard input"])
p("C20", "Mail address headers are correctly quoted and never overflow",
  "For any sender, hostname and display name the From and To header values produced are within their stated maximum, terminated, and parse back to the same address and display name; special characters are quoted, and an address that already has a domain is not given another one. Values too long are rejected or truncated safely.",
  ["inputs"], "All strings of any length and bytes for the user, host and display name.",
  "Tests check a dozen fixed strings; buffer boundaries and escapes near the limit are not reached.",
  ["mail.c", "fcronconf.c"], [("make_mailbox_addr, format_maildisplayname", "mail.c")], ["returned header strings"])
p("C21", "fcrondyn acts only for authorised users and shows only their own jobs",
  "A connection can do nothing before successful authentication, and afterwards a non-root user can list and act only on jobs belonging to them; root can act on all. No sequence of messages gives a client more than that. After ten failed authentications further attempts are refused for a minute, right password or not.",
  ["histories", "inputs"], "All message sequences from several clients with different identities, including unauthenticated and malformed ones.",
  "No test covers the control socket.",
  ["fcrondyn_svr.c"], [("is_auth / is_root checks", "fcrondyn_svr.c")], ["replies and daemon state changes"])
p("C22", "fcrondyn commands do exactly what they say to exactly the job named",
  "Listing shows every job of the requested kind and user with its true identifiers, next execution and state; run-now, run-and-reschedule, kill/send-signal and renice act once on exactly the named job and on no other, and the reply matches what happened; a job asked for is started then, as its queue permits, not at some later wake-up, and keeps the rest of its schedule. Unknown ids and impossible requests are answered by an error and change nothing.",
  ["histories", "inputs"], "All command sequences against any set of waiting, queued and running jobs.",
  "No test covers fcrondyn commands.",
  ["fcrondyn_svr.c", "database.c"], [("cmd_ls, cmd_on_exeq, cmd_run", "fcrondyn_svr.c")], ["reply text; job starts, signals, priorities"])
p("C23", "No client can disturb the daemon or another client",
  "Whatever bytes a client sends or whenever it stops, the daemon does not crash, block, read stale or uninitialised data or leak descriptors, and other clients' sessions and the jobs go on unaffected. A client's connection is dropped on error or idleness, and only that one.",
  ["inputs", "histories", "fault_sequences"], "All interleavings of connects, arbitrary partial messages, closes and idle periods of several clients.",
  "No test opens the socket.",
  ["fcrondyn_svr.c", "select.c"], [("fcrondyn socket loop, select set handling", "fcrondyn_svr.c, select.c")], ["client list, descriptor set, replies"])
p("C24", "fcrondyn sends the command the user typed",
  "Every command line accepted by fcrondyn is encoded into the request the daemon decodes as the same command, user, job id, signal or priority; any other line is rejected with an error and sends nothing. No input line overflows or leaks memory contents to the daemon. The daemon's whole answer is printed, in whatever pieces it arrives, and a lost or silent daemon is reported.",
  ["inputs"], "All command lines: command names and abbreviations, numbers, signals, users, spacing, extra and missing arguments.",
  "No test covers fcrondyn.",
  ["fcrondyn.c", "dyncom.h"], [("parse_cmd", "fcrondyn.c")], ["bytes sent on the socket, or none"])
p("C25", "Only users permitted by the allow and deny files may use fcrontab",
  "A user may use fcrontab exactly when fcron.allow lists them (or 'all') or, when not decided there, fcron.deny does not, as documented; names match whole lines only, whatever the other contents, order, line lengths and spacing of the files. If the policy files cannot be read, access is not silently widened.",
  ["inputs", "configurations"], "All allow and deny file contents (absent, empty, long lines, 'all', partial names, trailing blanks).",
  "No test covers the access check.",
  ["allow.c"], [("in_file / is_allowed", "allow.c")], ["allowed or refused"])
p("C26", "Configuration files set exactly the named settings and are read only if trusted",
  "Every 'name = value' line of fcron.conf sets exactly the setting of that name to that value, unknown names and bad values are reported and change nothing, comments and blanks are ignored, and settings not named keep their defaults. A configuration file that is not owned by root or is writable by others is refused.",
  ["inputs", "configurations"], "All fcron.conf texts; all owner and mode combinations.",
  "No test reads a configuration file.",
  ["fcronconf.c", "subs.c"], [("read_conf", "fcronconf.c")], ["settings after reading"])
p("C27", "fcrontab installs, lists and removes a table faithfully",
  "After installing a text, listing gives back exactly that text byte for byte, and the stored table is the one that text describes; removing leaves neither, and the daemon is told in each case. A failed install leaves the previously installed table and text in place.",
  ["inputs", "histories", "fault_sequences"], "All texts, sequences of install, list, remove and reinstall by several users, and failing steps.",
  "No test runs fcrontab.",
  ["fcrontab.c", "fileconf.c", "conf.c"], [("install_stdin, make_file, list_file, remove_fcrontab", "fcrontab.c")], ["listing output, spool directory"])
p("C28", "The daemon always wakes up in time for the next job and for saving",
  "However jobs, queues and clients change, the delay until the next wake-up never goes beyond the earliest job, load check or periodic save due, and never becomes negative or a busy loop. Tables are saved at least at the configured interval and at exit, so no more than that interval of uptime accounting is lost.",
  ["histories"], "All job sets, clock advances, queue states and save intervals.",
  "No test runs the daemon's main loop.",
  ["fcron.c", "database.c"], [("next_wake_time / main_loop", "database.c, fcron.c")], ["sleep request against the queue; save events"])
p("C29", "Suspend time is detected and not counted as up time",
  "When the machine was suspended, by notification file or clock jump, each uptime-based job's next time is moved by the length of the suspension, queued loads' until are kept, time-and-date jobs missed meanwhile are treated as their options say, and a mere delay is not taken for a suspension. Invalid suspend files are ignored.",
  ["histories", "inputs"], "All clock jumps and suspend-file contents and owners, over all kinds of jobs.",
  "No test covers suspend.",
  ["suspend.c", "database.c"], [("check_suspend", "suspend.c")], ["next execution times after the check"])
p("C30", "Log messages are bounded, complete and never corrupt memory",
  "Logging any format and argument of any length, with or without error strings, at any level, neither overflows nor drops the message's beginning: the emitted text is the formatted message truncated at the documented maximum. Strings from users are only ever data, never formats.",
  ["inputs"], "All message lengths around the maximum and all argument contents, all levels and destinations.",
  "No test checks log texts near the limit.",
  ["log.c"], [("make_msg, log functions", "log.c")], ["text given to syslog or the log file"])
p("C31", "The lists of queued and running jobs stay consistent under any operation order",
  "Under any sequence of additions, iterations, removals during iteration and growth, the job lists (running jobs, load queue, variables) visit every live element exactly once and never one that was removed. Elements keep their contents across growth.",
  ["histories"], "All operation sequences on the running-job, load-queue and environment lists, with growth and removal during iteration.",
  "One existing test applies a fixed short sequence to one list.",
  ["u_list.c", "exe_list.c", "lavg_list.c", "env_list.c"], [("u_list iteration and removal", "u_list.c")], ["elements visited"])
p("C32", "Every authorised change request reaches the running daemon within its delay",
  "After each authorised run of the signalling helper, whoever runs it and however many run at once, the running daemon gets a reload signal sent after that request and not later than the delay the helper announces. At most one process waits on behalf of the others, so that any number of requests gives a bounded number of signals; users who are not allowed cause no signal. A request that cannot be honoured is reported and fails.",
  ["histories", "schedules", "fault_sequences"], "All interleavings of several invocations at system call granularity, at any moments and by any users, with daemons present, absent and replaced, and failing system calls.",
  "No test runs the signalling helper.",
  ["fcronsighup.c", "subs.c", "allow.c"], [("main / sig_daemon / read_pid", "fcronsighup.c")], ["signals sent, their times and targets; exit codes and messages"])
p("C33", "With option once, every job due runs, is waited for, and the daemon returns",
  "Started with option once, the daemon runs at once each job which is due at the start, including missed runs which are to be made up for and the jobs of the serial and load queues that may run, never more serial jobs at once than allowed. It waits for all of them, saves the tables so that nothing is run twice or lost by the next start, and returns status 0. No job which is not due is run.",
  ["histories"], "All tables, options, down times, loads, queue limits and lengths of jobs, over several starts with and without the option.",
  "No test runs the daemon, and the outcome depends on what was saved by former lives and on how long jobs last.",
  ["fcron.c", "database.c", "job.c"], [("main_loop / may_run_now / check_lavg / wait_chld", "fcron.c, database.c")], ["jobs started, ends waited for, exit, saved tables"])
p("C34", "At most one daemon runs per configuration, and its pid file names it",
  "However starts, ends by SIGTERM and deaths of daemons interleave, two daemons never run at the same time with the same pid file. A start is refused, with status and message and without touching the running daemon's pid file, only when another daemon is there; a pid file left by a dead daemon does not prevent a start. While a daemon runs its pid file holds exactly its pid; it is removed at the end, not before jobs have been waited for and tables saved. Daemons with other pid files are independent.",
  ["schedules", "crash_points", "histories"], "All interleavings of starting, ending and dying daemons between two system calls, in foreground and background, with any stale pid file.",
  "No test starts the daemon, let alone two.",
  ["fcron.c"], [("get_lock / xexit / main", "fcron.c")], ["content of the pid file, exit status, messages, daemons running together"])
p("C35", "The daemon's command line takes effect as documented or is refused",
  "Every command line of the daemon, in short, long, joined and grouped forms and any order, sets exactly the documented parameters: save interval, first sleep, serial and queue limits, debug, once, foreground or background, logging to syslog and to a file, configuration file. A number out of its documented range or no number at all, an unknown option or argument, or a user other than root are refused before anything is started or changed. With a new spool directory requested, a directory with the documented mode and owner results, or an error.",
  ["inputs"], "All sequences of options and values, including values which overflow the types used, relative and absolute paths.",
  "No test covers the daemon's options.",
  ["fcron.c", "log.c"], [("parseopt / create_spooldir / main", "fcron.c")], ["parameters in force at the first sleep, files, exit status, messages"])
p("C36", "The system crontabs are installed whenever they have changed",
  "Each run of check_system_crontabs installs, as the system table systab, the concatenation of the system crontab, the files of the system crontab directory in order of name (without backup and hidden files and directories) and the system fcrontab, if one of them or the directory is newer than the installed table, if there is no installed table, or if forced; otherwise it installs nothing. Lines are unchanged but for leading Vixie shortcuts. Options take effect as documented; a wrong command line, a wrong delay or a missing fcrontab are refused, and no temporary file is left.",
  ["histories", "inputs"], "All histories of edits, additions, removals and runs, all contents and command lines.",
  "No test runs the script, and the outcome depends on the times of many files and of the last installation.",
  ["script/check_system_crontabs.sh"], [("rebuild_and_notify, the checks for changes", "script/check_system_crontabs.sh")], ["calls of fcrontab, text installed, wait, exit status, files left"])
p("C37", "The suspend hook stops the daemon and tells it how long the machine slept",
  "With the configured paths, every suspend call stops the running daemon and records its time, and the following resume call leaves the number of seconds since then in the suspend file, complete before the daemon is resumed and not writable by others. If the time of the suspension is not known no file is left, and the daemon is resumed all the same. Calls with other arguments change nothing, and no other process is signalled.",
  ["histories"], "All sequences of calls by both frameworks, lengths of suspensions, left-over files, with and without a daemon.",
  "No test runs the script.",
  ["script/fcron.suspend.sh.in", "script/gen-in.pl"], [("pre / post", "script/fcron.suspend.sh.in")], ["state of the daemon, content and mode of the suspend file when it is resumed"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
