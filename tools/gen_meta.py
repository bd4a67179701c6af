#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so they stay in step.

Run by hand after editing the table; nothing runs it during a check.
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

D, DB, U, C, H = (
    "dsari/daemon.py",
    "dsari/database.py",
    "dsari/utils.py",
    "dsari/config.py",
    "dsari/croniter_hash.py",
)
INFO, REND, PROM, INIT = (
    "dsari/info.py",
    "dsari/render.py",
    "dsari/prometheus_exporter.py",
    "dsari/__init__.py",
)
NOTEST = (
    "The 29 existing tests exercise only the H/R expansion of the cron parser on a few"
    " expressions and four time conversion helpers; nothing of this part is run by any test. "
)

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note,
         level="exploration", state=()):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why,
            files=files, mech=mech, observe=observe, technique=technique, note=note,
            level=level, state=state,
        )
    )


SIM = (
    "The real daemon main loop runs in-process against a simulated world (virtual clock via an"
    " LD_PRELOAD shim; fork/exec/wait/kill/sleep/signals at the os boundary), every launched command"
    " goes through a real fork of the real launch code up to exec. Holds on the histories explored;"
    " trusts the simulator's model of process lifetimes and signal delivery."
)
SIMT = "runtime monitoring: offline trace checker over event histories of the real daemon in a simulated OS world"

prop(
    "S01", "A job without concurrent_runs never overlaps itself",
    "Unless a job has concurrent_runs enabled, the daemon never starts a run of it while another run of the same job is still in progress, whether the runs come from the schedule, from trigger files or from both, and also across configuration reloads. Runs of a job that has concurrent_runs enabled are never held back by that job's own runs in progress.",
    ["schedules", "histories", "configurations"],
    "all configurations, all interleavings of schedule occurrences, triggers, reloads, run durations and kills",
    NOTEST + "Overlap needs particular timings between run durations, triggers and reloads.",
    [D], [("running-run check before a start", D), ("re-linking of running runs on reload", D)],
    ["process start and exit events", "JOB_NAME of launched commands"], SIMT, SIM,
)
prop(
    "S02", "Concurrency group limits are never exceeded and hold back nothing else",
    "A run of a job that lists concurrency groups occupies exactly one of the listed groups, the one named by its CONCURRENCY_GROUP variable, from start to end, and a run is never started into a group whose configured max (1 if the group is not defined) is already taken up by runs in progress, also across reloads and even if the group temporarily left the configuration. Such a job is held back by groups only while every group it lists is full, and jobs that list no groups are never held back by groups.",
    ["schedules", "histories", "configurations"],
    "all group layouts, maxima, run durations, triggers and reload sequences",
    NOTEST + "Needs many overlapping runs competing for several groups.",
    [D, C], [("group pick and slot accounting at start and reap", D), ("implicit groups", C)],
    ["process start/exit events with CONCURRENCY_GROUP"], SIMT, SIM,
)
prop(
    "S03", "Every schedule occurrence leads to exactly one run, on time",
    "While the daemon is up, a scheduled job that nothing blocks is started once for each occurrence of its schedule, never before the occurrence and at most a few seconds after it. After a run of the job starts, its next scheduled run is for the first occurrence following that start, evaluated in the job's schedule_timezone, with no occurrence run twice and none skipped.",
    ["schedules", "histories", "configurations"],
    "all schedules, timezones, job names, daemon start times and run durations",
    NOTEST + "The loop that turns schedules into runs is never executed by a test.",
    [D, U, H], [("rescheduling at run start", D), ("wakeup computation", D), ("next occurrence", U)],
    ["SCHEDULE_TIME and START_TIME of launched commands", "process start events"], SIMT,
    SIM + " Expected occurrences come from an independent cron evaluator.",
)
prop(
    "S04", "Blocked runs stay pending and start once the obstacle is gone",
    "A due run that cannot start because its job is already running or its concurrency groups are full stays pending and is started exactly once, with its original schedule time, within five minutes of there being nothing in its way. No pending run is lost or started twice because it had to wait.",
    ["schedules", "histories"],
    "all contention patterns, waiting times and run durations",
    NOTEST + "Retry and backoff only happen under contention over minutes of run time.",
    [D], [("exponential backoff and retry", D)],
    ["process start events against due times and free slots"], SIMT,
    SIM + " Liveness is decided as bounded progress in virtual time.",
)
prop(
    "S05", "Execution limits: SIGTERM at max_execution, SIGKILL after the grace",
    "A run still in progress when its job's max_execution has elapsed since its start is sent SIGTERM, and SIGKILL if it is still in progress max_execution_grace seconds later; each signal is sent at most once, within a few seconds of being due and never earlier. The daemon sends no signal to a run that is within its limit, has no limit, or has already ended, unless a shutdown calls for it.",
    ["schedules", "histories", "configurations"],
    "all limits, graces (default 60), numbers of runs and reactions of the run to SIGTERM",
    NOTEST + "Needs runs that overstay, ignore or obey SIGTERM at particular times.",
    [D, C], [("execution time check per loop", D), ("wakeups for limits", D)],
    ["kill events with target and time"], SIMT, SIM,
)
prop(
    "S06", "Shutdown starts nothing new and drains every running run",
    "After SIGTERM or SIGINT the daemon starts no further run and takes no further trigger, and it exits once, and not before, every run in progress has ended and been recorded. With shutdown_kill_runs each run in progress is promptly sent one SIGTERM and, if shutdown_kill_grace is set and has passed since the shutdown began, one SIGKILL; without shutdown_kill_runs the shutdown sends runs no signal.",
    ["schedules", "histories", "configurations", "fault_sequences"],
    "all moments of the shutdown signal, sets of runs in progress, kill settings and reactions of runs",
    NOTEST + "The shutdown path depends on what is running and pending at the moment of the signal.",
    [D], [("shutdown flag and kill/grace handling", D)],
    ["daemon exit event, process events, kill events, run history at exit"], SIMT, SIM,
)
prop(
    "S07", "Reload adopts the new configuration without disturbing runs in progress",
    "On SIGHUP the daemon adopts the new configuration for every run started afterwards: added jobs start to run, changed ones run with their new definition, removed ones no longer run. Runs in progress continue undisturbed under the settings they were started with, still count for job exclusivity and concurrency groups, and are recorded when they end; a reload that finds a broken configuration leaves the daemon running with the previous one.",
    ["schedules", "histories", "configurations", "fault_sequences"],
    "all sequences of configurations, valid and broken, and all moments of reload relative to runs",
    NOTEST + "Needs reloads at particular moments relative to runs in progress.",
    [D, C], [("reload and re-linking of runs in progress", D)],
    ["process events, commands and environment after reload, run history"], SIMT, SIM,
)
prop(
    "S08", "A signal at any instant neither breaks the daemon nor corrupts its runs",
    "At whatever point of its execution the daemon receives SIGHUP, SIGUSR1, SIGQUIT, SIGTERM or SIGINT it does not crash, and no run is lost, started twice or left unrecorded. A reload or shutdown requested this way takes effect promptly; a request to shut down is followed by at most the one start that was already under way.",
    ["schedules", "fault_sequences"],
    "all instruction points at which an asynchronous signal handler can run, in all daemon states",
    NOTEST + "Asynchronous interruption points cannot be sampled by calling functions.",
    [D], [("signal handling in the scheduler", D)],
    ["daemon exit, process events, run history after signals injected at each distinct code point"],
    "runtime monitoring: signal injection at call/return points of the running daemon, trace checker",
    SIM + " Signals are injected at function call/return points of dsari code, where CPython really runs handlers.",
    level="fault_enumeration",
)
prop(
    "S09", "SIGQUIT outputs the daemon's true status and changes nothing",
    "On SIGQUIT the daemon outputs, within moments, its status: every run in progress, with job name, run ID, process ID, when it started, and the concurrency group it takes a place in with how many of its places are taken out of how many, and every pending run (the next run of each scheduled job, and triggered runs waiting for their time or for an obstacle to go), with job name, run ID and the time it is scheduled for. Runs that are over are not listed. Before, during and after a shutdown request or a reload the daemon otherwise goes on as if the signal had not been sent.",
    ["schedules", "histories"],
    "all daemon states in which SIGQUIT may arrive",
    NOTEST + "What is in progress and pending depends on the whole history up to the signal.",
    [D], [("SIGQUIT status", D)],
    ["text written to standard output and error after each SIGQUIT, against the process events before and the starts after it"],
    "runtime monitoring: status text against recorded process events; differential replay without the signals",
    SIM + " What is pending is known from the runs that start later; runs that never start are not judged.",
)
prop(
    "T01", "Each well-formed trigger file is consumed once and yields one run",
    "A well-formed trigger file for a configured job is deleted and yields exactly one run of exactly that job, of trigger type \"file\", carrying the file's data and environment, unless before its start it is superseded by a later trigger of the same job without concurrent_runs or discarded by a reload or shutdown. When both trigger.json and trigger.yaml exist, the JSON file is taken first and the YAML file afterwards, each as its own trigger.",
    ["histories", "inputs", "schedules"],
    "all trigger contents, both formats, all arrival times and jobs",
    NOTEST + "Trigger handling is not run at all.",
    [D, U], [("trigger scan, read-and-delete", D), ("structured file loader", U)],
    ["trigger file disappearance, launched commands, recorded trigger data"], SIMT, SIM,
)
prop(
    "T02", "A trigger replaces the pending run, or adds one for concurrent_runs jobs",
    "For a job without concurrent_runs a triggered run takes the place of the job's pending run, if any, so the pending run does not also run, and the regular schedule continues with the first occurrence after the triggered run starts. For a job with concurrent_runs a triggered run is additional: the schedule, other triggered runs and runs in progress are unaffected.",
    ["histories", "schedules"],
    "all interleavings of triggers (immediate and future) with schedules and runs in progress",
    NOTEST + "Needs triggers at particular times relative to pending and running runs.",
    [D], [("replacement of the pending run", D)],
    ["order of launches with TRIGGER_TYPE and SCHEDULE_TIME"], SIMT, SIM,
)
prop(
    "T03", "Triggered runs start at the requested time, in the requested timezone",
    "A triggered run with a schedule_time is not started before that time and, with nothing in its way, at most a few seconds after it; the time is an epoch number, or a date-time text read in the trigger's schedule_timezone if it has one, otherwise in the daemon's local timezone (an explicit UTC offset in the text prevails). Without schedule_time the run is due at once and its schedule time is the trigger file's modification time.",
    ["inputs", "configurations", "schedules"],
    "all epoch values, date-time texts, timezones of daemon and trigger",
    NOTEST + "Time and timezone handling of triggers is never run.",
    [D, U], [("schedule_time parsing", D), ("localisation", U)],
    ["SCHEDULE_TIME and start of triggered runs"], SIMT, SIM,
)
prop(
    "T04", "Triggers are noticed within 60 seconds, and at once on SIGUSR1",
    "A trigger file for a configured job is picked up at most 60 seconds (plus a small processing allowance) after it appears, and within a few seconds after the daemon receives SIGUSR1, whether the daemon is idle or has runs in progress and whatever else is scheduled.",
    ["schedules", "histories"],
    "all arrival times relative to sleeps, waits, runs in progress and far-away schedules",
    NOTEST + "Latency depends on what the main loop is waiting for.",
    [D], [("wakeup cap of 60 s", D), ("interruptible waits", D)],
    ["time between trigger creation or SIGUSR1 and its consumption"], SIMT,
    SIM + " Bounds are in virtual time.",
)
prop(
    "T05", "No trigger or return-data content can bring the daemon down",
    "Whatever bytes a trigger file or a return-data file contains, the daemon keeps running and the schedules, runs and records of all jobs go on as without it. A trigger that is not a well-formed trigger is removed without starting a run, and a run whose return data is unusable is recorded as usual without it.",
    ["inputs", "fault_sequences"],
    "all file contents: malformed JSON/YAML, wrong types, odd scalars, huge and special numbers, deep nesting, non-UTF-8",
    NOTEST + "Input space is unbounded; no test feeds a trigger.",
    [D, U, DB], [("error handling around trigger and return data loading", D)],
    ["daemon survival, launches and records of bystander jobs"],
    "runtime monitoring: grammar and mutation fuzzing of trigger/return-data files against the real daemon in a simulated OS world",
    SIM,
)
prop(
    "R01", "Run history is complete and exact",
    "Every run the daemon starts is listed among the running runs while it is in progress and, after it ended, exactly once in the history and no longer among the running ones. Its record carries the run's job name, run ID, schedule, start and stop times, trigger type and trigger data as they really were, and the exit code of its process, which is 128 plus the signal number (core dump or not) if a signal ended it.",
    ["histories", "schedules", "inputs"],
    "all runs of all histories, exit statuses and ending signals",
    NOTEST + "Recording is never run.",
    [D, DB], [("recording at start and at reap", D), ("insert statements", DB)],
    ["database contents versus process start/exit events"], SIMT, SIM,
)
prop(
    "R02", "The hand-over from running to history is atomic at every crash point",
    "At every instant from a run's start on, an observer of the database sees that run either among the running runs or in the history, never in both and never in neither, also if the daemon is killed at that instant. A daemon started after such a kill comes up, lists no leftover running runs, and keeps every history record that was there.",
    ["crash_points", "histories"],
    "all database and process operations of the daemon as crash points and observation points",
    NOTEST + "No test kills anything; the property is about every point between two operations.",
    [DB, D], [("single transaction for insert+delete", DB), ("cleanup at startup", D)],
    ["committed database state seen by a second connection at every operation; state after kill and restart"],
    "runtime monitoring: second-connection observer at every operation, kill-and-restart fault injection",
    SIM + " A kill is process death without cleanup; power loss and disk corruption are not covered. SQLite only.",
    level="fault_enumeration",
)
prop(
    "R03", "A run's return data is recorded with the run",
    "If a run leaves a valid return_data.json in its run directory, or a valid return_data.yaml and no return_data.json, the parsed contents are recorded as the return_data of exactly that run; if there is no such file the record has no return_data.",
    ["inputs", "histories"],
    "all JSON/YAML documents, both file names, all exit statuses",
    NOTEST + "Return data is never read by a test.",
    [D, U], [("return data pickup at reap", D)],
    ["run_data column of recorded runs"], SIMT, SIM,
)
prop(
    "E01", "A run's environment is built from scratch with the documented values",
    "A launched command sees exactly the documented environment: every standard variable with its correct value, the conditional and Jenkins-compatible ones exactly when their condition holds, and the configured variables, and nothing else inherited from the daemon's environment except PATH. Trigger-defined variables override job-defined, which override globally defined, which override automatic ones.",
    ["inputs", "configurations", "histories"],
    "all configurations of environments at the three levels, job options, trigger types and daemon environments",
    NOTEST + "The environment is only built in forked children.",
    [D], [("environment construction before exec", D)],
    ["environment at exec"], SIMT, SIM,
)
prop(
    "E02", "PREVIOUS_* variables describe the latest earlier runs of the same job",
    "At the start of a run, PREVIOUS_*, PREVIOUS_GOOD_* and PREVIOUS_BAD_* carry the ID, times and exit code of the run of the same job that ended last among all its recorded runs, among those with exit code 0, and among those with another exit code, respectively, and each set is absent when there is no such run. This holds across daemon restarts and with interleaved runs of other jobs.",
    ["histories", "schedules"],
    "all histories of ends and exit codes per job, including concurrent runs ending out of order",
    NOTEST + "Needs histories of several runs with mixed results.",
    [D, DB], [("previous-run queries", DB)],
    ["environment at exec versus recorded history"], SIMT, SIM,
)
prop(
    "E03", "Commands are launched exactly as configured, with clean process state",
    "A run executes the configured command with exactly its arguments (plus job name and run ID if command_append_run is set), in its run directory (or PWD if configured and existing), in its own process group, with default signal dispositions, standard input empty and no other open files. Everything the command writes to standard output and standard error, and only that, ends up in its output file, in order and byte for byte.",
    ["inputs", "configurations"],
    "all argument vectors, output byte streams and options, with real processes",
    NOTEST + "No process is ever launched by a test.",
    [D, C], [("child set-up before exec", D)],
    ["state reported by real child processes; output files"],
    "runtime monitoring: self-reporting child processes under the real daemon, unprivileged",
    "Real daemon, real processes and signals under an unprivileged uid; plus the exec boundary of the simulated world. Holds on the launches observed.",
)
prop(
    "C01", "Configuration sources merge with the documented precedence",
    "The effective configuration is dsari.yaml, then dsari.json, then the .yaml and then the .json files of the config.d directory (or the configured one) in name order, merged so that associative arrays combine recursively and any other value replaces the earlier one; other files are ignored. Job groups expand to one job per listed name, identical to writing the jobs out with their job_group set.",
    ["configurations", "inputs"],
    "all sets of configuration files and nested contents",
    NOTEST + "Configuration loading is never run.",
    [C, U], [("merge", U), ("load order, job group expansion", C)],
    ["compiled and raw configuration dumps of the command line tool"],
    "runtime monitoring: differential oracle (independent merge model) on the real command line tool",
    "Independent reference merge over generated file sets; holds on the sets generated.",
)
prop(
    "C02", "Invalid configurations are rejected, valid ones accepted",
    "The configuration check exits 0 for a valid configuration and 1 for one that is not: a job or concurrency group or job group name that is not 1 to 64 characters out of letters, digits, space and -_+.:@ (and not \".\" or \"..\"), a missing command, an option of the wrong type, an unusable schedule, an environment that is not strings or numbers, or unparsable files. What the check accepts, the daemon starts with.",
    ["configurations", "inputs"],
    "all option values, names and schedules",
    NOTEST + "Validation is never run.",
    [C, U], [("name and type validation", C)],
    ["exit status of the check; daemon start-up on accepted configurations"],
    "runtime monitoring: labelled mutation of configurations against the real command line tool and daemon",
    "Each generated configuration carries its expected verdict by construction.",
)
prop(
    "C03", "A compiled configuration dump is a loadable, equivalent configuration",
    "The compiled configuration dump of any valid configuration, in JSON or YAML, is itself accepted as a configuration and means the same: the same jobs with the same options, next runs, groups and global settings. The raw dump is the merged configuration as written, and the JSON and YAML dumps agree.",
    ["configurations"],
    "all valid configurations, both dump formats",
    NOTEST + "Dumps are never produced.",
    [INFO, C], [("dump", INFO)],
    ["dump of the dump"],
    "runtime monitoring: round-trip oracle on the real command line tool",
    "Dump, reload, compare; holds on the configurations generated.",
)
prop(
    "C04", "Without optional packages everything else goes on working",
    "All packages but those a program itself is made of are optional. With croniter missing, jobs with cron schedules, and with python-dateutil missing, all jobs with schedules are still accepted but run when triggered only; with PyYAML missing, JSON configuration and triggers work as ever and a YAML configuration is refused, not ignored; without termcolor, IPython or lzma there is no difference in what schedules, records, reports, metrics and listings contain. The daemon and all tools otherwise behave exactly as with all packages installed.",
    ["configurations", "histories"],
    "all subsets of missing packages, configurations and daemon histories",
    NOTEST + "Tests run with all packages installed.",
    [U, C, D, INFO], [("import fallbacks", U), ("schedule and timezone validation", C)],
    ["histories of the daemon, outputs of all tools, reports, with packages made unimportable"],
    "runtime monitoring: trace checker over daemon histories and differential oracle over tools, packages blocked",
    SIM + " A missing package is simulated by an import hook in a process that has imported none of the code before.",
)
prop(
    "C05", "All programs find the same configuration and data, where documented",
    "The daemon and all tools take their configuration from the directory given with -c/--config-dir, else from etc below DSARI_HOME, else from the first of ~/.dsari/etc, /usr/local/etc/dsari and /etc/dsari that contains dsari.json, dsari.yaml or config.d, else from ~/.dsari/etc; and keep their data (database, runs, triggers, reports) in data_dir of the configuration, else in the var, lib or /var/lib directory that belongs to that place. All of them agree, and nothing outside that data directory is changed. With --fork the daemon returns at once with success and goes on in the background; without, it stays in the foreground.",
    ["configurations"],
    "all layouts of configuration directories, environments and options",
    NOTEST + "Locations are taken from the environment when a program starts.",
    [C, D], [("default locations", C), ("--fork", D)],
    ["dumped configuration, listed runs, metrics, report files and runs of the real programs, changes to other directories"],
    "runtime monitoring: real programs as an unprivileged user in scratch layouts, marked configurations and databases",
    "System-wide directories are redirected to scratch ones by wrapping Python's file functions.",
)
prop(
    "H01", "Hashed and random schedule fields are stable, in range and evenly stepped",
    "An H field resolves to a value that depends only on the job name and the field, is the same in every process and at every time, lies within the field's range or the given H(a-b) range, and spreads over that range across job names; H/n and H(a-b)/n occur every n units from an offset below n, filling the whole (given) range. R takes values within the same bounds, anew each time it is evaluated; H schedules without a seconds field run at a hashed second, and the @words equal their documented expansions.",
    ["inputs"],
    "all job names, fields, ranges and steps",
    "Tests pin the hash of one name for plain H and one range; steps, ranges in other fields, other names and cross-process stability are not covered.",
    [H, U], [("hash expansion", H), ("implicit hashed seconds and sub-second offset", U)],
    ["next scheduled runs over sweeps of reference times"],
    "runtime monitoring: independent oracle over observed schedule occurrences",
    "Judges observed occurrences, not the expansion text; holds on the names, fields and times swept.",
)
prop(
    "H02", "The next cron occurrence is the first match after now, in the right timezone",
    "For any valid cron schedule the next scheduled run is the earliest second after the reference time that matches all fields in the schedule's timezone, plus an offset of at most one second that is fixed per job. Evaluating it is pure: it does not depend on earlier evaluations.",
    ["inputs", "configurations"],
    "all cron schedules with 5 or 6 fields, reference times and timezones (away from DST changes)",
    "Tests check a handful of expressions at one reference time and in UTC only.",
    [U, H], [("next schedule time", U)],
    ["next_scheduled_run of the command line tool at virtual times"],
    "runtime monitoring: differential oracle (independent cron evaluator) under a virtual clock",
    "Independent brute-force evaluator; trusts croniter only as the thing observed.",
)
prop(
    "H03", "RRULE schedules: next occurrence, bounded rules and hashed positions",
    "For a valid RRULE schedule the next scheduled run is an occurrence of the rule strictly after the reference time, given positions are met in the schedule's timezone, positions not given are hashed from the job name so that daily and hourly rules keep the same time of day, minute and second, and a rule limited by UNTIL (with or without Z) stops producing runs after it without any error.",
    ["inputs", "configurations"],
    "all supported rule parts, reference times, timezones (away from DST changes) and UNTIL bounds",
    NOTEST + "RRULE evaluation has no test.",
    [U, C, D], [("RRULE evaluation", U)],
    ["next_scheduled_run at virtual times; daemon start with rules"],
    "runtime monitoring: independent rule oracle under a virtual clock",
    "Oracle covers FREQ, INTERVAL 1, BYDAY, BYMONTHDAY, BYMONTH, BYHOUR, BYMINUTE, BYSECOND, BYSETPOS and UNTIL.",
)
prop(
    "I01", "Run and job listings show exactly the recorded runs and configured jobs",
    "The run listing shows every completed and every running run exactly once, with the recorded fields, restricted to the given job names or run IDs, in JSON, YAML, tabular and table form alike; the running ones are recognisable by having no stop time and no exit code. The job listing shows exactly the configured (and selected) jobs with their options and next scheduled run.",
    ["histories", "inputs", "configurations"],
    "all database contents, filters and formats",
    NOTEST + "The tool is never run.",
    [INFO, DB], [("listing and filters", INFO), ("run queries", DB)],
    ["output of the command line tool versus directly written database rows"],
    "runtime monitoring: reference-model oracle over command line output",
    "Database rows are written directly through the documented schema, independent of the code under test.",
)
prop(
    "I02", "Run output is returned byte for byte, from wherever it is stored",
    "The run output command prints exactly the collected output of the requested run, running or completed, also when it has been compressed with gzip or xz, and fails with an error for an unknown run; output that is not valid UTF-8 is still shown. Tailing follows exactly the output files of the selected running runs.",
    ["inputs", "histories"],
    "all output contents, storage forms and run states",
    NOTEST + "The tool is never run.",
    [INFO, U], [("output reader", U)],
    ["output of the command line tool"],
    "runtime monitoring: reference-model oracle over command line output",
    "Compared with the bytes placed on disk.",
)
prop(
    "I03", "Terminals get the same text through the pager; the shell offers its variables",
    "On a terminal, what dsari-info prints is handed to the pager named by PAGER (with its arguments; by default the program pager, with LESS set to -FRSXMQ unless set already), or written directly if there is no such program, and is the same as what it prints to a pipe except for colours; tables leave out trailing columns, as few as necessary, to fit COLUMNS or the terminal's width. The tool ends after the pager; a pager that quits early or an interrupt while it is open is no error. The interactive shell offers the configuration, jobs, concurrency groups and database it announces, with or without IPython.",
    ["inputs", "configurations", "histories"],
    "all requests, contents, terminal widths and pagers",
    NOTEST + "The tool is never run, least of all on a terminal.",
    [INFO], [("pager, table and shell", INFO)],
    ["what a recording pager receives and what appears on a pseudo-terminal"],
    "runtime monitoring: differential oracle (pseudo-terminal against pipe), recording pager, variables inspected from within the shell",
    "What is printed to a pipe is compared with the records by I01 and I02. A terminal of unknown width (0) is not specified.",
)
prop(
    "W01", "Reports are complete, consistent and hide what must be hidden",
    "After a report rendering every completed run of every job with reports enabled has its page, every such job's page lists exactly its completed runs newest first, and the index shows the 25 latest runs, the 10 latest failed ones and every job's last and last successful run; nothing of jobs with reports disabled appears. Rendering incrementally over time leads to the same pages as regenerating everything with the same configuration, links lead to the pages they name, and existing run pages are rewritten only on request.",
    ["histories", "configurations"],
    "all histories, job settings and sequences of renderings",
    NOTEST + "The renderer is never run.",
    [REND, DB, "dsari/templates/index.html", "dsari/templates/job.html", "dsari/templates/run.html"],
    [("render pass", REND)],
    ["parsed HTML files after each rendering"],
    "runtime monitoring: reference-model oracle over parsed report files",
    "Pages are parsed with an HTML parser and compared with the database contents.",
)
prop(
    "W02", "Report pages show run data verbatim as text, never as markup",
    "A run page shows the run's ID, times, exit code, trigger type/description and output exactly as recorded, as text: no content of outputs or triggers can add or alter markup, and no output, whatever its bytes, prevents reports from being rendered. If output limits are configured, output that exceeds them is shown as its configured beginning and end around an elision mark and anything else is shown in full; a custom template directory overrides the default templates and a gzip setting only changes the storage.",
    ["inputs", "configurations"],
    "all outputs, trigger data, output limits and storage settings",
    NOTEST + "The renderer is never run.",
    [REND, U, "dsari/templates/run.html"], [("autoescape", REND), ("output limits", REND)],
    ["parsed HTML files"],
    "runtime monitoring: HTML parse-back oracle over hostile contents",
    "Text nodes of the parsed page are compared with the recorded data; structure with that of a harmless run.",
)
prop(
    "M01", "Exported metrics agree with the run records",
    "For every configured job the exporter reports the true number of completed, successful and failed runs, the sums, counts and requested quantiles of run durations and start latencies, and exit code and times of the run that ended last; and one pair of start/schedule times for each of their running runs unless switched off. The output is well-formed Prometheus text format.",
    ["histories", "configurations"],
    "all database contents, job sets and quantile lists",
    NOTEST + "The exporter is never run.",
    [PROM, DB], [("metric computation", PROM)],
    ["parsed exporter output versus directly written database rows"],
    "runtime monitoring: reference-model oracle over exporter output",
    "Quantiles by linear interpolation, as implemented; compared within floating-point tolerance.",
)
prop(
    "M02", "Metrics are served fresh within the cache time, over HTTP and WSGI",
    "A scrape reports completed-run metrics no older than the configured cache time, running runs as of the scrape, and after SIGHUP the state of the reloaded configuration (of the previous one, if the new one is broken), also if the signal arrives in the middle of a scrape; every scrape returns status 200 with a correct Content-Length on the metrics path and 404 on any other path.",
    ["histories", "schedules", "configurations"],
    "all sequences of scrapes, database changes, reloads and elapsed times",
    NOTEST + "The exporter is never run.",
    [PROM], [("job metrics cache", PROM), ("HTTP handler", PROM)],
    ["responses of the WSGI application under a virtual clock and of the real server on loopback"],
    "runtime monitoring: reference-model oracle over scrape sequences under a virtual clock",
    "Staleness bound in virtual time; the real HTTP server is exercised once per run.",
)
prop(
    "D01", "All database backends store and answer alike",
    "With PostgreSQL, MySQL or MongoDB configured, the recorded and running runs, filters, previous-run answers and start-up cleanup are the same as with SQLite for the same sequence of operations, and a completed run's move to the history is a single transaction where the database has them.",
    ["histories", "configurations"],
    "all sequences of run starts, ends, queries and restarts",
    NOTEST + "No backend is run.",
    [DB], [("backend classes", DB)],
    ["answers of each backend to the same operation sequence"],
    "runtime monitoring: differential oracle over operation sequences, backends on emulated drivers",
    "No database servers or drivers are installed: the backends run on emulated driver modules (SQLite and in-memory), so server-side behaviour is assumed, not observed.",
)
prop(
    "D02", "Daemon and tools use the database at once without disturbing each other",
    "While runs start and end, every listing shows each run that was recorded before it began exactly once, as running or as completed; the output of a run can be had at any time; the numbers of one metrics scrape agree with each other and the pages of one report rendering link exactly to existing pages; no tool fails. Neither does the daemon, and no record is lost or changed, however many tools read the history meanwhile and however long it is.",
    ["schedules", "histories"],
    "all instants at which a run starts or ends while a tool reads, and all sizes of the history",
    NOTEST + "Daemon and tools are never run, nor two processes on one database.",
    [DB, INFO, PROM, REND], [("queries of the tools", INFO), ("SQLite connection and queries", DB)],
    ["output of the tools while another connection records runs right before each of their statements", "listings by real tools and records of a real daemon working at the same time"],
    "runtime monitoring: schedule perturbation (injected writes before each statement of a reader) and stress with real processes; exactly-once oracle over listings and records",
    "SQLite only. Changes are injected at the boundaries of statements; within a statement SQLite itself isolates the reader.",
)

NOT_APPLICABLE = []
NOTES = (
    "All checks run the code in /repo as it is (pure Python, nothing to build) plus a small C clock shim that is"
    " compiled on demand from /verif/lib/vclock.c. No hooks were added to /repo. See DESIGN.md."
)


def main():
    claimed = set(sys.argv[1:])
    have = set(
        f[:-3] for f in os.listdir(os.path.join(ROOT, "checks")) if f.endswith(".py") and f[0] != "_"
    ) if os.path.isdir(os.path.join(ROOT, "checks")) else set()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }) + "\n")
    checks, na = [], list(NOT_APPLICABLE)
    for p in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check %s" % p["id"],
                "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1, "setup_cmd": "./setup.sh", "checks": checks,
            "not_applicable": na, "notes": NOTES,
        }, f, indent=1)
        f.write("\n")


main()
