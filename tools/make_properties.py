import json
D="dsari/daemon.py";U="dsari/utils.py";DB="dsari/database.py";C="dsari/config.py";H="dsari/croniter_hash.py";R="dsari/render.py";P="dsari/prometheus_exporter.py";I="dsari/info.py";M="dsari/__init__.py"
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
NT="The unit tests cover only the hashed cron expressions and a few time/dict helpers; "
p("C01","Concurrency groups never exceed their maximum",
 "A run is started in a concurrency group only while fewer runs of that group than the group's maximum are in progress, counting every run in progress in the group, including those started before a configuration reload. A started run of a job that has concurrency groups occupies exactly one of the job's groups, which has room, until the run finishes, and then frees that place. A due run whose groups are all full is not started but kept and started later when a group has room.",
 ["schedules","histories","configurations"],"every configuration of jobs and groups, every order in which runs become due, start, finish, and the configuration is reloaded, and every outcome of the random choice among groups",
 NT+"nothing starts a scheduler, and the cap must hold over every history of starts, exits and reloads.",
 [D,M],[("group choice and cap test before a start","Scheduler.process_scheduled_run"),("release on exit","Scheduler.process_next_child"),("regrouping after reload","Scheduler.reset_jobs")],
 [("running_groups","runs in progress by group","Scheduler")],["the start of a run (fork)"])
p("C02","No overlapping runs of a job; at most one pending; triggers replace or add",
 "For a job which does not allow concurrent runs, no run is started while another run of the job is in progress, including one started before a reload, and at most one run of the job is pending at any time: a trigger replaces the pending run. A due run blocked this way stays pending and is started once the earlier run has finished. For a job which allows concurrent runs each trigger adds exactly one pending run and leaves all other runs alone.",
 ["schedules","histories","configurations"],"every interleaving of triggers, schedule times, run exits and reloads, for every mix of jobs",
 NT+"overlap depends on the history of triggers, exits and reloads.",
 [D],[("start gate","Scheduler.process_scheduled_run"),("replacement of the pending run","Scheduler.process_trigger_job"),("rebinding of running runs to reloaded jobs","Scheduler.reset_jobs")],
 [("scheduled_runs","pending runs","Scheduler"),("running_runs","runs in progress","Scheduler")],["fork","pending runs"])
p("C03","A due run is started exactly once, never early, and recorded before it starts",
 "A pending run is never started before its scheduled time, and once due and not held back by concurrency rules it is started, exactly once, and then is in progress and no longer pending; a run not started stays pending unchanged. Before the run's process is created, its run directory exists, its start time is set to the current time, the previous-run information has been looked up and it has been recorded as running.",
 ["schedules","histories"],"every set of pending runs, schedule times and clock readings, in every order of processing",
 NT+"no test runs the scheduler; the guarantee is over all pending sets and times.",
 [D],[("start of a due run","Scheduler.process_scheduled_run"),("scheduling pass over the pending runs","Scheduler.loop")],
 [("scheduled_runs","pending runs","Scheduler")],["fork","running record in the database"])
p("C04","Recurring schedules are neither lost nor duplicated",
 "Outside of shutdown every configured job whose schedule has a next time has exactly one recurring run pending: it is queued at start-up and at reload for the next schedule time, when a recurring run starts its successor is queued at once for the next schedule time after that start, and a triggered run replacing it takes the recurrence over. A triggered run which replaced nothing recurring and a run started before a reload queue no successor. A schedule with no further time just ends.",
 ["histories","schedules","configurations"],"every history of starts, triggers, run exits and reloads for every set of jobs",
 NT+"losing or doubling a recurrence needs a multi-step history.",
 [D,U],[("initial and reload scheduling","Scheduler.reset_jobs"),("respawn on start","Scheduler.process_scheduled_run"),("respawn inheritance","Scheduler.process_trigger_job")],
 [("respawn","run carries the recurrence","Run")],["pending runs"])
p("C05","Execution limits: one SIGTERM after the limit, one SIGKILL after the grace",
 "A run in progress for longer than its maximum execution time is sent exactly one SIGTERM, and if still in progress when the grace time has passed since that SIGTERM exactly one SIGKILL; the limits are those its job had when the run started. No signal for this reason is sent earlier, to a run without a limit, or to any process but the run's own.",
 ["schedules","histories","inputs"],"every limit, grace, start time and sequence of clock readings, for any number of runs, with reloads and shutdown at any point",
 NT+"the signalling depends on time and history.",
 [D],[("limit check","Scheduler.process_run_execution_time"),("limits captured at start","Scheduler.process_scheduled_run")],
 [("term_sent/kill_sent/term_time","what was sent and when","Run")],["os.kill"])
p("C06","Shutdown starts nothing new and signals each run at most once",
 "After a shutdown request no run is started, triggers and reloads change nothing, and the daemon ends only once no run is in progress. If killing at shutdown is configured, at the request each run in progress not already sent SIGTERM is sent it once, and once a configured kill grace has passed since the request each run in progress is sent one SIGKILL unless it already had one; otherwise no run is signalled because of the shutdown.",
 ["schedules","histories","configurations"],"every state at the time of the request, every grace setting and clock reading, and every later history",
 NT+"shutdown is a whole-history behaviour no test reaches.",
 [D],[("request","Scheduler.begin_shutdown"),("kill grace","Scheduler.monitor_shutdown"),("guards","Scheduler.process_triggers, Scheduler.reset_jobs, Scheduler.loop")],
 [("shutdown/shutdown_begin","shutdown in progress and since when","Scheduler")],["os.kill","fork","return of the main loop"])
p("C07","Every finished run is recorded once; running records match runs in progress",
 "While a run is in progress there is exactly one running record of it and no completed record; when it exits exactly one completed record with its job, times, exit code, trigger data and run data appears and the running record goes, in one transaction where the database has them. Running records left by an earlier daemon are removed at start-up before any run is started. Readable return data left by the run (JSON before YAML) is part of the completed record, and unreadable return data changes nothing else.",
 ["histories","crash_points","inputs"],"every sequence of starts and exits, exits of unknown processes, every content of the return data files",
 NT+"no test touches the database or a run's exit.",
 [D,DB],[("exit handling","Scheduler.process_next_child"),("recording","insert_running_run, insert_run, clear_runs_running of each database"),("start-up clearing","Scheduler.__init__")],
 [("runs, runs_running","completed and running records","database")],["database contents"])
p("C08","Exit codes: the process's own code, or 128 plus the signal that ended it",
 "A run whose process exits by itself is recorded with that exit code, and one ended by a signal with 128 plus the signal number, whether or not it dumped core. Waiting for a process never reports one that has not ended, and stops at the deadline in force at that moment.",
 ["inputs","schedules"],"all 16-bit wait statuses, all deadlines and clock readings, with the deadline moving while waiting",
 NT+"the tests never wait for a process.",
 [D],[("status decoding and waiting","wait_deadline"),("recording","Scheduler.process_next_child")],(),["recorded exit code"])
p("C09","A run's environment is built from scratch as documented",
 "The environment of a run contains exactly LOGNAME and HOME of the daemon's user (if known), PATH of the daemon (or a default), CI, DSARI, DATA_DIR, the documented variables describing the job, the run, its trigger, its chosen concurrency group and job group, the last run, last good run and last bad run each only when there is one, the Jenkins variables only if enabled, PWD, and the configured variables, with the documented values. On conflict a trigger's variable wins over the job's, the job's over the global configuration's, and those over the automatic ones. Nothing else of the daemon's own environment is passed on.",
 ["inputs","configurations"],"every job, run, trigger data, configuration environment and combination of optional parts",
 NT+"the environment is never built in a test and has many optional parts.",
 [D],[("environment construction","Scheduler.run_child_executor")],(),["environment given to exec"])
p("C10","A run executes exactly its command, in its own directory, group and output",
 "The process of a run executes the job's command words unchanged, with the job name and run ID appended in that order if so configured, and with the built environment. It does so in the run's directory (or in the directory named by a configured PWD if that exists), in its own process group, with handled signals reset to default, standard input from /dev/null, standard output and error to the run's output file, and no other inherited descriptors. The daemon's database connection is given up in the process before.",
 ["inputs","configurations"],"every command, job, run, data directory and environment",
 NT+"no test executes a command.",
 [D],[("child set-up","Scheduler.run_child_executor")],(),["exec call and the process state at it"])
p("C11","Every trigger file is used at most once and a bad one never stops the daemon",
 "A trigger file is removed when it is read and yields at most one run, of type file, carrying exactly its data and scheduled at the time it gives (epoch, or date and time in its stated timezone) or else at the file's modification time; JSON is taken before YAML. A file that cannot be read or removed yields no run for now; one that is malformed, not a dict, or has an unusable environment or time yields no run and leaves every other run alone. No content of a trigger file can raise an error out of the scheduler.",
 ["inputs","histories","fault_sequences"],"every content of the trigger files, including arbitrary JSON/YAML values, and every failure to stat, open, remove or parse them",
 NT+"no test reads a trigger.",
 [D,U],[("intake","Scheduler.process_trigger_job"),("read and remove","load_structured_file"),("environment check","validate_environment_dict")],(),["pending runs","trigger directory","escaping exceptions"])
p("C12","Hashed cron fields are deterministic and stay in their range",
 "H in a cron field expands to a value inside the field's range, or inside the given subrange; with a step, to a start within the first step of the (sub)range up to its end, repeated by that step. The value depends only on the job name and the field's position, while R draws any value of the same range. The @-aliases stand for their documented hashed expressions and every other field is left as it is.",
 ["inputs"],"every job name, expression, field position, subrange and step",
 "The tests check a handful of expressions with one fixed identifier; the range claims are over all names, ranges and steps.",
 [H],[("expansion","croniter_hash._hash_expand, _hash_expand_item, _hash_do")],(),["expanded expression"])
p("C13","The next schedule time is deterministic, in the future, with a fixed offset",
 "The next time of a schedule is the first time matching it strictly after the given start, plus an offset of at most one second that depends only on the job name, so it is never at or before the start and is the same on every computation. A cron schedule of five fields gets a hashed seconds field; an iCalendar recurrence is anchored at a time of day that depends only on the job name, and a local end time in it is taken in the timezone of the start. A recurrence with no further time gives none.",
 ["inputs"],"every job name, start time, timezone and schedule expression",
 "The tests cover hashed expressions only and never this computation with its offset or recurrences.",
 [U,H],[("computation","get_next_schedule_time")],(),["schedule time of a run"])
p("C14","Only valid configurations are accepted, and they are taken over exactly",
 "Loading accepts a configuration only if every job, job group and concurrency group name is 1 to 64 characters of the allowed set and not . or .., every recognised option has its required type, every job has a command of strings, and every schedule, timezone and environment is usable; otherwise it fails with a configuration error. Accepted options are taken over with exactly the given values (times as durations, command strings split into words), all others keep their defaults, and unknown options are ignored. Groups named only by jobs exist with a maximum of one, and a job group stands for one job per listed name with the group's options.",
 ["inputs","configurations"],"every configuration content",
 NT+"no test loads a configuration.",
 [C,U],[("validation and take-over","ConfigLoader.load and what it calls"),("names","ConfigLoader.is_valid_name"),("environment","validate_environment_dict")],(),["loaded configuration"])
p("C15","Configuration files are merged recursively in the documented order",
 "The configuration is the recursive merge of the main YAML file, the main JSON file, then the YAML and then the JSON files of the configuration directory in name order; a later file wins for each value, dicts are merged key by key and everything else is replaced. Merging changes none of its inputs and shares no mutable part with them. Empty files change nothing, and a missing file or directory is skipped.",
 ["inputs","configurations"],"every set of files and nested contents",
 "One small dict merge is tested; the order over files and aliasing are not.",
 [C,U],[("merge","dict_merge"),("order","ConfigLoader.load_dir")],(),["loaded configuration"])
p("C16","What is recorded of a run is what is read back, and filters are exact",
 "Every record of a run, completed or running, reads back with the run's ID, job name, schedule, start and stop times (to the microsecond), exit code, trigger type, trigger data and run data. A query by run IDs, or by job names, returns exactly the records with one of those values and an unfiltered one returns all, of the completed or of the running records as asked; a record of a job no longer configured is returned with a stand-in job of that name. Values are never taken as part of the query language.",
 ["inputs","histories"],"every run content and every set of stored records and filters, for every database type",
 NT+"no test opens a database.",
 [DB],[("writing","insert_running_run, insert_run, _build_insert"),("reading","get_runs, _build_run_from_result")],(),["statements executed","runs returned"])
p("C17","Previous, previous good and previous bad run are the latest of their kind",
 "The previous run of a job is its completed run with the latest stop time, the previous good one the latest among those with exit code 0 and the previous bad one the latest among those with any other exit code, each absent exactly if there is no such run. Runs of other jobs and runs in progress never count.",
 ["histories","inputs"],"every set of recorded runs, for every database type",
 NT+"no test records runs.",
 [DB],[("lookup","get_previous_runs of each database")],(),["runs returned"])
p("C18","The daemon wakes up in time and retries blocked runs with bounded back-off",
 "The daemon never sleeps past the next time at which something is due (a schedule time, an execution limit or its grace, the shutdown grace, a retry), never for more than 60 seconds between looking for triggers, and never past a run's exit or a signal by more than about a second. A blocked run is retried after a delay which is at least 5 seconds and at most 300 seconds and does not shrink as it gets more overdue.",
 ["schedules","inputs"],"every set of pending and running runs, times and clock readings",
 NT+"no test runs the main loop.",
 [D],[("next wake-up","Scheduler.process_wakeups"),("registered times","process_scheduled_run, process_run_execution_time, monitor_shutdown"),("delay","backoff"),("sleeping","Scheduler.loop, wait_deadline")],
 [("wakeups/next_wakeup","times to wake up at","Scheduler")],["time.sleep"])
p("C19","Reports are complete, truncated as configured, escaped and ordered",
 "Each completed run of every job with reports enabled gets a report page unless it has one already (or all are regenerated), with its output in full or, if longer than a configured limit, exactly its configured first and last characters around a marker. A job page is rewritten when one of its runs was added and lists all its runs, latest first; the index lists the 25 latest runs, the 10 latest failed ones and each job's latest and latest successful run. Names, data and output are HTML-escaped, and files are compressed only if configured.",
 ["inputs","configurations","histories"],"every set of runs, outputs, limits and existing pages",
 NT+"no test renders a report.",
 [R],[("pages","Renderer.render_run, render_job, render_index"),("escaping","guess_autoescape")],(),["files written"])
p("C20","Exported metrics match the recorded runs",
 "For every configured job the exported counts of runs, successes and failures are those of its completed records, adding up, and quantiles, sums and counts of durations and latencies and the last run's values are those of its records, with running runs listed separately unless disabled. Quantiles are linear interpolations of the sorted values, between their smallest and largest. The text lists every sample once under its metric with its labels, and job metrics are reused only within the cache time.",
 ["inputs","histories"],"every set of records, quantiles, cache times and clock readings",
 NT+"no test collects metrics.",
 [P],[("collection","Prometheus.get_job_metrics, get_running_metrics, get_metrics"),("quantiles","percentile"),("format","Prometheus.build_metrics_text")],(),["metrics text"])
p("C21","Job and run information is complete and exact",
 "The job list contains exactly the configured (or the named) jobs with their options and next schedule time, and the run list exactly the completed and running records selected by job names or run IDs, each with its data; a run in progress has no stop time and no exit code. The output of a run, also while it is in progress, is the content of its output file, whether plain or compressed with gzip or xz (in this order of preference), and printing a missing output or undecodable bytes does not fail.",
 ["inputs","configurations","histories"],"every configuration, set of records, filter and output content",
 NT+"only the JSON formatting helper is tested.",
 [I,U],[("lists","Info.dump_jobs, cmd_list_jobs, cmd_list_runs"),("output","Info.cmd_get_run_output, read_output")],(),["printed output"])
p("C22","Signals are safe at any moment, and a bad reload changes nothing",
 "A signal arriving at any moment only takes effect between scheduling steps and never in the middle of one; every signal received is then acted on once, in order: SIGINT and SIGTERM begin shutdown, SIGHUP reloads, SIGQUIT and SIGUSR1 only report or wake up. A reload with an invalid configuration leaves the configuration, pending and running runs as they were and the daemon running. A reload with a valid one keeps every run in progress in progress.",
 ["schedules","histories","configurations"],"every arrival point and order of signals and every configuration found at reload",
 NT+"no test sends a signal.",
 [D],[("deferral","Scheduler.signal_handler, process_signals"),("dispatch and reload","Scheduler.process_signal, reset_jobs")],
 [("pending_signals","signals received and not yet acted on","Scheduler")],["scheduler state after a signal"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in props))
