"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}})


T = "asyncz/triggers/"
S = "asyncz/schedulers/base.py"

p("C01", "Interval schedules stay on their grid",
  """Without jitter, the first fire time of an interval schedule is the smallest start + k*interval (k >= 0) that is not
  before the current time, and every later fire time is exactly one interval after the previous one; the schedule ends
  (no fire time) exactly when that time would lie after the end bound. With jitter the fire time is delayed by at least
  zero and at most the jitter seconds, never moved earlier. A zero interval behaves as one second.""",
  ["inputs"], "all start/end bounds, intervals in every unit, zones of fixed offset, current and previous times, jitter draws",
  "Tests sample a handful of dates; off-by-one at the grid points (now exactly on a grid point, end exactly on a fire time) needs every now and interval.",
  [T + "interval.py", T + "base.py", "asyncz/utils.py"],
  [("next fire time", T + "interval.py:IntervalTrigger.get_next_trigger_time"), ("interval length", T + "interval.py:IntervalTrigger.__init__"),
   ("jitter", T + "base.py:BaseTrigger.apply_jitter")])

p("C02", "A cron field yields exactly the smallest admitted value not below the current",
  """For every cron expression (any, step, range, names, nth/last weekday, last day) and every date, the value a field
  proposes is the smallest value admitted by one of its expressions within the field's limits for that month that is not
  below the date's own value, and nothing is proposed exactly when no such value exists. Expressions whose bounds, order
  or step do not fit the field are rejected when the schedule is built.""",
  ["inputs"], "all expressions, lists of expressions, fields, years and months",
  "Tests pick a few expressions and dates; step phase, month lengths and combinations of several expressions are unbounded.",
  [T + "cron/expressions.py", T + "cron/fields.py", T + "cron/constants.py"],
  [("expressions", T + "cron/expressions.py:*.get_next_value"), ("field minimum", T + "cron/fields.py:BaseField.get_next_value"),
   ("range validation", T + "cron/expressions.py:*.validate_range")])

p("C03", "A cron schedule fires at the earliest matching second and never skips one",
  """The next fire time of a cron schedule matches every field, lies at or after the search start (the current time, the
  start bound, or just after the previous fire time), and no second in between matches every field. No fire time is
  produced after the end bound; jitter only delays, and never past the end bound.""",
  ["inputs"], "all combinations of field constraints, start/end bounds, previous times and current times (fixed-offset zones)",
  "The search loop carries and resets eight interacting fields; tests sample a few expressions, so skipped matches after a carry (month end, leap day, week/weekday fields) stay unseen.",
  [T + "cron/trigger.py", T + "cron/fields.py"],
  [("search loop", T + "cron/trigger.py:CronTrigger.get_next_trigger_time"), ("carry", T + "cron/trigger.py:CronTrigger.increment_field_value"),
   ("reset", T + "cron/trigger.py:CronTrigger.set_field_value")])

p("C04", "One-shot and combined schedules fire when their definition says",
  """A date schedule fires exactly once, at its instant; a shutdown schedule never fires by itself. An 'or' combination
  fires at the earliest time any member gives and ends only when all have ended; an 'and' combination fires only at a time
  on which all members agree and ends as soon as one member has ended. Jitter on a combination only delays, by at most the jitter.""",
  ["inputs", "configurations"], "any number of member schedules of any kind, any times, any jitter",
  "Tests combine two or three concrete triggers; the claim is for any number of members with any behaviour.",
  [T + "date.py", T + "shutdown.py", T + "combination.py", T + "base.py"],
  [("date", T + "date.py:DateTrigger.get_next_trigger_time"), ("and/or", T + "combination.py:AndTrigger/OrTrigger.get_next_trigger_time"),
   ("jitter", T + "base.py:BaseTrigger.apply_jitter")])

p("C05", "A task's due run times are exactly the trigger chain up to now",
  """The due run times of a task are its next run time followed by each later fire time of its schedule, in order, up to
  and including the current time, and none after it; a paused task has none. Computing them changes neither the task nor its stored next run time.""",
  ["inputs", "histories"], "any schedule, any next run time, any current time, any backlog length",
  "Backlog length and boundary (fire time equal to now) are unbounded; tests use one or two entries.",
  ["asyncz/tasks/base.py"], [("chain", "asyncz/tasks/base.py:Task.get_run_times")])

p("C06", "Task updates are validated and all-or-nothing",
  """Updating a task either applies every requested change or, when any requested value is invalid (wrong type, non-positive
  limits, callable and arguments that do not fit, changing id or scheduler, unknown attribute), raises and leaves every
  attribute of the task as it was.""",
  ["inputs"], "all combinations of updated attributes with valid and invalid values",
  "Combinations of valid and invalid updates are exponentially many; the tests check single invalid updates.",
  ["asyncz/tasks/base.py"], [("validated update", "asyncz/tasks/base.py:Task.update_task")])

p("C07", "Accepted call arguments are exactly those the callable can be called with",
  """Scheduling a callable with positional and keyword arguments is accepted only if calling it with them would bind, and
  arguments that would bind are accepted; otherwise scheduling raises, naming the reason, before anything is stored. (For
  callables whose signature is known to inspect.signature.)""",
  ["inputs"], "all signatures (every parameter kind, with and without defaults, any order) and all argument lists",
  "Signatures x argument lists is unbounded; the tests have a dozen combinations.",
  ["asyncz/utils.py"], [("argument check", "asyncz/utils.py:check_callable_args")])

p("C08", "The in-memory store stays sorted, indexed and complete",
  """After any sequence of operations the memory store holds exactly one entry per task id added and not removed, lists
  tasks by next run time (paused last, ties by id), and looks each up by its id. Due tasks are exactly the unpaused tasks
  whose next run time is not after the given time, in order, and the next run time is that of the earliest unpaused task;
  adding an existing id raises and changes nothing, deleting an unknown id raises.""",
  ["histories", "inputs"], "any number of stored tasks, any interleaving of add/update/delete, any run times including ties and paused",
  "Tests store three tasks; position errors need particular sizes, ties and moves.",
  ["asyncz/stores/memory.py"],
  [("binary search", "asyncz/stores/memory.py:MemoryStore.get_task_index"), ("operations", "asyncz/stores/memory.py:MemoryStore.add_task/update_task/delete_task")],
  [("tasks", "sorted list of (task, timestamp)", "asyncz/stores/memory.py"), ("tasks_index", "id -> (task, timestamp)", "asyncz/stores/memory.py")])

p("C09", "Durable stores implement the same store contract",
  """File and SQL stores, under any sequence of operations, behave like the reference: add rejects an existing id, update and
  delete reject an unknown id, lookup returns the stored task, due tasks are exactly those with a next run time not after
  the given time, listings put paused tasks last and are ordered by next run time, and a failed write leaves the previously stored record readable.""",
  ["histories", "fault_sequences"], "operation sequences, run times, and serialization failures during a write",
  "Tests run short fixed sequences against each backend and no failing serialization.",
  ["asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/base.py"],
  [("file operations", "asyncz/stores/file.py:FileStore"), ("sql operations", "asyncz/stores/sqlalchemy.py:SQLAlchemyStore")])

p("C10", "Persisted task state decodes to what was stored, encrypted under the key",
  """What a store writes for a task, decoded by a store with the same key and representation, gives back the same task
  state; records written before versioned envelopes still load. Without the key, or when the record was altered, nothing is
  decoded, and records of another entity, version or representation are rejected instead of being returned.""",
  ["inputs", "fault_sequences"], "all payloads, keys, envelopes and alterations",
  "Tests use one payload and one key; the claim ranges over all envelopes and over corrupted data.",
  ["asyncz/stores/base.py", "asyncz/stores/persistence.py"],
  [("encryption", "asyncz/stores/base.py:BaseStore.conditional_encrypt/conditional_decrypt"),
   ("envelope", "asyncz/stores/base.py:BaseStore.serialize_task_state/deserialize_task_state")])

p("C11", "Triggers and tasks survive a store round trip unchanged",
  """A schedule or task restored from its stored state behaves as the original: it has the same bounds, interval, fields,
  jitter, callable, arguments, limits and next run time, and it gives the same next fire time for every previous and current time.""",
  ["inputs"], "all triggers (including combinations) and all task options",
  "Tests compare a few attributes of a few triggers; they never compare behaviour after the round trip for all inputs.",
  [T + "interval.py", T + "cron/trigger.py", T + "base.py", "asyncz/state.py", "asyncz/tasks/base.py", "asyncz/datastructures.py"],
  [("state", T + "*.py:__getstate__/__setstate__"), ("task state", "asyncz/tasks/base.py:Task.__getstate__/__setstate__")])

p("C12", "Every due task is submitted once with its due run times and advanced or retired",
  """One processing round submits each due task of every store exactly once to its configured executor with exactly its due
  run times (only the latest when coalescing), then stores the next fire time after the last of them, or removes the task
  when its schedule has ended. Hitting the concurrency limit or an executor error skips that submission but still advances
  the task, a task whose executor is unknown is removed, and each submission or limit hit is reported by exactly one event.""",
  ["schedules", "inputs", "fault_sequences"], "any number of stores and due tasks, any executor outcome",
  "Tests exercise one store with one due task; errors for one task among many and mixed outcomes are not sampled.",
  [S], [("store round", S + ":BaseScheduler._process_tasks_of_store"), ("round", S + ":BaseScheduler.process_tasks")])

p("C13", "The scheduler sleeps no longer than until the next run and never a negative time",
  """After a processing round the scheduler asks to be woken no later than the earliest next run time over all stores, and no
  later than the retry interval for a store that was busy or failed; the wait is never negative and never exceeds what a
  timer can take. When nothing is scheduled it waits indefinitely (or for the retry interval when stores are shared), and a paused scheduler neither processes nor sets a wait.""",
  ["schedules", "fault_sequences"], "any number of stores, next run times, busy or failing stores",
  "The minimum over stores with mixed failures is not sampled by tests.",
  [S, "asyncz/schedulers/asyncio.py"], [("wait computation", S + ":BaseScheduler.process_tasks"), ("timer", "asyncz/schedulers/asyncio.py:AsyncIOScheduler.wakeup")])

p("C14", "Tasks can be found, listed and removed wherever they are kept",
  """A task added before start is kept pending and is added to its store when the scheduler starts; a task added later goes
  to its store at once, with its first fire time unless it was added paused. Lookup, listing, removal and remove-all act on exactly
  the tasks with the given id and store (any store when none is given), in the pending list while stopped and in the stores
  while running, and an unknown id raises; a replaced task supersedes the one with the same id, and without replacement a conflict changes nothing.
  A task used as a decorator adds one task per decorated function, with its options (paused if defined so), and returns the function.""",
  ["histories", "configurations"], "any pending list, any set of stores, any id and store filter",
  "Tests use one or two tasks in one store and one state.",
  [S], [("add", S + ":BaseScheduler.add_task/real_add_task"), ("lookup", S + ":BaseScheduler.lookup_task"),
        ("delete", S + ":BaseScheduler.delete_task/remove_all_tasks"), ("list", S + ":BaseScheduler.get_tasks")])

p("C15", "Pause, resume, reschedule and run-now keep the schedule right",
  """Pausing clears the next run time and nothing else; resuming sets the first fire time from now or removes the task when
  its schedule has ended; rescheduling replaces the schedule and sets its first fire time from now. Running a task now submits it exactly
  once with its due run times (coalesced when configured, or now when forced and none is due), leaves the next run time strictly after
  now, and removes a finished task only when asked; every change is stored and reported.""",
  ["inputs", "schedules"], "any task, trigger, time, executor outcome",
  "Tests fix one trigger and time; the advance past now and finished-schedule branches depend on all of them.",
  [S], [("run now", S + ":BaseScheduler.run_task"), ("resume", S + ":BaseScheduler.resume_task"), ("reschedule", S + ":BaseScheduler.reschedule_task")])

p("C16", "Scheduler lifecycle is reference counted and consistent",
  """The scheduler starts on the first of nested starts and stops on the matching last shutdown; other starts and shutdowns
  change nothing, and a surplus shutdown, pause or resume of a stopped scheduler raises and leaves it startable. Starting starts every
  executor and store and adds all pending tasks; stopping runs each shutdown task once, shuts down every executor and store once, and
  pause/resume switch between running and paused with one event per real change.""",
  ["histories", "configurations"], "every sequence of start/shutdown/pause/resume calls, any executors and stores",
  "Call sequences are unbounded; tests use start then shutdown.",
  [S], [("reference count", S + ":BaseScheduler.inc_refcount/decr_refcount"), ("start/shutdown", S + ":BaseScheduler.start/shutdown"),
        ("pause/resume", S + ":BaseScheduler.pause/resume")])

p("C17", "Each event reaches exactly the listeners whose mask includes it",
  """An event is delivered exactly once, in registration order, to each registered listener whose mask includes its code,
  and to no other; a listener that raises, or that adds or removes listeners meanwhile, does not prevent delivery to the
  others or disturb the scheduler. Removing a listener removes exactly one registration and reports whether one was there.""",
  ["histories", "inputs", "fault_sequences"], "any listeners, masks, codes and failures",
  "Tests register one or two listeners.",
  [S, "asyncz/events/constants.py"], [("dispatch", S + ":BaseScheduler.dispatch_event"), ("registration", S + ":BaseScheduler.add_listener/remove_listener")])

p("C18", "Concurrent runs of a task never exceed its limit and are always accounted",
  """A submission is accepted exactly when fewer than the task's maximum instances are running, and is then counted once; a
  refused or failed submission changes no count. Every finished run, successful or not, releases exactly one instance of that task,
  whichever executor ran it, and its events are passed on once.""",
  ["histories", "schedules", "fault_sequences"], "any sequence of submissions and completions, any limits, failing submissions",
  "Interleavings of submissions and completions are unbounded; tests use one.",
  ["asyncz/executors/base.py", "asyncz/executors/asyncio.py", "asyncz/executors/debug.py", "asyncz/executors/pool.py"],
  [("accounting", "asyncz/executors/base.py:BaseExecutor.send_task/run_task_success/run_task_error"),
   ("completion callbacks", "asyncz/executors/*.py:do_send_task")],
  [("instances", "running count per task id", S)])

p("C19", "Each submitted run time ends in exactly one outcome",
  """For each submitted run time, in order, exactly one outcome is reported: missed, without calling the task, exactly when
  it is later than its grace time; otherwise the task is called once with its arguments and the outcome is executed with the
  returned value, or error with the raised exception. A failing run does not prevent later ones, and this holds alike for plain and coroutine tasks.""",
  ["inputs", "fault_sequences"], "any number of run times, grace times, clock values, task outcomes",
  "Tests use one run time; boundary (exactly at the grace time) and mixed sequences are not sampled.",
  ["asyncz/executors/base.py"], [("run", "asyncz/executors/base.py:run_task"), ("run coroutine", "asyncz/executors/base.py:run_coroutine_task")])

p("C20", "Locks are released exactly when they were taken, however a section ends",
  """Entering a protected section reports whether the lock was obtained; the lock is held during the section, and it is released
  exactly once when the section ends, also by an exception. A section that did not obtain the lock releases nothing, and a
  non-blocking attempt never waits.""",
  ["schedules", "fault_sequences"], "every way a section can end, every lock state",
  "Tests leave sections normally.",
  ["asyncz/locks.py", "asyncz/file_locking.py"], [("thread lock", "asyncz/locks.py:LockProtected.protected"), ("file lock", "asyncz/locks.py:FileLockProtected.protected"),
   ("file access lock", "asyncz/file_locking.py:with_lock")])

D = "asyncz/contrib/dashboard/"
p("C21", "Dashboard buffers keep the newest entries within their limit",
  """A bounded buffer never holds more than its limit, always holds the most recent entries in order, and a query returns
  exactly the stored entries that match its filters, newest first, up to the requested number. Clearing empties it.""",
  ["histories", "inputs"], "any sequence of appends, any limits and filters",
  "Tests append a few entries with one filter.",
  [D + "logs/storage.py", D + "events.py", D + "audit.py"], [("log buffer", D + "logs/storage.py"), ("event buffer", D + "events.py"), ("audit buffer", D + "audit.py")])

p("C22", "Run history shows each run once with its true outcome",
  """Every submitted run time of a task appears in the history as exactly one run; it ends as executed, failed, missed or
  skipped according to the event reported for that run time, events for one run never change another run, and the history keeps
  the most recent runs within its limit.""",
  ["histories"], "any sequence of submission and outcome events over any tasks and stores",
  "Tests feed single runs; interleavings of several runs with equal times or ids are not sampled.",
  [D + "history.py"], [("recording", D + "history.py")])

p("C23", "No protected dashboard page is served without a logged-in user",
  """With a login backend configured, every request to a path other than the login, logout and static paths is answered without
  reaching the protected page unless the backend recognises the user; pages are reached exactly when it does, under any mount
  prefix.""",
  ["inputs", "configurations"], "all paths, prefixes, allow-lists and request kinds",
  "The space of paths and prefixes is unbounded; tests sample a few.",
  [D + "admin/", D + "application.py"], [("gate", D + "admin/middleware")])

p("C24", "The remote control API only obeys callers with the configured token",
  """When a token of ASCII characters is configured, a remote request is obeyed exactly when its token header is that token, and is
  refused with status 401 before any effect otherwise; the client sends exactly its own token.""",
  ["inputs"], "all header values and tokens",
  "Header values are unbounded; tests use two.",
  [D + "remote.py"], [("token check", D + "remote.py")])

p("C25", "The remote client reports and does what the scheduler would do locally",
  """Values sent to and returned by the remote client equal those of the same call on the local scheduler (task ids are non-empty and
  without a slash), an explicit None is kept apart from an option left out, and lookup, conflict and instance-limit errors come back as
  the same kind of error, others as the remote error.""",
  ["inputs"], "all tasks, calls and arguments", "Tests compare a few calls.",
  [D + "remote.py"], [("client and server", D + "remote.py")])

p("C26", "Task listings return exactly the matching tasks in the requested order",
  """A filtered task listing contains every task that satisfies all given filters (state, executor, schedule kind, text, store)
  exactly once and no other, ordered by the requested field (reversed when descending; tasks without a next run time after those with
  one), and rejects unknown sort fields and states. Listing changes nothing.""",
  ["inputs"], "any tasks, filters and sort fields", "Tests filter lists of two or three tasks.",
  [S, "asyncz/tasks/types.py"], [("listing", S + ":BaseScheduler.get_task_infos"), ("snapshot", "asyncz/tasks/types.py:TaskType.snapshot")])

p("C27", "A run preview is bounded, consistent with the schedule and changes nothing",
  """A preview lists at most the requested number (1 to 50, otherwise refused) of upcoming run times, starting with the task's next
  run time (or the first fire time when it has none), each next being the schedule's successor of the one before, and reports
  exhaustion exactly when the schedule has ended. It changes neither the task nor the scheduler.""",
  ["inputs"], "any schedule, count and time", "Tests preview two triggers.",
  [S], [("preview", S + ":BaseScheduler.preview_task_runs")])

p("C28", "Command-line and form schedule definitions build the schedule they describe",
  """Parsing a schedule given as interval text, crontab text or date (on the command line, in a job file or in a dashboard form) yields
  exactly the described schedule, malformed text is rejected with an error, alias=value options for stores and executors yield exactly
  the given alias with its kind and typed values, and every field of the task form gives its typed value or a reported error.""",
  ["inputs"], "all texts", "Tests parse a few strings.",
  ["asyncz/cli/types.py", "asyncz/cli/_parsers.py", "asyncz/cli/utils.py", "asyncz/cli/loader.py", D + "controllers/_helpers.py",
   D + "controllers/tasks.py", "asyncz/triggers/cron/trigger.py"],
  [("command line", "asyncz/cli/types.py:parse_trigger"), ("options", "asyncz/cli/utils.py:build_stores_map/build_executors_map"),
   ("forms", D + "controllers/_helpers.py:parse_trigger_config"), ("edit form", D + "controllers/tasks.py:_parse_task_edit_updates")])

p("C29", "The representation registry resolves exactly the registered representation",
  """Resolving a representation by name or instance gives the one registered under that name, the default when none is given, and an
  error for unknown names; registering an existing name is refused unless replacement is asked.""",
  ["histories", "inputs"], "any registration sequence", "Tests register one.",
  ["asyncz/shapes/registry.py"], [("registry", "asyncz/shapes/registry.py:ShapeRegistry")])

p("C30", "Date, time zone and timestamp conversions denote the same instant",
  """Converting a date, datetime or text into a schedule time keeps the instant of zone-aware values, gives naive ones the
  configured zone, reads every documented text form (with fractions, Z and offsets) as the instant it denotes and rejects anything
  else; conversion to a timestamp and back is the identity to the microsecond (years 1698 to 2242) and rounding up gives the first whole second not before the time.""",
  ["inputs"], "all datetimes, texts and fixed-offset zones", "Tests convert a few values.",
  ["asyncz/utils.py"], [("conversion", "asyncz/utils.py:to_datetime"), ("normalization", "asyncz/utils.py:normalize/localize"), ("rounding", "asyncz/utils.py:datetime_ceil")])

p("C31", "The Redis and MongoDB stores implement the same store contract",
  """Over a server that behaves as documented, a Redis or MongoDB store answers as a table of tasks would: add rejects an existing id,
  update and delete reject an unknown id, lookup returns the stored task, due tasks are exactly those with a next run time not after the given
  time, the next run time is the least one stored, listings are ordered with paused tasks last, a failed write and other records stay as they were, and records that cannot be restored are dropped with their run times.""",
  ["histories", "fault_sequences"], "operation sequences, stored records and run times, and serialization failures during a write",
  "Tests run short fixed sequences against one server.",
  ["asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/stores/base.py"],
  [("redis operations", "asyncz/stores/redis.py:RedisStore"), ("mongo operations", "asyncz/stores/mongo.py:MongoDBStore")])

p("C32", "Scheduler options take effect in every form they can be given",
  """Options given as keywords, as nested dictionaries or as prefixed dotted keys configure the same scheduler: keywords win, keys without
  the prefix are ignored, the dictionaries given are not changed, and a running scheduler is not reconfigured. Executors and stores are made as
  described with exactly their options under their alias, other descriptions are refused; a task added without limit, coalescing or grace time
  gets the scheduler's defaults, and anything it is given wins.""",
  ["inputs", "configurations"], "every combination of forms, option values and task options", "Tests configure two fixed dictionaries.",
  [S, "asyncz/schedulers/datastructures.py", "asyncz/schedulers/asyncio.py"],
  [("configuration", S + ":BaseScheduler.setup/_setup"), ("plugins", S + ":BaseScheduler.create_plugin_instance"),
   ("defaults", "asyncz/schedulers/datastructures.py:TaskDefaultStruct"), ("task options", S + ":BaseScheduler.add_task")])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
    print(len(P))
