"""C25 a call on the remote client is the call on the worker's scheduler, and gives its result or its error."""
import asyncio
import datetime as dt
import inspect
import io
import json
import urllib.error
import urllib.parse

from asyncz.contrib.dashboard import remote
from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, RemoteSchedulerError, create_remote_scheduler_app
from asyncz.enums import SchedulerState, TaskScheduleState
from asyncz.exceptions import ConflictIdError, MaximumInstancesError, SchedulerNotRunningError, TaskLookupError
from asyncz.schedulers import AsyncIOScheduler
from asyncz.schedulers.inspection import SchedulerInfo, SchedulerInstanceInfo
from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
from asyncz.triggers import DateTrigger, IntervalTrigger
from asyncz.typing import undefined

NOTE = ("Client method and worker handler are verified together over a transport that carries what is sent: for every argument the "
        "scheduler is called once with the arguments given, and its answer or error comes back. The JSON form of the answers is "
        "checked at run time only (bounded), as is the whole way through urllib's and lilya's interfaces.")
ASSUMPTIONS = ["the values sent survive JSON (texts, numbers, booleans, lists and mappings of them)",
               "task ids are non-empty texts without a slash; empty filters and store names mean none",
               "urllib carries the request and lilya's router hands it to the handler of its route"]

UTC = dt.timezone.utc
IDS = ("t1", "a b", "ä?&=#%2F", "..", "日本", "+", "t1/"[:-1])
WHEN = dt.datetime(2031, 5, 6, 7, 8, 9, 123456, UTC)


def _info(**k):
    base = dict(id="t1", name="n", callable_name="f", callable_reference="m:f", trigger_alias="interval", trigger_name="IntervalTrigger",
                trigger_description="d", executor="default", store_alias="default", schedule_state=TaskScheduleState.SCHEDULED,
                next_run_time=WHEN, coalesce=True, max_instances=3, mistrigger_grace_time=5, pending=False, paused=False, submitted=True)
    return TaskInfo(**{**base, **k})


INFOS = (_info(), _info(id="x/y", name="日本", next_run_time=None, schedule_state=TaskScheduleState.PAUSED, paused=True, coalesce=False),
         _info(mistrigger_grace_time=None, args=(1, "a", [1, 2], None, {"k": 2.5}), kwargs={"a": {"b": [True]}}, store_alias=None,
               executor=None, trigger_alias=None, pending=True, schedule_state=TaskScheduleState.PENDING),
         _info(mistrigger_grace_time=0.25, max_instances=10 ** 6, submitted=False, callable_reference=None,
               next_run_time=dt.datetime(2031, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=5, minutes=45)))))
SCHED = SchedulerInfo(identity="i", state=SchedulerState.STATE_PAUSED, state_label="paused", running=True, started_at=WHEN,
                      uptime_seconds=1.5, timezone="UTC", executor_aliases=("a", "b"), store_aliases=(), task_count=3,
                      scheduled_task_count=1, paused_task_count=1, pending_task_count=1, submitted_task_count=0,
                      store_retry_interval=10.0, startup_delay=0.5)
INSTANCE = SchedulerInstanceInfo(identity="i", scope="process", state=SchedulerState.STATE_RUNNING, state_label="running", active=True,
                                 stale=False, started_at=None, last_seen_at=WHEN, heartbeat_age_seconds=0.5, stale_after_seconds=30.0,
                                 timezone="UTC", executor_aliases=("a",), store_aliases=("s", "t"), task_count=3, scheduled_task_count=1,
                                 paused_task_count=1, pending_task_count=1, submitted_task_count=0)
ERRORS = ("lookup", "not running", "maximum", "value", "conflict", "type", "other")


def _error(which, tid):
    return {"lookup": lambda: TaskLookupError(tid), "not running": SchedulerNotRunningError, "maximum": lambda: MaximumInstancesError(tid, 3),
            "value": lambda: ValueError("bad value"), "conflict": lambda: ConflictIdError(tid), "type": lambda: TypeError("bad type"),
            "other": lambda: RuntimeError("boom")}[which]()


class Snap:
    def __init__(self, info):
        self.info = info

    def snapshot(self):
        return self.info


class Worker:
    """a scheduler that records the calls and answers as it is told to"""

    def __init__(self, answer):
        self.__dict__["calls"] = []
        self.__dict__["answer"] = answer

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)

        def ask(*a, **k):
            self.calls.append((n, a, k))
            if isinstance(self.answer, BaseException):
                raise self.answer
            return self.answer
        return ask


def _arguments(name, a, k):
    """the call as the scheduler understands it: every argument by name"""
    b = inspect.signature(getattr(AsyncIOScheduler, name)).bind(None, *a, **k)
    b.apply_defaults()
    got = dict(b.arguments)
    got.pop("self")
    got.update(got.pop("trigger_args", {}) or {})
    got.update(got.pop("updates", {}) or {})
    if name == "add_task":
        for n in ("id", "name", "store", "executor"):
            if got[n] is undefined or got[n] == "":
                got[n] = None
        got["args"] = tuple(got["args"] or ())
        got["kwargs"] = dict(got["kwargs"] or {})
    return got


def _plain(v):
    """the value as JSON carries it"""
    if isinstance(v, dt.datetime):
        return v.isoformat()
    if isinstance(v, (tuple, list)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if isinstance(v, (IntervalTrigger, DateTrigger)):
        return type(v).__name__, str(v), str(v.get_next_trigger_time(UTC, None, WHEN))
    return getattr(v, "value", v) if isinstance(v, TaskScheduleState) else v


def _same(E, a, b):
    if E.sym and (hasattr(type(a), "_vc_sym") or hasattr(type(b), "_vc_sym")):
        return a is b or E.truth(E.eqv(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(_same(E, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return all(_same(E, a[n], b[n]) for n in a)
    if a is undefined or b is undefined or a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return _plain(a) == _plain(b)


def _client(E, worker):
    """the client connected to the real handlers"""
    if E.conc:
        token = E.choice("token", None, "s")
        app = create_remote_scheduler_app(worker, token=token)
        E.patch(remote.urllib.request, "urlopen", lambda request, timeout=None: _serve(app, request))
        return RemoteSchedulerClient(E.choice("base", "http://h", "http://h/", "http://h/x/")[:10], token=token)
    routes = []

    def route(path, handler, methods=(), name=None, **k):
        for m in methods:
            routes.append((m, path.split("/")[1:], handler))

    E.patch(remote, "RoutePath", route)
    E.patch(remote, "Router", lambda routes=(), **k: routes)
    E.patch(remote, "JSONResponse", lambda content, status_code=200: (status_code, content))
    E.contract(remote._dump_json, lambda v: v)
    E.call(create_remote_scheduler_app, worker, token="s")

    def sent(query):
        """a number is sent as its digits, which are never empty"""
        return {k: "0" if isinstance(v, int) and E.truth(v == 0) else v for k, v in query.items()}

    def transport(method, path, payload, headers, query):
        parts = path.split("/")[1:]
        for m, want, handler in routes:
            if m == method and len(want) == len(parts) and all(w.startswith("{") or w == p for w, p in zip(want, parts)):
                found = {w.strip("{}").split(":")[0]: urllib.parse.unquote(p) for w, p in zip(want, parts) if w.startswith("{")}

                async def read():
                    return payload

                request = E.stub("request", None, headers=dict(headers), json=read, path_params=found, query_params=sent(query or {}))
                return E.drive(E.call(handler, request)) if inspect.iscoroutinefunction(handler) else E.call(handler, request)
        raise AssertionError(f"no handler for {method} {path}")

    return E.call(RemoteSchedulerClient, token="s", transport=transport)


def _serve(app, request):
    url = urllib.parse.urlsplit(request.full_url)
    out = []
    body = request.data or b""

    async def receive():
        return {"type": "http.request", "body": body, "more_body": False}

    async def send(m):
        out.append(m)

    path = url.path[2:] if url.path.startswith("/x/") else url.path
    scope = {"type": "http", "method": request.get_method(), "path": urllib.parse.unquote(path), "raw_path": path.encode(), "root_path": "",
             "query_string": url.query.encode(), "headers": [(k.lower().encode(), v.encode("latin-1")) for k, v in request.header_items()],
             "client": ("1.2.3.4", 5), "server": ("h", 80), "scheme": "http", "http_version": "1.1", "asgi": {"version": "3.0"}, "state": {}}

    async def go():
        try:
            await app(scope, receive, send)
        except Exception:
            if not out:
                out.extend([{"type": "http.response.start", "status": 500}, {"type": "http.response.body", "body": b"failed"}])

    asyncio.run(go())
    status = next(m["status"] for m in out if m["type"] == "http.response.start")
    data = io.BytesIO(b"".join(m.get("body", b"") for m in out))
    if status >= 400:
        raise urllib.error.HTTPError(request.full_url, status, "error", {}, data)
    data.status = status
    return data


def target():
    """a callable that can be named"""


def _text(E, n, *words):
    return E.key(n) if E.sym else E.choice(n, *words)


def _opt(E, n, f):
    return f() if E.choice(f"{n} given", False, True) else None


def _check(E, call, name, a, k, answers, give=lambda v: v, back=lambda v: v, errors=ERRORS):
    """the call through the client is the call on the scheduler, with its result or error"""
    tid = "t1" if name == "get_task_infos" else a[0]
    if E.choice("fails", False, True):
        which = E.choice("error", *errors)
        E.assume(not (name in ("get_task_infos", "preview_task_runs", "add_task") and which == "lookup"))
        answer = _error(which, tid)
    else:
        answer = E.choice("answer", *answers)
    worker = Worker(answer if isinstance(answer, BaseException) else give(answer))
    client = _client(E, worker)
    r = E.run_call(getattr(client, call), *a, **k)
    E.prove("the scheduler is called once", len(worker.calls) == 1)
    n, ga, gk = worker.calls[0]
    E.prove("the same operation", n == name)
    want, got = _arguments(name, a, k), _arguments(name, ga, gk)
    E.prove("with the arguments given", sorted(want) == sorted(got))
    for p in sorted(want):
        E.prove("with the arguments given", _same(E, want[p], got[p]))
    if isinstance(answer, BaseException):
        kind = type(answer) if type(answer) in (TaskLookupError, SchedulerNotRunningError, MaximumInstancesError, ValueError) else \
            RemoteSchedulerError
        E.prove("the error comes back as the same kind of error", r.raised(kind) and type(r.exc) is kind)
        E.prove("with its message", str(r.exc) == str(answer) or kind is RemoteSchedulerError and str(answer) in str(r.exc))
        E.reached("error")
        return None
    E.prove("the call succeeds", r.ok)
    E.prove("the scheduler's answer comes back", back(r.value) == answer)
    E.reached(call)
    return r.value


def _task(v):
    return None if v is None else v.snapshot()


def _give(v):
    return None if v is None else Snap(v)


def _store(E):
    store = _opt(E, "store", lambda: _text(E, "store", "default", "ä b", "0"))
    if store is not None:
        E.assume(store != "")
    return store


def actions(E):
    tid = E.choice("id", *(IDS[:3] if E.sym else IDS))
    store = _store(E)
    call = E.choice("call", "run_task", "pause_task", "resume_task", "delete_task")
    k = {}
    if call == "run_task":
        if E.choice("force given", False, True):
            k["force"] = E.bool("force")
        if E.choice("removal given", False, True):
            k["remove_finished"] = E.bool("remove")
    v = (None,) if call == "delete_task" else (INFOS if E.conc else INFOS[:1]) + ((None,) if call in ("run_task", "resume_task") else ())
    if call == "pause_task":
        v = (INFOS[1], INFOS[2])
    _check(E, call, call, (tid, store), k, v, _give, _task)


def _some(E, options, most, bound):
    """some of the options, any of them at run time"""
    if E.sym:
        E.bounded.add(bound)
        k, at = {}, 0
        for _ in range(most):
            at = E.choice(f"option {len(k)}", *range(at, len(options) + 1))
            if at == len(options):
                break
            n, f = options[at]
            k[n] = f()
            at += 1
        return k
    return {n: f() for n, f in options if E.choice(f"{n} given", False, True)}


def updates(E):
    tid = "a b" if E.sym else E.choice("id", *IDS)
    store = _store(E)
    k = _some(E, (("name", lambda: _text(E, "name", "n", "日", "")), ("coalesce", lambda: E.bool("coalesce")),
                 ("max_instances", lambda: E.int("max", -2, 9)), ("mistrigger_grace_time", lambda: E.choice("grace", None, 5, 0.5)),
                 ("executor", lambda: _text(E, "executor", "e", "")), ("args", lambda: E.choice("args", (), (1, "a"), [None])),
                 ("kwargs", lambda: E.choice("kwargs", {}, {"a": [1]})), ("fn", lambda: "m:f")), 2, "updates of up to two attributes at a time")
    _check(E, "update_task", "update_task", (tid, store), k, INFOS if E.conc else INFOS[:1], _give, _task,
           ERRORS if E.conc else ("lookup", "type"))


def queries(E):
    call = E.choice("call", "get_task_infos", "preview_task_runs", "get_task_info", "get_scheduler_info", "get_scheduler_instance_infos",
                    "running")
    if call == "get_task_infos":
        k = {}
        for n, f in (("schedule_state", lambda: E.choice("state", TaskScheduleState.PAUSED, "paused", "nonsense")),
                     ("executor", lambda: _text(E, "executor", "e", "ä&b")), ("trigger", lambda: _text(E, "trigger", "cron", " x ")),
                     ("q", lambda: _text(E, "q", "needle", "a=b&c", "日", "+ %")),
                     ("sort_by", lambda: _text(E, "sort", "id", "nonsense")), ("descending", lambda: E.choice("descending", False, True))):
            if E.choice(f"{n} given", False, True):
                k[n] = f()
                if E.sym:
                    E.assume(k[n] != "")
        _check(E, call, call, (_store(E),), k, (list(INFOS), []), errors=ERRORS if E.conc else ("value", "type"))
    elif call == "preview_task_runs":
        k = {}
        if E.choice("count given", False, True):
            k["count"] = E.int("count", -3, 60)
        if E.choice("now given", False, True):
            k["now"] = E.choice("now", None, WHEN, WHEN.replace(tzinfo=None), INFOS[3].next_run_time)
        answers = (TaskRunPreview(task=INFOS[2], timezone="UTC", generated_at=WHEN, requested_count=5, run_times=(WHEN, INFOS[3].next_run_time),
                                  exhausted=False), None)
        _check(E, call, call, (E.choice("id", *IDS[:3]), _store(E)), k, answers)
    elif call == "get_task_info":
        answer = E.choice("answer", *INFOS, None)
        w = Worker(answer)
        c = _client(E, w)
        tid, store = E.choice("id", *IDS[:3]), _store(E)
        E.prove("the task's snapshot comes back", E.call(c.get_task_info, tid, store) == answer)
        E.prove("of the task asked for", all(x[0] == "get_task_info" and _same(E, list(_arguments("get_task_info", *x[1:]).values()), [tid, store])
                                             for x in w.calls) and len(w.calls) == 1)
        t = E.call(c.get_task, tid, store)
        E.prove("the proxy has it as well", (t is None) == (answer is None) and (t is None or _task(t) == answer))
        r = E.run_call(c.lookup_task, tid, store)
        E.prove("an unknown task cannot be looked up", r.raised(TaskLookupError) if answer is None else r.ok and
                r.value[0].snapshot() == answer and r.value[1] == answer.store_alias)
        E.reached(call)
    elif call == "running":
        c = _client(E, Worker(SCHED))
        E.prove("running as the scheduler says", E.getattr(c, "running") is True if E.sym else c.running is True)
        E.reached(call)
    else:
        answer = SCHED if call == "get_scheduler_info" else E.choice("instances", (INSTANCE,), (), (INSTANCE, INSTANCE))
        w = Worker(answer)
        E.prove("the scheduler's data comes back", E.call(getattr(_client(E, w), call)) == answer and [x[0] for x in w.calls] == [call])
        E.reached(call)


def adds(E):
    k = {}
    fn = E.choice("fn", "m:f", target)
    kind = E.choice("trigger", "alias", "object", "none")
    trigger = None
    if kind == "alias":
        trigger = "interval"
        if E.choice("trigger arguments", False, True):
            k["minutes"] = E.int("minutes", 1, 9)
    elif kind == "object":
        trigger = E.choice("trigger object", IntervalTrigger(minutes=7), DateTrigger(WHEN))
    options = (("args", lambda: E.choice("args", None, (), (1, "a"), [None, {"x": 1}])), ("kwargs", lambda: E.choice("kwargs", None, {}, {"a": 1})),
               ("id", lambda: _opt(E, "an id", lambda: _text(E, "id", "t1", "a/b"))), ("name", lambda: _opt(E, "a name", lambda: _text(E, "name", "n"))),
               ("mistrigger_grace_time", lambda: E.choice("grace", None, 5, 0.5, undefined)),
               ("coalesce", lambda: E.choice("coalesce", True, False, undefined)),
               ("max_instances", lambda: E.choice("max", 4, 1, undefined)),
               ("next_run_time", lambda: E.choice("next", None, WHEN, "2031-01-02 03:04:05", undefined)),
               ("store", lambda: E.choice("store", None, "s", undefined)), ("executor", lambda: E.choice("executor", None, "e", undefined)),
               ("replace_existing", lambda: E.bool("replace")))
    k.update(_some(E, options, 2, "adding with up to two options at a time"))
    want = dict(k)
    worker = Worker(Snap(INFOS[0]))
    if E.choice("fails", False, True):
        worker.__dict__["answer"] = _error(E.choice("error", *(("value", "type") if E.sym else ("value", "conflict", "type", "not running"))), "t1")
    client = _client(E, worker)
    r = E.run_call(client.add_task, fn, trigger, **k)
    E.prove("the scheduler is called once", len(worker.calls) == 1 and worker.calls[0][0] == "add_task")
    _, ga, gk = worker.calls[0]
    got, want = _arguments("add_task", ga, gk), _arguments("add_task", (fn if isinstance(fn, str) else f"{__name__}:target", trigger), want)
    E.prove("with the arguments given", sorted(want) == sorted(got))
    for p in sorted(want):
        E.prove("with the arguments given", _same(E, want[p], got[p]))
    if isinstance(worker.answer, BaseException):
        E.prove("the error comes back", not r.ok and str(worker.answer) in str(r.exc) and
                isinstance(r.exc, RemoteSchedulerError if type(worker.answer) in (ConflictIdError, TypeError) else type(worker.answer)))
        E.reached("error")
    else:
        E.prove("the new task comes back", r.ok and _task(r.value) == INFOS[0])
        E.reached("added")


def _mistakes(E, f, *a, **k):
    r = E.run_call(f, *a, **k)
    return r, None if r.ok else type(r.exc)


def session(E):
    """the same calls on two equal schedulers, one of them remote, leave them equal (bounded: sampled, not started)"""
    here, there = (AsyncIOScheduler(stores={"default": {"type": "memory"}, "s": {"type": "memory"}}, timezone="UTC") for _ in range(2))
    client = _client(E, there)
    for step in range(E.int("steps", 1, 6)):
        op = E.choice(f"op{step}", "add", "add", "update_task", "pause_task", "resume_task", "delete_task", "run_task", "preview_task_runs",
                      "get_task_info", "list")
        tid = E.choice(f"id{step}", "a", "b", "c d")
        store = E.choice(f"store{step}", None, "default", "s", "nowhere")
        if op == "add":
            k = {"id": tid, "store": store}
            for n, vs in (("name", ("x", "y")), ("mistrigger_grace_time", (None, 3, 0.5)), ("coalesce", (True, False)), ("max_instances", (1, 4)),
                          ("next_run_time", (None, WHEN)), ("args", ((), (1,))), ("replace_existing", (True, False))):
                if E.choice(f"{n}{step}", False, True):
                    k[n] = E.choice(f"{n} {step}", *vs)
            trigger = E.choice(f"trigger{step}", IntervalTrigger(minutes=7, start_at=WHEN), DateTrigger(WHEN), "interval")
            if trigger == "interval":
                k.update(hours=2, start_at=WHEN)
            a, ea = _mistakes(E, here.add_task, f"{__name__}:called", trigger, **k)
            b, eb = _mistakes(E, client.add_task, f"{__name__}:called", trigger, **k)
        elif op == "list":
            k = {}
            for n, vs in (("schedule_state", ("paused", "pending", "bad")), ("q", ("x", "interval", "c d")), ("sort_by", ("id", "trigger", "bad")),
                          ("descending", (True, False)), ("trigger", ("date", "interval"))):
                if E.choice(f"{n}{step}", False, True):
                    k[n] = E.choice(f"{n} {step}", *vs)
            a, ea = _mistakes(E, here.get_task_infos, **k)
            b, eb = _mistakes(E, client.get_task_infos, **k)
        else:
            k = {"update_task": {"name": "new", "max_instances": E.choice(f"max{step}", 2, 0)},
                 "preview_task_runs": {"count": E.choice(f"count{step}", 3, 0, 51), "now": WHEN}}.get(op, {})
            a, ea = _mistakes(E, getattr(here, op), tid, store, **k)
            b, eb = _mistakes(E, getattr(client, op), tid, store, **k)
        E.prove("both succeed or both fail", a.ok == b.ok)
        if a.ok:
            x, y = ([v.snapshot() if hasattr(v, "snapshot") else v][0] for v in (a.value, b.value))
            E.prove("with the same result", x == y)
        elif ea in (TaskLookupError, SchedulerNotRunningError, MaximumInstancesError, ValueError):
            E.prove("with the same error", ea is eb)
        E.prove("and leave the schedulers equal", here.get_task_infos(sort_by="id") == there.get_task_infos(sort_by="id") ==
                client.get_task_infos(sort_by="id"))
        E.reached(op)


def called(*args):
    """what the tasks of a session would run"""


RUNTIME = [session]
UNITS = [actions, updates, queries, adds]
