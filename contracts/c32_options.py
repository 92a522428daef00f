"""C32 scheduler options take effect in every form they can be given."""
import datetime as dt
import types

from asyncz.enums import SchedulerState
from asyncz.exceptions import SchedulerAlreadyRunningError
from asyncz.executors.debug import DebugExecutor
from asyncz.schedulers.asyncio import AsyncIOScheduler, NativeAsyncIOScheduler
from asyncz.schedulers.base import BaseScheduler
from asyncz.schedulers.datastructures import TaskDefaultStruct
from asyncz.shapes import resolve_shape
from asyncz.stores.memory import MemoryStore
from asyncz.triggers import DateTrigger, IntervalTrigger
from asyncz.typing import undefined

from .util import scheduler

NOTE = ("setup is run on every combination of forms (dotted, nested, keyword; prefixed or not) of up to four options with opaque values and "
        "compared with the options meant; _setup on every kind of value of every option; add_task on every combination of given options and "
        "scheduler defaults, with symbolic limits. The option names and alias sets are enumerated (bounded), values are arbitrary.")
ASSUMPTIONS = ["an option is not given both as a whole and by its parts in one dictionary", "constructors of executors and stores keep what they are given"]
QUICK_S = 60


class Options(dict):
    pass


class RecordingExecutor(DebugExecutor):
    def __init__(self, **options):
        super().__init__()
        self.__dict__["given"] = options


class RecordingStore(MemoryStore):
    def __init__(self, **options):
        super().__init__()
        self.__dict__["given"] = options


HERE = __name__


def put(d, path, value):
    for p in path[:-1]:
        d = d.setdefault(p, {})
    d[path[-1]] = value


PATHS = (("timezone",), ("lock_path",), ("executors", "default", "class"), ("executors", "default", "limit"), ("executors", "b", "type"),
         ("stores", "default", "type"), ("task_defaults", "coalesce"), ("task_defaults", "max_instances"), ("own", "deep", "er", "option"))


def forms(E):
    """options in a dictionary, dotted or nested, are the options meant; keywords override them"""
    E.bounded.add("the option names") if E.sym else None
    prefix = E.choice("prefix", "asyncz.", "app.", "x", "", None)
    first = E.choice("first", *range(len(PATHS)))
    second = E.choice("second", 0, 3, 5, 8)
    paths = list(dict.fromkeys((PATHS[first], PATHS[second], PATHS[(first + 1) % len(PATHS)])))
    values = [object() for _ in paths]
    want, glob = {}, {}
    nested = E.choice("nested at", 1, 2, 9)
    groups = {}
    for p, v in zip(paths, values):
        put(want, p, v)
        groups.setdefault(p[:nested], []).append((p[nested:], v))
    start = prefix or ""
    for head, rest in groups.items():
        key = start + ".".join(head)
        if rest[0][0] == ():
            glob[key] = rest[0][1]
        else:
            inner = {}
            for p, v in rest:
                put(inner, p, v)
            glob[key] = inner
    if prefix:
        for other in ("other.timezone", "timezone", prefix.upper() + "lock_path", "z" + prefix + "lock_path"):
            if not other.startswith(prefix):
                glob[other] = "foreign"
    over = {}
    if E.choice("keywords", True, False):
        over = {"timezone": object(), "jitter": object(), "executors": {"k": object()}}
        want.update(over)
    state = E.choice("state", SchedulerState.STATE_STOPPED, SchedulerState.STATE_RUNNING, SchedulerState.STATE_PAUSED)
    sch = scheduler(E, state=state)
    seen = []
    sch.__dict__["_setup"] = lambda config: seen.append(config)
    whole = glob if glob or E.choice("empty", "dict", "none") == "dict" else None
    kept = {k: dict(v) if isinstance(v, dict) else v for k, v in glob.items()}
    r = E.run_call(sch.setup, whole, prefix, **over)
    if state is not SchedulerState.STATE_STOPPED:
        E.prove("a scheduler that is running is not configured", r.raised(SchedulerAlreadyRunningError) and not seen)
        E.reached("running")
        return
    E.prove("configured once", r.ok and len(seen) == 1)
    E.prove("with exactly the options meant", seen[0] == want)
    E.prove("the dictionary given stays as it was", glob == kept)
    E.reached("forms")


def applied(E):
    """every option the scheduler reads ends up where it belongs"""
    which = E.choice("option", "defaults", "identity", "timezone", "numbers", "logger", "lock")
    config, zone = {}, dt.timezone(dt.timedelta(hours=3))
    config["timezone"] = zone
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, shape=resolve_shape(), identity="s1")
    checks = []
    if which == "defaults":
        limit, coalesce, grace = E.choice("limit", None, 1, 7, "9"), E.choice("coalesce", None, True, False, "false", "true", "0", "on", "NO"), \
            E.choice("grace", "unset", None, 0.25, 3, "5", 2.5)
        d = {}
        if limit is not None:
            d["max_instances"] = limit
        if coalesce is not None:
            d["coalesce"] = coalesce
        if grace != "unset":
            d["mistrigger_grace_time"] = grace
        config["task_defaults"] = E.choice("form", "dict", "object") == "dict" and d or TaskDefaultStruct(**d)
        checks = [("the limit", lambda: sch.task_defaults.max_instances == int(limit or 1)),
                  ("coalescing", lambda: sch.task_defaults.coalesce is (coalesce in (None, True, "true", "on"))),
                  ("the grace time", lambda: sch.task_defaults.mistrigger_grace_time == (1.0 if grace == "unset" else None if grace is None else float(grace)))]
    elif which == "identity":
        ident = E.choice("identity", None, "", "node-1", 7)
        if ident is not None:
            config["identity"] = ident
        before = E.choice("had", "old", "")
        if E.sym and not ident:
            E.assume(before != "")
        sch.__dict__["identity"] = before
        checks = [("the identity given, the former one or a new one", lambda: sch.identity == (str(ident) if ident else before) if ident or before
                   else type(sch.identity) is str and len(sch.identity) > 8)]
    elif which == "timezone":
        tz = E.choice("zone", "UTC", "Europe/Berlin", zone, None)
        config["timezone"] = tz
        checks = [("the zone", lambda: sch.timezone is zone if tz is zone else sch.timezone is not None if tz is None else sch.timezone.key == tz)]
    elif which == "numbers":
        retry, stale = E.choice("retry", None, 3, "4.5", 0), E.choice("stale", None, 5, "60")
        if retry is not None:
            config["store_retry_interval"] = retry
        if stale is not None:
            config["heartbeat_stale_after"] = stale
        checks = [("the retry interval", lambda: sch.store_retry_interval == (10 if retry is None else float(retry))),
                  ("the heartbeat limit", lambda: sch.heartbeat_stale_after == (30 if stale is None else float(stale)))]
    elif which == "logger":
        name = E.choice("logger", None, "", "a", "a.b")
        config["logger_name"] = name
        checks = [("the logger", lambda: sch.logger_name == ("asyncz.schedulers." + name if name else "asyncz.schedulers"))]
    else:
        path, delay = E.choice("lock path", None, "", "/tmp/x"), E.choice("delay", None, 0, 2, "3.5")
        config["lock_path"] = path
        if delay is not None:
            config["startup_delay"] = delay
        checks = [("the lock path", lambda: sch.lock_path == (path or "")),
                  ("the start-up delay", lambda: sch.startup_delay == (float(delay) if delay is not None else 1 if path else 0))]
    r = E.run_call(types.MethodType(BaseScheduler._setup, sch), config)
    E.prove("the options are taken", r.ok)
    for what, check in checks:
        E.prove(what, check())
    E.prove("the zone is set", sch.timezone is not None)
    E.reached(which)


def members(E):
    """executors and stores are made as described, under their alias; other descriptions are refused"""
    kind = E.choice("of", "executors", "stores")
    cls, plain, plugin = ((RecordingExecutor, DebugExecutor, "debug"), (RecordingStore, MemoryStore, "memory"))[kind == "stores"]
    names = E.choice("aliases", (), ("default",), ("b",), ("default", "b"))
    how = [E.choice(f"{a} as", "instance", "class", "reference", "type", "nothing", "other", "unknown") for a in names]
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, shape=resolve_shape(), timezone=dt.timezone.utc, identity="s1",
                    store_plugins={"memory": "asyncz.stores.memory:MemoryStore"}, store_classes={},
                    executor_plugins={"debug": "asyncz.executors.debug:DebugExecutor"}, executor_classes={}, trigger_plugins={}, trigger_classes={},
                    executors={"stale": object()}, stores={"stale": object()})
    given, made = {}, {}
    for a, h in zip(names, how):
        if h == "instance":
            made[a] = given[a] = plain()
        elif h in ("class", "reference"):
            given[a] = {"class": cls if h == "class" else f"{HERE}:{cls.__name__}", "alpha": a, "beta": [1]}
        elif h == "type":
            given[a] = {"type": plugin}
        elif h == "nothing":
            given[a] = {"alpha": 1}
        elif h == "unknown":
            given[a] = {"type": "no such type"}
        else:
            given[a] = 17
    kept = {a: dict(g) if isinstance(g, dict) else g for a, g in given.items()}
    r = E.run_call(types.MethodType(BaseScheduler._setup, sch), {"timezone": dt.timezone.utc, kind: given})
    bad = [h for h in how if h in ("nothing", "other", "unknown")]
    E.prove("the description given stays as it was", given == kept)
    if bad:
        E.prove("a description that names nothing usable is refused",
                r.raised({"nothing": ValueError, "other": TypeError, "unknown": LookupError}[bad[0]]))
        E.reached("refused")
        return
    E.prove("accepted", r.ok)
    got, rest = getattr(sch, kind), getattr(sch, "stores" if kind == "executors" else "executors")
    E.prove("exactly the ones described", sorted(got) == sorted(names) and len(rest) == 0)
    for a, h in zip(names, how):
        x = got[a]
        if h == "instance":
            E.prove("the instance itself", x is made[a])
        elif h == "type":
            E.prove("of the type", type(x) is plain)
        else:
            E.prove("of the class, with its options", type(x) is cls and x.__dict__["given"] == {"alpha": a, "beta": [1]})
    E.reached("made")


def _fn(a=0, b=0):
    pass


def defaults(E):
    """a task gets the scheduler's defaults for what it is not given, and what it is given otherwise"""
    zone = dt.timezone.utc
    limit0, coalesce0 = E.int("default limit", 1, 9), E.choice("default coalesce", True, False)
    grace0 = E.choice("default grace", None, 1.0, 7.5)
    own = E.obj(TaskDefaultStruct, mistrigger_grace_time=grace0, coalesce=coalesce0, max_instances=limit0)
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, shape=resolve_shape(), timezone=zone, task_defaults=own, lock_path="")
    limit = E.int("limit", 1, 9) if E.choice("limit given", True, False) else undefined
    coalesce = E.choice("coalesce", undefined, True, False)
    grace = E.choice("grace", undefined, None, 3, 0.5)
    trigger = E.choice("trigger", "interval", "date")
    made = IntervalTrigger(hours=1, timezone=zone) if trigger == "interval" else DateTrigger("2031-01-01 00:00:00", timezone=zone)
    if E.choice("lenient", False, True):
        made.allow_mistrigger_by_default = True
    lenient = bool(made.allow_mistrigger_by_default)
    options = {k: v for k, v in dict(max_instances=limit, coalesce=coalesce, mistrigger_grace_time=grace).items()
               if v is not undefined}
    if E.choice("named", True, False):
        options.update(name="n", id="i", args=[1], kwargs={"b": 2}, store="other", executor="x")
    r = E.run_call(sch.add_task, _fn if E.choice("as", "function", "decorator") == "function" else None, made, **options)
    E.prove("a task", r.ok and r.value is not None)
    t = r.value
    E.prove("its limit, or the scheduler's", E.eqv(t.max_instances, limit0 if limit is undefined else limit))
    E.prove("its coalescing, or the scheduler's", t.coalesce is (coalesce0 if coalesce is undefined else coalesce))
    want = grace if grace is not undefined else None if lenient else grace0
    E.prove("its grace time, or the scheduler's", t.mistrigger_grace_time is None if want is None else t.mistrigger_grace_time == want)
    E.prove("its trigger", t.trigger is made)
    if "id" in options:
        E.prove("its other options", t.name == "n" and t.id == "i" and tuple(t.args) == (1,) and t.kwargs == {"b": 2}
                and t.store_alias == "other" and t.executor == "x")
    E.reached("task")


def built(E):
    """a scheduler built from a dictionary and one built from keywords are configured alike (bounded)"""
    cls = E.choice("class", AsyncIOScheduler, NativeAsyncIOScheduler)
    zone = E.choice("zone", "UTC", "Europe/Berlin")
    d = {"timezone": zone, "task_defaults": {"coalesce": E.choice("coalesce", True, False), "max_instances": E.int("limit", 1, 5),
                                             "mistrigger_grace_time": E.choice("grace", None, 4)},
         "stores": {"default": {"type": "memory"}, "b": {"class": f"{HERE}:RecordingStore", "alpha": "1"}},
         "executors": {"x": {"class": f"{HERE}:RecordingExecutor", "beta": "2"}, "y": {"type": "debug"}}, "logger_name": "l", "startup_delay": "2"}

    def dotted(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                yield from dotted(v, (*path, k))
        else:
            yield ".".join(path), x

    ways = [cls(**d), cls({"asyncz." + k: v for k, v in d.items()}), cls(dict(("asyncz." + k, v) for k, v in dotted(d, ())))]
    again = cls()
    again.setup({"q." + k: v for k, v in d.items()}, prefix="q.")
    for s in (*ways, again):
        td = s.task_defaults
        E.prove("the defaults", (td.coalesce, td.max_instances, td.mistrigger_grace_time) == (
            d["task_defaults"]["coalesce"], d["task_defaults"]["max_instances"], d["task_defaults"]["mistrigger_grace_time"]))
        E.prove("the zone", s.timezone.key == zone)
        E.prove("the stores", {a: type(x) for a, x in s.stores.items()} == {"default": MemoryStore, "b": RecordingStore}
                and s.stores["b"].__dict__["given"] == {"alpha": "1"})
        E.prove("the executors", {a: type(x) for a, x in s.executors.items()} == {"x": RecordingExecutor, "y": DebugExecutor}
                and s.executors["x"].__dict__["given"] == {"beta": "2"})
        E.prove("the rest", s.logger_name == "asyncz.schedulers.l" and s.startup_delay == 2)
        t = s.add_task(_fn, IntervalTrigger(hours=1))
        E.prove("a task takes the defaults", t.coalesce is td.coalesce and t.max_instances == td.max_instances
                and t.mistrigger_grace_time == td.mistrigger_grace_time)
    E.reached("built")


UNITS = [forms, applied, members, defaults]
RUNTIME = [built]
