"""C11 triggers and tasks survive a store round trip unchanged."""
import datetime as dt
import pickle
import random

from asyncz.datastructures import TaskState
from asyncz.tasks.base import Task
from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger, ShutdownTrigger
from asyncz.triggers import base as triggers_base
from asyncz.triggers import interval as triggers_interval
from asyncz.utils import timedelta_seconds

from .c01_interval import seconds_contract
from .util import UTC

NOTE = ("Taking the state and restoring from it are verified for all bounds, intervals, jitters, zones and task attributes; for date "
        "schedules, intervals of some lengths and combinations of up to two members, equal answers are proved for every previous and "
        "current time. "
        "That the answers of restored cron schedules agree follows from the equality of all they are made of, and is sampled at run "
        "time (bounded). At run time the state goes through pickle itself.")
ASSUMPTIONS = ["pickle gives back the state model it was given (at run time the real one is used)",
               "pydantic: a model built from accepted values stores them unchanged"]


def stored(E, t):
    """the object restored from its stored state"""
    if E.conc:
        return pickle.loads(pickle.dumps(t, E.choice("protocol", 2, pickle.HIGHEST_PROTOCOL)))
    state = E.call(t.__getstate__)
    u = type(t).__new__(type(t))
    E.call(u.__setstate__, state)
    return u


def _draws(E):
    """the random delay of equal requests is equal"""
    if E.conc:
        part = E.real("draw", 0, 1)
        E.patch(random, "uniform", lambda a, b: a + (b - a) * part)
        return
    made = []

    def uniform(a, b):
        for x, y, v in made:
            if E.truth(E.and_(x == a, y == b)):
                return v
        v = E.int(f"draw{len(made)}") / 1_000_000  # whole microseconds
        E.assume(E.and_(v >= a, v <= b))
        made.append((a, b, v))
        return v

    E.patch(random, "uniform", uniform)


def _attributes(E, t, u, names):
    for n in names:
        a, b = getattr(t, n, None), getattr(u, n, None)
        E.prove(f"the same {n}", a is b or (a is not None and b is not None and E.truth(E.eqv(a, b))))


def _answers(E, t, u, tz):
    prev = E.opt("previous", lambda: E.dt("prev", tz))
    now = E.dt("now", tz)
    E.set_now(now)
    a = E.run_call(t.get_next_trigger_time, tz, prev, now)
    b = E.run_call(u.get_next_trigger_time, tz, prev, now)
    E.prove("both answer", a.ok == b.ok)
    if a.ok:
        E.prove("the same next fire time", a.value is b.value or a.value is not None and b.value is not None and
                E.truth(E.eqv(a.value, b.value)))
        if E.conc and a.value is not None:
            E.prove("in the same zone", a.value.utcoffset() == b.value.utcoffset())
        E.reached("none" if a.value is None else "fires")


BOUNDS = ("start_at", "end_at", "timezone", "jitter", "allow_mistrigger_by_default")


def _interval(E, i="", sizes=None):
    seconds_contract(E)
    tz = E.tz()
    start = E.dt(f"start{i}", tz)
    end = E.opt(f"end{i}", lambda: E.dt(f"end{i}", tz))
    lean = E.sym and i != ""
    if not lean and E.choice(f"naive start{i}", False, True):
        start = start.replace(tzinfo=None)
    return E.call(IntervalTrigger, seconds=E.choice(f"size{i}", *sizes) if sizes and E.sym else E.int(f"n{i}", 0, 10 ** 5), start_at=start,
                  end_at=end, timezone=None if lean else E.choice(f"zone{i}", None, tz),
                  jitter=None if lean else E.opt(f"jitter{i}", lambda: E.int(f"jitter{i}", 0, 1000)),
                  allow_mistrigger_by_default=False if lean else E.bool(f"flag{i}")), tz


def interval(E):
    _draws(E)
    t, tz = _interval(E)
    u = stored(E, t)
    _attributes(E, t, u, ("interval", *BOUNDS))
    v = stored(E, u)
    _attributes(E, t, v, ("interval", *BOUNDS))
    E.reached("restored")


def interval_answers(E):
    _draws(E)
    sizes = (0, 7, 3600, 100000)
    t, tz = _interval(E, sizes=sizes)
    if E.sym:
        E.bounded.add(f"answers of intervals of {sizes} seconds (all else arbitrary)")
    _answers(E, t, stored(E, t), tz)


def date(E):
    tz = E.tz()
    t = E.call(DateTrigger, E.dt("at", tz), allow_mistrigger_by_default=E.bool("flag")) if E.choice("given", True, False) else None
    if t is None:
        E.set_now(E.dt("made", tz))
        t = E.call(DateTrigger, None, tz)
    u = stored(E, t)
    _attributes(E, t, u, ("run_at", "allow_mistrigger_by_default"))
    _answers(E, t, u, tz)


FIELDS = ({"minute": "*/5"}, {"hour": 3, "minute": "1,2,50-55"}, {"day": "last", "hour": "*/7"}, {"day": "2nd fri"}, {"week": "1-53/2"},
          {"day_of_week": "mon-fri", "second": "30"}, {"month": "jan,mar", "day": "31"}, {"year": "2024-2030/2", "day": "29", "month": 2},
          {"day": "last sun", "month": "*/3"}, {"second": "*"})


def cron(E):
    _draws(E)
    seconds_contract(E)
    tz = E.tz()
    kw = E.choice("fields", *FIELDS)
    aware = E.choice("bounds", "aware", "naive")
    start, end = (E.opt(n, lambda n=n: E.dt(n, tz)) for n in ("start", "end"))
    if aware == "naive":
        start, end = (x and x.replace(tzinfo=None) for x in (start, end))
    t = E.call(CronTrigger, **kw, start_at=start, end_at=end, timezone=E.choice("zone", None, tz),
               jitter=E.opt("jitter", lambda: E.int("jitter", 0, 1000)), allow_mistrigger_by_default=E.bool("flag"))
    u = stored(E, t)
    _attributes(E, t, u, BOUNDS)
    E.prove("the same fields", len(t.fields) == len(u.fields))
    for a, b in zip(t.fields, u.fields):
        E.prove("the same fields", a is b or (type(a), a.name, str(a), a.is_default) == (type(b), b.name, str(b), b.is_default))
    E.prove("described alike", str(t) == str(u)) if E.conc else None
    if E.conc:
        _answers(E, t, u, tz)
    E.reached("restored")


def combination(E):
    _draws(E)
    kinds = [E.choice(f"member{i}", "date", "shutdown", "interval", "cron") for i in range(E.choice("members", 0, 1, 2, *((3,) if E.conc else ())))]
    if E.sym:
        E.assume(kinds.count("interval") <= 1 and kinds.count("date") <= 2)
        E.bounded.add("combinations of up to two members, one of them an interval without jitter at most")
    tz = E.tz()
    members = []
    for i, kind in enumerate(kinds):
        members.append(_interval(E, i, (7,))[0] if kind == "interval" else E.call(DateTrigger, E.dt(f"at{i}", tz)) if kind == "date" else
                       E.call(ShutdownTrigger) if kind == "shutdown" else E.call(CronTrigger, **E.choice(f"fields{i}", *FIELDS[:2])))
    if E.conc and E.choice("nested", False, True):
        members.append(OrTrigger([DateTrigger(E.dt("inner", tz)), CronTrigger(minute="*/7")]))
    cls = E.choice("class", AndTrigger, OrTrigger)
    t = E.call(cls, members, jitter=E.opt("jitter", lambda: E.int("jitter", 0, 1000)))
    u = stored(E, t)
    E.prove("the same class", type(u) is type(t))
    _attributes(E, t, u, ("jitter", "allow_mistrigger_by_default"))
    E.prove("as many members", len(u.triggers) == len(t.triggers))
    for a, b in zip(t.triggers, u.triggers):
        E.prove("members of the same class", type(a) is type(b))
        if type(a) is DateTrigger:
            _attributes(E, a, b, ("run_at",))
        elif type(a) is IntervalTrigger:
            _attributes(E, a, b, ("interval", *BOUNDS))
        elif type(a) is CronTrigger and E.conc:
            E.prove("the same fields", str(a) == str(b))
    if cls is OrTrigger and "cron" not in kinds:
        _answers(E, t, u, tz)
    elif E.conc and len(t.triggers) > 0 and (cls is OrTrigger or len(t.triggers) == 1):
        _answers(E, t, u, tz)
    E.reached("restored")


def shutdown(E):
    t = E.call(ShutdownTrigger)
    u = stored(E, t)
    E.prove("restored", type(u) is ShutdownTrigger)
    E.prove("never fires", E.call(u.get_next_trigger_time, UTC, None, None) is None)
    E.reached("restored")


# ------------------------------------------------------------------ tasks
class Owner:
    def __init__(self, mark):
        self.mark = mark

    def method(self, *a, **k):
        return "method", self.mark, a, k

    @classmethod
    def of_class(cls, *a, **k):
        return "class", cls, a, k

    @staticmethod
    def plain(*a, **k):
        return "plain", a, k

    def __eq__(self, o):
        return type(o) is Owner and o.mark == self.mark

    __hash__ = None


def function(*a, **k):
    return "function", a, k


REF = f"{__name__}:"
CALLABLES = ((function, "function"), (Owner(3).method, "Owner.method"), (Owner.of_class, "Owner.of_class"), (Owner.plain, "Owner.plain"),
             (Owner.method, "Owner.method"))


def task(E):
    fn, ref = E.choice("fn", *CALLABLES)
    tz = E.tz()
    args = E.choice("args", (), (1,), ("x", 2)) if E.conc else E.choice("args", (), (1,))
    if fn is Owner.method:
        args = (Owner(4), *args)
    trigger = E.stub("trigger", None) if E.sym else IntervalTrigger(minutes=5, start_at=dt.datetime(2031, 1, 1, tzinfo=UTC))
    attrs = {"id": E.key("id"), "name": E.key("name"), "fn": fn, "fn_reference": REF + ref, "trigger": trigger,
             "executor": E.key("executor"), "args": args, "kwargs": E.choice("kwargs", {}, {"k": 5}),
             "mistrigger_grace_time": E.choice("no grace", True, False) and None, "coalesce": E.bool("coalesce"),
             "max_instances": E.int("max", 1, 10 ** 6), "next_run_time": E.opt("next", lambda: E.dt("next", tz)), "scheduler": None,
             "store_alias": "default", "pending": E.bool("pending"), "submitted": E.bool("submitted")}
    if attrs["mistrigger_grace_time"] is False:
        attrs["mistrigger_grace_time"] = E.choice("grace kind", "int", "real") == "int" and E.int("grace", 1, 10 ** 6) or E.real("grace time", 0, 10 ** 6)
        E.assume(attrs["mistrigger_grace_time"] > 0)
    t = E.obj(Task, **attrs)
    r = E.run_call(t.__getstate__)
    E.prove("the task can be stored", r.ok)
    state = r.value if E.sym else pickle.loads(pickle.dumps(r.value, pickle.HIGHEST_PROTOCOL))
    u = Task.__new__(Task)
    r = E.run_call(u.__setstate__, state)
    E.prove("and restored", r.ok)
    _attributes(E, t, u, ("id", "name", "executor", "mistrigger_grace_time", "coalesce", "max_instances", "next_run_time"))
    if E.sym:
        E.prove("the same trigger", u.trigger is trigger)
    else:
        E.prove("the same trigger", repr(u.trigger) == repr(trigger))
    E.prove("the same kwargs", dict(u.kwargs) == attrs["kwargs"])
    call, want = u.fn(*u.args, **u.kwargs), fn(*args, **attrs["kwargs"])
    E.prove("the same call", call == want)
    E.prove("an active task", u.submitted is True and u.pending is False)
    # and once more, as after an update of the restored task
    r = E.run_call(u.__getstate__)
    E.prove("stored again", r.ok)
    v = Task.__new__(Task)
    E.call(v.__setstate__, r.value)
    _attributes(E, t, v, ("id", "name", "executor", "mistrigger_grace_time", "coalesce", "max_instances", "next_run_time"))
    E.prove("the same call again", v.fn(*v.args, **v.kwargs) == want)
    E.reached("restored")


def no_reference(E):
    """a task whose callable has no name is not stored, rather than stored wrongly"""
    t = E.obj(Task, id="t", fn=lambda: None, fn_reference=E.choice("reference", None, ""), args=(), kwargs={}, trigger=None, name="n",
              executor="e", mistrigger_grace_time=None, coalesce=True, max_instances=1, next_run_time=None, scheduler=None)
    E.prove("refused", E.run_call(t.__getstate__).raised(ValueError))
    E.reached("refused")


UNITS = [interval, interval_answers, date, cron, combination, shutdown, task, no_reference]
