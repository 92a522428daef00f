"""C26 task listings return exactly the matching tasks in the requested order."""
import datetime as dt

from asyncz.enums import TaskScheduleState
from asyncz.schedulers.base import BaseScheduler
from asyncz.tasks import Task
from asyncz.tasks.inspection import TaskInfo

from .util import UTC, scheduler

NOTE = ("Listings are verified for any number of tasks with arbitrary texts, every filter combination and sort field, both "
        "directions, by deciding for an arbitrary task whether it is kept and for two arbitrary kept tasks how they are "
        "ordered. Lower-casing, stripping and substring tests are uninterpreted (the same in code and contract).")
ASSUMPTIONS = ["get_tasks lists the scheduler's tasks (C14)",
               "the listing reads each task once; a task is not changed by somebody else meanwhile",
               "sorted() sorts; lower, strip and substring tests are deterministic"]

STATES = [TaskScheduleState.PENDING, TaskScheduleState.PAUSED, TaskScheduleState.SCHEDULED]
TEXTS = ("id", "name", "callable_name", "callable_reference", "trigger_alias", "trigger_name", "trigger_description",
         "executor", "store_alias")
SORTS = ["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger"]
WORDS = ["", "a", "A", "b", "ab", "Ba", "pend", "abc ", "cron", "CRON"]


def _info(E, get, state, next_run_time):
    d = {n: get(n) for n in TEXTS}
    d.update(args=(), kwargs={}, schedule_state=state, next_run_time=next_run_time, coalesce=False, max_instances=1,
             mistrigger_grace_time=None, pending=state is STATES[0], paused=state is STATES[1], submitted=False)
    return E.obj(TaskInfo, **d)


def _listing(E, focus):
    """focus: which filters/sorting are exercised together"""
    tz = E.tz()
    memo = {}
    sort = E.choice("sort", *SORTS) if focus in ("order", "all") else None
    if E.sym:
        from pyvc.values import DtC, IntC, KeyC, OptC, Population
        E.pipelines = True
        fields = {"search": TEXTS, "executor": ("executor",), "trigger": ("trigger_alias", "trigger_name"), "id": ("id",),
                  "name": ("name",), "store": ("store_alias",)}
        missing = E.choice("missing", "nothing", *fields.get(focus, fields.get(sort, ())))

        def snapshot(ref):
            k = str(ref.t)
            if k not in memo:
                def get(n):
                    v = getattr(ref, n)
                    E.assume(v != "")
                    return (None if len(memo) == 0 or focus != "order" else v) if n == missing else v

                st = E.choice("state", *STATES) if focus == "state" or sort == "schedule_state" or missing == "nothing" \
                    and focus == "search" else STATES[0]
                memo[k] = _info(E, get, st, ref.next_run_time if focus == "order" and sort in (None, "next_run_time") else None)
            return memo[k]

        pop = Population("task", Task, {**{n: KeyC for n in TEXTS}, "next_run_time": OptC(DtC(tz))},
                         other=lambda ref, n: (lambda: snapshot(ref)) if n == "snapshot" else NotImplemented)
        tasks = E.seq("tasks", pop.codec())
    else:
        def gen(i):
            def word(n):
                return E.choice(n, None, *WORDS)

            info = _info(E, word, E.choice("state", *STATES), E.opt("next", lambda: E.dt("next", tz)))
            t = E.stub("task", None, info=info)
            t.snapshot = lambda: info
            return t

        def snapshot(t):
            return t.info

        tasks = E.seq("tasks", None, gen, maxlen=6, long=600)
    store = E.choice("store", None, "default") if focus in ("state", "all") else None

    def get_tasks(self, alias=None):
        E.prove("the tasks of the requested store", alias == store)
        return tasks

    E.contract(BaseScheduler.get_tasks, get_tasks)
    kw = {}
    word = (lambda n: E.key(n)) if E.sym else (lambda n: E.choice(n, *WORDS[1:], " Ab", "sched"))
    state = E.choice("state filter", None, *STATES) if focus in ("state", "all") else None
    if state is not None:
        kw["schedule_state"] = E.choice("as", state, state.value, f" {state.value.upper()} ")
    exe = E.opt("executor", lambda: word("executor")) if focus in ("executor", "all") else None
    if exe is not None:
        kw["executor"] = exe
    trig = E.opt("trigger", lambda: word("trigger")) if focus in ("trigger", "all") else None
    if trig is not None:
        kw["trigger"] = trig
    q = E.opt("q", lambda: word("q")) if focus in ("search", "all") else None
    if q is not None:
        kw["q"] = q
    desc = False
    if sort is not None:
        desc = E.choice("descending", False, True)
        kw.update(sort_by=sort, descending=desc)
    sch = scheduler(E, timezone=tz)
    r = E.run_call(sch.get_task_infos, store, **kw)
    E.prove("returns normally", r.ok)

    def low(v):
        return (v or "").lower()

    def keep(i, t):
        info = snapshot(t)
        if state is not None and info.schedule_state is not state:
            return False
        if exe is not None and E.truth(exe != "") and not E.truth(E.eqv(info.executor, exe)):
            return False
        if trig is not None and E.truth(trig != ""):
            want = trig.strip().lower()
            if not (E.truth(E.eqv(low(info.trigger_alias), want)) or E.truth(E.eqv(low(info.trigger_name), want))):
                return False
        if q is not None and E.truth(q != ""):
            want = q.strip().lower()
            hay = [low(getattr(info, n)) for n in TEXTS]
            if not any(E.truth(_in(E, want, h)) for h in hay) and not E.truth(_in(E, want, info.schedule_state.value)):
                return False
        return True

    def rank(info):
        """the field a listing is ordered by; ties are free"""
        if sort in (None, "next_run_time"):
            return (info.next_run_time is None, info.next_run_time)
        return {"id": lambda: low(info.id), "name": lambda: low(info.name), "executor": lambda: low(info.executor),
                "store": lambda: low(info.store_alias), "schedule_state": lambda: info.schedule_state.value,
                "trigger": lambda: low(info.trigger_alias or info.trigger_name)}[sort]()

    def less(a, b):
        if isinstance(a, tuple):
            if a[0] or b[0]:
                return not a[0] and b[0]
            return E.truth(a[1] < b[1])
        return E.truth(a < b)

    def before(i, x, j, y):
        a, b = rank(snapshot(x)), rank(snapshot(y))
        return less(b, a) if desc else less(a, b)

    E.pipeline_prove("the listing", r.value, tasks, keep, lambda i, t, v: v is snapshot(t),
                     before if focus in ("order", "all") else None)
    E.reached("listed")


def _in(E, needle, hay):
    return E.in_(needle, hay) if E.sym else needle in hay


def by_state(E):
    """only tasks in the given state"""
    _listing(E, "state")


def by_executor(E):
    _listing(E, "executor")


def by_trigger(E):
    _listing(E, "trigger")


def by_text(E):
    _listing(E, "search")


def order(E):
    """every sort field, both directions"""
    _listing(E, "order")


def together(E):
    """all filters and sorting at once"""
    _listing(E, "all")


def refused(E):
    """unknown sort fields and states are refused"""
    E.contract(BaseScheduler.get_tasks, lambda self, alias=None: [])
    sch = scheduler(E)
    how = E.choice("bad", "sort", "state")
    bad = E.choice("value", "", "next", "ID", "run_time", "unknown", "trigger_alias")
    r = E.run_call(sch.get_task_infos, **({"sort_by": bad} if how == "sort" else {"schedule_state": bad}))
    E.prove("refused", r.raised(ValueError))


def _fn():
    pass


class _Trig:
    alias = "trig"

    def __str__(self):
        return "described"


def snapshot(E):
    """a snapshot shows the task as it is, and taking it changes nothing"""
    tz = E.tz()
    pending = E.choice("pending", True, False)
    nxt = E.opt("next", lambda: E.dt("next", tz))
    trigger = E.choice("trigger", None, _Trig())
    fn = E.choice("fn", None, _fn)
    ref = E.choice("reference", None, "mod:some_fn")
    d = dict(id=E.opt("id", lambda: E.key("id")), name=E.opt("name", lambda: E.key("name")),
             executor=E.opt("executor", lambda: E.key("exe")), store_alias=E.key("store"), coalesce=E.bool("coalesce"),
             max_instances=E.int("max", 1, 10**6), mistrigger_grace_time=E.opt("grace", lambda: E.int("g", 0, 10**6)),
             submitted=E.bool("submitted"), pending=pending, next_run_time=nxt, trigger=trigger, fn=fn,
             fn_reference=ref, args=(1, "a"), kwargs={"k": 2}, scheduler=None)
    t = E.obj(Task, **d)
    r = E.run_call(t.snapshot)
    E.prove("returns normally", r.ok)
    info = r.value
    for n in ("id", "name", "executor", "store_alias", "coalesce", "max_instances", "mistrigger_grace_time", "submitted",
              "next_run_time", "pending"):
        got, want = getattr(info, n), d[n]
        E.prove(f"{n} is shown", got is None if want is None else got is not None and E.truth(E.eqv(got, want)))
    state = STATES[0] if pending else STATES[1] if nxt is None else STATES[2]
    E.prove("the state", info.schedule_state is state and info.paused is (state is STATES[1]))
    E.prove("the schedule", (info.trigger_alias, info.trigger_name, info.trigger_description) ==
            ((None, None, None) if trigger is None else ("trig", "_Trig", "described")))
    E.prove("the callable", info.callable_name == ("_fn" if fn else "some_fn" if ref else None)
            and info.callable_reference == ref)
    E.prove("the arguments", info.args == (1, "a") and info.kwargs == {"k": 2})
    for n, v in d.items():
        E.prove("the task is unchanged", getattr(t, n) is v or E.truth(E.eqv(getattr(t, n), v)))


UNITS = [by_state, by_executor, by_trigger, by_text, order, refused, snapshot]
RUNTIME = [together]
