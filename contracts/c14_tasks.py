"""C14 tasks can be found, listed and removed wherever they are kept."""
import datetime as dt

from asyncz.enums import SchedulerState
from asyncz.events.constants import ALL_TASKS_REMOVED, TASK_ADDED, TASK_REMOVED
from asyncz.exceptions import ConflictIdError, TaskLookupError
from asyncz.tasks import Task
from asyncz.triggers import DateTrigger, IntervalTrigger
from asyncz.triggers.types import TriggerType
from asyncz.typing import undefined

from .util import scheduler, watch

NOTE = ("Lookup, listing, removal and remove-all are verified for any number of pending tasks and any number of stores of any "
        "content; adding a task for every option, state of the scheduler and answer of the store; and starting for any "
        "number of pending tasks.")
ASSUMPTIONS = ["stores keep their own contract (C08, C09)", "task ids are not empty",
               "at most one kept task has the requested id where several matches would be ambiguous"]

RUNNING = (SchedulerState.STATE_RUNNING, SchedulerState.STATE_PAUSED)


class Pending:
    """the pending list: any number of tasks, with their options"""

    def __init__(self, E, tz=None):
        self.E = E
        if E.sym:
            from pyvc.values import BoolC, KeyC, Population, TupleC
            import z3
            self.pop = Population("pending", Task, {"id": KeyC, "store_alias": KeyC})
            self.seq = E.seq("pending", TupleC(self.pop.codec(), BoolC, BoolC))
            r = z3.Int("r!c14")
            for f in ("id", "store_alias"):
                a = z3.Select(self.pop.arrays(f)[0], r)
                E.assume(z3.ForAll([r], a > 0, patterns=[a]))
            self.old = self.seq.copy()
        else:
            def gen(i):
                t = E.obj(Task, id=E.choice("pending id", "a", "b", "c", "d", "e"), pending=True,
                          store_alias=E.choice("pending store", "default", "other"))
                return (t, E.choice("replace", True, False), E.choice("start", True, False))

            self.seq = E.seq("pending", None, gen, maxlen=5, long=300)
            self.old = list(self.seq)

    def unique(self, tid):
        """at most one pending task has the id"""
        E = self.E
        if E.conc:
            E.assume(sum(x[0].id == tid for x in self.old) <= 1)
            return
        import z3
        i, j = z3.Ints("i!u j!u")
        ids = self.pop.arrays("id")[0]
        a, b = self.old.get(i)[0], self.old.get(j)[0]
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(
            i >= 0, j >= 0, i < self.old.n, j < self.old.n, z3.Select(ids, a) == tid.t, z3.Select(ids, b) == tid.t), i == j)))


def _asked(E):
    tid = E.key("id") if E.sym else E.choice("id", "a", "b", "c", "z")
    E.assume(tid != "")
    if E.sym:
        store = E.opt("store", lambda: E.key("store"))
        if store is not None:
            E.assume(store != "")
    else:
        store = E.choice("store", None, "default", "other", "none")
    return tid, store


def _fits(E, tid, store):
    return lambda i, x: E.and_(E.eqv(x[0].id, tid), True if store is None else E.eqv(x[0].store_alias, store))


def _same(E, a, b):
    return a is b if E.conc else E.eqv(a, b)


def pending_find(E):
    """a stopped scheduler finds the pending task with the id (and store), or none"""
    p = Pending(E)
    tid, store = _asked(E)
    p.unique(tid)
    fe = E.search("pending", p.old, _fits(E, tid, store))
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, pending_tasks=p.seq)
    r = E.run_call(sch.get_task, tid, store)
    E.prove("returns normally", r.ok)
    hit = fe.found()
    if hit is None:
        E.prove("an unknown task is not found", r.value is None)
    else:
        E.prove("the task is found", r.value is not None and E.truth(_same(E, r.value, hit[1][0])))
        E.reached("found")


def pending_remove(E):
    """removing takes exactly the task with the id (and store) off the pending list, or raises"""
    p = Pending(E)
    tid, store = _asked(E)
    p.unique(tid)
    fits = _fits(E, tid, store)
    fe = E.search("pending", p.old, fits, frame=[p.seq] if E.sym else ())
    events = E.log("events")
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, pending_tasks=p.seq, listeners=watch(E, events))
    r = E.run_call(sch.delete_task, tid, store)
    hit = fe.found()
    now = sch.pending_tasks
    if hit is None:
        E.prove("an unknown task raises", r.raised(TaskLookupError))
        E.prove_entries("nothing is reported", events, [])
    else:
        E.prove("returns normally", r.ok)
        E.prove_entries("the removal is reported once", events, [(TASK_REMOVED, tid, hit[1][0].store_alias, None)])
    if E.conc:
        want = [x for x in p.old if hit is None or x is not hit[1]]
        E.prove("exactly that task is removed", len(now) == len(want) and all(a is b for a, b in zip(now, want)))
        return
    if type(now).__name__ == "FSeq":
        E.pipeline_prove("the pending list", now, p.old, lambda i, x: E.neg(fits(i, x)), lambda i, x, v: E.eqv(v, x))
        return
    E.prove("exactly that task is removed (count)", now.n == p.old.n - (0 if hit is None else 1))
    j = E.int("j", 0).t
    E.assume(j < now.n)
    same = lambda a, b: E.and_(*[x == y for x, y in zip(a, b)])  # noqa: E731
    if hit is None:
        E.prove("nothing is removed", same(now.get(j), p.old.get(j)))
    else:
        k = hit[0].t
        E.prove("exactly that task is removed", E.or_(E.and_(j < k, same(now.get(j), p.old.get(j))),
                                                      E.and_(j >= k, same(now.get(j), p.old.get(j + 1)))))
        E.reached("removed")


def pending_list(E):
    """a stopped scheduler lists the pending tasks of the store (of all stores), in order"""
    E.pipelines = True
    p = Pending(E)
    tid, store = _asked(E)
    fe = E.foreach("pending", p.old, out=lambda i, x: [x[0]] if store is None or E.truth(E.eqv(x[0].store_alias, store)) else [])
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, pending_tasks=p.seq)
    r = E.run_call(sch.get_tasks, store)
    E.prove("returns normally", r.ok)
    E.prove_entries("exactly the tasks of the store", r.value, [fe])
    E.prove("the pending list is unchanged", sch.pending_tasks is p.seq or E.truth(E.eqv(sch.pending_tasks, p.old)))
    E.reached("listed")


def pending_clear(E):
    """remove-all drops exactly the pending tasks of the store (of all stores)"""
    E.pipelines = True
    p = Pending(E)
    tid, store = _asked(E)
    events = E.log("events")
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, pending_tasks=p.seq, listeners=watch(E, events))
    r = E.run_call(sch.remove_all_tasks, store)
    E.prove("returns normally", r.ok)
    E.prove_entries("reported once", events, [(ALL_TASKS_REMOVED, None, None, store)])
    now = sch.pending_tasks
    if store is None:
        E.prove("all pending tasks are dropped", len(now) == 0)
    else:
        E.pipeline_prove("the pending list", now, p.old, lambda i, x: E.neg(E.eqv(x[0].store_alias, store)),
                         lambda i, x, v: _same(E, v[0], x[0]))
    E.reached("cleared")


# ------------------------------------------------------------------------------------------------ stores
class Stores:
    """the scheduler's stores by alias: any number of them"""

    def __init__(self, E, tid, touched=None):
        self.E, self.touched = E, touched
        if E.sym:
            import z3
            from pyvc.values import BoolC, KeyC, Population, TupleC
            self.pop = Population("store", object, {"has": BoolC, "task": KeyC}, other=lambda ref, n: self.attr(ref, n, tid))
            self.seq = E.seq("stores", TupleC(KeyC, self.pop.codec()))
            i, j = z3.Ints("i!s j!s")
            a, b = self.seq.get(i), self.seq.get(j)
            pat = z3.MultiPattern(a[0], b[0])
            E.assume(z3.ForAll([i, j], z3.Implies(i != j, z3.And(a[0] != b[0], a[1] != b[1])), patterns=[pat]))
            E.assume(z3.ForAll([i], a[0] > 0, patterns=[a[0]]))
        else:
            def gen(i):
                s = E.stub("store", None, has=E.choice("has", True, False), task=E.stub("task", None, n=i), alias=f"s{i}")
                for n in ("lookup_task", "delete_task", "get_all_tasks", "remove_all_tasks"):
                    setattr(s, n, self.attr(s, n, tid))
                return (f"s{i}", s)

            self.seq = E.seq("stores", None, gen, maxlen=4, long=70)

    def mapping(self):
        return Mapping(self) if self.E.sym else dict(self.seq)

    def content(self, ref):
        if self.E.conc:
            if not hasattr(ref, "all"):
                ref.all = [self.E.stub("task", None) for _ in range(self.E.choice("size", 0, 1, 3))]
            return list(ref.all)
        import z3
        from pyvc.values import KeyC, SSeq
        n = z3.Function("store.size", z3.IntSort(), z3.IntSort())(ref.t)
        f = z3.Function("store.entry", z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.E.assume(n >= 0)
        return SSeq(KeyC, n, lambda i: (f(ref.t, i),), "content")

    def attr(self, ref, n, tid):
        E = self.E

        def lookup_task(task_id):
            E.prove("the requested id is looked up", E.eqv(task_id, tid))
            return ref.task if E.truth(ref.has) else None

        def delete_task(task_id):
            E.prove("the requested id is removed", E.eqv(task_id, tid))
            if not E.truth(ref.has):
                raise TaskLookupError(task_id)
            self.touched.add(ref)

        def remove_all_tasks():
            self.touched.add(ref)

        d = {"lookup_task": lookup_task, "delete_task": delete_task, "remove_all_tasks": remove_all_tasks,
             "get_all_tasks": lambda: self.content(ref)}
        return d.get(n, NotImplemented)


class Mapping:
    def __init__(self, stores):
        self.s = stores

    def items(self):
        return self.s.seq


def _state(E):
    return E.choice("state", *RUNNING)


def _askstore(E):
    tid = E.key("id") if E.sym else "t"
    E.assume(tid != "")
    if E.sym:
        store = E.opt("store", lambda: E.key("store"))
        if store is not None:
            E.assume(store != "")
    else:
        store = E.choice("store", None, "s0", "s1", "s2", "none")
    return tid, store


def stored_find(E):
    """a started scheduler finds the task in the store asked for (in any store)"""
    tid, store = _askstore(E)
    s = Stores(E, tid)
    fe = E.search("stores", s.seq, lambda i, x: E.and_(True if store is None else E.eqv(x[0], store), x[1].has))
    sch = scheduler(E, state=_state(E), stores=s.mapping())
    r = E.run_call(sch.get_task, tid, store)
    E.prove("returns normally", r.ok)
    hit = fe.found()
    if hit is None:
        E.prove("an unknown task is not found", r.value is None)
    else:
        E.prove("the task is found", r.value is not None and E.truth(_same(E, r.value, hit[1][1].task)))
        E.reached("found")


def stored_remove(E):
    """removing removes the task from one store that has it, and from no other; or raises"""
    tid, store = _askstore(E)
    gone, events = E.log("removed"), E.log("events")
    s = Stores(E, tid, gone)
    fe = E.search("stores", s.seq, lambda i, x: E.and_(True if store is None else E.eqv(x[0], store), x[1].has), logs=[gone],
                  each=lambda i, x: [[]])
    sch = scheduler(E, state=_state(E), stores=s.mapping(), listeners=watch(E, events))
    r = E.run_call(sch.delete_task, tid, store)
    hit = fe.found()
    if hit is None:
        E.prove("an unknown task raises", r.raised(TaskLookupError))
        E.prove_entries("nothing is reported", events, [])
        E.prove("nothing is removed", [x for x in gone.entries if type(x).__name__ != "Mark"] == [])
    else:
        E.prove("returns normally", r.ok)
        E.prove_entries("the removal is reported once", events, [(TASK_REMOVED, tid, hit[1][0], None)])
        got = [x for x in gone.entries if type(x).__name__ != "Mark"]
        E.prove("removed from that store only", len(got) == 1 and E.truth(_same(E, got[0], hit[1][1])))
        E.reached("removed")


def stored_list(E):
    """a started scheduler lists the tasks of the store asked for (of all stores)"""
    tid, store = _askstore(E)
    s = Stores(E, tid)

    def out(i, x):
        if store is not None and not E.truth(E.eqv(x[0], store)):
            return []
        c = s.content(x[1])
        return [c] if E.sym and type(c.n).__name__ and E.use_specs else list(c) if E.conc else E.call(list, c)

    fe = E.foreach("stores", s.seq, out=out)
    sch = scheduler(E, state=_state(E), stores=s.mapping())
    r = E.run_call(sch.get_tasks, store)
    E.prove("returns normally", r.ok)
    E.prove_entries("exactly the tasks of the stores", r.value, [fe])
    E.reached("listed")


def stored_clear(E):
    """remove-all empties the store asked for (every store), and no other"""
    tid, store = _askstore(E)
    gone, events = E.log("emptied"), E.log("events")
    s = Stores(E, tid, gone)
    fe = E.foreach("stores", s.seq, logs=[gone],
                   each=lambda i, x: [[x[1]] if store is None or E.truth(E.eqv(x[0], store)) else []])
    sch = scheduler(E, state=_state(E), stores=s.mapping(), listeners=watch(E, events))
    r = E.run_call(sch.remove_all_tasks, store)
    E.prove("returns normally", r.ok)
    E.prove_entries("exactly the stores asked for are emptied", gone, [fe])
    E.prove_entries("reported once", events, [(ALL_TASKS_REMOVED, None, None, store)])
    E.reached("cleared")


# ------------------------------------------------------------------------------------------------ adding
class Store:
    """one store: takes a task, or already has one with its id"""

    def __init__(self, E, alias, log, answer=None):
        self.E, self.alias, self.log, self.answer = E, alias, log, answer

    def start(self, scheduler, alias):
        pass

    def add_task(self, task):
        a = self.answer(task)
        if a != "new":
            raise ConflictIdError(task.id)
        self.log.add("add", self.alias, task, task.next_run_time)

    def update_task(self, task):
        a = self.answer(task)
        if a == "gone":
            raise TaskLookupError(task.id)
        self.log.add("update", self.alias, task, task.next_run_time)


def _first(E, tz, now, value):
    def get_next_trigger_time(timezone, previous_time, at=None):
        E.prove("the first fire time is asked from now in the scheduler's zone",
                timezone is tz and previous_time is None and at is not None and E.truth(at == now))
        return value()

    return get_next_trigger_time


def add(E):
    """a task goes to the pending list of a stopped scheduler and to its store else, with its first fire time"""
    tz = E.tz()
    now = E.dt("now", tz)
    E.set_now(now)
    state = E.choice("state", SchedulerState.STATE_STOPPED, *RUNNING)
    stopped = state is SchedulerState.STATE_STOPPED
    log, events, woken = E.log("stores"), E.log("events"), E.log("wakeups")
    answer = E.choice("the store", "new", "has", "gone") if not stopped else "new"
    stores = {a: Store(E, a, log, lambda task: answer) for a in ("default", "other")}
    first = E.opt("first", lambda: E.dt("first", tz))
    trigger = E.stub("trigger", TriggerType, alias="interval", get_next_trigger_time=_first(E, tz, now, lambda: first))
    before = E.opt("next_run_time", lambda: E.dt("before", tz))
    home = E.choice("task store", None, "default", "other")
    task = E.obj(Task, id="a", store_alias=home, next_run_time=before, trigger=trigger, fn=_fn, fn_reference=None, args=(), kwargs={},
                 name="n", executor=None, pending=True, submitted=False, scheduler=None, coalesce=False,
                 max_instances=1, mistrigger_grace_time=None)
    p = Pending(E)
    sch = scheduler(E, state=state, timezone=tz, stores=stores, pending_tasks=E.view(p.seq), listeners=watch(E, events))
    sch.__dict__["wakeup"] = lambda: woken.add("wakeup")
    replace = E.choice("replace", True, False)
    when = E.choice("when", "unset", "paused", "given")
    given = {"unset": undefined, "paused": None}.get(when) if when != "given" else E.dt("given", tz)
    asked = E.choice("store asked for", None, "other")
    r = E.run_call(sch.add_task, task, next_run_time=given, store=asked, replace_existing=replace)
    alias = asked or home or "default"
    conflict = not stopped and answer == "has" and not replace or not stopped and answer == "gone" and not replace
    if conflict:
        E.prove("a conflict raises", r.raised(ConflictIdError))
        E.prove_entries("a conflict changes nothing in the store", log, [])
        E.prove_entries("a conflict reports nothing", events, [])
        return
    E.prove("returns the task", r.ok and r.value is task)
    E.prove("the task knows its store and executor", task.store_alias == alias and task.executor == "default")
    wanted = given if when != "unset" else before
    if not stopped and wanted is None and when != "paused":
        wanted = first
    got = task.next_run_time
    E.prove("the next run time is the given one, or the first fire time unless added paused",
            got is None if wanted is None else got is not None and E.truth(E.eqv(got, wanted)))
    if stopped:
        E.prove_entries("the stores are not touched", log, [])
        E.prove_entries("nothing is reported yet", events, [])
        E.pipeline_prove("the pending list", sch.pending_tasks, p.old, lambda i, x: E.neg(E.and_(
            replace, E.eqv(x[0].id, "a"), E.eqv(x[0].store_alias, alias))), lambda i, x, v: _same(E, v[0], x[0]),
            tail=[(task, replace, when != "paused")])
        E.reached("pending")
        return
    if answer == "gone":
        E.prove_entries("a task that is gone meanwhile is not stored", log, [])
        E.prove_entries("nor reported", events, [])
        return
    E.prove_entries("stored once, in its store", log, [("add" if answer == "new" else "update", alias, task, wanted)])
    E.prove("it is pending no longer", task.pending is False)
    E.prove_entries("reported once", events, [(TASK_ADDED, "a", None, alias)])
    if state is SchedulerState.STATE_RUNNING and when != "paused":
        E.prove("the scheduler is woken", len(woken.entries) >= 1)
    E.reached("stored")


def _fn():
    pass


def start(E):
    """starting puts every pending task into its store, with its first fire time unless it was added paused"""
    tz = E.tz()
    now = E.dt("now", tz)
    E.set_now(now)
    log, events = E.log("stores"), E.log("events")
    stores = {}
    ghost = {}

    def key(t):
        return str(t.t) if E.sym else id(t)

    def answer(task):
        return "new" if not E.truth(task.conflict) else "gone" if E.truth(task.gone) else "has"

    def attr(task, n):
        if n == "trigger":
            return E.stub("trigger", TriggerType, alias="interval",
                          get_next_trigger_time=_first(E, tz, now, lambda: task.first))
        if n == "next_run_time":
            return ghost.get(key(task), task.before)
        if n == "update_task":
            def update_task(**kw):
                E.prove("only the next run time changes", set(kw) <= {"next_run_time"})
                if kw:
                    ghost[key(task)] = kw["next_run_time"]
            return update_task
        return {"executor": "default", "name": "n"}.get(n, NotImplemented)

    for a in ("default", "other"):
        stores[a] = Store(E, a, log, answer)
    if E.sym:
        import z3
        from pyvc.values import BoolC, DtC, KeyC, OptC, Population, TupleC, str_rank
        pop = Population("pending", Task, {"id": KeyC, "store_alias": KeyC, "before": OptC(DtC(tz)), "first": OptC(DtC(tz)),
                                           "conflict": BoolC, "gone": BoolC, "pending": BoolC}, other=attr)
        seq = E.seq("pending", TupleC(pop.codec(), BoolC, BoolC))
        r = z3.Int("r!c14")
        a = z3.Select(pop.arrays("store_alias")[0], r)
        E.assume(z3.ForAll([r], z3.Or(a == z3.RealVal(str_rank("default")), a == z3.RealVal(str_rank("other"))), patterns=[a]))
        frame, havoc = [pop.token("pending")], lambda L: pop.havoc("pending")
    else:
        def gen(i):
            t = _PendingTask(E, attr, id=f"t{i}", store_alias=E.choice("alias", "default", "other"), pending=True,
                             before=E.opt("before", lambda: E.dt("before", tz)),
                             first=E.opt("first", lambda: E.dt("first", tz)), conflict=E.choice("conflict", True, False),
                             gone=E.choice("gone", True, False))
            return (t, E.choice("replace", True, False), E.choice("start", True, False))

        seq = E.seq("pending", None, gen, maxlen=4, long=300)
        frame, havoc = (), None
    shared = E.choice("lock_path", "", "/scratch/lock")
    delay = E.int("startup delay", 0, 1000)

    def each(i, x):
        task, replace, begin = x
        when = task.before
        if when is None and E.truth(begin):
            when = task.first
        if when is not None and shared:
            earliest = now + dt.timedelta(seconds=1) * delay
            when = earliest if E.truth(when < earliest) else when
        a = answer(task)
        if a == "new" or E.truth(replace) and a == "has":
            return [[("add" if a == "new" else "update", task.store_alias, task, when)],
                    [(TASK_ADDED, task.id, None, task.store_alias)]]
        return [[], []]

    fe = E.foreach("pending tasks", seq.copy() if E.sym else list(seq), logs=[log, events], each=each, frame=frame, havoc=havoc)
    sch = scheduler(E, state=SchedulerState.STATE_STOPPED, timezone=tz, stores=stores, pending_tasks=seq,
                    listeners=watch(E, events), lock_path=shared, startup_delay=delay, event_loop=object(),
                    executors={"default": E.stub("executor", None, start=lambda scheduler, alias: None)})
    sch.__dict__["wakeup"] = lambda: None
    r = E.run_call(sch.start, E.choice("paused", False, True))
    E.prove("starts", r.ok and r.value is True)
    E.prove_entries("every pending task is in its store, with its next run time", log, [fe])
    from asyncz.events.constants import SCHEDULER_START
    E.prove_entries("every task added is reported, then the start", events, [fe, (SCHEDULER_START, None, None, None)])
    E.prove("nothing is pending any more", len(sch.pending_tasks) == 0)
    E.reached("started")


class _PendingTask:
    def __init__(self, E, attr, **kw):
        self.__dict__.update(kw)
        self._attr = attr

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = self._attr(self, n)
        if r is NotImplemented:
            raise AttributeError(n)
        return r


def decorate(E):
    """every decorated function becomes a task of its own with the options of the decorator; the function is returned"""
    tz = dt.timezone.utc
    tid = E.choice("id", None, "a")
    bound = E.choice("scheduler", "with", "without") == "with"
    when = E.choice("when", "unset", "paused", "given") if bound else "unset"
    given = dt.datetime(2030, 5, 4, 3, 2, 1, tzinfo=tz)
    trigger, name, coalesce, limit, grace, args, kwargs, home, executor = E.choice(
        "options", (IntervalTrigger(hours=1, timezone=tz), None, True, 1, None, (), {}, None, None),
        (DateTrigger("2031-01-01 00:00:00", timezone=tz), "n", False, 3, 7, (1,), {"b": 2}, "other", "x"),
        (None, None, True, 2, 0.5, (1, 2), {}, None, "x"), (IntervalTrigger(seconds=5, timezone=tz), "m", False, 1, 1, (), {"a": 0},
                                                             "other", None))
    options = dict(name=name, coalesce=coalesce, max_instances=limit, mistrigger_grace_time=grace, args=args, kwargs=kwargs)
    if trigger:
        options["trigger"] = trigger
    if home:
        options["store_alias"] = home
    if executor:
        options["executor"] = executor
    if when != "unset":
        options["next_run_time"] = given if when == "given" else None
    log = []
    sch = scheduler(E, state=SchedulerState.STATE_RUNNING, timezone=tz)
    sch.__dict__["add_task"] = lambda task, **kw: log.append((task, kw))
    if bound:
        options["scheduler"] = sch
    made = Task(id=tid, **options)
    k = E.choice("functions", 1, 2)
    seen = []
    for _ in range(k):
        def fn(a=0, b=0):
            pass

        before = dict(made.__dict__)
        r = E.run_call(made.__call__, fn)
        E.prove("the function is returned", r.ok and r.value is fn)
        E.prove("the decorator stays as it was", made.__dict__ == before)
        own = getattr(fn, "asyncz_tasks", [])
        E.prove("a task without an id of its own is kept with the function", len(own) == (1 if tid is None else 0))
        if bound:
            E.prove("one task is submitted", len(log) == 1)
            task, kw = log.pop()
            kw = {k: v for k, v in kw.items() if v is not undefined and (v is not None or k == "next_run_time")}
            E.prove("the task kept with the function is the one submitted", tid is not None or own[0] is task)
            E.prove("an explicit id replaces, another does not", bool(kw.pop("replace_existing", False)) is (tid is not None))
            if when == "paused":
                E.prove("added paused", kw == {"next_run_time": None})
            else:
                E.prove("added with its first fire time", kw == {} or kw == {"next_run_time": given})
        elif own:
            task = own[0]
        else:
            E.prove("nothing is submitted", not log)
            continue
        E.prove("it is a task of its own", task is not made and task.fn is fn and task.submitted is False
                and task.pending is True)
        E.prove("with the id of the decorator, or a new one", task.id == tid if tid else task.id and task.id not in seen)
        seen.append(task.id)
        E.prove("with the options of the decorator", task.trigger is trigger and task.coalesce is options["coalesce"]
                and task.max_instances == options["max_instances"]
                and task.mistrigger_grace_time == options["mistrigger_grace_time"]
                and tuple(task.args) == options["args"] and dict(task.kwargs) == options["kwargs"]
                and task.store_alias == home and task.executor == executor)
        E.prove("named as asked, or after the function", task.name == (options["name"] or fn.__qualname__))
        E.prove("at the time asked for", task.next_run_time == (given if when == "given" else None))
    E.reached("decorated")


UNITS = [pending_find, pending_remove, pending_list, pending_clear, stored_find, stored_remove, stored_list, stored_clear,
         add, start, decorate]
