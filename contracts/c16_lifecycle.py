"""C16 scheduler lifecycle is reference counted and consistent."""
import datetime as dt

import asyncz.schedulers.asyncio as mod
from asyncz.enums import SchedulerState
from asyncz.events.constants import (EXECUTOR_ADDED, SCHEDULER_PAUSED, SCHEDULER_RESUMED, SCHEDULER_SHUTDOWN, SCHEDULER_START,
                                     STORE_ADDED)
from asyncz.exceptions import SchedulerNotRunningError
from asyncz.executors.types import ExecutorType
from asyncz.schedulers.asyncio import AsyncIOScheduler, NativeAsyncIOScheduler
from asyncz.schedulers.base import BaseScheduler
from asyncz.stores.types import StoreType
from asyncz.tasks import Task
from asyncz.triggers.types import TriggerType

from .util import scheduler, watch

NOTE = ("Every operation is verified from every reachable state (any number of nested starts), so the result holds for every "
        "history; starting and stopping for any number of executors and of stores, and stopping for any number of tasks in "
        "each of two stores; the asyncio schedulers for every option, their loop and thread being replaced by recorders.")
ASSUMPTIONS = ["executors and stores do not raise when shut down", "lifecycle calls of one scheduler are not concurrent",
               "threads and event loops do what their documentation says"]

RUNNING, PAUSED, STOPPED = SchedulerState.STATE_RUNNING, SchedulerState.STATE_PAUSED, SchedulerState.STATE_STOPPED


class _Stop(BaseException):
    """raised by a shutdown task; not an Exception"""


class Things:
    """the executors (or stores) by alias: any number of them, each recording what it is told"""

    def __init__(self, E, name, log, base, fails=False):
        self.E, self.log, self.fails = E, log, fails
        if E.sym:
            import z3
            from pyvc.values import KeyC, Population, SSeq, TupleC
            pop = Population(name, base, {}, other=self.attr)
            self.seq = E.seq(name, TupleC(KeyC, pop.codec()))
            E.assume(self.seq._vc_len() >= 1)
            E.assume(E.eqv(self.seq.at(z3.IntVal(0))[0], "default"))
            self.vals = SSeq(pop.codec(), self.seq.n, lambda i: self.seq.get(i)[1:], name, mutable=False)
            self.aliases = SSeq(KeyC, self.seq.n, lambda i: self.seq.get(i)[:1], name, mutable=False)
        else:
            def gen(i):
                s = E.stub(name, None, n=i)
                for n in ("start", "shutdown", "get_all_tasks", "delete_task"):
                    setattr(s, n, self.attr(s, n))
                return ("default" if i == 0 else f"s{i}", s)

            self.seq = E.seq(name, None, gen, maxlen=4, long=70) or [("default", gen(0)[1])]
            self.vals = [x[1] for x in self.seq]

    def attr(self, ref, n):
        E = self.E

        def start(scheduler, alias):
            self.log.add("start", ref, scheduler, alias)

        def shutdown(wait=True):
            self.log.add("shutdown", ref, wait)

        return {"start": start, "shutdown": shutdown, "get_all_tasks": lambda: []}.get(n, NotImplemented)

    def mapping(self):
        return Mapping(self) if self.E.sym else dict(self.seq)


class Mapping:
    def __init__(self, things):
        self.t = things

    def items(self):
        return self.t.seq

    def values(self):
        return self.t.vals

    def __contains__(self, alias):
        if alias == "default":
            return True
        return NotImplemented


def _count(E):
    """a consistent (state, reference count)"""
    state = E.choice("state", STOPPED, RUNNING, PAUSED)
    if state is STOPPED:
        return state, 0
    n = E.int("starts", 1)
    return state, n


def _consistent(E, sch):
    E.prove("the count is that of the starts not yet matched: zero exactly when stopped",
            E.and_(sch.ref_counter >= 0, E.iff(sch.ref_counter == 0, sch.state is STOPPED)))


def starting(E):
    """the first start starts every executor and store and then reports it; others only count"""
    state, n = _count(E)
    ex, st, events, woken = E.log("executors"), E.log("stores"), E.log("events"), E.log("wakeups")
    executors, stores = Things(E, "executor", ex, ExecutorType), Things(E, "store", st, StoreType)
    sch = scheduler(E, state=state, ref_counter=n, executors=executors.mapping(), stores=stores.mapping(), lock_path=None,
                    listeners=watch(E, events))
    before = dict(sch.__dict__)
    E.set_now(E.dt("now", sch.timezone))
    sch.__dict__["wakeup"] = lambda: woken.add(sch.state)
    fe = E.foreach("executors", executors.seq, logs=[ex], each=lambda i, x: [[("start", x[1], sch, x[0])]])
    fs = E.foreach("stores", stores.seq, logs=[st], each=lambda i, x: [[("start", x[1], sch, x[0])]])
    paused = E.choice("paused", False, True)
    r = E.run_call(BaseScheduler.start, sch, paused)
    _consistent(E, sch)
    E.prove("one more start is counted", sch.ref_counter == n + 1)
    E.prove("it tells whether this was the first start", r.ok and r.value is (state is STOPPED))
    if state is not STOPPED:
        E.prove("nothing else changes", sch.state is state and set(sch.__dict__) - {"wakeup"} == set(before) and all(
            sch.__dict__[k] is before[k] for k in before if k != "ref_counter"))
        for x in (ex, st, events, woken):
            E.prove_entries("nothing is started again", x, [])
        return
    E.prove("it is running unless started paused", sch.state is (PAUSED if paused else RUNNING))
    E.prove_entries("every executor is started once, under its alias", ex, [fe])
    E.prove_entries("every store is started once, under its alias", st, [fs])
    E.prove_entries("the start is reported once", events, [(SCHEDULER_START, None, None, None)])
    if paused:
        E.prove_entries("a paused scheduler is not woken", woken, [])
    else:
        E.prove_entries("it is woken once it runs", woken, [RUNNING])
    E.reached("started")


def defaults(E):
    """the first start makes the default executor and store when there are none of that name"""
    order = E.log("order")

    def thing(name, base):
        s = E.stub(name, base)
        s.start = lambda scheduler, alias: order.add("start", name, alias)
        return s

    have = E.choice("executors", (), ("default",), ("other",))
    kept = E.choice("stores", (), ("default",), ("other",))
    events = E.log("events")
    sch = scheduler(E, state=STOPPED, lock_path=None, listeners=watch(E, events),
                    executors={a: thing("executor", ExecutorType) for a in have},
                    stores={a: thing("store", StoreType) for a in kept})
    E.set_now(E.dt("now", sch.timezone))
    new = thing("executor", ExecutorType), thing("store", StoreType)
    sch.__dict__.update(wakeup=lambda: None, create_default_executor=lambda: new[0], create_default_store=lambda: new[1])
    r = E.run_call(BaseScheduler.start, sch)
    E.prove("starts", r.ok and r.value is True)
    want = [("start", "executor", a) for a in (*have, *(() if "default" in have else ("default",)))]
    want += [("start", "store", a) for a in (*kept, *(() if "default" in kept else ("default",)))]
    got = list(order.entries)
    E.prove("each executor and store is started once", sorted(map(tuple, got)) == sorted(want))
    E.prove("the defaults exist", "default" in sch.executors and "default" in sch.stores
            and ("default" in have or sch.executors["default"] is new[0])
            and ("default" in kept or sch.stores["default"] is new[1]))
    codes = [e[0] for e in events.entries]
    E.prove("added defaults are reported, and the start last", codes[-1] == SCHEDULER_START and sorted(codes) == sorted(
        [SCHEDULER_START] + [EXECUTOR_ADDED] * ("default" not in have) + [STORE_ADDED] * ("default" not in kept)))
    E.reached("started")


def failing(E):
    """a start that fails raises and leaves the scheduler stopped and startable"""
    events = E.log("events")
    bad = E.choice("fails", "executor", "store", "default executor", "default store", "wsgi")
    order = E.log("order")

    def thing(name, base, alias):
        s = E.stub(name, base)

        def start(scheduler, a):
            order.add(name, a)
            if name == bad and alias == "x" and fail[0]:
                raise OSError("cannot start")
        s.start = start
        return s

    fail = [True]

    def make(kind, base):
        if bad == "default " + kind and fail[0]:
            raise OSError("cannot create")
        return thing(kind, base, "default")

    sch = scheduler(E, state=STOPPED, lock_path=None, listeners=watch(E, events),
                    executors={"x": thing("executor", ExecutorType, "x")}, stores={"x": thing("store", StoreType, "x")})
    E.set_now(E.dt("now", sch.timezone))

    def check():
        if bad == "wsgi" and fail[0]:
            raise OSError("no threads")

    sch.__dict__.update(wakeup=lambda: None, create_default_executor=lambda: make("executor", ExecutorType),
                        create_default_store=lambda: make("store", StoreType), check_uwsgi=check)
    r = E.run_call(BaseScheduler.start, sch)
    E.prove("the failure is raised", r.raised(OSError))
    _consistent(E, sch)
    E.prove("it is stopped", sch.state is STOPPED)
    E.prove("no start is reported", all(e[0] != SCHEDULER_START for e in events.entries))
    fail[0] = False
    r = E.run_call(BaseScheduler.start, sch)
    E.prove("it can be started later", r.ok and r.value is True and sch.state is RUNNING)
    _consistent(E, sch)
    E.reached("recovered")


def _shut(E, sch, wait):
    return E.run_call(BaseScheduler.shutdown, sch, wait)


def stopping(E):
    """the matching last shutdown shuts down every executor and store; others only count, a surplus one raises"""
    state, n = _count(E)
    ex, st, events, coros = E.log("executors"), E.log("stores"), E.log("events"), E.log("coroutines")
    executors, stores = Things(E, "executor", ex, ExecutorType), Things(E, "store", st, StoreType)
    sch = scheduler(E, state=state, ref_counter=n, executors=executors.mapping(), stores=stores.mapping(),
                    listeners=watch(E, events))
    E.set_now(E.dt("now", sch.timezone))
    sch.__dict__["handle_shutdown_coros"] = lambda c: coros.add(c)
    wait = E.choice("wait", True, False)
    before = dict(sch.__dict__)
    fe = E.foreach("executors", executors.vals, logs=[ex], each=lambda i, x: [[("shutdown", x, wait)]])
    f1 = E.foreach("stores, their tasks", stores.vals, logs=[st], each=lambda i, x: [[]], out=lambda i, x: [], once=True)
    fs = E.foreach("stores", stores.vals, logs=[st], each=lambda i, x: [[("shutdown", x, True)]])
    r = _shut(E, sch, wait)
    _consistent(E, sch)
    if state is STOPPED or E.truth(n > 1):
        if state is STOPPED:
            E.prove("a surplus shutdown raises", r.raised(SchedulerNotRunningError))
        else:
            E.prove("one start less is counted", E.and_(sch.ref_counter == n - 1))
            E.prove("it tells that the scheduler goes on", r.ok and r.value is False)
        E.prove("nothing else changes", set(sch.__dict__) == set(before) and all(
            sch.__dict__[k] is before[k] for k in before if k != "ref_counter"))
        for x in (ex, st, events, coros):
            E.prove_entries("nothing is shut down", x, [])
        return
    E.prove("it tells that this was the last", r.ok and r.value is True)
    E.prove("it is stopped", sch.state is STOPPED)
    E.prove_entries("every executor is shut down once, waiting as asked", ex, [fe])
    E.prove_entries("every store is shut down once", st, [f1, fs] if E.sym else [fs])
    E.prove_entries("the shutdown is reported once", events, [(SCHEDULER_SHUTDOWN, None, None, None)])
    E.reached("stopped")


def _fn():
    pass


class Tasks:
    """a store with any number of tasks, some of them to be run at shutdown"""

    def __init__(self, E, name, removed, ran, awaited):
        self.E, self.name = E, name
        self.removed, self.ran, self.awaited = removed, ran, awaited
        if E.sym:
            from pyvc.values import BoolC, KeyC, Population
            pop = Population(f"task of {name}", Task, {"id": KeyC, "once": BoolC, "coro": BoolC, "fails": BoolC}, other=self.attr)
            self.seq = E.seq(f"tasks of {name}", pop.codec())
        else:
            self.seq = E.seq(f"tasks of {name}", None, lambda i: _Task(
                self, id=f"t{i}", once=E.choice("once", True, False), coro=E.choice("coro", True, False),
                fails=E.choice("fails", True, False)), maxlen=4, long=70)

    def attr(self, task, n):
        E = self.E

        def fn(*a, **k):
            self.ran.add(task, a, tuple(k.items()))
            if E.truth(task.fails):
                raise _Stop()

        async def coro(*a, **k):
            self.awaited.append((task, a, tuple(k.items())))
            if E.truth(task.fails):
                raise ValueError("coroutine")

        if n == "fn":
            return coro if E.truth(task.coro) else fn
        if n == "trigger":
            return E.stub("trigger", TriggerType, alias="shutdown" if E.truth(task.once) else "interval")
        return {"args": (1, 2), "kwargs": {"k": 3}, "name": "n"}.get(n, NotImplemented)

    def get_all_tasks(self):
        return self.seq.copy() if self.E.sym else list(self.seq)

    def delete_task(self, task_id):
        self.removed.add(self.name, task_id)

    def shutdown(self):
        pass

    def each(self, i, x):
        E = self.E
        if not E.truth(x.once):
            return [[], []]
        return [[(self.name, x.id)], [] if E.truth(x.coro) else [(x, (1, 2), (("k", 3),))]]

    def out(self, i, x):
        E = self.E
        return [E.pred(lambda c: self.once(c, x))] if E.truth(x.once) and E.truth(x.coro) else []

    def once(self, coro, x):
        """awaiting it runs the task once, with its arguments, and never fails"""
        E = self.E
        n = len(self.awaited)
        r = E.run_call(lambda: coro)
        got = self.awaited[n:]
        return r.ok and len(got) == 1 and E.truth(E.eqv(got[0][0], x)) and got[0][1:] == ((1, 2), (("k", 3),))


class _Task:
    def __init__(self, tasks, **kw):
        self.__dict__.update(kw)
        self._tasks = tasks

    def __getattr__(self, n):
        r = NotImplemented if n.startswith("_") else self._tasks.attr(self, n)
        if r is NotImplemented:
            raise AttributeError(n)
        return r


def shutdown_tasks(E):
    """the last shutdown removes every shutdown task and runs it exactly once with its arguments, and no other task"""
    removed, ran, awaited = E.log("removed"), E.log("ran"), []
    a, b = (Tasks(E, n, removed, ran, awaited) for n in ("first", "second"))
    fes = [E.foreach(f"tasks of {s.name}", s.seq, logs=[removed, ran], each=s.each, out=s.out) for s in (a, b)]
    sch = scheduler(E, state=RUNNING, ref_counter=1, stores={"default": a, "second": b})
    E.set_now(E.dt("now", sch.timezone))
    coros = []
    sch.__dict__["handle_shutdown_coros"] = coros.append
    r = _shut(E, sch, True)
    E.prove("tasks that fail do not disturb the shutdown", r.ok and r.value is True and sch.state is STOPPED)
    E.prove_entries("each shutdown task is removed once, and no other", removed, fes)
    E.prove_entries("each plain shutdown task is run once with its arguments, and no other", ran, fes)
    E.prove("the coroutines are handed over once", len(coros) <= 1)
    E.prove_entries("each coroutine shutdown task is handed over to be awaited once, and no other",
                    coros[0] if coros else [], fes)
    E.reached("stopped")


def pausing(E):
    """pause and resume switch a started scheduler, report it once, and raise when it is stopped"""
    state, n = _count(E)
    events, woken = E.log("events"), E.log("wakeups")
    sch = scheduler(E, state=state, ref_counter=n, listeners=watch(E, events))
    sch.__dict__["wakeup"] = lambda: woken.add(sch.state)
    before = dict(sch.__dict__)
    what = E.choice("what", "pause", "resume")
    r = E.run_call(sch.pause if what == "pause" else sch.resume)
    _consistent(E, sch)
    E.prove("only the state can change", all(sch.__dict__[k] is before[k] for k in before if k != "state"))
    if state is STOPPED:
        E.prove("raises when stopped", r.raised(SchedulerNotRunningError))
        E.prove("stays stopped", sch.state is STOPPED)
        E.prove_entries("nothing is reported", events, [])
        return
    target, was, code = (PAUSED, RUNNING, SCHEDULER_PAUSED) if what == "pause" else (RUNNING, PAUSED, SCHEDULER_RESUMED)
    E.prove("returns normally", r.ok)
    E.prove("it is switched", sch.state is target)
    E.prove_entries("a switch is reported once", events, [(code, None, None, None)] if state is was else [])
    if target is RUNNING:
        E.prove_entries("a resumed scheduler is woken once it runs", woken, [RUNNING] if state is was else [])
    else:
        E.prove_entries("a paused scheduler is not woken", woken, [])
    E.prove("it still counts as started", sch.running is True)
    E.reached("switched")


# ------------------------------------------------------------------------------------------------ asyncio
class Loop:
    """an event loop that records what it is asked"""

    def __init__(self, E, late=False):
        self.E, self.late, self.log, self.queue = E, late, [], []

    def call_soon_threadsafe(self, f, *a):
        self.queue.append((f, a))
        if not self.late:
            self.run()

    def run(self):
        while self.queue:
            f, a = self.queue.pop(0)
            self.E.call(f, *a)

    def stop(self):
        self.log.append("stop")


class FakeThread:
    def __init__(self, E, loop, made):
        self.E, self.loop, self.made, self.joined, self.started = E, loop, made, 0, 0

    def __call__(self, target=None, args=(), daemon=None):
        self.made.append(target)
        self.target, self.args = target, args
        return self

    def start(self):
        self.started += 1
        self.target.__self__.event_loop = self.loop
        self.args[0].set()

    def join(self):
        self.joined += 1


def _asyncio(E, cls, **attrs):
    state, n = _count(E)
    sch = scheduler(E, state=state, ref_counter=n, timer=None, event_loop_thread=None, **attrs)
    if cls is NativeAsyncIOScheduler:
        sch = E.obj(NativeAsyncIOScheduler, **sch.__dict__)
    calls = []

    def start(self, paused=False):
        calls.append(("start", paused, self.event_loop))
        if state is STOPPED:
            self.state, self.ref_counter = PAUSED if paused else RUNNING, 1
            return True
        self.ref_counter = n + 1
        return False

    def shutdown(self, wait=True):
        calls.append(("shutdown", wait))
        if self.state is STOPPED:
            raise SchedulerNotRunningError()
        self.ref_counter = n - 1
        if E.truth(n > 1):
            return False
        self.state = STOPPED
        return True

    E.contract(BaseScheduler.start, start)
    E.contract(BaseScheduler.shutdown, shutdown)
    return sch, state, n, calls


def _loop_start(E, cls):
    isolated = E.choice("isolated", False, True)
    running = E.choice("a loop is running", True, False) if cls is AsyncIOScheduler else True
    here, own = Loop(E), Loop(E)
    given = E.choice("loop given", None, "given") if cls is AsyncIOScheduler else None
    sch, state, n, calls = _asyncio(E, cls, event_loop=here if given else None, isolated_event_loop=isolated)
    made = []
    thread = FakeThread(E, own, made)
    first = state is STOPPED
    if not first and not given:
        sch.event_loop = own if isolated or not running else here
        sch.event_loop_thread = thread if sch.event_loop is own else None
    before = sch.event_loop, sch.event_loop_thread

    def get_running_loop():
        if not running:
            raise RuntimeError("no running event loop")
        return Loop(E) if not first else here

    E.patch(mod, "Thread", thread)
    E.patch(mod.asyncio, "get_running_loop", get_running_loop)
    paused = E.choice("paused", False, True)
    r = E.run_call(sch.start, paused)
    E.prove("it tells whether this was the first start", r.ok and r.value is first)
    E.prove("the scheduler is started once, with its loop", calls == [("start", paused, sch.event_loop)])
    if not first:
        E.prove("a nested start keeps the loop", (sch.event_loop, sch.event_loop_thread) == before and not made)
        return
    if given or running and not isolated:
        E.prove("the loop that is there is used", sch.event_loop is here and not made and sch.event_loop_thread is None)
    else:
        E.prove("a loop of its own is made, in one thread", sch.event_loop is own and len(made) == 1
                and sch.event_loop_thread is thread and thread.started == 1)
    E.reached("started")


def loop_start(E):
    """starting uses the loop that is there, or one of its own, and makes none for a nested start"""
    _loop_start(E, AsyncIOScheduler)


def native_start(E):
    """the same for the native scheduler"""
    _loop_start(E, NativeAsyncIOScheduler)


def _loop_shutdown(E, cls):
    own = E.choice("own loop", True, False)
    loop = Loop(E, late=E.choice("later", True, False))
    thread = FakeThread(E, loop, [])
    cancelled = []
    timer = E.stub("timer", None, cancel=lambda: cancelled.append(1))
    sch, state, n, calls = _asyncio(E, cls, event_loop=loop, isolated_event_loop=own)
    if state is not STOPPED:
        sch.timer = timer if E.choice("timer", True, False) else None
        sch.event_loop_thread = thread if own else None
    had = sch.timer
    wait = E.choice("wait", True, False)

    async def to_thread(f, *a):
        return E.call(f, *a)

    E.patch(mod.asyncio, "to_thread", to_thread)
    r = E.run_call(sch.shutdown, wait)
    if state is STOPPED:
        E.prove("a surplus shutdown raises", r.raised(SchedulerNotRunningError))
        E.prove("and does nothing", sch.state is STOPPED and not loop.queue and not loop.log and not cancelled)
        return
    if cls is AsyncIOScheduler:
        E.prove("it is shut down in its loop", loop.late is False or calls == [])
    loop.run()
    last = E.truth(n <= 1)
    E.prove("it tells whether this was the last", r.ok and E.truth(E.iff(r.value, last)))
    E.prove("it is shut down once", calls == [("shutdown", wait)])
    if not last:
        E.prove("a scheduler that goes on keeps its timer and loop", sch.timer is had and not cancelled
                and sch.event_loop is loop and not loop.log and thread.joined == 0)
        return
    E.prove("the timer is cancelled", sch.timer is None and len(cancelled) == (had is not None))
    if own:
        E.prove("its own loop is stopped and its thread awaited", loop.log == ["stop"] and thread.joined == 1
                and sch.event_loop is None and sch.event_loop_thread is None)
    else:
        E.prove("a loop that is not its own is left alone", loop.log == [])
    E.reached("stopped")


def loop_shutdown(E):
    """the last shutdown stops the timer and the loop of its own, others neither"""
    _loop_shutdown(E, AsyncIOScheduler)


def native_shutdown(E):
    """the same for the native scheduler"""
    _loop_shutdown(E, NativeAsyncIOScheduler)


def coroutines(E):
    """coroutine shutdown tasks handed over are each awaited exactly once, in the loop the scheduler runs in"""
    cls = E.choice("scheduler", AsyncIOScheduler, NativeAsyncIOScheduler)
    own = E.choice("own loop", True, False)
    k = E.choice("coroutines", 0, 1, 2, 5)
    done, closed = [], []

    class Own(Loop):
        def run_forever(self):
            E.call(sch.handle_shutdown_coros, coros)
            sch.event_loop = sch.event_loop_thread = None if cls is AsyncIOScheduler else sch.event_loop_thread

        def run_until_complete(self, aw):
            E.prove("the loop is not closed yet", not closed)
            return E.run_call(lambda: aw).value

        async def shutdown_asyncgens(self):
            pass

        def close(self):
            closed.append(1)

    def gather(*cs):
        async def both():
            for c in cs:
                await c
        g = both()
        gathers.append(g)
        return g

    async def coro(i):
        done.append((i, len(closed)))

    gathers = []
    coros = [coro(i) for i in range(k)]
    loop = Own(E)
    sch = scheduler(E, state=STOPPED, event_loop=loop, event_loop_thread=None, timer=None)
    if cls is NativeAsyncIOScheduler:
        sch = E.obj(NativeAsyncIOScheduler, **sch.__dict__)
    E.patch(mod.asyncio, "gather", gather)
    E.patch(mod.asyncio, "new_event_loop", lambda: loop)
    ready = []
    if cls is AsyncIOScheduler and own:
        sch.event_loop_thread = object()
        E.call(sch._init_new_loop, E.stub("event", None, set=lambda: ready.append(1)))
        E.prove("its loop is closed at last", closed == [1] and ready == [1])
    elif cls is AsyncIOScheduler:
        E.call(sch.handle_shutdown_coros, coros)
        for g in gathers:
            E.run_call(lambda: g)
    else:
        def base(self, wait=True):
            E.call(self.handle_shutdown_coros, coros)
            self.state = STOPPED
            return True
        E.contract(BaseScheduler.shutdown, base)
        sch.state, sch.ref_counter = RUNNING, 1
        r = E.run_call(sch.shutdown)
        E.prove("shuts down", r.ok and r.value is True)
    E.prove("each is awaited once, before the loop is closed", done == [(i, 0) for i in range(k)])
    E.reached("awaited")


def _recorded(E, sch, fails=None):
    """the scheduler's start and shutdown, recorded; they answer directly or with an awaitable"""
    calls = []
    later = E.choice("answers", "directly", "awaitable") == "awaitable"

    def answer(v):
        async def co():
            calls.append("awaited")
            return v

        return co() if later else v

    def start(paused=False):
        calls.append(("start", paused))
        if fails == "start":
            raise Boom()
        return answer(E.choice("first", True, False))

    def shutdown(wait=True):
        calls.append(("shutdown", wait))
        return answer(True)

    sch.__dict__["start"], sch.__dict__["shutdown"] = start, shutdown
    return calls, later


class Boom(Exception):
    pass


def sections(E):
    """a with section starts the scheduler once on entering and shuts it down once on leaving, whatever happens inside"""
    sch = scheduler(E, state=STOPPED)
    calls, later = _recorded(E, sch, E.choice("fails", None, "start"))
    kind = E.choice("section", "with", "async with")
    ends = E.choice("ends", "normally", "raises")
    exc = Boom() if ends == "raises" else None
    leave = (type(exc) if exc else None, exc, None)
    r = E.run_call(sch.__aenter__ if kind == "async with" else sch.__enter__)
    if r.raised(Boom):
        E.prove("a failing start is reported", calls == [("start", False)])
        return
    E.prove("it is started once", calls[0] == ("start", False) and calls[1:] == (["awaited"] if later and kind == "async with" else []))
    if later and kind == "with":
        E.prove("a scheduler that must be awaited is refused", r.raised(RuntimeError))
        return
    E.prove("the section gets the scheduler", r.ok and r.value is sch)
    del calls[:]
    r = E.run_call(sch.__aexit__ if kind == "async with" else sch.__exit__, *leave)
    E.prove("it is shut down once", r.ok and calls[0] == ("shutdown", True) and calls[1:] == (["awaited"] if later else []))
    E.prove("what happened inside is passed on", not r.value)
    E.reached("left")


def wrapped(E):
    """an ASGI application that is wrapped runs with the scheduler: started once before it, shut down once after it"""
    sch = scheduler(E, state=STOPPED)
    calls, later = _recorded(E, sch, E.choice("fails", None, "start"))
    wait, handle = E.choice("wait", True, False), E.choice("handle_lifespan", True, False)
    seen, sent = [], []
    scope = E.choice("scope", "lifespan", "http")
    queue = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]

    async def app(scope, receive, send):
        seen.append(scope["type"])
        if scope["type"] == "lifespan":
            for kind in ("startup", "shutdown"):
                m = await receive()
                seen.append((m["type"], list(calls)))
                await send({"type": f"lifespan.{kind}.complete"})

    async def receive():
        return queue.pop(0)

    async def send(m):
        sent.append((m["type"], list(calls)))

    style = E.choice("style", "direct", "decorator")
    w = sch.asgi(app, handle_lifespan=handle, wait=wait) if style == "direct" else \
        sch.asgi(handle_lifespan=handle, wait=wait)(app)
    r = E.run_call(lambda: w({"type": scope}, receive, send))
    if scope == "http":
        E.prove("a request is passed on and the scheduler left alone", r.ok and seen == ["http"] and not calls)
        return
    aw = ["awaited"] if later else []
    begun = [("start", False), *aw]
    if ("start", False) in calls and sent and sent[0][0] == "lifespan.startup.failed":
        E.prove("a failing start is reported, and nothing is shut down", calls == [("start", False)] and len(sent) == 1)
        return
    E.prove("runs", r.ok)
    E.prove("started once and shut down once, as asked", calls == [*begun, ("shutdown", wait), *aw])
    E.prove("started before the start is reported, shut down before the end is", sent == [
        ("lifespan.startup.complete", begun), ("lifespan.shutdown.complete", calls)])
    E.prove("the application hears of it unless it is handled for it", seen == ([] if handle else [
        "lifespan", ("lifespan.startup", begun), ("lifespan.shutdown", calls)]))
    E.reached("wrapped")


RUNTIME = [wrapped]
UNITS = [sections, starting, defaults, failing, stopping, shutdown_tasks, pausing, loop_start, native_start, loop_shutdown,
         native_shutdown, coroutines]
