"""C18 concurrent runs of a task never exceed its limit and are always accounted."""
import collections
from concurrent.futures import CancelledError
from concurrent.futures.process import BrokenProcessPool

from asyncz.exceptions import MaximumInstancesError
from asyncz.executors import asyncio as aio_mod
from asyncz.executors import debug as debug_mod
from asyncz.executors.asyncio import AsyncIOExecutor
from asyncz.executors.base import BaseExecutor, run_coroutine_task, run_task
from asyncz.executors.debug import DebugExecutor
from asyncz.executors.pool import BasePoolExecutor, ThreadPoolExecutor

from .util import _Loggers

NOTE = ("Verified: BaseExecutor.send_task/run_task_success/run_task_error for arbitrary counts, limits and any number of "
        "events, and that do_send_task of the debug, asyncio and pool executors ends every run in exactly one of the two "
        "release calls. Counts are changed only under the executor's lock (ghost-checked); interleavings beyond mutual "
        "exclusion by that lock are not explored.")
ASSUMPTIONS = ["futures call their done callback exactly once, when they are done",
               "a task is sent by one executor at a time (each executor has its own lock)"]


class Executor(BaseExecutor):
    def do_send_task(self, task, run_times):
        raise NotImplementedError


def _counts(E):
    """the scheduler's counters: any non-negative count for any task id"""
    if E.sym:
        import z3
        from pyvc.values import IntC, SMap
        m = SMap.fresh(IntC, "instances", default=lambda: 0)
        k = z3.Real("k!")
        h, a = m.arrs
        E.assume(z3.ForAll([k], z3.Select(a, k) >= 0))
        return m
    d = collections.defaultdict(lambda: 0)
    for k in ("a", "b", "c"):
        if E.choice("counted", True, False):
            d[k] = E.int("n", 0, 4)
    return d


def count(E, m, k):
    return m.get(k, 0)


class Lock:
    def __init__(self):
        self.depth = 0

    def __enter__(self):
        self.depth += 1
        return self

    def __exit__(self, *a):
        self.depth -= 1


def _exe(E, cls, log, **kw):
    counts = _counts(E)
    lock = Lock()
    sch = E.stub("scheduler", None, instances=counts, loggers=_Loggers(), event_loop=None,
                 dispatch_event=lambda ev: log.add("dispatch", ev))
    return E.obj(cls, scheduler=sch, lock=lock, logger_name="l", logger=_Loggers()["x"], **kw), counts, lock


def _task(E, tid, limit=None):
    return E.stub("task", None, id=tid, max_instances=limit, store_alias="default", fn=None)


def send(E):
    """accepted exactly when below the limit, then counted once; otherwise nothing is counted"""
    log = E.log("log")
    exe, counts, lock = _exe(E, Executor, log)
    tid = E.key("id", nonempty=True)
    limit = E.int("limit", 1, 5 if E.conc else None)
    other = E.key("other")
    before, before_other = count(E, counts, tid), count(E, counts, other)
    fails = E.choice("sending", "works", "fails")
    task = _task(E, tid, limit)
    times = object()

    def do_send(self, t, run_times):
        E.prove("sent under the lock", lock.depth > 0)
        E.prove("the started run is counted while it is being started",
                count(E, counts, tid) == before + 1)
        log.add("send", t, run_times)
        if fails == "fails":
            raise ValueError("cannot send")

    E.contract(Executor.do_send_task, do_send)
    r = E.run_call(exe.send_task, task, times)
    below = E.truth(before < limit)
    if not below:
        E.prove("refused at the limit", r.raised(MaximumInstancesError))
        E.prove_entries("nothing sent", log, [])
        E.prove("no count changed", count(E, counts, tid) == before)
        E.reached("refused")
    elif fails == "fails":
        E.prove("the error is reported", r.raised(ValueError))
        E.prove("a failed submission is not counted", count(E, counts, tid) == before)
        E.reached("failed")
    else:
        E.prove("accepted below the limit", r.ok)
        E.prove_entries("sent exactly once with its run times", log, [("send", task, times)])
        E.prove("counted once", count(E, counts, tid) == before + 1)
        E.prove("the limit is never exceeded", count(E, counts, tid) <= limit)
        E.reached("accepted")
    if not E.truth(E.eqv(other, tid)):
        E.prove("other tasks' counts untouched", count(E, counts, other) == before_other)
    E.prove("the lock is released", lock.depth == 0)


def _events(E):
    if E.sym:
        from pyvc.values import Population
        return E.seq("events", Population("event", object, {}).codec())
    return E.seq("events", None, lambda i: object())


def success(E):
    """a finished run releases one instance and its events are passed on once, in order"""
    log = E.log("dispatched")
    exe, counts, lock = _exe(E, Executor, log)
    tid, other = E.key("id", nonempty=True), E.key("other")
    before, before_other = count(E, counts, tid), count(E, counts, other)
    E.assume(before >= 1)
    none = E.choice("events", "given", "none") == "none"
    evs = None if none else _events(E)
    fe = None if none else E.foreach("events", evs, logs=[log], each=lambda i, ev: [[("dispatch", ev)]])
    r = E.run_call(exe.run_task_success, tid, evs)
    E.prove("returns normally", r.ok)
    E.prove("one instance released", count(E, counts, tid) == before - 1)
    E.prove_entries("each event passed on once, in order", log, [] if none else [fe])
    if not E.truth(E.eqv(other, tid)):
        E.prove("other tasks' counts untouched", count(E, counts, other) == before_other)
    E.prove("the lock is released", lock.depth == 0)


def error(E):
    log = E.log("dispatched")
    exe, counts, lock = _exe(E, Executor, log)
    tid, other = E.key("id", nonempty=True), E.key("other")
    before, before_other = count(E, counts, tid), count(E, counts, other)
    E.assume(before >= 1)
    r = E.run_call(exe.run_task_error, tid)
    E.prove("returns normally", r.ok)
    E.prove("one instance released", count(E, counts, tid) == before - 1)
    E.prove_entries("no event", log, [])
    if not E.truth(E.eqv(other, tid)):
        E.prove("other tasks' counts untouched", count(E, counts, other) == before_other)


def _released(E, log):
    E.contract(BaseExecutor.run_task_success, lambda self, tid, events: log.add("success", tid, events))
    E.contract(BaseExecutor.run_task_error, lambda self, tid, *a: log.add("error", tid))


def _expect(E, log, tid, events, ok):
    E.prove_entries("the run ends in exactly one release of that task, with its events", log,
                    [("success", tid, events)] if ok else [("error", tid)])


def debug(E):
    log = E.log("released")
    exe, _, _ = _exe(E, DebugExecutor, E.log())
    _released(E, log)
    tid = E.key("id", nonempty=True)
    ok = E.choice("run", True, False)
    events, times, task = [], object(), _task(E, tid)

    def run(t, alias, run_times, logger):
        E.prove("runs this task with its run times", t is task and run_times is times and alias == "default")
        if not ok:
            raise ValueError("broken")
        return events

    E.patch(debug_mod, "run_task", run)
    r = E.run_call(exe.do_send_task, task, times)
    E.prove("returns normally", r.ok)
    _expect(E, log, tid, events, ok)


class _Future:
    """a done-or-pending future: result/exception/cancelled; the callback runs exactly once"""

    def __init__(self, how, events):
        self.how, self.events, self.cb = how, events, []

    def result(self):
        if self.how == "ok":
            return self.events
        if self.how == "cancelled":
            raise CancelledError()
        if self.how == "base":
            raise _Exit()
        raise ValueError("broken")

    def exception(self):
        if self.how == "ok":
            return None
        if self.how == "cancelled":
            raise CancelledError()
        return _Exit() if self.how == "base" else ValueError("broken")

    def done(self):
        return True

    def running(self):
        return False

    def cancelled(self):
        return self.how == "cancelled"

    def add_done_callback(self, cb):
        self.cb.append(cb)


class _Exit(BaseException):
    pass


def pool(E):
    """pool executors: result, error, cancellation and a broken pool all release exactly once"""
    log = E.log("released")
    how = E.choice("ends", "ok", "error", "cancelled", "base")
    broken = E.choice("pool", "works", "broken")
    events, times = [], object()
    tid = E.key("id", nonempty=True)
    task = _task(E, tid)
    fut = _Future(how, events)
    submitted = E.log("submitted")
    made = []

    class Pool:
        def __init__(self, max_workers):
            made.append(max_workers)
            self._max_workers = max_workers
            self.fails = broken == "broken" and len(made) == 1

        def submit(self, fn, *a):
            if self.fails:
                raise BrokenProcessPool("broken")
            submitted.add(fn, *a)
            return fut

        def shutdown(self, *a, **k):
            pass

    exe, _, _ = _exe(E, ThreadPoolExecutor, E.log(), pool=Pool(7))
    _released(E, log)
    r = E.run_call(exe.do_send_task, task, times)
    E.prove("returns normally", r.ok)
    E.prove("a broken pool is replaced by one of its size", made == ([7] if broken == "works" else [7, 7]))
    E.prove_entries("submitted once: this task with its run times", submitted,
                    [E.pred(lambda x: x[1] is task and x[3] is times and x[0].__name__ == "run_task")])
    E.prove("one callback", len(fut.cb) == 1)
    r = E.run_call(fut.cb[0], fut)
    E.prove("the callback does not raise", r.ok)
    _expect(E, log, tid, events, how == "ok")


def aio(E):
    log = E.log("released")
    how = E.choice("ends", "ok", "error", "cancelled", "base")
    coro = E.choice("callable", "plain", "coroutine") == "coroutine"
    events, times = [], object()
    tid = E.key("id", nonempty=True)
    task = _task(E, tid)

    async def cfn():
        pass

    task.fn = cfn if coro else len
    fut = _Future(how, events)
    started = E.log("started")

    class Loop:
        def create_task(self, c):
            started.add("coroutine", c)
            return fut

        def run_in_executor(self, ex, fn, *a):
            started.add("thread", ex, fn, *a)
            return fut

    token = object()

    def runc(t, alias, run_times, logger):
        E.prove("runs this task with its run times", t is task and run_times is times and alias == "default")
        return token

    exe, _, _ = _exe(E, AsyncIOExecutor, E.log(), event_loop=Loop(), pending_futures=set())
    _released(E, log)
    E.patch(aio_mod, "run_coroutine_task", runc)
    r = E.run_call(exe.do_send_task, task, times)
    E.prove("returns normally", r.ok)
    E.prove_entries("started once, the way its callable needs", started,
                    [("coroutine", token)] if coro else
                    [E.pred(lambda x: x[0] == "thread" and x[2] is run_task and x[3] is task and x[4] == "default"
                            and x[5] is times)])
    E.prove("pending until done", fut in exe.pending_futures)
    E.prove("one callback", len(fut.cb) == 1)
    r = E.run_call(fut.cb[0], fut)
    E.prove("the callback does not raise", r.ok)
    E.prove("no longer pending", fut not in exe.pending_futures)
    _expect(E, log, tid, events, how == "ok")


UNITS = [send, success, error, debug, pool, aio]
