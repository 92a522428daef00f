"""C13 the scheduler sleeps no longer than until the next run and never a negative time."""
import datetime as dt
from threading import TIMEOUT_MAX

from asyncz.enums import SchedulerState
from asyncz.schedulers.asyncio import AsyncIOScheduler
from asyncz.schedulers.base import BaseScheduler

from .util import scheduler

NOTE = ("process_tasks is verified for any number of stores, each of which is busy, fails when asked for its due tasks, "
        "fails while one of its tasks is advanced, fails when asked for its next run time, or answers with an arbitrary "
        "next run time in any zone; and the asyncio scheduler's timer is verified against any wait.")
ASSUMPTIONS = ["which tasks are due, and their submission, is C12; here a store has no due task or one whose schedule fails",
               "the event loop calls back once after the given number of seconds"]

OK, BUSY, DUE_FAILS, TASK_FAILS, NEXT_FAILS = range(5)


class Section:
    def __init__(self, got, end=None):
        self.got, self.end = got, end

    def __enter__(self):
        return self.got

    def __exit__(self, *a):
        if self.end:
            self.end()


class LockStub:
    def __init__(self, E, got, end=None):
        self.E, self.got, self.end = E, got, end

    def protected(self, blocking=True):
        self.E.prove("a busy lock is not waited for", not blocking)
        return Section(self.got, self.end)


class Stores:
    """the scheduler's stores: any number"""

    def __init__(self, items):
        self.pairs = items

    def items(self):
        return self.pairs


def _attr(E, ref, n, now):
    """what a store answers; `how` is fixed for the store"""
    how = ref.how

    def get_due_tasks(t):
        if E.truth(E.eqv(how, DUE_FAILS)):
            raise ValueError("store")
        if E.truth(E.eqv(how, TASK_FAILS)):
            def broken(*a, **k):
                raise ValueError("schedule")
            return [E.stub("task", None, id="t", executor="default", coalesce=False, max_instances=1,
                           get_run_times=lambda tz, t: [now],
                           trigger=E.stub("trigger", None, get_next_trigger_time=broken))]
        return []

    def get_next_run_time():
        if E.truth(E.eqv(how, NEXT_FAILS)):
            raise ValueError("store")
        return ref.next

    if n == "lock":
        return LockStub(E, not E.truth(E.eqv(how, BUSY)))
    if n == "get_due_tasks":
        return get_due_tasks
    if n == "get_next_run_time":
        return get_next_run_time
    return NotImplemented


def round_(E):
    tz = E.tz()
    now = E.dt("now", tz)
    E.set_now(now)
    micro = E.int("retry", 0, 10**9)
    retry = micro / 1_000_000
    again = now + dt.timedelta(microseconds=1) * micro
    if E.sym:
        import z3
        from pyvc.values import DtC, IntC, KeyC, OptC, Population, SInt, TupleC
        tz2 = E.tz("tz2")
        pop = Population("store", object, {"how": IntC, "next": OptC(DtC(tz2))},
                         other=lambda ref, n: _attr(E, ref, n, now))
        seq = E.seq("stores", TupleC(KeyC, pop.codec()))
        hows, nexts = pop.arrays("how")[0], pop.arrays("next")
        r = z3.Int("r!c13")
        h = z3.Select(hows, r)
        E.assume(z3.ForAll([r], z3.And(h >= 0, h <= 4), patterns=[h]))

        def bound(j):
            """(nothing to wait for, instant) of store j"""
            ref = seq.get(j)[1]
            fine = z3.Select(hows, ref) == OK
            return (z3.And(fine, z3.Select(nexts[0], ref)),
                    z3.If(fine, z3.Select(nexts[1], ref) - tz2.off, again.inst))
        n = seq.n
    else:
        def gen(i):
            s = E.stub("store", None, how=E.choice("how", OK, OK, OK, BUSY, DUE_FAILS, TASK_FAILS, NEXT_FAILS),
                       next=E.opt("next", lambda: E.dt("next", E.tz())))
            for a in ("lock", "get_due_tasks", "get_next_run_time"):
                setattr(s, a, _attr(E, s, a, now))
            return (f"s{i}", s)

        seq = E.seq("stores", None, gen, maxlen=4)

    def carry(name, value, L):
        import z3
        from pyvc.values import SDt
        if value is not None and type(value) is not SDt:
            return None

        def inv(v):
            i = L.i
            j = z3.Int("j!c13")
            empty = lambda j: bound(j)[0]  # noqa: E731
            inside = z3.And(j >= 0, j < i)
            pat = [seq.get(j)[1]]
            if v is None:
                return z3.ForAll([j], z3.Implies(inside, empty(j)), patterns=pat)
            if type(v) is not SDt:
                return False
            w = z3.Exists([j], z3.And(inside, z3.Not(empty(j)), v.inst == bound(j)[1]))
            return z3.And(z3.ForAll([j], z3.Implies(inside, z3.Or(empty(j), v.inst <= bound(j)[1])), patterns=pat), w)

        return (lambda: E.opt("so far", lambda: E.dt("so far", tz)), inv)

    E.foreach("stores", seq, carry=carry)
    E.foreach("passing events on", None)
    before = E.choice("state", "running", "paused")
    meanwhile = E.choice("meanwhile", "nothing", "pause")
    lock_path = E.choice("lock_path", "", "/scratch/lock")
    free = E.choice("processing lock", True, False)
    sch = []

    def end():
        if meanwhile == "pause":
            sch[0].state = SchedulerState.STATE_PAUSED

    asked = E.log("processing")
    lock = LockStub(E, free, end)
    real = lock.protected

    def protected(blocking=True):
        asked.add("round")
        return real(blocking)

    lock.protected = protected
    sch.append(scheduler(E, state=SchedulerState.STATE_RUNNING if before == "running" else SchedulerState.STATE_PAUSED,
                         stores=Stores(seq) if E.sym else dict(seq),
                         executors={"default": E.stub("executor", None, send_task=lambda *a: None)}, timezone=tz,
                         store_processing_lock=lock, store_retry_interval=retry, lock_path=lock_path))
    E.contract(BaseScheduler.dispatch_event, lambda self, ev: None)
    r = E.run_call(sch[0].process_tasks)
    E.prove("a round never fails", r.ok)
    wait = r.value
    if before == "paused":
        E.prove("a paused scheduler sets no wait", wait is None)
        E.prove_entries("a paused scheduler does not process", asked, [])
        return
    if meanwhile == "pause":
        E.prove("a scheduler paused meanwhile sets no wait", wait is None)
        return

    def nonneg():
        E.prove("the wait is not negative", wait >= 0)
        E.prove("the wait is not more than a timer takes", wait <= TIMEOUT_MAX)

    def upto(b):
        """the wait ends at the instant at the latest"""
        d = b - now
        return E.or_(wait <= 0, wait <= d.total_seconds()) if E.conc else E.or_(wait <= 0, E.call(d.total_seconds) >= wait)

    if not free:
        E.prove("another round is retried after the retry interval", wait is not None and E.truth(upto(again)))
        if wait is not None:
            nonneg()
        return
    if E.conc:
        bounds = [again if s.how != OK else s.next for _, s in seq]
        if all(b is None for b in bounds):
            E.prove("nothing scheduled: waits for the retry interval when stores are shared, else indefinitely",
                    wait == retry if lock_path else wait is None)
            return
        E.prove("something scheduled: there is a wait", wait is not None)
        nonneg()
        E.prove("no later than the earliest next run or retry", all(E.truth(upto(b)) for b in bounds if b is not None))
        E.reached("waits")
        return
    from pyvc.values import SDt
    j = E.int("some store").t
    E.assume(z3.And(j >= 0, j < n))
    if wait is None or lock_path and type(wait) is type(retry) and z3.eq(z3.simplify(wait.t), z3.simplify(retry.t)):
        if wait is None:
            E.prove("without a wait nothing is scheduled", bound(j)[0])
            E.prove("shared stores are rechecked", not lock_path)
        else:
            E.prove("no later than the earliest next run or retry",
                    E.or_(bound(j)[0], upto(SDt(bound(j)[1] + tz.off, tz))))
        return
    nonneg()
    w = z3.Int("w!c13")
    E.prove("without anything scheduled there is no wait",
            z3.Exists([w], z3.And(w >= 0, w < n, z3.Not(bound(w)[0]))))
    E.prove("no later than the earliest next run or retry", E.or_(bound(j)[0], upto(SDt(bound(j)[1] + tz.off, tz))))
    E.reached("waits")


def timer(E):
    """waking up processes once and replaces the timer by one for the new wait"""
    log = E.log("timers")
    had = E.choice("timer", "none", "set")
    wait = E.opt("wait", lambda: E.int("seconds", 0, 10**6))
    old = E.stub("timer", None, cancel=lambda: log.add("cancel"))
    made = E.stub("timer", None, cancel=lambda: log.add("cancel new"))

    class EventLoop:
        def call_soon_threadsafe(self, fn, *a):
            E.call(fn, *a)

        def call_later(self, seconds, fn, *a):
            log.add("call", seconds, fn.__func__ if hasattr(fn, "__func__") else fn)
            return made

    def process(self):
        log.add("process")
        return wait

    E.contract(BaseScheduler.process_tasks, process)
    s = scheduler(E, event_loop=EventLoop(), timer=old if had == "set" else None)
    r = E.run_call(s.wakeup)
    E.prove("returns normally", r.ok)
    cancels = [x for x in log.entries if x == "cancel"]
    E.prove("the previous timer is cancelled", len(cancels) == (1 if had == "set" else 0))
    E.prove("processes once", log.entries.count("process") == 1)
    calls = [x for x in log.entries if isinstance(x, tuple) and x[0] == "call"]
    if wait is None:
        E.prove("no wait, no timer", calls == [] and s.timer is None)
    else:
        E.prove("one timer, for that wait", len(calls) == 1 and E.truth(E.eqv(calls[0][1], wait))
                and calls[0][2] is AsyncIOScheduler.wakeup and s.timer is made and "cancel new" not in log.entries)


UNITS = [round_, timer]
