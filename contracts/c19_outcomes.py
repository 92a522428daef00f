"""C19 each submitted run time ends in exactly one outcome."""
import datetime as dt
import logging

from asyncz.events import TaskExecutionEvent
from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED
from asyncz.exceptions import MaximumInstancesError, TaskLookupError
from asyncz.executors.base import run_coroutine_task, run_task

from .util import UTC

NOTE = ("run_task and run_coroutine_task are verified for any number of run times, every grace time (none, whole or "
        "fractional seconds), any clock that advances between runs, and a task function that returns or raises "
        "differently on every call.")
ASSUMPTIONS = ["the clock does not change between an iteration's decision and its comparison (one reading per decision)"]


class Boom(Exception):
    pass


class Result:
    pass


# what a task function may end with: every shape of result, and exceptions of every family a handler could single out
RESULTS = [None, False, 0, "", (), ValueError("a result"), NotImplemented]
RAISES = [Boom, AssertionError, StopIteration, StopAsyncIteration, KeyError, IndexError, ValueError, TypeError,
          AttributeError, RuntimeError, NotImplementedError, RecursionError, TimeoutError, OSError, InterruptedError,
          ZeroDivisionError, ImportError, MemoryError, EOFError, NameError, UnicodeError, Warning, DeprecationWarning,
          ReferenceError, SyntaxError, BufferError, MaximumInstancesError, TaskLookupError, ExceptionGroup]


def _exception(kind):
    if kind is MaximumInstancesError:
        return kind("t1", 1)
    if kind is TaskLookupError:
        return kind("t1")
    if kind is ExceptionGroup:
        return kind("several", [ValueError("one")])
    return kind("task")


def _body(E, run, coroutine):
    log = E.log("calls")
    tz = E.tz()
    if E.sym:
        from pyvc.values import DtC
        times = E.seq("run_times", DtC(tz))
    else:
        times = E.seq("run_times", None, lambda i: E.dt("t", tz), maxlen=4)
    how = E.choice("grace", "none", "seconds", "fraction", "zero")
    if how == "none":
        grace = None
    elif how == "seconds":
        grace = E.int("g", 0, 10**6)
    elif how == "zero":
        grace = 0
    else:
        grace = E.int("g", 0, 10**9) / 1_000_000
    state = {"now": E.dt("clock", UTC), "nows": [], "results": []}
    state["nows"].append(state["now"])
    E.set_now(lambda: state["now"])
    args, kwargs = ("a", E.stub("arg")), {"k": E.stub("kwarg")}

    def call(*a, **k):
        log.add("call", a, k)
        ends = E.choice("call", "object", "plain", "raises")
        later = E.dt("clock", UTC)
        E.assume(later >= state["now"])
        state["now"] = later
        state["nows"].append(later)
        if ends == "raises":
            kinds = [k for k in RAISES if not (coroutine and k is StopIteration)]  # Python turns that one around itself
            ex = _exception(kinds[E.choice("exception", *range(len(kinds)))])
            state["results"].append((True, ex))
            raise ex
        r = Result() if ends == "object" else RESULTS[E.choice("result", *range(len(RESULTS)))]
        state["results"].append((False, r))
        return r

    async def acall(*a, **k):
        return call(*a, **k)

    task = E.stub("task", None, id="t1", fn=acall if coroutine else call, args=args, kwargs=kwargs,
                  mistrigger_grace_time=grace)
    limit = None if grace is None else dt.timedelta(microseconds=1) * round_us(E, grace, how)
    pos = [0]

    def late(i, x):
        """was this run time too late when its turn came (advances to the clock after it)"""
        if E.sym and fe.loop is not None:
            now = state["nows"][0]
        else:
            if i == 0:
                pos[0] = 0
            now = state["nows"][min(pos[0], len(state["nows"]) - 1)]
        return limit is not None and E.truth(now - x > limit)

    def each(i, x):
        if E.conc or fe.loop is None:
            # the calls and the outcomes are simulated in step
            miss = late(i, x)
            if not miss:
                pos[0] += 1
            return [[] if miss else [("call", args, kwargs)]]
        return [[] if late(i, x) else [("call", args, kwargs)]]

    def out(i, x):
        miss = late(i, x)
        if miss:
            return [E.pred(lambda ev: _is(E, ev, TASK_MISSED, x, None, None))]
        if E.sym and fe.loop is not None:
            if len(state["results"]) != 1:
                return [E.pred(lambda ev: False)]
            r = state["results"][0]
        else:
            if pos[0] >= len(state["results"]):
                return [E.pred(lambda ev: False)]
            r = state["results"][pos[0]]
            pos[0] += 1
        raised, r = r
        if raised:
            return [E.pred(lambda ev: _is(E, ev, TASK_ERROR, x, None, r))]
        return [E.pred(lambda ev: _is(E, ev, TASK_EXECUTED, x, r, None))]

    def havoc(L):
        state["now"] = E.dt("clock", UTC)
        state["nows"][:] = [state["now"]]
        state["results"][:] = []

    fe = E.foreach("run times", times, logs=[log], each=each, out=out, havoc=havoc)
    r = E.run_call(run, task, "store1", times, logging.getLogger("vc"))
    E.prove("running never raises", r.ok)
    E.prove_entries("called once, with its arguments, for each run time that is not too late", log, [fe])
    E.prove_entries("one outcome per run time, in order, telling what happened", r.value, [fe])
    E.reached("ran")


def round_us(E, grace, how):
    return grace * 1_000_000 if how in ("seconds", "zero") else (grace * 1_000_000 if E.sym else round(grace * 1_000_000))


def _is(E, ev, code, run_time, value, exc):
    return (isinstance(ev, TaskExecutionEvent) and ev.code == code and ev.task_id == "t1" and ev.store == "store1"
            and E.truth(ev.scheduled_run_time == run_time) and ev.return_value is value and ev.exception is exc
            and (ev.traceback is not None) == (exc is not None))


def plain(E):
    """run_task"""
    _body(E, run_task, False)


def coroutine(E):
    """run_coroutine_task"""
    _body(E, run_coroutine_task, True)


UNITS = [plain, coroutine]
