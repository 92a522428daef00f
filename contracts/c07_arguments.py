"""C07 accepted call arguments are exactly those the callable can be called with."""
import datetime as dt
import inspect
import itertools

import asyncz.utils as utils
from asyncz.enums import SchedulerState
from asyncz.exceptions import AsynczException
from asyncz.schedulers.base import TaskDefaultStruct, resolve_shape
from asyncz.tasks import Task
from asyncz.triggers import DateTrigger

from .util import UTC, scheduler, watch

LEVEL = "other"
NOTE = ("check_callable_args is verified for every signature of at most three parameters (any kinds, names and defaults), any "
        "number of positional arguments and any set of keyword arguments over their names and others; natively every "
        "signature of at most four parameters is compared with CPython's own call. Bounded in the number of parameters.")
ASSUMPTIONS = ["inspect.signature describes the callable"]

P = inspect.Parameter
KINDS = (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD, P.VAR_POSITIONAL, P.KEYWORD_ONLY, P.VAR_KEYWORD)


def _signature(E, most):
    """a legal parameter list, one choice at a time"""
    out, low, defaulted = [], 0, False
    for name in "abcd"[:most]:
        kind = E.choice(f"kind of {name}", None, *range(low, 5))
        if kind is None:
            break
        default = kind not in (2, 4) and E.choice(f"default of {name}", False, True)
        if kind < 2:
            E.assume(default or not defaulted)
            defaulted = default
        low = kind + (kind in (2, 4))
        out.append(P(name, KINDS[kind], default=0 if default else P.empty))
        if low > 4:
            break
    return inspect.Signature(out)


def _binds(E, sig, n, names):
    """the rules of a call, for n positional arguments and these keyword names"""
    ps = list(sig.parameters.values())
    kinds = [p.kind for p in ps]
    positional = [p for p in ps if p.kind in KINDS[:2]]
    free = P.VAR_KEYWORD in kinds
    ok = [E.or_(n <= len(positional), P.VAR_POSITIONAL in kinds)]
    taken = set()
    for i, p in enumerate(positional):
        given = p.name in names
        if p.kind is P.POSITIONAL_ONLY:
            ok.append(E.or_(i < n, p.default is not P.empty))
        else:
            taken.add(p.name)
            ok.append(E.or_(E.and_(i < n, not given), E.and_(n <= i, given or p.default is not P.empty)))
    for p in ps:
        if p.kind is P.KEYWORD_ONLY:
            taken.add(p.name)
            ok.append(p.name in names or p.default is not P.empty)
    ok.append(free or all(x in taken for x in names))
    return E.and_(*ok)


def _checked(E, sig, args, names):
    def f(*a, **k):
        return None

    f.__signature__ = sig
    return E.run_call(utils.check_callable_args, f, args, dict.fromkeys(names, 1))


def binding(E):
    """arguments are accepted exactly when a call with them binds"""
    sig = _signature(E, 3)
    if E.sym:
        E.bounded.add("signatures of at most three parameters")
        from pyvc.values import IntC
        args = E.seq("args", IntC)
        n = args._vc_len()
    else:
        n = E.choice("n", 0, 1, 2, 3, 4, 5)
        args = list(range(n))
    names = [p for p in sig.parameters if E.choice(f"{p} by name", False, True)]
    names += list(E.choice("others", (), ("z",)))
    r = _checked(E, sig, args, names)
    fits = _binds(E, sig, n, names)
    if r.ok:
        E.prove("accepted only if the call binds", fits)
        E.reached("accepted")
    else:
        E.prove("refused only if the call does not bind", E.neg(fits))
        E.prove("refusing tells why", r.raised(ValueError))
        E.reached("refused")


def target(a, b=2, *, c=3):
    return a


CALLS = (((), {}, False), ((1,), {}, True), ((1, 2), {}, True), ((1, 2, 3), {}, False), ((), {"a": 1}, True),
         ((1,), {"a": 1}, False), ((1,), {"c": 1}, True), ((1,), {"d": 1}, False), ((1,), {"b": 1, "c": 2}, True))


class Store:
    def __init__(self, log):
        self.log = log

    def add_task(self, task):
        self.log.add("add", task)

    def update_task(self, task):
        self.log.add("update", task)


def adding(E):
    """nothing is stored of a task whose arguments do not fit; what fits is stored as given"""
    log, events = E.log("stores"), E.log("events")
    state = E.choice("state", SchedulerState.STATE_STOPPED, SchedulerState.STATE_PAUSED)
    E.set_now(E.dt("now", UTC))
    shape = resolve_shape(None)
    sch = scheduler(E, state=state, timezone=UTC, stores={"default": Store(log)}, pending_tasks=[],
                    listeners=watch(E, events), executors={}, shape=shape, task_defaults=TaskDefaultStruct())
    args, kwargs, fits = E.choice("arguments", *CALLS)
    how = E.choice("how", "callable", "text", "task")
    trigger = DateTrigger(dt.datetime(2100, 1, 1, tzinfo=UTC))
    if how == "task":
        task = Task(fn=target, args=(0,), trigger=trigger, id="t")
        r = E.run_call(sch.add_task, task, args=args, kwargs=kwargs)
    else:
        fn = target if how == "callable" else f"{__name__}:target"
        r = E.run_call(sch.add_task, fn, trigger, args, kwargs)
    E.prove("accepted exactly when the call binds", r.ok == fits)
    kept = list(sch.pending_tasks)
    if not fits:
        E.prove("refusing tells why", r.raised(ValueError))
        E.prove("nothing is kept", kept == [])
        E.prove_entries("nothing is stored", log, [])
        E.prove_entries("nothing is reported", events, [])
        return
    E.prove("it is called as scheduled", tuple(r.value.args) == args and dict(r.value.kwargs) == kwargs and
            r.value.fn is target)
    if state is SchedulerState.STATE_STOPPED:
        E.prove("kept once", len(kept) == 1 and kept[0][0] is r.value)
    else:
        E.prove_entries("stored once", log, [("add", r.value)])


# ---------------------------------------------------------------- natively, against CPython's own call
def _signatures(most):
    for n in range(most + 1):
        for kinds in itertools.combinations_with_replacement(range(5), n):
            if kinds.count(2) > 1 or kinds.count(4) > 1:
                continue
            for defaults in itertools.product((0, 1), repeat=n):
                if any(d and k in (2, 4) for k, d in zip(kinds, defaults)):
                    continue
                pos = [d for k, d in zip(kinds, defaults) if k < 2]
                if pos == sorted(pos):
                    yield kinds, defaults


def _function(kinds, defaults):
    parts, star = [], False
    for i, (k, d) in enumerate(zip(kinds, defaults)):
        if k == 3 and not star and 2 not in kinds:
            parts.append("*")
            star = True
        parts.append({2: "*", 4: "**"}.get(k, "") + "abcd"[i] + ("=0" if d else ""))
        if k == 0 and (i + 1 == len(kinds) or kinds[i + 1] != 0):
            parts.append("/")
    ns = {}
    exec(f"def f({', '.join(parts)}): return 'called'\nclass C:\n  def __init__({', '.join(['self', *parts])}): pass\n"
         f"  def m({', '.join(['self', *parts])}): return 'called'", ns)
    return ns["f"], ns["C"]


SIGNATURES = list(_signatures(4))


def calls(E):
    """every small signature: functions, bound methods, classes, partials"""
    kinds, defaults = SIGNATURES[E.choice("signature", *range(len(SIGNATURES)))]
    f, C = _function(kinds, defaults)
    how = E.choice("callable", "function", "method", "class", "partial", "object")
    if how == "method":
        f = C.__new__(C).m
    elif how == "class":
        f = C
    elif how == "partial":
        import functools
        f = functools.partial(f, *range(E.choice("bound", 0, 1)))
    elif how == "object":
        f = type("O", (), {"__call__": C.m})()
    names = "abcd"[:len(kinds)]
    for n in range(len(kinds) + 2):
        for r in range(3):
            for kw in itertools.combinations(names + "z", r):
                if how == "partial" and len(kinds) and kinds[0] == 1 and "a" in kw:
                    continue  # inspect.signature no longer shows a parameter that is bound already
                for k in ({**dict.fromkeys(kw, 1)}, {**dict.fromkeys(kw, 1), 1: 1}):
                    try:
                        f(*range(n), **k)
                        fits = True
                    except TypeError:
                        fits = False
                    try:
                        utils.check_callable_args(f, list(range(n)), k)
                        ok = True
                    except (ValueError, AsynczException):
                        ok = False
                    E.prove("accepted exactly when the call binds", ok == fits)


UNITS = [binding, adding]
RUNTIME = [calls]
