"""Shared pieces of the contract harnesses."""
import datetime as dt
import logging
import threading

import asyncz.schedulers.asyncio as sched_mod
from asyncz.schedulers.asyncio import AsyncIOScheduler

UTC = dt.timezone.utc


class _Loggers(dict):
    def __missing__(self, k):
        return logging.getLogger("vc")


def scheduler(E, **attrs):
    """a scheduler object with exactly the given state (no construction)"""
    base = dict(listeners=[], listeners_lock=threading.RLock(), identity="s1", loggers=_Loggers(),
                logger_name="asyncz.schedulers", state=None, ref_counter=0, ref_lock=threading.Lock(),
                store_lock=threading.RLock(), executor_lock=threading.RLock(), executors={}, stores={},
                pending_tasks=[], instances=E.dict(default_factory=lambda: 0), timezone=UTC)
    base.update(attrs)
    return E.obj(AsyncIOScheduler, **base)


def as_list(E, s):
    """all elements (natively, or of a sequence whose length this path has fixed)"""
    if E.conc or isinstance(s, (list, tuple)) and not hasattr(type(s), "_vc_sym"):
        return list(s)
    import z3
    n = E.concretize_int(s.n)
    return [s.at(z3.IntVal(j)) for j in range(n)]


def watch(E, log):
    """listeners that record every event as (code, task id, store, alias)"""
    from asyncz.events.constants import ALL_EVENTS

    def seen(ev):
        log.add(ev.code, getattr(ev, "task_id", None), getattr(ev, "store", None), getattr(ev, "alias", None))

    return [(seen, ALL_EVENTS)]


def with_state(E, obj, **attrs):
    """the object in the given state; an unknown attribute means the representation is not the one under contract"""
    for k, v in attrs.items():
        if not hasattr(obj, k):
            if E.sym:
                from pyvc.values import Unsupported
                raise Unsupported(f"{type(obj).__name__} has no {k}: another representation")
            raise AttributeError(k)
        setattr(obj, k, v)
    return obj


def source_ints(*modules, lo=7, hi=6000):
    """the whole numbers written in the source of the modules (sizes worth sampling around)"""
    import ast
    import inspect
    out = set()
    for m in modules:
        for n in ast.walk(ast.parse(inspect.getsource(m))):
            if isinstance(n, ast.Constant) and type(n.value) is int and lo <= n.value <= hi:
                out.add(n.value)
    return sorted(out)
