"""C06 task updates are validated and all-or-nothing."""
import datetime as dt

from asyncz.schedulers.types import SchedulerType
from asyncz.tasks import Task
from asyncz.triggers.types import TriggerType

NOTE = ("Task.update_task is verified for every single attribute with arbitrary valid and invalid values, for every pair of "
        "attributes and for an update of everything at once, in each case together with an optional invalid last value. "
        "The task's previous attribute values are arbitrary.")
ASSUMPTIONS = ["pydantic attribute assignment without validation stores the value as given"]

KEYS = ("fn", "args", "kwargs", "name", "mistrigger_grace_time", "coalesce", "store_alias", "max_instances", "trigger",
        "executor", "next_run_time", "scheduler")
BAD = ("id", "unknown", "pending_", "args_text", "kwargs_list", "args_none", "kwargs_none", "fn_number", "name_empty",
       "name_number", "grace_zero", "grace_negative", "grace_text", "store_none", "instances_zero", "instances_text",
       "instances_fraction", "trigger_text", "trigger_none", "executor_none", "time_number", "scheduler_other",
       "args_too_many", "kwargs_unknown")


def target(a, b=2):
    return a


def other_target(x, *rest, y=None):
    return x


class Before:
    pass


def _task(E, with_scheduler=True):
    tz = E.tz()
    sch = E.stub("scheduler", SchedulerType, timezone=tz)
    attrs = dict(fn=target, fn_reference="mod:target", args=(1,), kwargs={}, name="old", mistrigger_grace_time=7,
                 coalesce=Before(), store_alias=Before(), max_instances=Before(), trigger=Before(), executor=Before(),
                 next_run_time=Before(), scheduler=sch if with_scheduler else None, id="t1", pending=False,
                 submitted=True)
    return E.obj(Task, **attrs), dict(attrs), sch, tz


def _good(E, key, sch, tz):
    """(value to pass, attributes expected afterwards)"""
    if key == "fn":
        form = E.choice("fn", "callable", "reference", "lambda")
        if form == "callable":
            return other_target, {"fn": other_target, "fn_reference": f"{__name__}:other_target"}
        if form == "lambda":
            f = lambda q: q  # noqa: E731
            return f, {"fn": f, "fn_reference": None}
        return f"{__name__}:other_target", {"fn": other_target, "fn_reference": f"{__name__}:other_target"}
    if key == "args":
        v = E.choice("args", "tuple", "list", "oneshot")
        if v == "oneshot":
            return iter([5]), {"args": (5,)}
        v = {"tuple": (5,), "list": [5]}[v]
        return v, {"args": v}
    if key == "kwargs":
        return {}, {"kwargs": {}}
    if key == "name":
        v = E.choice("name", "new", None)
        return v, {} if v is None else {"name": v}
    if key == "mistrigger_grace_time":
        v = E.choice("grace", "none", "int", "real")
        v = None if v == "none" else E.int("g", 1) if v == "int" else E.int("g", 1, 10**9) / 1000
        return v, {"mistrigger_grace_time": v}
    if key == "coalesce":
        v = E.choice("coalesce", True, False, 1, "", None)
        return v, {"coalesce": bool(v)}
    if key == "store_alias":
        return "other", {"store_alias": "other"}
    if key == "executor":
        return "exec2", {"executor": "exec2"}
    if key == "max_instances":
        v = E.int("limit", 1)
        return v, {"max_instances": v}
    if key == "trigger":
        v = E.stub("trigger", TriggerType)
        return v, {"trigger": v}
    if key == "scheduler":
        return sch, {"scheduler": sch}
    v = E.choice("time", "none", "aware", "naive")
    if v == "none":
        return None, {"next_run_time": None}
    t = E.dt("at", tz)
    if v == "naive":
        if E.conc and not isinstance(tz, dt.timezone):
            u = t.replace(tzinfo=None).replace(tzinfo=tz)
            E.assume(dt.datetime.fromtimestamp(u.timestamp(), tz).replace(tzinfo=None) == t.replace(tzinfo=None) and u == t)
        return t.replace(tzinfo=None), {"next_run_time": t}
    return t, {"next_run_time": t}


def _bad(E, what):
    if what == "scheduler_other":
        return "scheduler", E.stub("other scheduler", SchedulerType, timezone=dt.timezone.utc)
    if what == "grace_negative":
        return "mistrigger_grace_time", E.int("g", None, -1)
    if what == "instances_zero":
        return "max_instances", E.int("limit", None, 0)
    return {
        "id": ("id", "t2"), "unknown": ("colour", 1), "pending_": ("pending", True), "args_text": ("args", "abc"),
        "kwargs_list": ("kwargs", [("a", 1)]), "args_none": ("args", None), "kwargs_none": ("kwargs", None),
        "fn_number": ("fn", 5), "name_empty": ("name", ""), "name_number": ("name", 5),
        "grace_zero": ("mistrigger_grace_time", 0), "grace_text": ("mistrigger_grace_time", "1"),
        "store_none": ("store_alias", None), "instances_text": ("max_instances", "3"),
        "instances_fraction": ("max_instances", 1.5), "trigger_text": ("trigger", "interval"),
        "trigger_none": ("trigger", None), "executor_none": ("executor", None), "time_number": ("next_run_time", 5),
        "args_too_many": ("args", (1, 2, 3, 4)), "kwargs_unknown": ("kwargs", {"zz": 1}),
    }[what]


def _same(E, have, want):
    if want is None or isinstance(want, (bool, Before)) and not hasattr(type(want), "t"):
        return have is want
    if have is want:
        return True
    if have is None or isinstance(have, Before) or isinstance(want, (TriggerType, SchedulerType)):
        return False
    if callable(want):
        return have is want
    return type(have) is type(want) and E.truth(have == want) if not E.sym else E.truth(E.eqv(have, want))


def _check(E, keys, bad, with_scheduler=True):
    task, before, sch, tz = _task(E, with_scheduler)
    updates, want = {}, dict(before)
    for k in keys:
        v, w = _good(E, k, sch, tz)
        updates[k] = v
        want.update(w)
    if "fn" in updates or "args" in updates or "kwargs" in updates:
        if "fn" not in updates:
            want["fn_reference"] = f"{__name__}:target"
    invalid = False
    if bad is not None:
        k, v = _bad(E, bad)
        if k == "args" and bad == "args_too_many" and "fn" in keys:
            # the new callable accepts any number
            E.assume(updates["fn"] is not other_target and not isinstance(updates["fn"], str))
        updates[k] = v
        invalid = True
    if "next_run_time" in updates and not with_scheduler and "scheduler" not in updates:
        invalid = True
    r = E.run_call(task.update_task, **updates)
    if invalid:
        E.prove("an invalid update raises", not r.ok and not r.raised(AssertionError))
        for k, v in before.items():
            E.prove(f"an invalid update leaves {k} as it was", _same(E, getattr(task, k), v))
        E.reached("refused")
        return
    E.prove("a valid update is accepted", r.ok)
    for k, v in want.items():
        E.prove(f"{k} is as requested, or as it was", _same(E, getattr(task, k), v))
    E.reached("applied")


def nothing(E):
    _check(E, (), None, E.choice("scheduler known", True, False))


def single(E):
    """one attribute, any value"""
    _check(E, (E.choice("key", *KEYS),), None, E.choice("scheduler known", True, False))


def invalid(E):
    """one invalid value"""
    _check(E, (), E.choice("bad", *BAD))


def pair(E):
    """two attributes"""
    i = E.choice("first", *range(len(KEYS)))
    j = E.choice("second", *range(len(KEYS)))
    E.assume(i != j)
    _check(E, (KEYS[i], KEYS[j]), None)


def mixed(E):
    """one valid and one invalid attribute, in both orders"""
    k = E.choice("key", *KEYS)
    bad = E.choice("bad", *BAD)
    task, before, sch, tz = _task(E)
    bk, bv = _bad(E, bad)
    E.assume(bk != k)
    if bad == "args_too_many" and k == "fn":
        E.assume(False)
    gv, _ = _good(E, k, sch, tz)
    first = E.choice("order", "valid first", "invalid first") == "valid first"
    updates = {k: gv, bk: bv} if first else {bk: bv, k: gv}
    r = E.run_call(task.update_task, **updates)
    E.prove("an invalid update raises", not r.ok and not r.raised(AssertionError))
    for n, v in before.items():
        E.prove(f"an invalid update leaves {n} as it was", _same(E, getattr(task, n), v))


def everything(E):
    """all attributes at once, with an optional invalid one"""
    bad = E.opt("invalid", lambda: E.choice("bad", "id", "unknown", "pending_"))
    task, before, sch, tz = _task(E)
    updates, want = {}, dict(before)
    for k in KEYS:
        if k in ("args", "fn", "coalesce", "name"):
            v, w = {"args": ([5], {"args": [5]}), "name": ("new", {"name": "new"}), "coalesce": (True, {"coalesce": True}),
                    "fn": (other_target, {"fn": other_target, "fn_reference": f"{__name__}:other_target"})}[k]
        else:
            v, w = _good(E, k, sch, tz)
        updates[k] = v
        want.update(w)
    if bad is not None:
        bk, bv = _bad(E, bad)
        updates[bk] = bv
        want = before
    r = E.run_call(task.update_task, **updates)
    E.prove("accepted exactly when everything is valid", r.ok == (bad is None))
    for k, v in want.items():
        E.prove(f"{k} is as requested, or as it was", _same(E, getattr(task, k), v))


UNITS = [nothing, single, invalid, pair, mixed, everything]
