"""C28 command-line and form schedule definitions build the schedule they describe."""
import asyncio
import datetime as dt
import importlib
import itertools
import json
import os
import re
import shutil
import sys
import tempfile
import time

from asyncz.cli import types as cli_types
from asyncz.cli import utils as cli_utils
from asyncz.contrib.dashboard.controllers import _helpers as form_texts
from asyncz.contrib.dashboard.controllers import tasks as form_tasks
from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

from .util import UTC

NOTE = ("Interval text of the command line and of the form is verified for every number of up to 11 digits, unit and spacing; "
        "crontab text for every assignment of one- and two-digit values to the five fields; date text for every digit; store and "
        "executor options for every alias and location over their alphabets; edit forms for every number, name and executor. "
        "Other texts (any length, any characters, any number of fields, malformed forms) are compared with the documented "
        "grammar on samples (bounded); the job file loader and the options as the scheduler receives them are executed "
        "(bounded).")
ASSUMPTIONS = ["the documented interval grammar is digits, optional blanks and a unit s, m or h in any case on the command line, "
               "digits and an optional lower-case unit in forms; a form may accept other spellings of a number (signs, "
               "underscores, blanks) with their usual value, never a negative one",
               "week days of crontab text are numbered as the schedule numbers them (0 is Monday, C02)",
               "an interval of zero means the shortest interval, one second, as for IntervalTrigger",
               "json, int, float, re and datetime.fromisoformat read text as documented",
               "the redis and mongodb options are compared with the constructor arguments of their stores; no server is contacted",
               "date text without an offset is local time on the command line; there sampled natively"]
QUICK_S = 150

MULT = {"s": 1, "m": 60, "h": 3600}
LONGEST = 3 * 10**10  # seconds; the start of a longer one may lie outside the calendar


def _cli(E, cron=None, interval=None, at=None):
    return E.run_call(cli_types.parse_trigger, cron=cron, interval=interval, at=at)


def interval_text(E):
    """digits and a unit are that many seconds, minutes or hours"""
    E.set_now(E.dt("now", UTC))
    digits = E.digits("number", E.choice("digits", *range(1, 12)))
    if E.choice("where", "cli", "form") == "cli":
        before, mid, after = E.choice("blanks", ("", "", ""), (" ", "", ""), ("", " ", ""), ("\t", "  ", "\n"))
        unit = E.choice("unit", "s", "m", "h", "S", "M", "H")
        r = _cli(E, interval=before + digits + mid + unit + after)
    else:
        unit = E.choice("unit", "s", "m", "h", "")
        before, after = E.choice("blanks", ("", ""), (" ", " "))
        kind = E.choice("kind", "interval", " Interval ")
        r = E.run_call(form_texts.parse_trigger, kind, before + digits + unit + after)
    seconds = E.num(digits) * MULT[unit.lower() or "s"]
    E.assume(E.and_(seconds >= 1, seconds < LONGEST))
    E.assume(not E.conc or not r.raised(OverflowError))
    if not r.ok:
        E.prove("the text is read (unless its first run is outside the calendar)", r.raised(OverflowError))
        return
    E.prove("an interval", isinstance(r.value, IntervalTrigger))
    E.prove("of exactly that length", E.eqv(r.value.interval, E.call(dt.timedelta, seconds=seconds)))
    E.prove("without any other bound or jitter", E.and_(r.value.end_at is None, not r.value.jitter))
    E.reached("interval")


FORM_REST = ("", "s", "m", "h", "x", "1.5s", "5d", "5 x", "-5s", "-5", "- 5", "5s5", "s5", "5ss", "-1h", "1h30m", "5S1", "0x5", "1e3")
CLI_REST = ("s", "5", "-5s", "+5s", "5d", "1.5h", "1h30m", "5ss", "5 s x", "5\u017f", "s5", "0x5s", "5_0s", "-1h", "٣s")


def malformed(E):
    """text outside the grammar is refused with a ValueError"""
    E.set_now(E.dt("now", UTC))
    what = E.choice("what", "cli interval", "form interval", "cli shape", "form shape", "cli cron", "form cron", "cli at", "form date",
                    "form kind", "which")
    if what == "cli interval":
        r = _cli(E, interval=E.choice("text", *CLI_REST))
    elif what == "form interval":
        r = E.run_call(form_texts.parse_trigger_config, "interval", E.choice("text", *FORM_REST))
    elif what == "cli shape":
        a, b = E.digits("a", E.choice("n", 1, 3)), E.digits("b", 2)
        r = _cli(E, interval=E.choice("shape", a, a + "." + b + "s", "-" + a + "m", a + "s" + b + "s", a + "d", "s" + a, a + "s " + b,
                                      a + " " + b + "h", a + ":" + b))
    elif what == "form shape":
        a, b = E.digits("a", E.choice("n", 1, 3)), E.digits("b", 2)
        E.assume(E.num(a) > 0)
        r = E.run_call(form_texts.parse_trigger_config, "interval", E.choice(
            "shape", a + "." + b + "s", "-" + a + "m", "-" + a, a + "s" + b + "s", a + "d", "s" + a, a + "s " + b, a + " " + b + "h",
            a + ":" + b))
    elif what in ("cli cron", "form cron"):
        n = E.choice("fields", 0, 1, 2, 3, 4, 6, 7, 9)
        sep = E.choice("separator", " ", "\t")
        text = sep.join([E.choice("field", "*", "1")] * n) if n else " "
        r = _cli(E, cron=text) if what == "cli cron" else E.run_call(form_texts.parse_trigger_config, "cron", text)
    elif what == "cli at":
        r = _cli(E, at=E.choice("text", "x", "2020", "2020-13-01", "2020-02-30T00:00:00+00:00", "10s", "2020-01-01T25:00:00",
                                "tomorrow", " "))
    elif what == "form date":
        r = E.run_call(form_texts.parse_trigger_config, "date", E.choice(
            "text", "", "x", "2020-13-01", "2020-02-30T00:00:00 00:00", "10s", "2020-01-01T25:00:00", "2020-01-01T10:00:00 0200"))
    elif what == "form kind":
        r = E.run_call(form_texts.parse_trigger_config, E.choice("kind", "", "x", "crontab", "and", None), E.choice(
            "value", "10s", "* * * * *", "2020-01-01", None))
    else:
        given = {"cron": E.choice("cron", None, "", "* * * * *"), "interval": E.choice("interval", None, "", "5s"),
                 "at": E.choice("at", None, "", "2020-01-01T00:00:00+00:00")}
        E.assume(sum(bool(v) for v in given.values()) != 1)
        r = _cli(E, **given)
    E.prove("refused", r.raised(ValueError))
    E.reached("refused")


def crontab(E):
    """five fields: minute, hour, day, month, day of week"""
    _crontab(E, False)


def crontab_shapes(E):
    """steps, ranges and lists in one of the fields"""
    _crontab(E, True)


FIELDS = {"minute": (0, 59), "hour": (0, 23), "day": (1, 31), "month": (1, 12), "day_of_week": (0, 6)}


def _crontab(E, shaped):
    wide = {n: E.choice(f"wide {n}", True, False) for n in FIELDS} if E.conc else dict.fromkeys(FIELDS, E.choice("wide", True, False))
    shape = E.choice("shape of", *FIELDS) if shaped else None
    how = E.choice("shape", "step", "range", "any", "list") if shape else None
    texts, direct = {}, {}
    for name, (lo, hi) in FIELDS.items():
        d = E.digits(name, 2 if wide[name] else 1, (lo, hi))
        E.assume(E.and_(E.num(d) >= lo, E.num(d) <= hi))
        if name == shape:
            E.assume(E.num(d) >= 1)
            d = {"step": "*/" + d, "range": str(lo) + "-" + d, "any": "*", "list": str(lo) + "," + d}[how]
        texts[name] = d
    sep, lead = E.choice("separator", (" ", ""), ("\t", " "), ("  ", "")) if not shaped or E.conc else (" ", "")
    text = lead + texts["minute"]
    for name in list(FIELDS)[1:]:
        text = text + sep + texts[name]
    via = E.choice("via", "cli", "form", "trigger") if not shaped or E.conc else "cli"
    r = (_cli(E, cron=text) if via == "cli" else E.run_call(form_texts.parse_trigger, "cron", text) if via == "form"
         else E.run_call(CronTrigger.from_crontab, text, "UTC"))
    want = E.run_call(CronTrigger, **texts)
    if not want.ok:
        E.prove("refused as the fields are", not r.ok)
        return
    E.prove("the text is read", r.ok)
    t = r.value
    E.prove("a cron schedule", isinstance(t, CronTrigger))
    E.prove("in the zone given", via != "trigger" or str(t.timezone) == "UTC")
    at = E.dt("day", None) if E.conc else None
    for f, w in zip(t.fields, want.value.fields):
        E.prove("the same fields", f.name == w.name and len(f.expressions) == len(w.expressions))
        for e, x in zip(f.expressions, w.expressions):
            E.prove("of the same kind", type(e) is type(x))
            for k in ("first", "last", "step"):
                a, b = getattr(e, k, None), getattr(x, k, None)
                E.prove("with the same values", a is None and b is None or a is not None and b is not None and E.truth(a == b))
        if f.name in FIELDS and f.name != shape:
            E.prove("each number in its own field", E.and_(len(f.expressions) == 1, f.expressions[0].first == E.num(texts[f.name])))
        if E.conc and f.name in FIELDS and shape is None:
            v = E.call(f.get_next_value, at)
            E.prove("the field allows that value only", v in (None, int(texts[f.name])))
    E.prove("no other bound", E.and_(t.start_at is None, t.end_at is None, not t.jitter))
    E.reached("cron")


def date_text(E):
    """an ISO date is that instant"""
    wide = 2
    nums = {}
    parts = []
    for n, k, like in (("year", 4, (1990, 2040)), ("month", 2, (1, 12)), ("day", 2, (1, 28)), ("hour", 2, (0, 23)),
                       ("minute", 2, (0, 59)), ("second", 2, (0, 59)), ("oh", 2, (0, 14)), ("om", 2, (0, 59))):
        d = E.digits(n, k, like)
        parts.append(d)
        nums[n] = E.num(d)
    y, mo, d, h, mi, s, oh, om = parts
    E.assume(E.and_(nums["oh"] < 24, nums["om"] < 60, nums["year"] > 1, nums["year"] < 9999))
    E.assume(E.or_(nums["oh"] > 0, nums["om"] > 0))
    sign = E.choice("sign", "+", "-")
    sep = E.choice("separator", "T", " ")
    via = E.choice("via", "cli", "form", "lost plus")
    if via == "lost plus":
        E.assume(sign == "+" and sep == "T")
    text = y + "-" + mo + "-" + d + sep + h + ":" + mi + ":" + s + (" " if via == "lost plus" else sign) + oh + ":" + om
    r = _cli(E, at=text) if via == "cli" else E.run_call(form_texts.parse_trigger, "date", text)
    try:
        wall = E.call(dt.datetime, *[nums[k] for k in ("year", "month", "day", "hour", "minute", "second")])
    except ValueError:
        E.prove("a day or time that does not exist is refused", not r.ok)
        return
    E.prove("the text is read", r.ok)
    t = r.value
    E.prove("a date schedule", isinstance(t, DateTrigger))
    off = (nums["oh"] * 60 + nums["om"]) * (1 if sign == "+" else -1)
    E.prove("the wall time of the text", E.eqv(t.run_at.replace(tzinfo=None), wall))
    E.prove("in the zone of the text", E.eqv(t.run_at.utcoffset(), E.call(dt.timedelta, minutes=off)))
    E.reached("date")


NAME = "abcdefghijklmnopqrstuvwxyz0123456789_-"


def _store(cfg):
    """what a store option asks for: (plugin, other arguments)"""
    cfg = dict(cfg)
    kind = cfg.pop("type", None) or cfg.pop("class", None)
    return kind, cfg


def store_options(E):
    """alias=value gives the store of that alias"""
    alias = E.text("alias", chars=NAME)
    E.assume(alias != "")
    where = E.text("where", chars=NAME + "/.=?&:@ABXYZ")
    E.assume(where != "")
    kind = E.choice("kind", "memory", "file", "sqlite", "postgres", "mongodb", "bare")
    blank = E.choice("blank", "", " ")
    value = {"memory": "memory", "file": "file://" + where, "sqlite": "sqlite:///" + where, "postgres": "postgresql+x://" + where,
             "mongodb": "mongodb://" + where, "bare": None}[kind]
    if kind == "bare":
        r = E.run_call(cli_utils.build_stores_map, ["memory"])
        E.prove("a store without an alias is the default", r.ok and list(r.value) == ["default"]
                and _store(r.value["default"]) == ("memory", {}))
        return
    r = E.run_call(cli_utils.parse_store, blank + alias + blank + "=" + blank + value + blank) if E.sym else E.run_call(
        cli_utils.build_stores_map, [blank + alias + blank + "=" + blank + value + blank])
    E.prove("the option is read", r.ok)
    if E.sym:
        got, cfg = r.value
    else:
        E.prove("one store", len(r.value) == 1)
        (got, cfg), = r.value.items()
    E.prove("under its alias", got == alias)
    plugin, rest = _store(cfg)
    if kind == "memory":
        E.prove("a memory store", plugin == "memory" and rest == {})
    elif kind == "file":
        E.prove("a file store", plugin == "file" and list(rest) == ["directory"])
        E.prove("in that directory", rest["directory"] == where)
    elif kind == "mongodb":
        E.prove("a mongodb store", plugin in ("mongo", "mongodb") and list(rest) == ["host"])
        E.prove("of that server", rest["host"] == value)
    else:
        E.prove("a database store", plugin == "sqlalchemy" and list(rest) == ["database"])
        E.prove("of that database", rest["database"] == value)
    E.reached("store")


EXECUTORS = {"asyncio": "AsyncIOExecutor", "thread": "ThreadPoolExecutor", "threads": "ThreadPoolExecutor", "pool": "ThreadPoolExecutor",
             "process": "ProcessPoolExecutor", "proc": "ProcessPoolExecutor", "processpool": "ProcessPoolExecutor",
             "debug": "DebugExecutor"}


def executor_options(E):
    """alias=type[:workers]"""
    alias = E.text("alias", chars=NAME)
    E.assume(alias != "")
    blank = E.choice("blank", "", " ")
    kind = E.choice("kind", *EXECUTORS, "Thread", "PROCESS", "fibre", "", "thread pool")
    workers = E.choice("workers", None, "1", "8", "64", "x", "1.5", "4 4")
    text = blank + alias + blank + "=" + blank + kind + blank + ("" if workers is None else ":" + workers)
    if E.sym:
        r = E.run_call(cli_utils.parse_executor, text)
    else:
        r = E.run_call(cli_utils.build_executors_map, [text])
    good = workers is None or workers.isdigit()
    if not good or E.conc and kind.lower() not in EXECUTORS:
        E.prove("a malformed option is refused", r.raised(ValueError))
        return
    E.prove("the option is read", r.ok)
    if E.sym:
        got, cfg = r.value
        E.prove("of that type", cfg["type"] == kind.lower())
    else:
        E.prove("one executor", len(r.value) == 1)
        (got, cfg), = r.value.items()
        path = cfg["class"]
        mod, _, name = path.replace(":", ".").rpartition(".")
        E.prove("of that type", getattr(importlib.import_module(mod), name).__name__ == EXECUTORS[kind.lower()])
    E.prove("under its alias", got == alias)
    rest = {k: v for k, v in cfg.items() if k not in ("type", "class")}
    E.prove("with exactly the workers given", rest == ({} if workers is None else {"max_workers": int(workers)}))
    E.reached("executor")


def no_option(E):
    """an option without = is not an executor; an unknown store or executor is refused"""
    what = E.choice("what", "executor", "unknown executor", "store", "no location", "nothing")
    if what == "executor":
        text = E.text("text", chars=NAME + ": ")
        r = E.run_call(cli_utils.build_executors_map, [text])
    elif what == "unknown executor":
        text = E.text("kind", chars=NAME)
        E.assume(E.neg(E.or_(*[text == k for k in EXECUTORS])))
        r = E.run_call(cli_utils.build_executors_map, ["a=" + text])
    elif what == "store":
        text = E.text("text", chars=NAME)
        E.assume(E.neg(E.or_(*[text == k for k in ("", "memory", "durable", "sql", "sqlite", "sqlalchemy")])))
        r = E.run_call(cli_utils.build_stores_map, [text])
    elif what == "no location":
        r = E.run_call(cli_utils.build_stores_map, [E.choice("text", "durable=", "sql", "sqlalchemy= ", "sqlite")])
    else:
        r = E.run_call(cli_utils.build_stores_map, [])
        E.prove("memory by default", r.ok and list(r.value) == ["default"] and _store(r.value["default"]) == ("memory", {}))
        return
    E.prove("refused", not r.ok)
    E.reached("refused")


def several(E):
    """every option is kept, in order"""
    n = E.choice("options", 1, 2, 3)
    names = [E.choice(f"alias {i}", "a", "b", "default", "durable", "x-1") for i in range(n)]
    E.assume(len(set(names)) == n)
    kinds = [E.choice(f"kind {i}", "memory", "sqlite:///f{}.db") for i in range(n)]
    r = E.run_call(cli_utils.build_stores_map, [f"{a}={k.format(i)}" for i, (a, k) in enumerate(zip(names, kinds))])
    E.prove("exactly the given stores, in order", r.ok and list(r.value) == names)
    for i, (a, k) in enumerate(zip(names, kinds)):
        want = ("memory", {}) if k == "memory" else ("sqlalchemy", {"database": f"sqlite:///f{i}.db"})
        E.prove("each as described", _store(r.value[a]) == want)
    r = E.run_call(cli_utils.build_executors_map, [f"{a}=thread:{i + 1}" for i, a in enumerate(names)])
    E.prove("exactly the given executors", r.ok and list(r.value) == names)
    for i, a in enumerate(names):
        E.prove("each with its workers", r.value[a].get("max_workers") == i + 1)
    E.reached("several")


class Form(dict):
    pass


def _edit(E, **given):
    form = {"name": "n", "callable_path": "m:f", "args": "[]", "kwargs": "{}", "executor": "e", "coalesce": "true",
            "max_instances": "1", "mistrigger_grace_time": "5", **given}
    form = {k: v for k, v in form.items() if v is not None}
    task = E.stub("task", None, name="old", fn_reference="m:g")
    return E.run_call(form_tasks._parse_task_edit_updates, form, task)


def _one(E, r, key, want):
    E.prove("the form is read", r.ok)
    updates, errors = r.value
    E.prove("without errors", len(errors) == 0)
    E.prove("exactly the fields of the form", sorted(updates) == [
        "args", "coalesce", "executor", "fn", "kwargs", "max_instances", "mistrigger_grace_time", "name"])
    base = {"name": "n", "fn": "m:f", "args": [], "kwargs": {}, "executor": "e", "coalesce": True, "max_instances": 1,
            "mistrigger_grace_time": 5}
    for k, v in {**base, key: want}.items():
        E.prove(f"{k} has its value", updates[k] is None if v is None else E.and_(updates[k] is not None, E.eqv(updates[k], v)))
        E.prove(f"{k} has its type", k == "mistrigger_grace_time" or type(v) is not bool or updates[k] is v)


def _bad(E, r, key):
    E.prove("the form is read", r.ok)
    updates, errors = r.value
    E.prove("a malformed field is reported", len(errors) > 0)
    E.prove("and has no value", key not in updates)


def edit_form(E):
    """every field of the edit form has its typed value"""
    what = E.choice("field", "name", "callable_path", "executor", "coalesce", "max_instances", "grace", "fraction", "no grace", "args",
                    "kwargs")
    blank = E.choice("blank", "", " ")
    if what in ("name", "callable_path", "executor"):
        text = E.text("text", chars=NAME + ":.")
        r = _edit(E, **{what: blank + text + blank})
        key = {"callable_path": "fn"}.get(what, what)
        if E.truth(text == ""):
            _bad(E, r, key)
        else:
            _one(E, r, key, text)
    elif what == "coalesce":
        v = E.choice("value", "1", "true", "yes", "on", "0", "false", "no", "off", "TRUE", "Off", "maybe", "", "2", "tru")
        r = _edit(E, coalesce=blank + v + blank)
        low = v.lower()
        if low in ("1", "true", "yes", "on", "0", "false", "no", "off"):
            _one(E, r, "coalesce", low in ("1", "true", "yes", "on"))
        else:
            _bad(E, r, "coalesce")
    elif what == "max_instances":
        if E.choice("malformed", False, True):
            v = E.choice("value", "", "x", "1.5", "1 1", "-", "0x1", "nan")
            _bad(E, _edit(E, max_instances=v), "max_instances")
            return
        d = E.digits("number", E.choice("digits", 1, 2, 4, 7))
        sign = E.choice("sign", "", "-")
        r = _edit(E, max_instances=blank + sign + d + blank)
        if sign or not E.truth(E.num(d) > 0):
            _bad(E, r, "max_instances")
        else:
            _one(E, r, "max_instances", E.num(d))
    elif what in ("grace", "fraction"):
        if E.choice("malformed", False, True):
            v = E.choice("value", "x", "1 1", "-", "nan", "inf", "-inf", "0", "-5", "0.0", "1,5")
            _bad(E, _edit(E, mistrigger_grace_time=v), "mistrigger_grace_time")
            return
        d = E.digits("number", E.choice("digits", 1, 3, 6))
        sign = E.choice("sign", "", "-")
        text, value = sign + d, E.num(d)
        if what == "fraction":
            f = E.digits("part", 1)
            text = text + "." + f
            tenths = E.num(f)
            r = _edit(E, mistrigger_grace_time=blank + text + blank)
            ok = not sign and E.truth(E.or_(value > 0, tenths > 0))
            if not ok:
                _bad(E, r, "mistrigger_grace_time")
            else:
                E.prove("read", r.ok and len(r.value[1]) == 0)
                got = r.value[0]["mistrigger_grace_time"]
                E.prove("the number of the text", E.eqv(got * 10, value * 10 + tenths) if E.sym else got == float(text))
            return
        r = _edit(E, mistrigger_grace_time=blank + text + blank)
        if sign or not E.truth(value > 0):
            _bad(E, r, "mistrigger_grace_time")
        else:
            _one(E, r, "mistrigger_grace_time", value)
    elif what == "no grace":
        if E.choice("how", "cleared", "empty") == "cleared":
            r = _edit(E, clear_mistrigger_grace_time=E.choice("mark", "on", ""), mistrigger_grace_time=E.choice("old", "5", "x", ""))
        else:
            r = _edit(E, mistrigger_grace_time=E.choice("empty", "", " "))
        _one(E, r, "mistrigger_grace_time", None)
    else:
        good = {"args": ('[1, "a"]', "[]", "", " [null, 1.5] "), "kwargs": ('{"a": [1]}', "{}", "", ' {"b": null} ')}[what]
        bad = {"args": ('{"a": 1}', '"ab"', "5", "null", "[1", "x"), "kwargs": ("[1]", '"a"', "5", "null", "{", "x")}[what]
        v = E.choice("value", *good, *bad)
        r = _edit(E, **{what: v})
        if v in good:
            _one(E, r, what, json.loads(v) if v.strip() else ([] if what == "args" else {}))
        else:
            _bad(E, r, what)
    E.reached("edit")


def noop(*a, **k):
    """the job of the job files"""


def job_file(E):
    """every job of a job file or registry is added with its callable, name, arguments and schedule (bounded: sampled)"""
    from asyncz.cli.loader import load_jobs_from_config, load_jobs_from_module
    from asyncz.schedulers.asyncio import AsyncIOScheduler
    n = E.choice("jobs", 0, 1, 2, 3)
    jobs, want = [], []
    for i in range(n):
        kind = E.choice(f"kind {i}", "cron", "interval", "at")
        k = E.int(f"k {i}", 1, 59)
        text = {"cron": f"{k} * * * *", "interval": f"{k}m", "at": f"2031-01-01T00:{k:02}:00+00:00"}[kind]
        job = {"func": f"{__name__}:noop", kind: text}
        if E.choice(f"named {i}", True, False):
            job["name"] = f"job {i}"
        if E.choice(f"args {i}", True, False):
            job["args"] = [i, "x"]
            job["kwargs"] = {"k": i}
        jobs.append(job)
        want.append((job.get("name"), job.get("args", []), job.get("kwargs", {}), kind, k))
    sch = AsyncIOScheduler()
    loop = asyncio.new_event_loop()
    d = tempfile.mkdtemp(prefix="c28_")
    try:
        if E.choice("from", "file", "module") == "file":
            path = os.path.join(d, "jobs.json")
            with open(path, "w") as f:
                json.dump({"jobs": jobs}, f)
            r = E.run_call(lambda: loop.run_until_complete(load_jobs_from_config(sch, path)))
        else:
            entries = [{**{k: v for k, v in j.items() if k not in ("cron", "interval", "at")},
                        "func": noop if E.choice("callable", True, False) else j["func"],
                        "trigger": cli_types.parse_trigger(**{k: j.get(k) for k in ("cron", "interval", "at")})} for j in jobs]
            global registry
            registry = entries if E.choice("list", True, False) else lambda scheduler: entries
            r = E.run_call(lambda: loop.run_until_complete(load_jobs_from_module(sch, f"{__name__}:registry")))
    finally:
        loop.close()
        shutil.rmtree(d)
    E.prove("the jobs are read", r.ok and r.value == n)
    got = [t for t, *_ in sch.pending_tasks]
    E.prove("every job once", len(got) == n)
    for t, (name, args, kwargs, kind, k) in zip(got, want):
        E.prove("its callable", t.fn is noop)
        E.prove("its name", t.name == (name or "noop"))
        E.prove("its arguments", list(t.args) == args and dict(t.kwargs) == kwargs)
        now = dt.datetime(2030, 1, 1, tzinfo=UTC)
        if kind == "interval":
            E.prove("its interval", t.trigger.interval == dt.timedelta(minutes=k))
        elif kind == "at":
            E.prove("its date", t.trigger.run_at == dt.datetime(2031, 1, 1, 0, k, tzinfo=UTC))
        else:
            nxt = t.trigger.get_next_trigger_time(UTC, None, now)
            E.prove("its cron schedule", nxt.minute == k and nxt.second == 0)
    E.reached("jobs")


def options_used(E):
    """the scheduler made from the options has exactly those stores and executors (bounded: sampled)"""
    from asyncz.schedulers.asyncio import AsyncIOScheduler
    d = tempfile.mkdtemp(prefix="c28_")
    try:
        names = E.choice("aliases", ("default",), ("default", "b"), ("main", "aux"))
        kinds = [E.choice(f"kind {i}", "memory", "file", "sqlite") for i in range(len(names))]
        value = {"memory": "memory", "file": f"file://{d}/f", "sqlite": f"sqlite:///{d}/s.db"}
        r = E.run_call(lambda: AsyncIOScheduler(stores=cli_utils.build_stores_map(
            [f"{a}={value[k]}" for a, k in zip(names, kinds)])))
        E.prove("the scheduler takes the options", r.ok)
        got = {a: s for a, s in r.value.stores.items() if a in names}
        E.prove("with exactly those stores", list(got) == list(names))
        for a, k in zip(names, kinds):
            s = got[a]
            E.prove("of the kind asked for", type(s).__name__ == {"memory": "MemoryStore", "file": "FileStore",
                                                                  "sqlite": "SQLAlchemyStore"}[k])
            E.prove("at the place asked for", k == "memory" or (str(s.directory) == f"{d}/f" if k == "file"
                                                                else str(s.engine.url) == f"sqlite:///{d}/s.db"))
        kind = E.choice("executor", "asyncio", "thread", "process", "debug")
        w = E.int("workers", 1, 9)
        r = E.run_call(lambda: AsyncIOScheduler(executors=cli_utils.build_executors_map(
            [f"x={kind}" + (f":{w}" if kind in ("thread", "process") else "")])))
        E.prove("the scheduler takes the executor", r.ok)
        x = r.value.executors["x"]
        E.prove("of the kind asked for", type(x).__name__ == EXECUTORS[kind])
        pool = getattr(x, "pool", None)
        E.prove("with the workers asked for", pool is None or pool._max_workers == w)
        if pool is not None:
            pool.shutdown(wait=False)
    finally:
        shutil.rmtree(d)
    E.reached("used")


def redis_option(E):
    """a redis address names the server, the account and the database of the store (bounded: sampled; nothing is contacted)"""
    from urllib.parse import quote
    try:
        from asyncz.stores.redis import RedisStore
    except ImportError:
        return
    host = E.choice("host", "localhost", "cache", "10.1.2.3", "cache.example.org")
    port = E.choice("port", None, 6379, 7000, 1)
    user = E.choice("user", None, "u", "us er", "a@b", "ü")
    password = E.choice("password", None, "p", "p/w", "a:b", "50%", "a+b", "x@y#z?") if user else E.choice("only password", None, "s%/")
    db = E.choice("db", None, 0, 3, 15)
    account = "" if user is None and password is None else quote(user or "", safe="") + (
        "" if password is None else ":" + quote(password, safe="")) + "@"
    url = "redis://" + account + host + ("" if port is None else f":{port}") + ("" if db is None else f"/{db}")
    r = E.run_call(cli_utils.build_stores_map, ["c=" + url])
    E.prove("the option is read", r.ok and list(r.value) == ["c"])
    plugin, rest = _store(r.value["c"])
    E.prove("a redis store", plugin == "redis")
    made = E.run_call(lambda: RedisStore(**rest))
    E.prove("which the store accepts", made.ok)
    got = made.value.redis.connection_pool.connection_kwargs
    E.prove("of that server", got.get("host", "localhost") == host and got.get("port", 6379) == (port or 6379))
    E.prove("with that account", (got.get("username") or None) == user and got.get("password") == password)
    E.prove("and that database", got.get("db", 0) == (db or 0))
    E.reached("redis")


def local_dates(E):
    """date text without an offset is local time on the command line (bounded: sampled, in several zones)"""
    zone = E.choice("zone", "UTC", "Europe/Lisbon", "America/New_York", "Asia/Kolkata")
    at = E.dt("at", None).replace(microsecond=0, fold=0)
    E.assume(1975 < at.year < 2037)
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        r = _cli(E, at=at.isoformat(sep=E.choice("separator", "T", " ")))
        want = at.timestamp()
    finally:
        os.environ.pop("TZ") if old is None else os.environ.__setitem__("TZ", old)
        time.tzset()
    E.prove("the text is read", r.ok)
    E.prove("as local time", r.value.run_at.timestamp() == want)
    E.reached("local")


GRAMMAR = re.compile(r"\s*([0-9]+)\s*([smhSMH])\s*", re.A)


def any_text(E):
    """interval and crontab texts of any form against the documented grammar (bounded: sampled)"""
    chars = E.choice("over", "0123456789smh", "0159smhSMH .-+_d:\t", "*/-, 0159")
    text = "".join(E.choice(f"c{i}", *chars) for i in range(E.int("length", 0, 9)))
    E.assume(text != "")
    what = E.choice("what", "cli", "form", "cron")
    if what == "cron":
        r = E.run_call(CronTrigger.from_crontab, text, "UTC")
        f = text.split()
        want = None
        if len(f) == 5:
            want = E.run_call(CronTrigger, minute=f[0], hour=f[1], day=f[2], month=f[3], day_of_week=f[4], timezone="UTC")
        if want is None or not want.ok:
            E.prove("other texts are refused", not r.ok)
        else:
            E.prove("five fields are read", r.ok and [str(x) for x in r.value.fields] == [str(x) for x in want.value.fields])
        return
    if what == "cli":
        r = _cli(E, interval=text)
        m = GRAMMAR.fullmatch(text)
    else:
        r = E.run_call(form_texts.parse_trigger, "interval", text)
        m = re.fullmatch(r"\s*([0-9]+)([smh]?)\s*", text)
        if m is None and r.ok:
            # another spelling of a whole number
            m = re.fullmatch(r"\s*([+]?[0-9]+(?:_[0-9]+)*|-0+(?:_0+)*)\s*([smh]?)\s*", text)
    if m is None:
        E.prove("other texts are refused", r.raised(ValueError))
        return
    E.assume(not r.raised(OverflowError))
    seconds = int(m[1].replace("_", "")) * MULT[(m[2] or "s").lower()]
    E.prove("the text is read", r.ok)
    E.prove("as that interval", r.value.interval == dt.timedelta(seconds=max(seconds, 1)))
    E.reached("read")


UNITS = [interval_text, malformed, crontab, crontab_shapes, date_text, store_options, executor_options, no_option, several, edit_form]
RUNTIME = [any_text, job_file, options_used, redis_option, local_dates]
