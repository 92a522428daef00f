"""Trusted models of the standard library functions the verified code calls."""
from __future__ import annotations

import builtins
import calendar
import copy
import dataclasses
import datetime as _d
import functools
import inspect
import itertools
import math
import random
import re
import time
import typing

import z3

from .values import *  # noqa: F401,F403
from .dtext import DText, pattern_call
from .values import (SBool, SDate, SDt, SInt, SKey, SMap, SReal, SRef, SSeq, SStr, STd, STz, US, DAY, VDict, Unsupported,
                     PathEnd, _num, _round_us, bterm, iceil, ifloor, is_sym, itrunc, mkbool, not_, td_us, toreal, tzoff)

MODELS: dict = {}
CLASSES: dict = {}
CLASSMETHODS: dict = {}


def model(f):
    def deco(g):
        MODELS[f] = g
        return g
    return deco


def cls_model(c):
    def deco(g):
        CLASSES[c] = g
        return g
    return deco


def _E():
    from . import engine
    return engine


# ---------------------------------------------------------------- builtins
@model(builtins.len)
def _len(e, x):
    if hasattr(type(x), "_vc_len"):
        return x._vc_len()
    if type(x) is SSeq:
        return x._vc_len()
    fn = getattr(type(x), "__len__", None)
    if fn is not None and e.ours(fn):
        return e.call(fn, x)
    return len(x)


@model(typing.cast)
def _cast(e, t, v):
    return v


@model(builtins.getattr)
def _getattr(e, o, n, *d):
    try:
        return e.getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(builtins.hasattr)
def _hasattr(e, o, n):
    try:
        e.getattr(o, n)
        return True
    except AttributeError:
        return False


@model(builtins.setattr)
def _setattr(e, o, n, v):
    setattr(o, n, v)


@model(builtins.callable)
def _callable(e, o):
    if is_sym(o):
        return False
    if type(o) is _E().Stub:
        return "call" in o.__dict__
    return callable(o)


@cls_model(builtins.int)
def _int(e, x=0, *a):
    if type(x) is SBool:
        return SInt(_num(x))
    if type(x) in (SInt, SReal):
        return SInt(itrunc(x.t))
    if type(x) is DText:
        return x.number()
    if is_sym(x):
        raise Unsupported("int() of a symbolic string")
    return int(x, *a)


@cls_model(builtins.float)
def _float(e, x=0.0):
    if type(x) in (SInt, SReal, SBool):
        return SReal(toreal(_num(x)))
    if type(x) is DText:
        return x.real()
    if is_sym(x):
        raise Unsupported("float() of a symbolic string")
    return float(x)


@cls_model(builtins.bool)
def _bool(e, x=False):
    if type(x) is SBool:
        return x
    return bool(x)


@cls_model(builtins.str)
def _str(e, x="", *a):
    if type(x) in (SKey, SStr, DText) or type(x).__name__ == "FText":
        return x
    if is_sym(x):
        return _E().FText((x,))
    fn = getattr(type(x), "__str__", None)
    if fn is not None and e.ours(fn) and not isinstance(x, BaseException):
        return e.call(fn, x)
    return str(x, *a)


@cls_model(builtins.list)
def _list(e, x=()):
    if type(x) is SSeq:
        return x.copy()
    if type(x).__name__ == "FSeq":
        return x.copy()
    if type(x).__name__ == "Comp":
        r = x.as_seq()
        if r is not None:
            return r
        return e.mklist(list(x.native()))
    if type(x).__name__ == "SymIter" and x.wrap is None:
        return x.seq.copy()
    return e.mklist(list(e.concrete_iter(x)))


@cls_model(builtins.tuple)
def _tuple(e, x=()):
    if type(x) is SSeq:
        return x.copy()
    if type(x).__name__ == "Comp":
        r = x.as_seq()
        if r is not None:
            return r
        return tuple(x.native())
    return tuple(e.concrete_iter(x))


@cls_model(builtins.dict)
def _dict(e, *a, **k):
    d = VDict()
    e.keep.append(d)
    e.born.setdefault(id(d), len(e.born))
    for x in a:
        if type(x) is SMap:
            if len(a) == 1 and not k:
                return x.copy()
            raise Unsupported("dict() merging a symbolic map")
        for kk, v in (x.items() if hasattr(x, "items") else e.concrete_iter(x)):
            d[kk] = v
    for kk, v in k.items():
        d[kk] = v
    return d


@cls_model(builtins.set)
def _set(e, x=()):
    return e.mkset(list(e.concrete_iter(x)))


@cls_model(builtins.frozenset)
def _frozenset(e, x=()):
    l = list(e.concrete_iter(x))
    return e.mkset(l) if e.has_sym(l) else frozenset(l)


@cls_model(builtins.range)
def _range(e, *a):
    if not e.has_sym(a):
        return range(*a)
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range with step")
    lo_t, hi_t = _num(lo), _num(hi)
    from .values import IntC
    n = z3.simplify(z3.If(hi_t > lo_t, hi_t - lo_t, z3.IntVal(0)))
    return SSeq(IntC, n, lambda i: (lo_t + i,), "range")


@cls_model(builtins.enumerate)
def _enumerate(e, x, start=0):
    if type(x) is SSeq:
        s = _num(start)
        return _E().SymIter(x, x, lambda i, v: (SInt(z3.simplify(s + i)), v))
    return enumerate(e.concrete_iter(x), start)


@cls_model(builtins.reversed)
def _reversed(e, x):
    if type(x) is SSeq:
        return _E().SymIter(x._slice(slice(None, None, -1)), x)
    if type(x) is VDict:
        return reversed(list(x))
    return reversed(x)


@cls_model(builtins.zip)
def _zip(e, *a, **k):
    return zip(*[e.concrete_iter(x) for x in a], **k)


def _pipes(e, x):
    return e.pipelines and e.use_specs and (type(x) is SSeq or type(x).__name__ == "FSeq")


@cls_model(builtins.map)
def _map(e, f, *a):
    if len(a) == 1 and _pipes(e, a[0]):
        return _E().FSeq(a[0], None, lambda x: e.call(f, x), 0)
    return (e.call(f, *xs) for xs in zip(*[e.concrete_iter(x) for x in a]))


@cls_model(builtins.filter)
def _filter(e, f, xs):
    if _pipes(e, xs):
        return _E().FSeq(xs, lambda x: e.call(f, x) if f is not None else x, lambda x: x, 0)
    return (x for x in e.concrete_iter(xs) if e.truth(e.call(f, x) if f is not None else x))


@model(builtins.iter)
def _iter(e, x, *a):
    return iter(e.concrete_iter(x))


def _search(e, it, test=None):
    """the first element of a comprehension as the search the contract describes: (found, element)"""
    from .foreach import Search, same_seq
    pipe = type(it).__name__ == "FSeq"
    seq = it.source if pipe else it.seq
    spec = next((s for s in e.loop_specs if type(s) is Search and same_seq(s.seq, seq)), None)
    if spec is None or pipe and test is not None or pipe and (it.orders() or it.tail or it.part):
        return None

    def at(i):
        if pipe:
            return it.at(i)
        a = it.args(i)
        if it.cond is not None and not e.truth(it.cond(*a)):
            return False, None
        v = it.elt(*a)
        return (True, v) if test is None else (e.truth(test(v)), v)

    what = e.decide(["same", "found", "none"])
    i = e.fresh(z3.IntSort(), "pos")
    spec.loop = spec
    if what == "none":
        for _, c in spec.none_before(spec.seq.n):
            e.assume(c)
        spec.exited = True
        return False, None
    e.assume_term(z3.And(i >= 0, i < spec.seq.n))
    if what == "same":
        e.prove(f"{spec.name}: the search looks for the right elements", e.iff(at(i)[0], spec.holds(SInt(i), spec.seq.at(i))))
        raise PathEnd()
    for _, c in spec.none_before(i):
        e.assume(c)
    e.assume(spec.holds(SInt(i), spec.seq.at(i)))
    kept, v = at(i)
    if not kept:
        raise PathEnd()
    spec.at = i
    return True, v


@model(builtins.next)
def _next(e, it, *d):
    if type(it).__name__ in ("Comp", "FSeq") and e.use_specs:
        r = _search(e, it)
        if r is not None:
            if r[0]:
                return r[1]
            if d:
                return d[0]
            raise StopIteration
    if type(it).__name__ == "Comp":
        it = it.native()
    return next(it, *d)


@model(builtins.any)
def _any(e, x):
    if type(x).__name__ == "Comp" and e.use_specs:
        r = _search(e, x, lambda v: v)
        if r is not None:
            return r[0]
    for v in e.concrete_iter(x):
        if e.truth(v) if isinstance(v, (bool, SBool)) else v:
            return True
    return False


@model(builtins.all)
def _all(e, x):
    if type(x).__name__ == "Comp" and e.use_specs:
        r = _search(e, x, lambda v: e.neg(v) if isinstance(v, (bool, SBool)) else not e.truth(v))
        if r is not None:
            return not r[0]
    for v in e.concrete_iter(x):
        if not v:
            return False
    return True


@model(builtins.sum)
def _sum(e, x, start=0):
    t = start
    for v in e.concrete_iter(x):
        t = t + v
    return t


def _minmax(e, a, k, less):
    key = k.pop("key", None)
    has_d = "default" in k
    d = k.pop("default", None)
    if len(a) == 1 and key is None and e.use_specs:
        which = "min" if e.truth(less(1, 2)) else "max"
        if type(a[0]) is _E().Acc and len(a[0].entries) == 1 and type(a[0].entries[0]) is _E().Mark:
            if has_d and not a[0].summary().nonempty():
                return d
            return a[0].summary().extreme(which)
        if type(a[0]) is SSeq and not z3.is_int_value(z3.simplify(a[0].n)) and len(a[0].codec.sorts) == 1 \
                and a[0].codec.sorts[0] in (z3.IntSort(), z3.RealSort()):
            if not a[0]:
                if has_d:
                    return d
                raise ValueError(f"{which}() arg is an empty sequence")
            n = a[0].n
            return _E().seq_extreme(e, a[0].copy(), which, lambda i: z3.And(i >= 0, i < n))
    xs = list(e.concrete_iter(a[0])) if len(a) == 1 else list(a)
    if not xs:
        if has_d:
            return d
        raise ValueError("arg is an empty sequence")
    kf = (lambda v: e.call(key, v)) if key is not None else (lambda v: v)
    best = xs[0]
    bk = kf(best)
    for v in xs[1:]:
        vk = kf(v)
        if e.truth(less(vk, bk)):
            best, bk = v, vk
    return best


@model(builtins.min)
def _min(e, *a, **k):
    return _minmax(e, a, k, lambda x, y: x < y)


@model(builtins.max)
def _max(e, *a, **k):
    return _minmax(e, a, k, lambda x, y: x > y)


@model(builtins.sorted)
def _sorted(e, xs, key=None, reverse=False):
    from .engine import FSeq
    if type(xs) is SSeq and e.pipelines and e.use_specs:
        return FSeq(xs, None, None, 0).sorted(key, reverse)
    if type(xs) is FSeq:
        return xs.sorted(key, reverse)
    xs = list(e.concrete_iter(xs))
    kf = (lambda v: e.call(key, v)) if key is not None else (lambda v: v)
    dec = [(kf(v), v) for v in xs]
    rev = e.truth(reverse)

    def lt(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if e.truth(e.eqv(x, y)):
                    continue
                return lt(x, y)
            return len(a) < len(b)
        return e.truth(a < b)

    # stable insertion sort (python sorts are stable, also with reverse=True)
    out = []
    for k, v in dec:
        i = len(out)
        while i > 0 and (lt(out[i - 1][0], k) if rev else lt(k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, v))
    return e.mklist([v for _, v in out])


@model(builtins.abs)
def _abs(e, x):
    return abs(x)


@model(builtins.round)
def _round(e, x, *a):
    if not is_sym(x):
        return round(x, *a)
    if a:
        raise Unsupported("round(x, n)")
    if type(x) is SInt:
        return x
    r = e.fresh(z3.IntSort(), "round")
    e.assume_term(z3.And(toreal(r) - x.t <= z3.Q(1, 2), x.t - toreal(r) <= z3.Q(1, 2)))
    return SInt(r)


@model(math.isfinite)
def _isfinite(e, x):
    return True if is_sym(x) else math.isfinite(x)


@model(math.isnan)
def _isnan(e, x):
    return False if is_sym(x) else math.isnan(x)


@model(math.isinf)
def _isinf(e, x):
    return False if is_sym(x) else math.isinf(x)


@model(math.ceil)
def _ceil(e, x):
    if not is_sym(x):
        return math.ceil(x)
    ab = e.divs.get(x.t.get_id())
    if ab is not None:
        # n = ceil(a / b) is characterised by (n - 1) * b < a <= n * b for b > 0
        a, b = ab
        if e.branch(b > 0):
            n = e.fresh(z3.IntSort(), "ceil")
            nr = z3.ToReal(n)
            e.assume_term(z3.And((nr - 1) * b < a, a <= nr * b))
            return SInt(n)
    return SInt(iceil(x.t))


@model(math.floor)
def _floor(e, x):
    return SInt(ifloor(x.t)) if is_sym(x) else math.floor(x)


@model(builtins.repr)
def _repr(e, x):
    if e.has_sym(x):
        return _E().FText(("repr", x))
    return repr(x)


@model(builtins.divmod)
def _divmod(e, a, b):
    return (a // b, a % b)


@model(builtins.id)
def _id(e, x):
    return id(x)


@model(builtins.isinstance)
def _isinstance(e, x, t):
    return isinstance(x, t)


@cls_model(builtins.type)
def _type(e, *a):
    if len(a) == 1:
        return a[0].__class__
    return type(*a)


@model(builtins.vars)
def _vars(e, x):
    return vars(x)


@model(copy.copy)
def _copy(e, x):
    return x.copy() if hasattr(type(x), "copy") else copy.copy(x)


@model(inspect.isawaitable)
def _isaw(e, x):
    return inspect.isawaitable(x)


@model(inspect.iscoroutinefunction)
def _iscf(e, x):
    if type(x) is _E().Stub:
        return bool(x.__dict__.get("iscoroutinefunction", False))
    return inspect.iscoroutinefunction(x)


@model(inspect.iscoroutine)
def _isc(e, x):
    return inspect.iscoroutine(x)


@model(inspect.ismethod)
def _ism(e, x):
    return inspect.ismethod(x)


@model(inspect.isclass)
def _isclass(e, x):
    return isinstance(x, type)


@model(inspect.isfunction)
def _isfn(e, x):
    return inspect.isfunction(x)


# ---------------------------------------------------------------- random
@model(random.uniform)
def _uniform(e, a, b):
    r = e.real("uniform")
    e.assume_term(z3.Or(z3.And(toreal(_num(a)) <= r.t, r.t <= toreal(_num(b))),
                        z3.And(toreal(_num(b)) <= r.t, r.t <= toreal(_num(a)))))
    e.trust("random.uniform(a, b) returns a value between a and b")
    return r


@model(random.random)
def _random(e):
    r = e.real("random", 0, 1)
    e.assume_term(r.t < 1)
    return r


@model(random.randint)
def _randint(e, a, b):
    r = e.int("randint")
    e.assume_term(z3.And(_num(a) <= r.t, r.t <= _num(b)))
    return r


@model(time.time)
def _time(e):
    return e.real("time", 0)


@model(time.monotonic)
def _mono(e):
    return e.real("monotonic", 0)


# ---------------------------------------------------------------- datetime
@cls_model(_d.timedelta)
def _timedelta(e, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    parts = dict(days=(days, DAY), seconds=(seconds, US), microseconds=(microseconds, 1),
                 milliseconds=(milliseconds, 1000), minutes=(minutes, 60 * US), hours=(hours, 3600 * US),
                 weeks=(weeks, 7 * DAY))
    vals = {k: v for k, (v, _) in parts.items()}
    if not e.has_sym(list(vals.values())):
        return _d.timedelta(**vals)
    tot = z3.IntVal(0)
    real = None
    for k, (v, u) in parts.items():
        n = _num(v)
        if n is None:
            raise TypeError("unsupported type for timedelta")
        if n.sort() == z3.IntSort():
            tot = tot + n * u
        else:
            real = n * u if real is None else real + n * u
    if real is not None:
        e.trust("float arithmetic on seconds is treated as real arithmetic (timedelta rounds to the nearest µs)")
        tot = _round_us(toreal(tot) + real)
    return STd(z3.simplify(tot))


@cls_model(_d.datetime)
def _datetime(e, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    vals = (year, month, day, hour, minute, second, microsecond)
    if not e.has_sym(vals) and not is_sym(tzinfo):
        return _d.datetime(year, month, day, hour, minute, second, microsecond, tzinfo=tzinfo, fold=fold)
    y, mo, da, h, mi, s, us = (_num(v) for v in vals)
    ml = e.monthlen(y, mo)
    ok = z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, da >= 1, da <= ml, h >= 0, h <= 23, mi >= 0, mi <= 59,
                s >= 0, s <= 59, us >= 0, us <= 999999)
    if not e.branch(ok):
        raise ValueError("value is out of range")
    day0 = e.daynum(y, mo, da)
    w = z3.simplify(day0 * DAY + ((h * 60 + mi) * 60 + s) * US + us)
    e.know_parts(w, day0, year=y, month=mo, day=da, hour=h, minute=mi, second=s, microsecond=us)
    return SDt(w, tzinfo)


def _dt_now(e, tz=None):
    v = e.now_value
    if v is None:
        raise Unsupported("datetime.now: the harness gives no clock")
    v = v() if callable(v) else v
    if tz is None:
        return v.replace(tzinfo=None)
    return SDt.of(v).astimezone(tz)


def _dt_utcnow(e):
    return _dt_now(e, _d.timezone.utc).replace(tzinfo=None)


def _fromtimestamp(e, ts, tz=None):
    if not is_sym(ts):
        if not is_sym(tz):
            return _d.datetime.fromtimestamp(ts, tz)
    if tz is None:
        raise Unsupported("fromtimestamp in local time")
    e.trust("datetime.fromtimestamp(x.timestamp(), tz) is exact (float timestamps treated as reals)")
    n = _num(ts)
    t = e.tsus.get(n.get_id())
    if t is None:
        t = _round_us(z3.simplify(toreal(n) * US))
    return SDt(z3.simplify(t + tzoff(tz)), tz)


def _combine(e, d, t, *a):
    if type(d) is SDate and not is_sym(t):
        us = ((t.hour * 60 + t.minute) * 60 + t.second) * US + t.microsecond
        return SDt(z3.simplify(d.n * DAY + us), a[0] if a else t.tzinfo)
    raise Unsupported("datetime.combine")


def _fromiso(e, text):
    from .dtext import DText, iso_parts
    if not is_sym(text):
        return _d.datetime.fromisoformat(text)
    if type(text) is not DText:
        raise Unsupported("fromisoformat of a symbolic text")
    e.trust("datetime.fromisoformat reads YYYY-MM-DD[T| ]HH:MM[:SS[.fff[fff]]][Z|+HH:MM] as documented")
    parts = iso_parts(text)
    if parts is None:
        raise Unsupported("fromisoformat of another shape of text")
    fields, off = parts
    if off is None or off == 0 and not is_sym(off):
        return _datetime(e, *fields, tzinfo=None if off is None else _d.timezone.utc)
    h, m, sign = off
    if not e.branch(z3.And(_num(h) < 24, _num(m) < 60)):
        raise Unsupported("offset out of range")
    return _datetime(e, *fields, tzinfo=STz(z3.simplify((_num(h) * 60 + _num(m)) * 60 * US * sign), "text"))


CLASSMETHODS[_d.datetime] = {"fromisoformat": _fromiso, "now": _dt_now, "utcnow": _dt_utcnow, "fromtimestamp": _fromtimestamp, "combine": _combine}


@cls_model(_d.timezone)
def _timezone(e, off, *name):
    if is_sym(off):
        return STz(STd.of(off).t, "tz")
    return _d.timezone(off, *name)


@model(calendar.monthrange)
def _monthrange(e, year, month):
    if not is_sym(year) and not is_sym(month):
        return calendar.monthrange(year, month)
    e.trust("calendar.monthrange: month lengths of the Gregorian calendar; weekday of the first as a function of (year, month)")
    y, m = _num(year), _num(month)
    if not e.branch(z3.And(m >= 1, m <= 12)):
        raise ValueError("bad month")
    wd = e.wd1(y, m)
    e.assume_term(z3.And(wd >= 0, wd <= 6))
    return (SInt(wd), SInt(e.monthlen(y, m)))


# ---------------------------------------------------------------- containers
import collections  # noqa: E402


@cls_model(collections.defaultdict)
def _defaultdict(e, factory=None, *a):
    d = VDict(default_factory=(lambda: e.call(factory)) if factory is not None else None)
    for x in a:
        d.update(x)
    return d


@cls_model(collections.OrderedDict)
def _odict(e, *a, **k):
    return _dict(e, *a, **k)


@cls_model(collections.deque)
def _deque(e, x=(), maxlen=None):
    if type(x) is SSeq or maxlen is not None and is_sym(maxlen):
        raise Unsupported("deque of symbolic contents")
    d = collections.deque(list(e.concrete_iter(x)), maxlen)
    e.keep.append(d)
    e.born.setdefault(id(d), len(e.born))
    return d


@model(itertools.islice)
def _islice(e, it, *a):
    if e.has_sym(a):
        it = list(e.concrete_iter(it))
        if len(a) == 1:
            return it[:e.concretize_int(_num(a[0]))]
        raise Unsupported("islice")
    return itertools.islice(iter(e.concrete_iter(it)), *a)


@model(itertools.chain)
def _chain(e, *its):
    return itertools.chain(*[e.concrete_iter(i) for i in its])


@cls_model(functools.partial)
def _partial(e, f, *a, **k):
    return functools.partial(f, *a, **k)


import uuid  # noqa: E402


@model(uuid.uuid4)
def _uuid4(e):
    k = e.key("uuid4", nonempty=True)
    at, seen = getattr(e, "uuids", (None, ()))
    seen = seen if at == e.paths else ()
    for x in seen:  # each is new
        e.assume(k != x)
    e.uuids = e.paths, (*seen, k)
    from .engine import Stub
    return Stub("uuid", uuid.UUID, {"hex": k})


from pydantic import BaseModel  # noqa: E402


@model(BaseModel.__init__)
def _bm_init(e, self, **data):
    e.pydantic_init(self, **data)


@model(object.__setattr__)
def _osa(e, o, n, v):
    object.__setattr__(o, n, v)


import contextlib  # noqa: E402


@cls_model(contextlib.suppress)
def _suppress(e, *a):
    return contextlib.suppress(*a)


for _n in ("match", "fullmatch", "search", "split", "finditer"):
    def _re_fn(e, pattern, string, *a, _n=_n, **k):
        if type(string) is not DText:
            return getattr(re, _n)(pattern, string, *a, **k)
        flags = k.get("flags", a[0] if a else 0)
        if _n == "split" and (a or k):
            raise Unsupported("re.split with options")
        return pattern_call(pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags), _n, string)
    MODELS[getattr(re, _n)] = _re_fn


import urllib.parse  # noqa: E402


def _escape(e, f, x, a, k):
    if not is_sym(x):
        return f(x, *a, **k)
    e.trust("urllib.parse.quote gives some text")
    return SStr(e.fresh(z3.StringSort(), "quote"))


for _f in (urllib.parse.quote, urllib.parse.quote_plus, urllib.parse.unquote):
    MODELS[_f] = (lambda _f: lambda e, x, *a, **k: _escape(e, _f, x, a, k))(_f)


import hmac  # noqa: E402


@model(hmac.compare_digest)
def _digest(e, a, b):
    if not is_sym(a) and not is_sym(b):
        return hmac.compare_digest(a, b)
    return e.eqv(a if type(a) is not bytes else a.decode(), b if type(b) is not bytes else b.decode())


@model(dataclasses.is_dataclass)
def _is_dataclass(e, x):
    if isinstance(x, (dict, list, tuple, str, int, float, _d.datetime)):
        return False
    if is_sym(x):
        raise Unsupported("is_dataclass of a symbolic value")
    return dataclasses.is_dataclass(x)
