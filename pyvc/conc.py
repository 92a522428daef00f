"""The same contract harness under CPython: inputs come from a counter-model or a seeded
generator, the real functions run unmodified, and `prove` evaluates the contract clause."""
from __future__ import annotations

import collections
import contextlib
import datetime as _d
import fractions
import inspect
import random

from .values import CUR, PathEnd, Unsupported, harness_limit
from .engine import Outcome, Stub
from .foreach import ForEach, Log, Pred, prove_entries

_EPOCH = _d.datetime(1970, 1, 1)


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class ConcEngine:
    sym = False
    conc = True
    debug = False

    def __init__(self, unit, seed=0, values=None, only=None):
        self.unit = unit
        self.rng = random.Random(seed)
        self.values = values
        self.names = collections.Counter()
        self.used: dict = {}
        self.evaluated = 0
        self.exit_stack = contextlib.ExitStack()
        self.now_value = None
        self.heap: dict = {}
        self.keep: list = []
        self.built: list = []
        self.keymap: dict = {}
        self.skips = 0

    def run(self):
        """-> None (contract held), 'skip' (precondition false), or a Violation."""
        prev = CUR[0]
        CUR[0] = self
        try:
            with self.exit_stack:
                self.unit(self)
        except Violation as v:
            return v
        except PathEnd:
            return "skip"
        finally:
            CUR[0] = prev
        return None

    # ---------------------------------------------------------------- inputs
    def _uniq(self, name):
        self.names[name] += 1
        return name if self.names[name] == 1 else f"{name}@{self.names[name]}"

    def _get(self, n):
        if self.values is not None and n in self.values:
            return self.values[n]
        return None

    def _rec(self, n, v):
        self.used[n] = v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:200]
        return v

    def int(self, name, lo=None, hi=None):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            a = -20 if lo is None else int(lo)
            b = (max(a, 0) + 40) if hi is None else int(hi)
            r = self.rng.random()
            if r < 0.15:
                v = a
            elif r < 0.3:
                v = b
            elif r < 0.6:
                v = self.rng.randint(a, min(b, a + 5))
            else:
                v = self.rng.randint(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathEnd()
        return self._rec(n, v)

    def real(self, name, lo=None, hi=None):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            a = -100.0 if lo is None else float(lo)
            b = a + 200.0 if hi is None else float(hi)
            v = self.rng.choice([a, b, round(self.rng.uniform(a, b), 1), float(int(self.rng.uniform(a, b))),
                                 self.rng.uniform(a, b)])
        else:
            v = v[0] / v[1]
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathEnd()
        return self._rec(n, v)

    def bool(self, name):
        n = self._uniq(name)
        v = self._get(n)
        return self._rec(n, self.rng.random() < 0.5 if v is None else bool(v))

    POOL = ["a", "b", "c", "job-1", "default", "x y", "Z", "a|b", "é", "0"]

    def key(self, name, nonempty=False):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            v = self.rng.choice(self.POOL[:4] if self.rng.random() < 0.7 else self.POOL)
            if not nonempty and self.rng.random() < 0.03:
                v = ""
        else:
            v = self._from_rank(fractions.Fraction(*v["rank"]))
        return self._rec(n, v)

    def _from_rank(self, r):
        """an order- and equality-preserving string for a rank"""
        from .values import _BASE
        s = ""
        for _ in range(6):
            r = r * _BASE
            d = int(r)
            if d == 0:
                break
            s += chr(min(d - 1, 0x10FFFF)) if not 0xD800 <= d - 1 <= 0xDFFF else "\ud7ff"
            r -= d
        return s

    ALPH = "ab/.-_:0 A%é"

    def text(self, name, maxlen=None, chars=None):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            k = self.rng.randint(0, min(maxlen or 8, 8))
            v = "".join(self.rng.choice(chars or self.ALPH) for _ in range(k))
        return self._rec(n, v)

    def choice(self, name, *options):
        n = self._uniq(name)
        v = self._get(n)
        i = self.rng.randrange(len(options)) if v is None else int(v)
        if i >= len(options):
            raise PathEnd()
        self._rec(n, i)
        return options[i]

    def opt(self, name, f):
        return None if self.choice(name + "?", True, False) else f()

    def tz(self, name="tz"):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            v = self.rng.choice([0, 0, 60, -300, 330, 765]) * 60_000_000
        self._rec(n, v)
        return _d.timezone(_d.timedelta(microseconds=v))

    def dt(self, name, tz, lo=None, hi=None):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            base = 1704067200 * 1_000_000  # 2024-01-01
            r = self.rng.random()
            if r < 0.4:
                v = base + self.rng.randint(-5, 5) * 1_000_000
            elif r < 0.6:
                v = base + self.rng.randint(-100_000, 100_000) * 1_000_000
            elif r < 0.9:
                v = base + self.rng.randint(-3 * 10**6, 3 * 10**6)
            else:
                v = base + self.rng.randint(-4 * 10**14, 4 * 10**14)
        self._rec(n, v)
        return (_EPOCH + _d.timedelta(microseconds=v)).replace(tzinfo=tz)

    def date(self, name):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            v = 19723 + (self.rng.randint(-5, 400) if self.rng.random() < 0.7 else self.rng.randint(-700000, 2800000))
        self._rec(n, v)
        return _d.date(1970, 1, 1) + _d.timedelta(days=v)

    def digits(self, name, n, like=None):
        names = [self._uniq(f"{name}.{i}") for i in range(n)]
        vs = [self._get(x) for x in names]
        if any(v is None for v in vs):
            if like is not None and self.rng.random() < 0.85:
                r = self.rng.choice([like[0], like[1], self.rng.randint(*like), self.rng.randint(*like)])
                vs = [int(c) for c in str(r).zfill(n)[-n:]] if n else []
            else:
                vs = [self.rng.randint(0, 9) for _ in range(n)]
        return "".join(str(self._rec(a, b)) for a, b in zip(names, vs))

    def num(self, text):
        return int(text)

    def td(self, name, lo=None, hi=None):
        n = self._uniq(name)
        v = self._get(n)
        if v is None:
            a = -10**7 if lo is None else int(lo / _d.timedelta(microseconds=1))
            b = max(a, 0) + 10**8 if hi is None else int(hi / _d.timedelta(microseconds=1))
            v = self.rng.choice([a, b, self.rng.randint(a, min(b, a + 5_000_000)), self.rng.randint(a, b),
                                 min(b, max(a, self.rng.randint(0, 10) * 1_000_000))])
        r = _d.timedelta(microseconds=v)
        if (lo is not None and r < lo) or (hi is not None and r > hi):
            raise PathEnd()
        self._rec(n, v)
        return r

    def seq(self, name, codec, gen=None, maxlen=5, long=0):
        """long: now and then a list of that many elements"""
        n = self._uniq(name)
        v = self._get(n)
        k = v["len"] if v is not None else self.rng.randint(0, maxlen or 5)
        k = min(k, 12)
        if long and v is None and self.rng.random() < 0.004:
            k = long
        self._rec(n + ".len", k)
        return [gen(i) for i in range(k)]

    def obj(self, cls, **attrs):
        from pydantic import BaseModel
        if issubclass(cls, BaseModel):
            o = cls.__new__(cls)
            object.__setattr__(o, "__dict__", {})
            object.__setattr__(o, "__pydantic_fields_set__", set())
            object.__setattr__(o, "__pydantic_extra__", {})
            object.__setattr__(o, "__pydantic_private__", None)
            for k, fi in cls.model_fields.items():
                if not fi.is_required():
                    o.__dict__[k] = fi.get_default(call_default_factory=True)
            if cls.model_config.get("extra") == "allow":
                object.__setattr__(o, "__pydantic_extra__", {k: v for k, v in attrs.items() if k not in cls.model_fields})
                attrs = {k: v for k, v in attrs.items() if k in cls.model_fields}
            o.__dict__.update(attrs)
            self.built.append(o)
            return o
        o = object.__new__(cls)
        self.built.append(o)
        for k, v in attrs.items():
            object.__setattr__(o, k, v)
        return o

    def stub(self, name, cls=None, /, **attrs):
        return Stub(name, cls, attrs)

    def dict(self, items=(), default_factory=None):
        if default_factory is not None:
            return collections.defaultdict(default_factory, items)
        return dict(items)

    def list(self, items=()):
        return list(items)

    def set_now(self, v):
        self.now_value = v
        import sys
        fake = _fake_datetime(self)
        for mn, m in list(sys.modules.items()):
            if mn.startswith("asyncz") and getattr(m, "datetime", None) is _d.datetime:
                setattr(m, "datetime", fake)
                self.exit_stack.callback(setattr, m, "datetime", _d.datetime)

    def patch(self, module, name, value):
        if name in vars(module):
            self.exit_stack.callback(setattr, module, name, vars(module)[name])
        else:
            self.exit_stack.callback(delattr, module, name)
        setattr(module, name, value)

    def in_(self, a, c):
        return a in c

    def contract(self, fn, handler):
        """Replace a method/function by its contract for this run."""
        import sys
        fn = getattr(fn, "__func__", fn)
        mod = sys.modules[fn.__module__]
        parts = fn.__qualname__.split(".")
        owner = mod
        for p in parts[:-1]:
            owner = getattr(owner, p)
        old = inspect.getattr_static(owner, parts[-1])

        def stub(*a, **k):
            return handler(*a, **k)

        setattr(owner, parts[-1], stub)
        self.exit_stack.callback(setattr, owner, parts[-1], old)
        if owner is mod:
            for mn, m in list(sys.modules.items()):
                if mn.startswith("asyncz") and m is not mod and getattr(m, parts[-1], None) is fn:
                    setattr(m, parts[-1], stub)
                    self.exit_stack.callback(setattr, m, parts[-1], fn)

    def loop_spec(self, spec):
        pass

    def log(self, name="log"):
        return Log(name)

    def foreach(self, name, seq, **k):
        return ForEach(name, seq, **k)

    def view(self, seq):
        return list(seq)

    def search(self, name, seq, holds, **k):
        from .foreach import Search
        k.pop("inv", None)
        return Search(name, seq, holds, **k)

    def while_(self, name, match, holds, **k):
        from .foreach import WhileSpec
        return WhileSpec(name, match, holds, **k)

    def pred(self, f):
        return Pred(f)

    pipelines = False

    def pipeline_prove(self, label, result, source, keep, element=None, before=None, tail=()):
        result = list(result)
        tail = list(tail)
        if tail:
            self.prove(f"{label}: what follows", result[-len(tail):] == tail)
            result = result[:-len(tail)]
        kept = [i for i, x in enumerate(source) if keep(i, x)]
        self.prove(f"{label}: exactly the right elements", len(result) == len(kept))
        pos, free = {}, list(range(len(result)))
        for i in kept:
            at = next((k for k in free if element(i, source[i], result[k])), None)
            self.prove(f"{label}: exactly the right elements", at is not None)
            free.remove(at)
            pos[i] = at
        if before:
            some = kept if len(kept) < 60 else self.rng.sample(kept, 60)
            for i in some:
                for j in some:
                    if i != j and before(i, source[i], j, source[j]):
                        self.prove(f"{label}: in the requested order", pos[i] < pos[j])

    def prove_entries(self, label, sink, want):
        prove_entries(self, label, sink, want)

    def trust(self, what):
        pass

    def reached(self, label):
        pass

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        if not c:
            raise PathEnd()

    def prove(self, label, cond):
        self.evaluated += 1
        if not cond:
            raise Violation(label, dict(self.used))

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def neg(self, a):
        return not a

    def forall(self, lo, hi, f):
        return all(f(i) for i in range(lo, hi))

    def eqv(self, a, b):
        return a == b

    def eq(self, a, b):
        return a == b

    def truth(self, x):
        return bool(x)

    def ite(self, c, a, b):
        return a if c else b

    def call(self, f, *a, **k):
        return f(*a, **k)

    def run_call(self, f, *a, **k):
        try:
            r = f(*a, **k)
            if inspect.iscoroutine(r):
                r = self.drive(r)
            return Outcome(value=r)
        except (PathEnd, Violation, Unsupported):
            raise
        except BaseException as ex:
            if isinstance(ex, (KeyboardInterrupt, SystemExit)) or type(ex).__name__ == "_Timeout":
                raise
            if self.debug:
                import traceback
                self.excs = [*getattr(self, "excs", ()), "".join(
                    traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:])[-900:]]
            limit = harness_limit(ex, self.built)
            if limit:
                raise Unsupported(limit)
            return Outcome(exc=ex)

    def drive(self, coro):
        try:
            coro.send(None)
        except StopIteration as ex:
            return ex.value
        coro.close()
        raise RuntimeError("coroutine suspended")

    def mutated(self, o):
        pass


_FAKES: dict = {}


def _fake_datetime(e):
    class _Meta(type(_d.datetime)):
        def __instancecheck__(cls, o):
            return isinstance(o, _d.datetime)

        def __subclasscheck__(cls, c):
            return issubclass(c, _d.datetime)

    class datetime(_d.datetime, metaclass=_Meta):
        def __new__(cls, *a, **k):
            return _d.datetime(*a, **k)

        @classmethod
        def now(cls, tz=None):
            v = e.now_value
            v = v() if callable(v) else v
            return v.replace(tzinfo=None) if tz is None else v.astimezone(tz)

        @classmethod
        def utcnow(cls):
            return cls.now(_d.timezone.utc).replace(tzinfo=None)

        @classmethod
        def fromtimestamp(cls, ts, tz=None):
            return _d.datetime.fromtimestamp(ts, tz)

        @classmethod
        def combine(cls, *a, **k):
            return _d.datetime.combine(*a, **k)

        @classmethod
        def fromisoformat(cls, *a):
            return _d.datetime.fromisoformat(*a)

    return datetime
