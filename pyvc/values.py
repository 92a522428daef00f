"""Symbolic values.  Every proxy carries z3 terms; `bool()` of a symbolic truth value
forks the execution (engine.branch)."""
from __future__ import annotations

import datetime as _d
import fractions
import inspect
import re
import sys

import z3

CUR = [None]  # current engine


def eng():
    return CUR[0]


class Unsupported(BaseException):
    """The function left the subset the verifier handles: undecided, not a violation."""


_ARITY = re.compile(r"^([\w.<>]+)\(\) (got|takes|missing)")


def harness_limit(ex, built=()):
    """An error of the harness, not of the code under contract: a stand-in or a directly built object was asked for
    something it does not have. Returns what is missing, or None."""
    if isinstance(ex, AttributeError):
        obj = getattr(ex, "obj", None)
        cls = type(obj)
        if cls.__module__.startswith("contracts.") or cls.__name__ in ("Stub", "SimpleNamespace") or \
                any(o is obj for o in built):
            return f"{cls.__qualname__} has no {getattr(ex, 'name', '?')}"
    elif isinstance(ex, TypeError):
        m = _ARITY.match(str(ex))
        if m:
            head, *rest = m.group(1).split(".")
            for mn, mod in list(sys.modules.items()):
                if mn.startswith("contracts.") and mod is not None:
                    o = vars(mod).get(head)
                    if o is not None and getattr(o, "__module__", None) == mn and (rest or inspect.isfunction(o)):
                        return str(ex)
    return None


class PathEnd(BaseException):
    """This path is finished (loop cut, assumption false)."""

    def __init__(self, *a):
        super().__init__(*a)
        e = CUR[0]
        if e is not None and e.sym:
            e.dead = True


class Sym:
    __slots__ = ()
    _vc_sym = True

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<sym {self.__class_name__()}>"

    def __class_name__(self):
        return type(self).__name__

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def is_sym(x):
    return getattr(type(x), "_vc_sym", False)


def simp(t):
    return z3.simplify(t)


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    @property
    def __class__(self):
        return bool

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == bterm(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def bterm(x):
    if type(x) is SBool:
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not a truth value: {type(x)}")


def not_(x):
    return mkbool(z3.Not(bterm(x)))


def _num(x):
    """z3 term for a number (Int or Real sort) or None."""
    if type(x) in (SInt, SReal):
        return x.t
    if type(x) is SBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x in (float("inf"), float("-inf")) or x != x:
            return None
        f = fractions.Fraction(x)
        return z3.RealVal(f)
    return None


def toreal(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def _wrapnum(t):
    return SInt(t) if t.sort() == z3.IntSort() else SReal(t)


def _coerce(a, b):
    if a.sort() != b.sort():
        return toreal(a), toreal(b)
    return a, b


class _Num(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f, r=False):
        n = _num(o)
        if n is None:
            return NotImplemented
        a, b = _coerce(self.t, n)
        return _wrapnum(f(b, a) if r else f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (_d.timedelta, STd)):
            return STd.of(o) * self
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return _wrapnum(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrapnum(z3.If(self.t < 0, -self.t, self.t))

    def _div(self, o, r):
        n = _num(o)
        if n is None:
            return NotImplemented
        a, b = toreal(self.t), toreal(n)
        if r:
            a, b = b, a
        if eng().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        q = a / b
        e = eng()
        e.divs[q.get_id()] = (a, b)
        e.keep.append(q)
        return SReal(q)

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def _floordivmod(self, o, r):
        n = _num(o)
        if n is None:
            return None
        a, b = self.t, n
        if r:
            a, b = b, a
        if eng().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
            if eng().branch(b > 0):
                _division_facts(a, b)
                return SInt(a / b), SInt(a % b)
            q = -(a / (-b))
            # floor(a / b) with b < 0
            q = z3.If(a % (-b) == 0, -(a / (-b)), -(a / (-b)) - 1)
            return SInt(q), SInt(a - b * q)
        a, b = toreal(a), toreal(b)
        q = z3.ToReal(z3.ToInt(a / b))
        return SReal(q), SReal(a - b * q)

    def __floordiv__(self, o):
        r = self._floordivmod(o, False)
        return NotImplemented if r is None else r[0]

    def __rfloordiv__(self, o):
        r = self._floordivmod(o, True)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._floordivmod(o, False)
        return NotImplemented if r is None else r[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        r = self._floordivmod(o, True)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        return self._floordivmod(o, False)

    def _cmp(self, o, f, inf, ninf):
        if isinstance(o, float) and not is_sym(o):
            if o == float("inf"):
                return inf
            if o == float("-inf"):
                return ninf
        n = _num(o)
        if n is None:
            return NotImplemented
        a, b = _coerce(self.t, n)
        return mkbool(simp(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False, False)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __float__(self):
        raise Unsupported("native float() of a symbolic number")

    def _bits(self, m):
        """self & m for a concrete m >= 0: the sum of the selected binary digits"""
        tot = z3.IntVal(0)
        k = 0
        while m >> k:
            if m >> k & 1:
                tot = tot + ((self.t / (1 << k)) % 2) * (1 << k)
            k += 1
        return SInt(simp(tot))

    def __and__(self, o):
        if isinstance(o, int) and not is_sym(o) and not isinstance(o, bool) and o >= 0 and self.t.sort() == z3.IntSort():
            return self._bits(o)
        if type(o) is SInt and type(self) is SInt:
            f = z3.Function("bits.and", z3.IntSort(), z3.IntSort(), z3.IntSort())
            a, b = simp(self.t), simp(o.t)
            if a.get_id() > b.get_id():
                a, b = b, a
            eng().keep.append((a, b))
            r = f(a, b)
            eng().assume_term(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r <= a, r <= b)))
            return SInt(r)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        a = self.__and__(o)
        return NotImplemented if a is NotImplemented else SInt(self.t + o - a.t)

    __ror__ = __or__


class SInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return eng().concretize_int(self.t)

    def __int__(self):
        return eng().concretize_int(self.t)


class SReal(_Num):
    __slots__ = ()

    def is_integer(self):
        return mkbool(simp(z3.IsInt(self.t)))

    @property
    def __class__(self):
        return float


def ifloor(t):
    return t if t.sort() == z3.IntSort() else z3.ToInt(t)


def iceil(t):
    return t if t.sort() == z3.IntSort() else -z3.ToInt(-t)


def itrunc(t):
    if t.sort() == z3.IntSort():
        return t
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


# --------------------------------------------------------------- strings
# A string used only for identity and order (ids, aliases) is an atom: its rank in the
# total order of strings.  Literal strings get their exact rank, so `==` and `<` between
# atoms and literals are exact; every other operation yields an opaque atom.

_BASE = 0x110001


def str_rank(s: str) -> fractions.Fraction:
    r = fractions.Fraction(0)
    p = fractions.Fraction(1)
    for ch in s:
        p /= _BASE
        r += (ord(ch) + 1) * p
    return r


def _text_fn(n, t):
    """a total, deterministic but otherwise unknown text function"""
    e = eng()
    if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ("text.lower", "text.strip", "text.upper"):
        inner = t.decl().name()[5:]
        if inner == n and n != "upper":
            return t  # idempotent
        if n == "strip":  # changing the case neither adds nor removes blanks at the ends
            return _text_fn(inner, _text_fn("strip", t.arg(0)))
    r = z3.Function("text." + n, z3.RealSort(), z3.RealSort())(t)
    e.assume_term(z3.And(r >= 0, z3.Implies(t == 0, r == 0)))
    if n != "strip":
        e.assume_term(z3.Implies(r == 0, t == 0))
    return r


def text_in(needle, hay):
    e = eng()
    r = z3.Function("text.in", z3.RealSort(), z3.RealSort(), z3.BoolSort())(needle, hay)
    e.assume_term(z3.And(z3.Implies(needle == 0, r), z3.Implies(needle == hay, r)))
    return mkbool(r)


class SKey(Sym):
    __slots__ = ("t",)

    def _vc_contains(self, o):
        t = self._o(o)
        if t is None:
            raise Unsupported("substring test")
        return text_in(t, self.t)

    def __contains__(self, o):
        return bool(self._vc_contains(o))

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return str

    def _o(self, o):
        if type(o) is SKey:
            return o.t
        if isinstance(o, str):
            if type(o) is SStr:
                return None
            return z3.RealVal(str_rank(o))
        return None

    def __eq__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else mkbool(simp(self.t == t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else mkbool(self.t < t)

    def __le__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else mkbool(self.t <= t)

    def __gt__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else mkbool(self.t > t)

    def __ge__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else mkbool(self.t >= t)

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("lower", "upper", "casefold", "strip", "title"):
            return lambda: SKey(_text_fn(n, self.t))
        if hasattr(str, n):
            def f(*a, **k):
                return eng().opaque_str(n, self, a)
            f._vc_ok = True
            return f
        raise AttributeError(f"'str' object has no attribute {n!r}")

    def __add__(self, o):
        return eng().opaque_str("+", self, (o,))

    def __radd__(self, o):
        return eng().opaque_str("r+", self, (o,))

    def __len__(self):
        raise Unsupported("len of an atom string")


WHITESPACE = "".join(c for c in map(chr, range(0x3001)) if c.isspace())


def _parts(t):
    """a concatenation as [str | (term, its alphabet or None)]"""
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        out = []
        for c in t.children():
            for p in _parts(c):
                if out and type(p) is str and type(out[-1]) is str:
                    out[-1] += p
                else:
                    out.append(p)
        return out
    if z3.is_string_value(t):
        v = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), t.as_string())
        return [v] if v else []
    known = eng().alphabets.get(t.get_id())
    return [(t, None if known is None else known[1])]


def _joined(parts):
    parts = [p for p in parts if p != ""]
    if all(type(p) is str for p in parts):
        return "".join(parts)
    terms = [z3.StringVal(p) if type(p) is str else p[0] for p in parts]
    return SStr(terms[0] if len(terms) == 1 else z3.Concat(*terms))


class SStr(Sym):
    """A string with its contents (z3 sequence theory)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bytes if eng().texts_are_bytes else str

    @staticmethod
    def term(o):
        if type(o) is SStr:
            return o.t
        if isinstance(o, str) and not is_sym(o):
            return z3.StringVal(o)
        if type(o) is bytes and eng().texts_are_bytes:
            return z3.StringVal(o.decode("latin-1"))
        return None

    def __eq__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else mkbool(simp(self.t == t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else mkbool(self.t < t)

    def __le__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else mkbool(self.t <= t)

    def __gt__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else mkbool(t < self.t)

    def __ge__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else mkbool(t <= self.t)

    def __bool__(self):
        return eng().branch(z3.Length(self.t) > 0)

    def __contains__(self, o):
        t = self.term(o)
        if t is None:
            raise Unsupported("in")
        return eng().branch(z3.Contains(self.t, t))

    def _vc_len(self):
        return SInt(z3.Length(self.t))

    def _vc_contains(self, o):
        return mkbool(z3.Contains(self.t, self.term(o)))

    def __add__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else SStr(z3.Concat(self.t, t))

    def __radd__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else SStr(z3.Concat(t, self.t))

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return mkbool(z3.Or(*[z3.PrefixOf(self.term(x), self.t) for x in p]))
        return mkbool(z3.PrefixOf(self.term(p), self.t))

    def endswith(self, p):
        if isinstance(p, tuple):
            return mkbool(z3.Or(*[z3.SuffixOf(self.term(x), self.t) for x in p]))
        return mkbool(z3.SuffixOf(self.term(p), self.t))

    def _strip(self, chars, left):
        """the text without the given characters (default: white space) at one end"""
        e = eng()
        gone = WHITESPACE if chars is None else chars
        parts = _parts(self.t)
        while parts:  # exact on texts put together from constants and texts over known characters
            at = 0 if left else -1
            p = parts[at]
            if type(p) is str:
                parts[at] = p.lstrip(gone) if left else p.rstrip(gone)
                if parts[at]:
                    return _joined(parts)
            elif p[1] is None or p[1] & set(gone):
                break
            elif e.branch(z3.Length(p[0]) > 0):
                return _joined(parts)
            parts.pop(at)
        else:
            return ""
        memo = "l" if left else "r", chars, self.t.get_id()
        known = e.strips.get(memo)
        if known is not None:
            return SStr(known[1])
        cls = [z3.Re(z3.StringVal(c)) for c in gone]
        cls = cls[0] if len(cls) == 1 else z3.Union(*cls)
        r = e.fresh(z3.StringSort(), "stripped")
        e.strips[memo] = self.t, r
        cut = e.fresh(z3.StringSort(), "cut")
        edge = z3.SubString(r, 0 if left else z3.Length(r) - 1, 1)
        e.assume_term(z3.And(self.t == (z3.Concat(cut, r) if left else z3.Concat(r, cut)),
                             z3.InRe(cut, z3.Star(cls)), z3.Or(z3.Length(r) == 0, z3.Not(z3.InRe(edge, cls)))))
        return SStr(r)

    def rstrip(self, chars=None):
        return self._strip(chars, False)

    def _cut(self, sep, last=False):
        """(found?, before, after) around an occurrence of sep"""
        t = self.term(sep)
        if t is None or sep == "":
            raise Unsupported("separator")
        parts = _parts(self.t)
        if isinstance(sep, str) and not is_sym(sep) and len(sep) == 1:
            for i in (reversed(range(len(parts))) if last else range(len(parts))):
                p = parts[i]
                if type(p) is str:
                    if sep in p:
                        a, _, b = p.rpartition(sep) if last else p.partition(sep)
                        return _joined(parts[:i] + [a]), _joined([b] + parts[i + 1:])
                elif p[1] is None or sep in p[1]:
                    break
            else:
                return None
        if not eng().branch(z3.Contains(self.t, t)):
            return None
        i = z3.LastIndexOf(self.t, t) if last else z3.IndexOf(self.t, t, 0)
        j = i + z3.Length(t)
        return SStr(z3.SubString(self.t, 0, i)), SStr(z3.SubString(self.t, j, z3.Length(self.t) - j))

    def partition(self, sep):
        cut = self._cut(sep)
        return (self, "", "") if cut is None else (cut[0], sep, cut[1])

    def rpartition(self, sep):
        cut = self._cut(sep, True)
        return ("", "", self) if cut is None else (cut[0], sep, cut[1])

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            raise Unsupported("split")
        cut = self._cut(sep)
        return [self] if cut is None else list(cut)

    def find(self, sub, *a):
        if a:
            raise Unsupported("find")
        return SInt(z3.IndexOf(self.t, self.term(sub), 0))

    def _case(self, changed, low):
        """the text itself where no character of it changes case"""
        parts = _parts(self.t)
        if all(p.isascii() if type(p) is str else p[1] is not None and "".join(p[1]).isascii() and not (p[1] & low) for p in parts):
            return _joined([(p.lower() if 65 in map(ord, low) else p.upper()) if type(p) is str else p for p in parts])
        other = z3.Star(z3.Intersect(z3.Range("\x00", "\x7f"), z3.Complement(changed)))
        if eng().branch(z3.InRe(self.t, other)):
            return self
        raise Unsupported("case of a symbolic string")

    def lower(self):
        return self._case(z3.Range("A", "Z"), set("ABCDEFGHIJKLMNOPQRSTUVWXYZ"))

    def upper(self):
        return self._case(z3.Range("a", "z"), set("abcdefghijklmnopqrstuvwxyz"))

    def encode(self, encoding="utf-8", errors="strict"):
        if errors != "strict" or encoding.lower().replace("-", "") != "utf8":
            raise Unsupported("encode")
        return self  # the bytes of a text stand for it: the encoding is injective

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        return self._strip(chars, True)

    def removesuffix(self, p):
        t = self.term(p)
        n = z3.Length(self.t) - z3.Length(t)
        return SStr(z3.If(z3.SuffixOf(t, self.t), z3.SubString(self.t, 0, n), self.t))

    def removeprefix(self, p):
        t = self.term(p)
        parts = _parts(self.t)
        if isinstance(p, str) and not is_sym(p) and parts and type(parts[0]) is str and len(parts[0]) >= len(p):
            return _joined([parts[0].removeprefix(p)] + parts[1:])
        return SStr(z3.If(z3.PrefixOf(t, self.t), z3.SubString(self.t, z3.Length(t), z3.Length(self.t)), self.t))

    def _cut_at(self, k):
        """text[:k] or text[k:] where a known number of the parts is provably k characters long"""
        a, b = k.start, k.stop
        at = b if a in (None, 0) else a if b is None else None
        parts = _parts(self.t)
        if type(at) is not int or at < 0 or len(parts) < 2:
            return None
        n, fixed = z3.IntVal(0), True
        for i, p in enumerate(parts):
            if z3.is_int_value(z3.simplify(n)) and type(p) is str:
                m = z3.simplify(n).as_long()
                if m <= at < m + len(p):
                    cut = at - m
                    return _joined(parts[:i] + [p[:cut]] if at is b else [p[cut:]] + parts[i + 1:])
            n = n + (len(p) if type(p) is str else z3.Length(p[0]))
            if eng().check(n != at) == z3.unsat:
                return _joined(parts[:i + 1] if at is b else parts[i + 1:])
        return None

    def _vc_getitem(self, k):
        n = z3.Length(self.t)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("string step")

            def norm(v, d):
                if v is None:
                    return d
                v = _num(v)
                return z3.If(v < 0, z3.If(n + v < 0, z3.IntVal(0), n + v), z3.If(v > n, n, v))

            cut = self._cut_at(k)
            if cut is not None:
                return cut
            lo = norm(k.start, z3.IntVal(0))
            hi = norm(k.stop, n)
            return SStr(z3.If(hi > lo, z3.SubString(self.t, lo, hi - lo), z3.StringVal("")))
        v = _num(k)
        idx = z3.If(v < 0, n + v, v)
        if not eng().branch(z3.And(idx >= 0, idx < n)):
            raise IndexError("string index out of range")
        if eng().texts_are_bytes:
            return SInt(z3.StrToCode(z3.SubString(self.t, idx, 1)))
        return SStr(z3.SubString(self.t, idx, 1))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"str.{n} on a symbolic string")


# --------------------------------------------------------------- datetimes
US = 1_000_000
DAY = 86400 * US
_EPOCH = _d.datetime(1970, 1, 1)
# days from 0001-01-01 to epoch
_MIN_US = -719162 * DAY
_MAX_US = 2932897 * DAY  # exclusive: 10000-01-01


def td_us(td: _d.timedelta) -> int:
    return (td.days * 86400 + td.seconds) * US + td.microseconds


class STd(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return _d.timedelta

    @staticmethod
    def of(x):
        if type(x) is STd:
            return x
        if isinstance(x, _d.timedelta):
            return STd(z3.IntVal(td_us(x)))
        raise Unsupported("timedelta expected")

    @staticmethod
    def term(x):
        if type(x) is STd:
            return x.t
        if isinstance(x, _d.timedelta) and not is_sym(x):
            return z3.IntVal(td_us(x))
        return None

    def __add__(self, o):
        if isinstance(o, (_d.datetime, SDt)):
            return SDt.of(o) + self
        t = self.term(o)
        return NotImplemented if t is None else STd(self.t + t)

    __radd__ = __add__

    def __sub__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else STd(self.t - t)

    def __rsub__(self, o):
        t = self.term(o)
        return NotImplemented if t is None else STd(t - self.t)

    def __neg__(self):
        return STd(-self.t)

    def __abs__(self):
        return STd(z3.If(self.t < 0, -self.t, self.t))

    def __mul__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if n.sort() == z3.IntSort():
            return STd(simp(self.t) * n)
        return STd(_round_us(toreal(self.t) * n))

    __rmul__ = __mul__

    def __truediv__(self, o):
        t = self.term(o)
        if t is not None:
            if eng().branch(t == 0):
                raise ZeroDivisionError("division by zero")
            return SReal(toreal(self.t) / toreal(t))
        n = _num(o)
        if n is None:
            return NotImplemented
        if eng().branch(n == 0):
            raise ZeroDivisionError("division by zero")
        return STd(_round_us(toreal(self.t) / toreal(n)))

    def __floordiv__(self, o):
        t = self.term(o)
        if t is not None:
            return SInt(self.t) // SInt(t)
        n = _num(o)
        return STd((SInt(self.t) // SInt(n)).t)

    def __mod__(self, o):
        t = self.term(o)
        if t is None:
            return NotImplemented
        if eng().branch(t == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if _divides(t, self.t):
            return STd(z3.IntVal(0))
        return STd((SInt(self.t) % SInt(t)).t)

    def _c(self, o, f):
        t = self.term(o)
        return NotImplemented if t is None else mkbool(simp(f(self.t, t)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().branch(self.t != 0)

    @property
    def days(self):
        return SInt(self.t / DAY)

    @property
    def seconds(self):
        return SInt((self.t % DAY) / US)

    @property
    def microseconds(self):
        return SInt(self.t % US)

    def total_seconds(self):
        return SReal(toreal(self.t) / US)


def _monomials(t):
    """[(coefficient, sorted variable ids)] of an integer polynomial, or None"""
    t = z3.simplify(t, som=True)
    out = []
    for m in (t.children() if z3.is_add(t) else [t]):
        c, vs = 1, []
        stack = [m]
        while stack:
            x = stack.pop()
            if z3.is_mul(x):
                stack.extend(x.children())
            elif z3.is_int_value(x):
                c *= x.as_long()
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                c = -c
                stack.append(x.arg(0))
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)):
                stack.extend([x.arg(0)] * x.arg(1).as_long())
            else:
                vs.append(x.get_id())
        out.append((c, sorted(vs)))
    return out


def _division_facts(a, b):
    """facts of integer division by a positive b that is not a literal (valid for every a and b > 0; the solvers rarely find
    them): a == b*q + r with 0 <= r < b, and how far apart products of b with different quotients are"""
    if z3.is_int_value(z3.simplify(b)):
        return
    e = eng()
    old = e.intdivs.setdefault(b.get_id(), [])
    if any(x.eq(a) for x, _, _ in old):
        return
    q, r = a / b, a % b
    p = b * q
    e.assume_term(z3.And(a == p + r, r >= 0, r < b))
    for d, pd in [(q, p)] + [z for _, q2, p2 in old for z in ((q - q2, p - p2), (q + q2, p + p2))]:
        for s in (-1, 0, 1):
            e.assume_term(z3.And(z3.Implies(d - s >= 1, pd - s * b >= b), z3.Implies(d - s <= -1, pd - s * b <= -b),
                                 z3.Implies(d == s, pd == s * b)))
    old.append((a, q, p))
    e.keep.append((a, b))


def _divides(d, t):
    """t is syntactically a multiple of the monomial d (d != 0)"""
    dm = _monomials(d)
    if len(dm) != 1 or dm[0][0] == 0:
        return False
    dc, dv = dm[0]
    for c, vs in _monomials(t):
        if c == 0:
            continue
        rest = list(vs)
        for v in dv:
            if v not in rest:
                return False
            rest.remove(v)
        if c % dc:
            return False
    return True


def _round_us(real_us):
    """timedelta rounds to the nearest microsecond: some integer within one half."""
    e = eng()
    s = z3.simplify(real_us)
    if z3.is_to_real(s):
        return s.arg(0)
    r = e.fresh(z3.IntSort(), "us")
    e.assume_term(z3.And(z3.ToReal(r) - s <= z3.Q(1, 2), s - z3.ToReal(r) <= z3.Q(1, 2)))
    return r


class STz(Sym, _d.tzinfo):
    """A fixed-offset zone with a symbolic offset (microseconds)."""

    def __init__(self, off, name):
        self.off = off
        self.name = name

    @property
    def __class__(self):
        return _d.timezone

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is STz:
            return mkbool(self.off == o.off)
        if isinstance(o, _d.tzinfo):
            return mkbool(self.off == tzoff(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else not_(r)

    __hash__ = Sym.__hash__

    def utcoffset(self, dt):
        return STd(self.off)

    def __bool__(self):
        return True

    def _vc_is(self, o):
        return self is o


def tzoff(tz):
    if type(tz) is STz:
        return tz.off
    if isinstance(tz, _d.timezone):
        return z3.IntVal(td_us(tz.utcoffset(None)))
    if isinstance(tz, _d.tzinfo):
        off = tz.utcoffset(_d.datetime(2020, 1, 1))
        off2 = tz.utcoffset(_d.datetime(2020, 7, 1))
        if off == off2 and getattr(tz, "key", None) in ("UTC", "Etc/UTC", None):
            return z3.IntVal(td_us(off))
    raise Unsupported(f"time zone {tz!r}")


class SDt(Sym):
    """A datetime: `w` is the wall clock in microseconds since 1970, tz its zone or None."""

    __slots__ = ("w", "tz", "_cal")

    def __init__(self, w, tz):
        self.w = w
        self.tz = tz
        self._cal = None

    @property
    def __class__(self):
        return _d.datetime

    @staticmethod
    def of(x):
        if type(x) is SDt:
            return x
        if isinstance(x, _d.datetime):
            return SDt(z3.IntVal(td_us(x.replace(tzinfo=None) - _EPOCH)), x.tzinfo)
        raise Unsupported("datetime expected")

    @property
    def inst(self):
        if self.tz is None:
            raise Unsupported("instant of a naive datetime")
        return self.w - tzoff(self.tz)

    @property
    def tzinfo(self):
        return self.tz

    def utcoffset(self):
        return None if self.tz is None else STd(tzoff(self.tz))

    def replace(self, **k):
        if k.get("fold") == 0:
            # symbolic zones have fixed offsets: both passes are the same
            del k["fold"]
            if not k:
                return self
        if set(k) == {"tzinfo"}:
            r = SDt(self.w, k["tzinfo"])
            r._cal = self._cal
            return r
        if set(k) == {"microsecond"} and k["microsecond"] == 0:
            return SDt(self.w - self.w % US, self.tz)
        raise Unsupported("datetime.replace")

    def astimezone(self, tz=None):
        if self.tz is None or tz is None:
            raise Unsupported("astimezone of/to local time")
        if tz is self.tz:
            return self
        return SDt(self.inst + tzoff(tz), tz)

    def timestamp(self):
        i = z3.simplify(self.inst)
        q = toreal(i) / US
        e = eng()
        e.tsus[q.get_id()] = i
        e.keep.append(q)
        return SReal(q)

    def __add__(self, o):
        t = STd.term(o)
        if t is None:
            return NotImplemented
        return SDt(self.w + t, self.tz)

    __radd__ = __add__

    def __sub__(self, o):
        t = STd.term(o)
        if t is not None:
            return SDt(self.w - t, self.tz)
        if isinstance(o, _d.datetime):
            o = SDt.of(o)
            return STd(self._key(o, True) - o._key(self, True))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _d.datetime):
            return SDt.of(o) - self
        return NotImplemented

    def _key(self, o, strict):
        if (self.tz is None) != (o.tz is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return self.w if self.tz is None or self.tz is o.tz else self.inst

    def _c(self, o, f):
        if not isinstance(o, _d.datetime):
            return NotImplemented
        o = SDt.of(o)
        return mkbool(simp(f(self._key(o, True), o._key(self, True))))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, _d.datetime):
            return NotImplemented
        o = SDt.of(o)
        if (self.tz is None) != (o.tz is None):
            return False
        return mkbool(simp(self._key(o, False) == o._key(self, False)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else not_(r)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    @property
    def microsecond(self):
        known = eng().clock_part(self, "microsecond")
        return SInt(self.w % US) if known is None else known

    @property
    def second(self):
        known = eng().clock_part(self, "second")
        return SInt(self.w / US % 60) if known is None else known

    @property
    def minute(self):
        known = eng().clock_part(self, "minute")
        return SInt(self.w / (60 * US) % 60) if known is None else known

    @property
    def hour(self):
        known = eng().clock_part(self, "hour")
        return SInt(self.w / (3600 * US) % 24) if known is None else known

    # calendar part: uninterpreted functions of the day number, axiomatised by ranges
    @property
    def dayno(self):
        known = eng().known_parts(self)
        return z3.simplify(self.w / DAY) if known is None else known["dayno"]

    @property
    def year(self):
        return eng().calendar(self, "year")

    @property
    def month(self):
        return eng().calendar(self, "month")

    @property
    def day(self):
        return eng().calendar(self, "day")

    def weekday(self):
        return SInt((self.dayno + 3) % 7)

    def isocalendar(self):
        return eng().calendar(self, "isocalendar")

    def isoformat(self, *a, **k):
        return eng().dt_text(self, "isoformat")

    def strftime(self, *a):
        return eng().dt_text(self, "strftime")

    def date(self):
        raise Unsupported("datetime.date")


# --------------------------------------------------------------- references
class SDate(Sym):
    """a date (not a datetime): days since 1970-01-01"""

    def __init__(self, n):
        self.n = n

    @property
    def __class__(self):
        return _d.date

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is SDate:
            return mkbool(simp(self.n == o.n))
        raise Unsupported("date comparison")

    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_vc"):
            raise AttributeError(n)
        if n in ("year", "month", "day", "weekday", "isocalendar"):
            return getattr(SDt(simp(self.n * DAY), None), n)
        raise Unsupported(f"date.{n}")


class SRef(Sym):
    """An element of a symbolic population of objects: fields live in the engine's heap arrays."""

    __slots__ = ("t", "pop")

    def __init__(self, t, pop):
        object.__setattr__(self, "t", t)
        object.__setattr__(self, "pop", pop)

    @property
    def __class__(self):
        return object.__getattribute__(self, "pop").cls

    def __getattribute__(self, n):
        if n in ("t", "pop", "__class__", "__class_name__", "_vc_is", "_vc_raw"):
            return object.__getattribute__(self, n)
        pop = object.__getattribute__(self, "pop")
        if n in pop.fields:
            return pop.fields[n].decode(pop.load(n, object.__getattribute__(self, "t")))
        if n.startswith("__") and n not in ("__dict__",):
            return object.__getattribute__(self, n)
        return pop.other(self, n)

    def __setattr__(self, n, v):
        if n not in self.pop.fields:
            raise Unsupported(f"unmodelled field {self.pop.name}.{n}")
        self.pop.store(n, self.t, self.pop.fields[n].encode(v))

    def _vc_is(self, o):
        if type(o) is SRef and o.pop is self.pop:
            return mkbool(simp(self.t == o.t))
        return False

    def __eq__(self, o):
        if type(o) is SRef and o.pop is self.pop:
            if self.pop.eq is not None:
                return self.pop.eq(self, o)
            return mkbool(simp(self.t == o.t))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else not_(r)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True


class Codec:
    """Packs a Python value into a fixed tuple of z3 terms and back."""

    def __init__(self, sorts, decode, encode, label=""):
        self.sorts, self._dec, self._enc, self.label = sorts, decode, encode, label

    def decode(self, terms):
        return self._dec(tuple(terms))

    def encode(self, v):
        return tuple(self._enc(v))


def _enc_int(v):
    n = _num(v)
    if n is None or n.sort() != z3.IntSort():
        raise Unsupported("encode int")
    return (n,)


def _enc_real(v):
    n = _num(v)
    if n is None:
        raise Unsupported("encode real")
    return (toreal(n),)


def _enc_key(v):
    if type(v) is SKey:
        return (v.t,)
    if isinstance(v, str) and not is_sym(v):
        return (z3.RealVal(str_rank(v)),)
    raise Unsupported("encode key")


IntC = Codec((z3.IntSort(),), lambda t: SInt(t[0]), _enc_int, "int")
RealC = Codec((z3.RealSort(),), lambda t: SReal(t[0]), _enc_real, "real")
BoolC = Codec((z3.BoolSort(),), lambda t: mkbool(simp(t[0])), lambda v: (bterm(v),), "bool")
def _enc_text(v):
    t = SStr.term(v)
    if t is None:
        raise Unsupported("encode text")
    return (t,)


TextC = Codec((z3.StringSort(),), lambda t: SStr(t[0]), _enc_text, "text")
KeyC = Codec((z3.RealSort(),), lambda t: SKey(t[0]), _enc_key, "key")


def OptC(inner):
    def dec(t):
        if eng().branch(t[0]):
            return None
        return inner.decode(t[1:])

    def enc(v):
        if v is None:
            return (z3.BoolVal(True),) + tuple(_default(s) for s in inner.sorts)
        return (z3.BoolVal(False),) + tuple(inner.encode(v))

    c = Codec((z3.BoolSort(),) + tuple(inner.sorts), dec, enc, "opt")
    c.inner = inner
    return c


def _default(s):
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.RealSort():
        return z3.RealVal(0)
    if s == z3.BoolSort():
        return z3.BoolVal(False)
    if s == z3.StringSort():
        return z3.StringVal("")
    raise Unsupported(f"default of {s}")


def DtC(tz):
    """datetimes in one given zone"""

    def enc(v):
        v = SDt.of(v)
        if v.tz is not tz:
            if v.tz is None or tz is None:
                raise Unsupported("encode datetime: zone")
            v = v.astimezone(tz)
        return (v.w,)

    return Codec((z3.IntSort(),), lambda t: SDt(t[0], tz), enc, "dt")


def TupleC(*cs):
    sorts = tuple(s for c in cs for s in c.sorts)

    def dec(t):
        out, i = [], 0
        for c in cs:
            n = len(c.sorts)
            out.append(c.decode(t[i:i + n]))
            i += n
        return tuple(out)

    def enc(v):
        v = tuple(v)
        if len(v) != len(cs):
            raise Unsupported("encode tuple arity")
        out = []
        for c, x in zip(cs, v):
            out.extend(c.encode(x))
        return tuple(out)

    c = Codec(sorts, dec, enc, "tuple")
    c.parts = cs
    return c


class Population:
    """A class of symbolic objects; `fields` maps names to codecs."""

    def __init__(self, name, cls, fields, other=None, eq=None, call=None):
        self.call = call
        self.name, self.cls, self.fields = name, cls, fields
        self._other, self.eq = other, eq
        self.tokens: dict = {}

    def arrays(self, n):
        h = eng().heap
        k = (self.name, n)
        if k not in h:
            h[k] = tuple(z3.Const(f"heap!{self.name}.{n}.{i}", z3.ArraySort(z3.IntSort(), s))
                         for i, s in enumerate(self.fields[n].sorts))
        return h[k]

    def load(self, n, ref):
        return tuple(z3.Select(a, ref) for a in self.arrays(n))

    def token(self, n):
        """stands for the heap component in frames"""
        return self.tokens.setdefault(n, [self.name, n])

    def store(self, n, ref, terms):
        eng().mutated(self.token(n))
        a = self.arrays(n)
        eng().heap[(self.name, n)] = tuple(z3.Store(x, ref, t) for x, t in zip(a, terms))

    def havoc(self, n):
        eng().heap[(self.name, n)] = tuple(
            eng().fresh(z3.ArraySort(z3.IntSort(), s), f"heap.{self.name}.{n}") for s in self.fields[n].sorts)

    def other(self, ref, n):
        if self._other is not None:
            r = self._other(ref, n)
            if r is not NotImplemented:
                return r
        if not hasattr(self.cls, n):
            raise AttributeError(n)
        v = getattr(self.cls, n)
        if isinstance(v, property):
            return eng().call(v.fget, ref)
        if callable(v) and not isinstance(v, type):
            import types
            return types.MethodType(v, ref)
        return v

    def codec(self):
        def enc(v):
            if type(v) is SRef and v.pop is self:
                return (v.t,)
            raise Unsupported(f"encode {self.name} reference")

        return Codec((z3.IntSort(),), lambda t: SRef(t[0], self), enc, self.name)


# --------------------------------------------------------------- sequences
class SSeq(Sym):
    """A list of symbolic length: one z3 array per component of its codec.

    `get(i)` gives the raw component terms at index term i."""

    def __init__(self, codec, length, get, name="seq", mutable=True):
        self.codec = codec
        self.n = length
        self.get = get
        self.name = name
        self.mutable = mutable
        self.version = 0

    @property
    def __class__(self):
        return list

    @staticmethod
    def fresh(codec, name, length=None):
        e = eng()
        n = e.fresh(z3.IntSort(), f"{name}.len") if length is None else length
        if length is None:
            e.assume_term(n >= 0)
        arrs = tuple(e.fresh(z3.ArraySort(z3.IntSort(), s), f"{name}.{i}") for i, s in enumerate(codec.sorts))
        s = SSeq(codec, n, lambda i: tuple(z3.Select(a, i) for a in arrs), name)
        s.arrs = arrs
        return s

    def raw(self, i):
        return self.get(i)

    def at(self, i):
        return self.codec.decode(self.get(i))

    def _norm(self, k):
        v = _num(k)
        if v is None:
            raise TypeError("list indices must be integers or slices")
        c = z3.simplify(v)
        if z3.is_int_value(c):
            v = c if c.as_long() >= 0 else self.n + c
        else:
            v = z3.If(v < 0, self.n + v, v)
        if not eng().branch(z3.And(v >= 0, v < self.n)):
            raise IndexError("list index out of range")
        return v

    def _vc_getitem(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        return self.at(self._norm(k))

    def _slice(self, k):
        if k.step is not None:
            c = k.step
            if c == -1 and k.start is None and k.stop is None:
                n, g = self.n, self.get
                return SSeq(self.codec, n, lambda i: g(n - 1 - i), self.name + "[::-1]")
            raise Unsupported("slice step")
        n = self.n

        def norm(v, d):
            if v is None:
                return d
            v = _num(v)
            return z3.If(v < 0, z3.If(n + v < 0, z3.IntVal(0), n + v), z3.If(v > n, n, v))

        lo = simp(norm(k.start, z3.IntVal(0)))
        hi = simp(norm(k.stop, n))
        g = self.get
        return SSeq(self.codec, simp(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda i: g(lo + i), self.name + "[:]")

    def _touch(self):
        self.version += 1
        eng().mutated(self)

    def _vc_setitem(self, k, v):
        if isinstance(k, slice):
            raise Unsupported("slice assignment on a symbolic list")
        i0 = self._norm(k)
        enc = self.codec.encode(v)
        g = self.get
        self.get = lambda i: tuple(z3.If(i == i0, e, o) for e, o in zip(enc, g(i)))
        self._touch()

    def _vc_delitem(self, k):
        g = self.get
        if isinstance(k, slice):
            if k.start is None and k.step is None:
                n = self.n
                v = _num(k.stop) if k.stop is not None else n
                cut = simp(z3.If(v < 0, z3.If(n + v < 0, z3.IntVal(0), n + v), z3.If(v > n, n, v)))
                self.get = lambda i: g(i + cut)
                self.n = simp(n - cut)
                self._touch()
                return
            raise Unsupported("slice deletion")
        i0 = self._norm(k)
        self.get = lambda i: tuple(z3.If(i < i0, a, b) for a, b in zip(g(i), g(i + 1)))
        self.n = simp(self.n - 1)
        self._touch()

    def insert(self, k, v):
        n = self.n
        kv = _num(k)
        i0 = simp(z3.If(kv < 0, z3.If(n + kv < 0, z3.IntVal(0), n + kv), z3.If(kv > n, n, kv)))
        enc = self.codec.encode(v)
        g = self.get
        self.get = lambda i: tuple(
            z3.If(i < i0, a, z3.If(i == i0, e, b)) for a, e, b in zip(g(i), enc, g(i - 1)))
        self.n = simp(n + 1)
        self._touch()

    maxlen = None

    def append(self, v):
        if self.maxlen is not None:
            m = _num(self.maxlen)
            if eng().branch(simp(m <= 0)):
                return
            if eng().branch(simp(self.n >= m)):
                self._vc_delitem(0)
        enc = self.codec.encode(v)
        g, n = self.get, self.n
        self.get = lambda i: tuple(z3.If(i == n, e, o) for e, o in zip(enc, g(i)))
        self.n = simp(n + 1)
        self._touch()

    def appendleft(self, v):
        self.insert(0, v)

    def extend(self, o):
        g, n = self.get, self.n
        if type(o) is SSeq:
            og, on = o.get, o.n
            self.get = lambda i: tuple(z3.If(i < n, a, b) for a, b in zip(g(i), og(i - n)))
            self.n = simp(n + on)
            self._touch()
        else:
            for x in o:
                self.append(x)

    def clear(self):
        self.n = z3.IntVal(0)
        self._touch()

    def pop(self, k=-1):
        if eng().branch(self.n == 0):
            raise IndexError("pop from empty list")
        i0 = self._norm(k)
        v = self.codec.decode(self.get(i0))
        g = self.get
        self.get = lambda i: tuple(z3.If(i < i0, a, b) for a, b in zip(g(i), g(i + 1)))
        self.n = simp(self.n - 1)
        self._touch()
        return v

    def popleft(self):
        return self.pop(0)

    def copy(self):
        return SSeq(self.codec, self.n, self.get, self.name)

    def reverse(self):
        n, g = self.n, self.get
        self.get = lambda i: g(n - 1 - i)
        self._touch()

    def __getattr__(self, n):
        if not n.startswith("_"):
            raise Unsupported(f"list.{n} on a symbolic list")
        raise AttributeError(n)

    def __bool__(self):
        return eng().branch(self.n > 0)

    def _vc_len(self):
        c = z3.simplify(self.n)
        return c.as_long() if z3.is_int_value(c) else SInt(c)

    def __iter__(self):
        return eng().native_iter(self)

    def __len__(self):
        return eng().concretize_int(self.n)

    def __getitem__(self, k):
        return self._vc_getitem(k)

    def __add__(self, o):
        c = self.copy()
        c.extend(o)
        return c

    def __eq__(self, o):
        raise Unsupported("== on a symbolic list")

    __hash__ = Sym.__hash__


class VDict(Sym):
    """A dict with a concrete number of entries whose keys may be symbolic."""

    def __init__(self, items=(), default_factory=None):
        self.items_: list = []
        self.default_factory = default_factory
        for k, v in items:
            i = self._find(k)
            if i is None:
                self.items_.append((k, v))
            else:
                self.items_[i] = (self.items_[i][0], v)

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        e = eng()
        for i, (kk, _) in enumerate(self.items_):
            if kk is k:
                return i
        for i, (kk, _) in enumerate(self.items_):
            if not is_sym(kk) and not is_sym(k):
                if type(kk) is type(k) and kk == k:
                    return i
                if kk == k:
                    return i
                continue
            if e.truth(e.eqv(kk, k)):
                return i
        return None

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            if self.default_factory is not None:
                v = self.default_factory()
                self[k] = v
                return v
            raise KeyError(k)
        return self.items_[i][1]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i is None:
            self.items_.append((k, v))
        else:
            self.items_[i] = (self.items_[i][0], v)
        eng().mutated(self)

    def __delitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        del self.items_[i]
        eng().mutated(self)

    _vc_getitem = __getitem__
    _vc_setitem = __setitem__
    _vc_delitem = __delitem__

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.items_[i][1]

    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self.items_[i][1]
        del self.items_[i]
        eng().mutated(self)
        return v

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i is None:
            self[k] = d
            return d
        return self.items_[i][1]

    def popitem(self):
        if not self.items_:
            raise KeyError("popitem(): dictionary is empty")
        return self.items_.pop()

    def keys(self):
        return [k for k, _ in self.items_]

    def values(self):
        return [v for _, v in self.items_]

    def items(self):
        return list(self.items_)

    def update(self, *a, **kw):
        for o in a:
            for k, v in (o.items() if hasattr(o, "items") else o):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.items_ = []
        eng().mutated(self)

    def copy(self):
        d = VDict()
        d.items_ = list(self.items_)
        d.default_factory = self.default_factory
        return d

    def __iter__(self):
        return iter([k for k, _ in self.items_])

    def __len__(self):
        return len(self.items_)

    def __bool__(self):
        return bool(self.items_)

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = VDict(o.items())
        d.update(self)
        return d

    def __eq__(self, o):
        if not hasattr(o, "items") or len(o) != len(self):
            return False
        return all(k in o and eng().truth(eng().eqv(v, o[k])) for k, v in self.items_)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "VDict(%r)" % (self.items_,)


class SMap(Sym):
    """A dict of unbounded size with string keys: presence array plus value arrays."""

    def __init__(self, codec, has, get, name="map", default=None, keyenc=_enc_key):
        self.codec, self.has, self.get_, self.name, self.default = codec, has, get, name, default
        self.keyenc = keyenc

    @property
    def __class__(self):
        return dict

    @staticmethod
    def fresh(codec, name, default=None):
        e = eng()
        hs = e.fresh(z3.ArraySort(z3.RealSort(), z3.BoolSort()), f"{name}.has")
        arrs = tuple(e.fresh(z3.ArraySort(z3.RealSort(), s), f"{name}.{i}") for i, s in enumerate(codec.sorts))
        m = SMap(codec, lambda k: z3.Select(hs, k), lambda k: tuple(z3.Select(a, k) for a in arrs), name, default)
        m.arrs = (hs,) + arrs
        return m

    def _k(self, k):
        return self.keyenc(k)[0]

    def has_key(self, k):
        return mkbool(simp(self.has(self._k(k))))

    def _vc_contains(self, k):
        return self.has_key(k)

    def __contains__(self, k):
        return bool(self.has_key(k))

    def _vc_getitem(self, k):
        kt = self._k(k)
        if eng().branch(self.has(kt)):
            return self.codec.decode(self.get_(kt))
        if self.default is not None:
            v = self.default()
            self._vc_setitem(k, v)
            return v
        raise KeyError(k)

    __getitem__ = _vc_getitem

    def get(self, k, d=None):
        kt = self._k(k)
        if eng().branch(self.has(kt)):
            return self.codec.decode(self.get_(kt))
        return d

    def _vc_setitem(self, k, v):
        kt = self._k(k)
        enc = self.codec.encode(v)
        h, g = self.has, self.get_
        self.has = lambda x: z3.Or(x == kt, h(x))
        self.get_ = lambda x: tuple(z3.If(x == kt, e, o) for e, o in zip(enc, g(x)))
        eng().mutated(self)

    __setitem__ = _vc_setitem

    def _vc_delitem(self, k):
        kt = self._k(k)
        if not eng().branch(self.has(kt)):
            raise KeyError(k)
        h = self.has
        self.has = lambda x: z3.And(x != kt, h(x))
        eng().mutated(self)

    __delitem__ = _vc_delitem

    def pop(self, k, *d):
        kt = self._k(k)
        if eng().branch(self.has(kt)):
            v = self.codec.decode(self.get_(kt))
            h = self.has
            self.has = lambda x: z3.And(x != kt, h(x))
            eng().mutated(self)
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def clear(self):
        self.has = lambda x: z3.BoolVal(False)
        eng().mutated(self)

    def setdefault(self, k, d=None):
        kt = self._k(k)
        if eng().branch(self.has(kt)):
            return self.codec.decode(self.get_(kt))
        self._vc_setitem(k, d)
        return d

    def copy(self):
        return SMap(self.codec, self.has, self.get_, self.name, self.default, self.keyenc)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic dict")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"dict.{n} on a symbolic dict")

    def __bool__(self):
        raise Unsupported("truth of a symbolic dict")
