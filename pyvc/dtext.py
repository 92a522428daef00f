"""Texts of known shape with symbolic decimal digits.

A DText is a sequence of cells; each cell is an ordinary character or a digit
0..9 given by an integer term.  Every string operation below is exact.  A
regular expression is matched against the text with '0' for every symbolic
digit, which is the answer for all digits when the pattern cannot tell digits
apart; `uniform` checks that on the parsed pattern.
"""
import re

import z3

from .values import SInt, SReal, Sym, Unsupported, eng, simp

try:
    from re import _constants as _sc
    from re import _parser as _sp
except ImportError:  # pragma: no cover
    import sre_constants as _sc
    import sre_parse as _sp

_DIG = set(map(ord, "0123456789"))
_UNIFORM: dict = {}


def _class_uniform(items):
    hit = set()
    for op, av in items:
        if op is _sc.LITERAL:
            hit |= {av} & _DIG
        elif op is _sc.RANGE:
            hit |= {c for c in _DIG if av[0] <= c <= av[1]}
        elif op is _sc.CATEGORY or op is _sc.NEGATE:
            continue  # every category contains all the ASCII digits or none
        else:
            return False
    return not hit or hit == _DIG


def _walk(p):
    for op, av in p:
        if op in (_sc.LITERAL, _sc.NOT_LITERAL):
            if av in _DIG:
                return False
        elif op is _sc.IN:
            if not _class_uniform(av):
                return False
        elif op is _sc.RANGE:
            if not _class_uniform([(op, av)]):
                return False
        elif op in (_sc.GROUPREF, _sc.GROUPREF_EXISTS):
            return False
        elif op is _sc.BRANCH:
            if not all(_walk(x) for x in av[1]):
                return False
        elif op is _sc.SUBPATTERN:
            if not _walk(av[-1]):
                return False
        elif op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT, getattr(_sc, "POSSESSIVE_REPEAT", None)):
            if not _walk(av[2]):
                return False
        elif op in (_sc.ASSERT, _sc.ASSERT_NOT):
            if not _walk(av[1]):
                return False
        elif op is getattr(_sc, "ATOMIC_GROUP", None):
            if not _walk(av):
                return False
        elif op in (_sc.ANY, _sc.AT, _sc.CATEGORY):
            continue
        else:
            return False
    return True


def uniform(pattern):
    """does the pattern treat all decimal digits alike?"""
    k = (pattern.pattern, pattern.flags)
    if k not in _UNIFORM:
        _UNIFORM[k] = isinstance(pattern.pattern, str) and _walk(_sp.parse(pattern.pattern, pattern.flags & ~re.UNICODE))
    return _UNIFORM[k]


def piece(cells):
    cells = tuple(cells)
    if all(isinstance(c, str) for c in cells):
        return "".join(cells)
    return DText(cells)


def cells_of(x):
    if type(x) is DText:
        return x.cells
    if isinstance(x, str) and not isinstance(x, Sym):
        return tuple(x)
    return None


def _digit_is(c, ch):
    """is the symbolic digit c the character ch?  (decides it)"""
    if ch not in "0123456789":
        return False
    return eng().branch(simp(c == int(ch)))


def _cell_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        return _digit_is(a, b)
    return eng().branch(simp(a == b))


class DText(Sym):
    def __init__(self, cells):
        self.cells = tuple(cells)

    @property
    def __class__(self):
        return str

    def skeleton(self, ch="0"):
        return "".join(c if isinstance(c, str) else ch for c in self.cells)

    def show(self):
        return "".join(c if isinstance(c, str) else "#" for c in self.cells)

    def __repr__(self):
        return f"<text {self.show()}>"

    def __str__(self):
        return f"<text {self.show()}>"

    # comparison
    def __eq__(self, o):
        c = cells_of(o)
        if c is None:
            return False
        return len(c) == len(self.cells) and all(_cell_eq(a, b) for a, b in zip(self.cells, c))

    def __ne__(self, o):
        return not self == o

    __hash__ = Sym.__hash__

    def __bool__(self):
        return bool(self.cells)

    def __len__(self):
        return len(self.cells)

    def _vc_len(self):
        return len(self.cells)

    def __iter__(self):
        return iter([piece((c,)) for c in self.cells])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return piece(self.cells[k])
        return piece((self.cells[k],))

    _vc_getitem = __getitem__

    def __add__(self, o):
        c = cells_of(o)
        return NotImplemented if c is None else piece(self.cells + c)

    def __radd__(self, o):
        c = cells_of(o)
        return NotImplemented if c is None else piece(c + self.cells)

    def __mul__(self, n):
        return piece(self.cells * n)

    def _at(self, i, sub):
        return i + len(sub) <= len(self.cells) and all(_cell_eq(a, b) for a, b in zip(self.cells[i:], sub))

    def find(self, sub, start=0, end=None):
        sub = cells_of(sub)
        end = len(self.cells) if end is None else end
        for i in range(start, end - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub):
        sub = cells_of(sub)
        for i in range(len(self.cells) - len(sub), -1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def _vc_contains(self, sub):
        return self.find(sub) >= 0

    def count(self, sub):
        return len(self.split(sub)) - 1

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return self._at(0, cells_of(p))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with bounds")
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        c = cells_of(p)
        return len(c) <= len(self.cells) and self._at(len(self.cells) - len(c), c)

    def removeprefix(self, p):
        return self[len(cells_of(p)):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.cells) - len(cells_of(p))] if cells_of(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        out, cur = [], []
        if sep is None:
            n, i, c = 0, 0, self.cells
            space = lambda x: isinstance(x, str) and x.isspace()
            while i < len(c):
                while i < len(c) and space(c[i]):
                    i += 1
                if i == len(c):
                    break
                if maxsplit >= 0 and n == maxsplit:
                    j = len(c)
                    while space(c[j - 1]):
                        j -= 1
                    out.append(piece(c[i:j]))
                    return out
                j = i
                while j < len(c) and not space(c[j]):
                    j += 1
                out.append(piece(c[i:j]))
                n, i = n + 1, j
            return out
        sep = cells_of(sep)
        if not sep:
            raise ValueError("empty separator")
        i = 0
        while i < len(self.cells):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, sep):
                out.append(piece(cur))
                cur = []
                i += len(sep)
            else:
                cur.append(self.cells[i])
                i += 1
        return out + [piece(cur)]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 or sep is None and maxsplit < 0:
            return self.split(sep)
        if sep is None or maxsplit != 1:
            raise Unsupported("rsplit")
        i = self.rfind(sep)
        return [self] if i < 0 else [self[:i], self[i + len(sep):]]

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def _strips(self, c, chars):
        if isinstance(c, str):
            return c.isspace() if chars is None else c in chars
        return chars is not None and any(_digit_is(c, ch) for ch in chars)

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.cells) and self._strips(self.cells[i], chars):
            i += 1
        return piece(self.cells[i:])

    def rstrip(self, chars=None):
        j = len(self.cells)
        while j and self._strips(self.cells[j - 1], chars):
            j -= 1
        return piece(self.cells[:j])

    def strip(self, chars=None):
        t = self.lstrip(chars)
        return t.rstrip(chars)

    def ljust(self, n, fill=" "):
        return piece(self.cells + tuple(fill) * max(0, n - len(self.cells)))

    def rjust(self, n, fill=" "):
        return piece(tuple(fill) * max(0, n - len(self.cells)) + self.cells)

    def zfill(self, n):
        c = self.cells
        sign = c[:1] if c and c[0] in ("+", "-") else ()
        return piece(sign + ("0",) * max(0, n - len(c)) + c[len(sign):])

    def _map(self, f):
        out = []
        for c in self.cells:
            out.extend(f(c) if isinstance(c, str) else (c,))
        return piece(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def replace(self, a, b, *n):
        if n:
            raise Unsupported("replace with a count")
        b, out = cells_of(b), []
        for i, p in enumerate(self.split(a)):
            out += list(b) if i else []
            out += list(cells_of(p))
        return piece(out)

    def _all(self, f, digit):
        return bool(self.cells) and all(f(c) if isinstance(c, str) else digit for c in self.cells)

    def isdigit(self):
        return self._all(str.isdigit, True)

    def isdecimal(self):
        return self._all(str.isdecimal, True)

    def isnumeric(self):
        return self._all(str.isnumeric, True)

    def isalnum(self):
        return self._all(str.isalnum, True)

    def isspace(self):
        return False

    def isalpha(self):
        return False

    def isascii(self):
        return all(c.isascii() for c in self.cells if isinstance(c, str))

    def encode(self, *a):
        raise Unsupported("encode of a symbolic text")

    # numbers
    def number(self):
        """int(text)"""
        try:
            int(self.skeleton())
        except ValueError:
            raise ValueError(f"invalid literal for int() with base 10: {self!r}")
        return SInt(z3.simplify(self._digits(self.cells)))

    @staticmethod
    def _digits(cells):
        t, neg = z3.IntVal(0), False
        for c in cells:
            if isinstance(c, str):
                if c == "-":
                    neg = True
                elif c.isdigit():
                    t = t * 10 + int(c)
            else:
                t = t * 10 + c
        return -t if neg else t

    def real(self):
        """float(text), as the exact decimal value"""
        sk = self.skeleton()
        try:
            float(sk)
        except ValueError:
            raise ValueError(f"could not convert string to float: {self!r}")
        if any(isinstance(c, str) and c.isalpha() for c in self.cells):
            raise Unsupported("float() of a text with an exponent or name")
        s = self.cells
        k = next((i for i, c in enumerate(s) if c == "." and isinstance(c, str)), len(s))
        frac = [c for c in s[k + 1:] if not isinstance(c, str) or c.isdigit()]
        t = self._digits(tuple(s[:k]) + tuple(frac))
        if any(isinstance(c, str) and c == "-" for c in s[:k]) and False:
            t = -t
        eng().trust("float(text) is the exact decimal value")
        return SReal(z3.simplify(z3.ToReal(t) / (10 ** len(frac))))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_vc"):
            raise AttributeError(n)
        if not hasattr(str, n):
            raise AttributeError(f"'str' object has no attribute '{n}'")
        raise Unsupported(f"str.{n} of a symbolic text")


class DMatch:
    """what a match object says, for every value of the digits"""

    def __init__(self, m, text):
        self.m, self.text, self.re, self.string = m, text, m.re, text

    def _of(self, span):
        return None if span[0] < 0 else self.text[span[0]:span[1]]

    def group(self, *g):
        if not g:
            g = (0,)
        r = tuple(self._of(self.m.span(x)) for x in g)
        return r[0] if len(r) == 1 else r

    __getitem__ = lambda self, g: self.group(g)

    def groups(self, default=None):
        r = (self._of(self.m.span(i + 1)) for i in range(self.re.groups))
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: (default if self.group(k) is None else self.group(k)) for k in self.re.groupindex}

    def span(self, *g):
        return self.m.span(*g)

    def start(self, *g):
        return self.m.start(*g)

    def end(self, *g):
        return self.m.end(*g)

    @property
    def lastgroup(self):
        return self.m.lastgroup

    def __bool__(self):
        return True


def pattern_call(pattern, name, text, *a):
    if name in ("match", "fullmatch", "search", "finditer", "split") and not uniform(pattern):
        raise Unsupported("a pattern that tells digits apart")
    if name in ("match", "fullmatch", "search"):
        m = getattr(pattern, name)(text.skeleton(), *a)
        return None if m is None else DMatch(m, text)
    if name == "finditer":
        return [DMatch(m, text) for m in pattern.finditer(text.skeleton(), *a)]
    if name == "split" and not pattern.groups:
        out, at = [], 0
        for m in pattern.finditer(text.skeleton()):
            out.append(text[at:m.start()])
            at = m.end()
        return out + [text[at:]]
    raise Unsupported(f"re.{name} of a symbolic text")


_ISO = re.compile(r"([0-9]{4})-([0-9]{2})-([0-9]{2})(?:(.)([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:[.,]([0-9]{6}|[0-9]{3}))?)?"
                  r"(?:(Z)|([+-])([0-9]{2}):([0-9]{2}))?)?", re.S)


def iso_parts(text):
    """the numbers of an ISO date and time in extended form: (fields, offset in minutes or None), or None"""
    m = pattern_call(_ISO, "fullmatch", text)
    if m is None:
        return None
    g = m.groups()
    num = lambda x: 0 if x is None else x.number() if type(x) is DText else int(x)
    us = num(g[7]) * (1 if g[7] is None or len(g[7]) == 6 else 1000)
    fields = [num(g[0]), num(g[1]), num(g[2]), num(g[4]), num(g[5]), num(g[6]), us]
    if g[8] is not None:
        return fields, 0
    if g[9] is None:
        return fields, None
    return fields, (num(g[10]), num(g[11]), 1 if g[9] == "+" else -1)
