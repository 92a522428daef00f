"""The for-each rule: a loop over a sequence of unknown length that appends to ghost logs and
local lists.  One arbitrary iteration is executed; what it appended must be what the contract
says for that element; after the loop the logs hold the contract's entries for every element.

Also usable natively (CPython cross-check, bounded unrolling): then the complete contents are compared."""
from __future__ import annotations

import z3

from .values import CUR, PathEnd, SInt, SSeq, Sym, Unsupported, _num, bterm, not_


class Pred:
    """An expected entry given by a predicate."""

    def __init__(self, f):
        self.f = f


class Log:
    """Ghost sequence of events recorded by contract stubs."""

    def __init__(self, name="log"):
        self.name = name
        self.entries = []

    def add(self, *entry):
        e = CUR[0]
        if e is not None and e.sym:
            if any(self not in loop.spec.sinks() for loop in e.cut_loops):
                # a log outside the rule's sinks: must stay empty in a cut loop
                if not e.dead:
                    raise Unsupported(f"ghost log {self.name} written in a loop whose contract does not mention it")
        self.entries.append(entry if len(entry) != 1 else entry[0])

    def __len__(self):
        return len(self.entries)


class Mark:
    """Entries for elements [0, i) (i is None: all) of a for-each."""

    def __init__(self, fe, i, sink):
        self.fe, self.i, self.sink = fe, i, sink

    def __repr__(self):
        return f"<each {self.fe.name}{'' if self.i is None else ' up to ' + str(self.i)}>"


class Acc(Sym):
    """A local list filled by a cut loop: only appending is possible."""

    _n = 0

    def __init__(self, entries):
        self.entries = list(entries)
        Acc._n += 1

    @property
    def __class__(self):
        return list

    def append(self, x):
        self.entries.append(x)

    def extend(self, xs):
        if type(xs) is Acc:
            self.entries.extend(xs.entries)
            return
        if type(xs) is SSeq:
            self.entries.append(xs)
            return
        self.entries.extend(CUR[0].concrete_iter(xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def copy(self):
        return Acc(self.entries)

    summary_ = None

    def summary(self):
        """what the loop's contract says about the collected values"""
        if self.summary_ is None:
            if len(self.entries) != 1 or not isinstance(self.entries[0], Mark) or self.entries[0].i is not None \
                    or self.entries[0].fe.collect is None:
                raise Unsupported("contents of an accumulated list")
            self.summary_ = Summary(self, self.entries[0].fe)
        return self.summary_

    def counted(self):
        """the length, when every part was added by a loop whose contract counts"""
        marks = [x for x in self.entries if isinstance(x, Mark)]
        if not marks or any(not isinstance(m.fe, ForEach) or m.fe.limit is None for m in marks):
            return None
        if any(type(x) is SSeq for x in self.entries):
            return None
        e, n = CUR[0], z3.IntVal(len(self.entries) - len(marks))
        for m in marks:
            e.need((m.fe, "out"), e.acc_names.get(id(self)))
            n = n + m.fe.count(m.fe.loop.seq.n if m.i is None else m.i)
        return SInt(z3.simplify(n))

    def _vc_len(self):
        c = self.counted()
        if c is not None:
            return c
        s = self.summary()
        if s.some is not None:
            raise Unsupported("length of an accumulated list")
        return s.seq._vc_len()

    def __bool__(self):
        if any(not isinstance(x, Mark) for x in self.entries):
            return True
        c = self.counted()
        if c is not None:
            return CUR[0].branch(c.t > 0)
        return self.summary().nonempty()

    def __iter__(self):
        raise Unsupported("native iteration over an accumulated list")

    def __getitem__(self, k):
        s = self.summary()
        if s.some is not None:
            raise Unsupported("subscript of an accumulated list")
        return s.seq._vc_getitem(k)

    _vc_getitem = __getitem__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"list.{n} on an accumulated list")


class Poison:
    """In a native list that an accumulated list stands for: reading the native list itself is an engine limit."""

    def _no(self, *a):
        raise Unsupported("native access to a list filled by a cut loop")

    __bool__ = __eq__ = __iter__ = __getattr__ = __call__ = __lt__ = __getitem__ = __str__ = __repr__ = _no
    __hash__ = None


def accumulate(e, v):
    """the accumulated list standing for v from now on, under every name it has"""
    if type(v) is Acc:
        return v
    if id(v) not in e.acc_of:
        e.acc_of[id(v)] = Acc(v)
        e.keep.append(v)
        v.append(Poison())
    return e.acc_of[id(v)]


class Collect:
    """Each element contributes one value v with holds(i, x, v), exactly when adds(i, x) (None: always)."""

    def __init__(self, codec, holds, adds=None):
        self.codec, self.holds, self.adds = codec, holds, adds


class Summary:
    """The values a finished for-each loop collected: val(i) for every i with some(i)."""

    def __init__(self, acc, fe):
        e = CUR[0]
        e.need((fe, "collect"), e.acc_names.get(id(acc)))
        src, c = fe.loop.seq, fe.collect
        self.e, self.src = e, src
        self.seq = SSeq.fresh(c.codec, f"{fe.name}.collected", length=src.n)
        self.some = (lambda i: bterm(c.adds(SInt(i), src.at(i)))) if c.adds else None
        i = z3.Int(f"i!{e.counter}")
        e.counter += 1
        body = z3.Implies(self.dom(i), bterm(c.holds(SInt(i), src.at(i), self.seq.at(i))))
        e.assume_term(z3.ForAll([i], body, patterns=[self.seq.get(i)[0]]))
        self.cache = {}

    def dom(self, i):
        r = z3.And(i >= 0, i < self.src.n)
        return z3.And(r, self.some(i)) if self.some is not None else r

    def nonempty(self):
        if "ne" not in self.cache:
            e = self.e
            if self.some is None:
                self.cache["ne"] = e.branch(self.src.n > 0)
            else:
                b = e.decide([True, False])
                if b:
                    w = e.fresh(z3.IntSort(), "witness")
                    e.assume_term(self.dom(w))
                else:
                    i = z3.Int(f"i!{e.counter}")
                    e.counter += 1
                    e.assume_term(z3.ForAll([i], z3.Not(self.dom(i))))
                self.cache["ne"] = b
        return self.cache["ne"]

    def extreme(self, which):
        if which not in self.cache:
            e = self.e
            if not self.nonempty():
                raise ValueError(f"{which}() arg is an empty sequence")
            self.cache[which] = seq_extreme(e, self.seq, which, self.dom)
        return self.cache[which]


def seq_extreme(e, seq, which, dom):
    """the contract of min/max: an element, and none is smaller/greater"""
    w = e.fresh(z3.IntSort(), which)
    e.assume_term(dom(w))
    r = seq.at(w)
    i = z3.Int(f"i!{e.counter}")
    e.counter += 1
    x = seq.at(i)
    e.assume_term(z3.ForAll([i], z3.Implies(dom(i), bterm(r <= x if which == "min" else r >= x)),
                            patterns=[seq.get(i)[0]]))
    return r


def same_seq(a, b):
    if a is b:
        return True
    if a.codec.sorts != b.codec.sorts:
        return False
    if not z3.eq(z3.simplify(a.n), z3.simplify(b.n)):
        return False
    p = z3.Int("probe!")
    return all(z3.eq(z3.simplify(x), z3.simplify(y)) for x, y in zip(a.get(p), b.get(p)))


def _contract(f, *a):
    """an error of the contract itself is no behaviour of the code"""
    try:
        return f(*a)
    except (AttributeError, TypeError, NameError, KeyError, IndexError, ValueError) as ex:
        raise Unsupported(f"contract: {type(ex).__name__}: {ex}")


class ForEach:
    """seq: the sequence (SSeq when symbolic, list natively), or None for a loop over an accumulated list.
    logs: [Log]; each(i, x): [entries per log]; out(i, x): entries a local result list gains.
    carry(name, value, loop): (arbitrary value maker, invariant(value) -> condition) for a local carried between
    iterations (loop.i elements are done), or None.
    frame: objects the loop may modify."""

    def __init__(self, name, seq, logs=(), each=None, out=None, carry=None, frame=(), acc=None, item=None,
                 inv=None, havoc=None, collect=None, lazy=(), splice=False, once=False, limit=None):
        # limit: the loop may stop once the result has that many entries (variant 0: it stops as soon as it has them,
        # variant 1: before it would add another)
        self.limit = limit
        self.once = once  # only for the first such loop
        self.lazy, self.splice = list(lazy), splice
        self.collect = Collect(*collect) if isinstance(collect, tuple) else collect
        self.name, self.seq, self.logs = name, seq, list(logs)
        self.each, self.out, self.carry, self._frame = each, out, carry, frame
        self.acc, self.item_factory = acc, item
        self.extra_inv, self.extra_havoc = inv, havoc
        self.exited = False
        self.loop = None

    def sinks(self):
        return self.logs

    # ------------------------------------------------------------ loop protocol
    def matches(self, loop):
        if loop.kind != "for" or self.once and self.loop is not None:
            return False
        if self.seq is None:
            return loop.acc is not None and (self.acc is None or self.acc(loop.acc))
        return loop.seq is not None and type(self.seq) is SSeq and same_seq(self.seq, loop.seq)

    def count(self, i):
        """how many entries the elements before i add (a defined function; instances of its definition are assumed)"""
        e = CUR[0]
        if getattr(self, "_count", None) is None:
            e.counter += 1
            self._count = z3.Function(f"count!{self.name}!{e.counter}", z3.IntSort(), z3.IntSort())
            e.assume_term(self._count(0) == 0)
        c = self._count(i)
        e.assume_term(z3.And(c >= 0))
        return c

    def under(self, e, i):
        lim = _num(self.limit)
        lim = z3.If(lim > 0, lim, z3.IntVal(0))
        c = self.count(i)
        return _mkbool(z3.simplify(c < lim if e.variant == 0 else c <= lim))

    def begin(self, L, loc):
        e = L.e
        self.loop = L
        self._count = None
        if self.limit is not None:
            e.prove(f"{self.name}: no more entries than requested [loop entry]", self.under(e, z3.IntVal(0)))
            e.assume(self.under(e, L.i))
        L.marks = []
        L.accs = {}
        L.carried = {}
        vals = {}
        i, L.i = L.i, z3.IntVal(0)
        for label, cond in (self.extra_inv(L, loc) if self.extra_inv else ()):
            e.prove(f"{self.name}: {label} [loop entry]", cond)
        carries = {}
        if self.carry:
            for n in L.mod:
                if n in loc and type(e.res(loc[n])) not in (list, Acc):
                    carries[n] = c = self.carry(n, loc[n], L)
                    if c is not None:
                        e.prove(f"{self.name}: a value carried along [loop entry]", c[1](loc[n]))
        L.i = i
        if self.extra_havoc:
            self.extra_havoc(L)
        for n in L.inpl:
            if n[0] == "^" and type(loc.get(n[1:])) in (list, Acc):
                raise Unsupported(f"loop {L.key}: list {n[1:]} of an enclosing function")
        for n in sorted({*L.mod, *(n for n in L.inpl if n[0] != "^"), *L.forced()}):
            if n not in loc:
                if n in L.mod:
                    vals[n] = _unbound()
                continue
            v = e.res(loc[n])
            if type(v) is list or type(v) is Acc:
                if type(v) is list and id(v) not in e.born:
                    if n in L.inpl:
                        raise Unsupported(f"loop {L.key}: list {n} from outside the function")
                    vals[n] = _unbound()
                    continue
                a = accumulate(e, v)
                L.accs[n] = a
                vals[n] = a
                continue
            if n in L.mod:
                c = carries.get(n)
                if c is None:
                    vals[n] = _unbound()
                else:
                    fresh, inv = c
                    fresh = fresh()
                    e.assume(inv(fresh))
                    L.carried[n] = inv
                    vals[n] = fresh
        for s in (*self.logs, *L.accs.values()):
            m = Mark(self, L.i, s)
            s.entries.append(m)
            L.marks.append((s, m))
        for label, cond in (self.extra_inv(L, loc) if self.extra_inv else ()):
            e.assume(cond)
        return vals

    def finish(self, L):
        """the loop ended normally: every element was processed"""
        for s, m in L.marks:
            m.i = None
            if self.splice and L.acc is not None and s in self.logs:
                # every entry was passed on as it is: the log gained exactly the list's contents
                k = next(j for j, x in enumerate(s.entries) if x is m)
                s.entries[k:k + 1] = list(L.acc.entries)
        self.exited = True

    def back(self, L, loc):
        e = L.e
        exp = list(_contract(self.each, L.i0, L.x)) if self.each else []
        for k, s in enumerate(self.logs):
            want = list(exp[k])
            if s in self.lazy:
                # these entries may be passed on at once or collected in a list and passed on later
                d = L.delta(s)
                label = f"{self.name}: what one element adds to {s.name} [loop body]"
                e.later((self, 0), label, compare(e, d, want), f"log:{s.name}")
                e.later((self, 0), label, d == [], f"nolog:{s.name}")
                continue
            e.prove(f"{self.name}: what one element adds to {s.name} [loop body]", compare(e, L.delta(s), want))
        for n, a in L.accs.items():
            d = L.delta(a)
            if self.collect is not None:
                c = self.collect
                adds = c.adds(L.i0, L.x) if c.adds else True
                label = f"{self.name}: the value one element adds to the result [loop body]"
                if not d:
                    e.later((self, "collect"), label, not_(adds), n)
                elif len(d) == 1:
                    e.later((self, "collect"), label, e.and_(adds, c.holds(L.i0, L.x, d[0])), n)
                else:
                    e.later((self, "collect"), label, False, n)
            if not d and self.out is None:
                continue
            if self.out is None:
                # contents unconstrained: only usable as an opaque list
                continue
            want = list(self.out(L.i0, L.x))
            e.later((self, "out"), f"{self.name}: what one element adds to the result [loop body]",
                    compare(e, d, want), n)
        if self.limit is not None:
            e.assume_term(self.count(z3.simplify(L.i + 1)) == self.count(L.i) + len(list(self.out(L.i0, L.x))))
            e.prove(f"{self.name}: no more entries than requested [loop body]", self.under(e, z3.simplify(L.i + 1)))
        i, L.i = L.i, L.i + 1 if L.i is not None else None
        for n, inv in L.carried.items():
            if n in loc:
                e.prove(f"{self.name}: a value carried along [loop body]", inv(loc[n]))
        for label, cond in (self.extra_inv(L, loc) if self.extra_inv else ()):
            e.prove(f"{self.name}: {label} [loop body]", cond)
        L.i = i

    def frame(self):
        f = self._frame() if callable(self._frame) else self._frame
        return list(f)


class Search(ForEach):
    """A loop that looks for the first element with holds(i, x) and is left there."""

    def __init__(self, name, seq, holds, **k):
        self.holds = holds
        user = k.pop("inv", None)
        k.setdefault("carry", lambda n, v, L: ((lambda: v), (lambda w: w is v)) if v is None or type(v) in (bool, int, str)
                     else None)
        super().__init__(name, seq, inv=lambda L, loc: self.none_before(L.i) + (user(L, loc) if user else []), **k)
        self.at = None

    def none_before(self, i):
        e = CUR[0]
        e.counter += 1
        j = z3.Int(f"j!{e.counter}")
        return [("no element found is passed over",
                 _mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(bterm(self.holds(SInt(j), self.seq.at(j))))))))]

    def found(self):
        """(index, element) the search ended with, or None -- with the obligation that it is a right one"""
        e = CUR[0]
        if e is None or not e.sym:
            return next(((i, x) for i, x in enumerate(self.seq) if self.holds(i, x)), None)
        if self.at is not None:
            i = self.at
        elif self.loop is not None:
            if self.exited:
                return None
            i = self.loop.i
        else:
            n = e.concretize_int(self.seq.n)
            xs = [(i, self.seq.at(z3.IntVal(i))) for i in range(n)]
            return next(((SInt(z3.IntVal(i)), x) for i, x in xs if e.truth(self.holds(SInt(z3.IntVal(i)), x))), None)
        x = self.seq.at(i)
        e.prove(f"{self.name}: the search ends at a right element", self.holds(SInt(i), x))
        e.assume(self.holds(SInt(i), x))
        return SInt(i), x


def _mkbool(t):
    from .values import mkbool
    return mkbool(t)


def _unbound():
    from .engine import _UNBOUND
    return _UNBOUND


def compare(e, have, want):
    """entry-wise equality as a truth value"""
    if len(have) != len(want):
        return False
    r = True
    for h, w in zip(have, want):
        if isinstance(h, Mark) or isinstance(w, (ForEach, WhileSpec)):
            if not (isinstance(h, Mark) and isinstance(w, (ForEach, WhileSpec)) and h.fe is w and h.i is None):
                return False
            continue
        r = e.and_(r, w.f(h) if isinstance(w, Pred) else entry_eq(e, h, w))
    return r


def entry_eq(e, h, w):
    if type(h) is SSeq and type(w) is SSeq:
        return same_seq(h, w) or e.eqv(h, w)
    if isinstance(h, tuple) and isinstance(w, tuple) and type(h) is type(w) is tuple:
        if len(h) != len(w):
            return False
        r = True
        for x, y in zip(h, w):
            r = e.and_(r, entry_eq(e, x, y))
        return r
    if isinstance(w, Pred):
        return w.f(h)
    if w is None or h is None:
        return h is w
    v = e.eqv(h, w)
    return bool(v) if not (isinstance(v, bool) or type(v).__name__ == "SBool") else v


def expand(e, fe, sink):
    """concatenated entries of a for-each for a sequence enumerated natively"""
    if isinstance(fe.seq, list):
        xs = fe.seq
    elif fe.seq is None:
        raise Unsupported("expansion of a loop over an accumulated list")
    else:
        n = e.concretize_int(fe.seq.n)
        xs = [fe.seq.at(z3.IntVal(j)) for j in range(n)]
    out = []
    for i, x in enumerate(xs):
        if isinstance(sink, Log):
            out.extend(fe.each(i, x)[fe.logs.index(sink)])
        else:
            out.extend(fe.out(i, x))
    return out


def prove_entries(e, label, sink, want):
    """sink: Log, Acc or list; want: entries, Pred, or ForEach for "one element after the other\""""
    if e.sym:
        sink = e.res(sink)
    if type(sink) is SSeq and len(want) == 1 and isinstance(want[0], ForEach) and type(want[0].seq) is SSeq \
            and want[0].out is not None and e.use_specs:
        fe = want[0]
        e.prove(f"{label} (count)", SInt(sink.n) == SInt(fe.seq.n))
        if e.decide([True, False]):
            j = e.fresh(z3.IntSort(), "pos")
            e.assume_term(z3.And(j >= 0, j < fe.seq.n))
            e.prove(label, compare(e, [sink.at(j)], list(fe.out(SInt(j), fe.seq.at(j)))))
            raise PathEnd()
        return
    if type(sink).__name__ == "FSeq" and len(want) == 1 and isinstance(want[0], ForEach) and type(want[0].seq) is SSeq:
        fe = want[0]
        if not same_seq(sink.source, fe.seq) or sink.orders() or sink.tail:
            raise Unsupported("the result is not a filtered view of the given sequence")
        j = e.fresh(z3.IntSort(), "pos")
        e.assume_term(z3.And(j >= 0, j < fe.seq.n))
        kept, v = sink.at(j)
        e.prove(label, compare(e, [v] if kept else [], list(fe.out(SInt(j), fe.seq.at(j)))))
        return
    have = list(sink.entries) if isinstance(sink, (Log,)) or type(sink) is Acc else list(sink)
    if len(want) == 1 and isinstance(want[0], ForEach) and want[0].limit is not None:
        return prove_limited(e, label, sink, have, want[0])
    for m in [h for h in have if isinstance(h, Mark)]:
        if isinstance(m.fe, ForEach) and m.i is None and m.sink in m.fe.lazy:
            if sum(isinstance(x, Mark) and x.fe is m.fe for x in have) > 1:
                e.need((m.fe, 0), f"nolog:{m.sink.name}")
                have = [x for x in have if x is not m]
            else:
                e.need((m.fe, 0), f"log:{m.sink.name}")
    marks = [h for h in have if isinstance(h, Mark)]
    part = [m for m in marks if m.i is not None and isinstance(m.fe, ForEach)]
    if len(part) == 1 and len(marks) == 1 and len(want) == 1 and want[0] is part[0].fe:
        return prove_prefix(e, label, sink, have, part[0])
    if any(m.i is not None for m in marks):
        e.prove(label, False)
        return
    if not marks:
        flat = []
        for w in want:
            if isinstance(w, WhileSpec):
                flat.extend(w.expand(sink))
            elif isinstance(w, ForEach):
                flat.extend(expand(e, w, sink))
            else:
                flat.append(w)
        e.prove(label, compare(e, have, flat))
        return
    for m in marks:
        if type(m.sink) is Acc:
            names = getattr(e, "acc_names", {}).get(id(m.sink))
            e.need((m.fe, "out"), names)
    e.prove(label, compare(e, have, list(want)))


def prove_limited(e, label, sink, have, fe):
    """the result is the first `limit` entries of what the elements add, in order"""
    marks = [h for h in have if isinstance(h, Mark)]
    lim = fe.limit
    if not marks:
        flat = expand(e, fe, sink)
        for k in range(len(flat)):
            if e.truth(lim <= k):
                flat = flat[:k]
                break
        e.prove(label, compare(e, have, flat))
        return
    m = marks[0]
    if len(marks) > 1 or m.fe is not fe or have[0] is not m:
        e.prove(label, False)
        return
    e.need((fe, "out"), e.acc_names.get(id(sink)))
    top = _num(lim)
    top = z3.If(top > 0, top, z3.IntVal(0))
    if m.i is None:
        if len(have) != 1:
            e.prove(label, False)
            return
        e.prove(f"{label} (not more)", _mkbool(z3.simplify(fe.count(fe.loop.seq.n) <= top)))
        return
    e.prove(f"{label} (as many as requested)", _mkbool(z3.simplify(fe.count(m.i) + (len(have) - 1) == top)))
    if len(have) > 1:
        e.prove(label, compare(e, have[1:], list(fe.out(SInt(m.i), fe.loop.seq.at(m.i)))))


def prove_prefix(e, label, sink, have, m):
    """the loop was left early: what it added last is right, and the elements after that add nothing"""
    fe = m.fe
    seq = fe.loop.seq if fe.loop is not None else None
    if seq is None or have[0] is not m:
        e.prove(label, False)
        return
    what = (lambda i, x: fe.each(i, x)[fe.logs.index(sink)]) if sink in fe.logs else fe.out
    if what is None:
        e.prove(label, False)
        return
    if type(sink) is Acc:
        e.need((fe, "out"), e.acc_names.get(id(sink)))
    if e.decide([True, False]):
        j = e.fresh(z3.IntSort(), "rest")
        e.assume_term(z3.And(j > m.i, j < seq.n))
        e.prove(label, compare(e, [], list(what(SInt(j), seq.at(j)))))
        raise PathEnd()
    e.prove(label, compare(e, have[1:], list(what(SInt(m.i), seq.at(m.i)))))


class WhileSpec:
    """A while loop cut at its head (after `peel` iterations).  Datetime and integer locals the loop modifies are
    arbitrary values satisfying holds(v) (locals that agree at the cut keep agreeing); a None stays None unless
    `none` is given: none(None) may be chosen for a datetime local (ghost update), and is what a back edge may bring.
    Every other modified local is unbound at the head."""

    def __init__(self, name, match, holds, peel=0, none=None, none_ok=None, frame=(), sinks=(), state=None, progress=None,
                 havoc=None, logs=(), each=None, out=None, expand=None):
        self.expand = expand
        self.progress, self.havoc = progress, havoc
        self.logs, self.each, self.out = list(logs), each, out
        self.name, self._match, self.peel = name, match, peel
        self.ints = holds.__code__.co_argcount > 2
        self.holds = holds if holds.__code__.co_argcount > 2 else lambda L, v, entry: holds(L, v)
        self.none, self.none_ok, self._frame, self._sinks = none, none_ok, frame, list(sinks)
        self.state = state
        self.loop = None

    def matches(self, loop):
        return loop.kind == "while" and bool(self._match(loop))

    def sinks(self):
        return self._sinks + self.logs

    def begin(self, L, loc):
        e = L.e
        from .values import SDt, SReal
        L.marks, L.accs = [], {}
        for n in L.inpl:
            if n[0] == "^" and type(loc.get(n[1:])) in (list, Acc):
                raise Unsupported(f"loop {L.key}: list {n[1:]} of an enclosing function")
        if self.ints:
            loc = {n: SInt(z3.IntVal(v)) if type(v) is int and n in L.mod else v for n, v in loc.items()}
        for n in sorted(L.mod):
            v = loc.get(n)
            if type(v) in (SDt, SInt, SReal):
                e.prove(f"{self.name}: a carried value [loop entry]", self.holds(L, v, v))
        vals, groups = {}, []
        L.kept = []
        L.groups = []
        if self.state:
            for label, cond in self.state(L, "entry"):
                e.prove(f"{self.name}: {label} [loop entry]", cond)
        if self.havoc:
            self.havoc(L)
        for n in sorted({*L.mod, *(n for n in L.inpl if n[0] != "^"), *L.forced()}):
            v = e.res(loc.get(n, _unbound()))
            if type(v) is list or type(v) is Acc:
                if self.out is None or type(v) is list and id(v) not in e.born:
                    if type(v) is list and n in L.inpl and id(v) not in e.born:
                        raise Unsupported(f"loop {L.key}: list {n} from outside the function")
                    vals[n] = _unbound()
                    continue
                vals[n] = L.accs[n] = accumulate(e, v)
                continue
            if n not in L.mod:
                continue
            if v is None:
                vals[n] = None
                L.kept.append(n)
            elif type(v) in (SDt, SInt, SReal):
                t = v.w if type(v) is SDt else v.t
                for t0, names, fv, _ in groups:
                    if z3.eq(z3.simplify(t0), z3.simplify(t)) and type(fv) is type(v):
                        names.append(n)
                        vals[n] = fv
                        break
                else:
                    fv = SDt(e.fresh(z3.IntSort(), n), v.tz) if type(v) is SDt else type(v)(e.fresh(t.sort(), n))
                    e.assume(self.holds(L, fv, v))
                    if self.none is not None and e.decide([False, True]):
                        self.none()
                        fv = None
                    groups.append((t, [n], fv, v))
                    vals[n] = fv
            else:
                vals[n] = _unbound()
        L.groups = groups
        for s in (*self.logs, *L.accs.values()):
            m = Mark(self, None, s)
            s.entries.append(m)
            L.marks.append((s, m))
        if self.state:
            for label, cond in self.state(L, "assume"):
                e.assume(cond)
        if self.out:
            L.want = self.out(L)
        if self.each:
            L.want_logs = _contract(self.each, L)
        return vals

    def back(self, L, loc):
        e = L.e
        for n in L.kept:
            if loc.get(n) is not None:
                raise Unsupported(f"{self.name}: {n} changes its kind in the loop")
        for _, names, head, entry in L.groups:
            first = loc.get(names[0], _unbound())
            for n in names[1:]:
                if not e.truth(e.eqv(loc.get(n, _unbound()), first)):
                    raise Unsupported(f"{self.name}: {n} and {names[0]} no longer agree")
            if first is None and self.none is not None:
                e.prove(f"{self.name}: nothing carried [loop body]", self.none_ok())
            elif first is None or first is _unbound():
                raise Unsupported(f"{self.name}: {names[0]} changes its kind in the loop")
            else:
                if type(first) is int and self.ints:
                    first = SInt(z3.IntVal(first))
                e.prove(f"{self.name}: a carried value [loop body]", self.holds(L, first, entry))
                if self.progress:
                    e.prove(f"{self.name}: progress [loop body]", self.progress(L, head, first))
        for k, s in enumerate(self.logs):
            e.prove(f"{self.name}: what one round adds to {s.name} [loop body]",
                    compare(e, L.delta(s), list(L.want_logs[k]())))
        for n, a in L.accs.items():
            e.later((self, "out"), f"{self.name}: what one round adds to the result [loop body]",
                    compare(e, L.delta(a), list(L.want())), n)
        if self.state:
            for label, cond in self.state(L, "back"):
                e.prove(f"{self.name}: {label} [loop body]", cond)

    def frame(self):
        f = self._frame() if callable(self._frame) else self._frame
        return list(f)
