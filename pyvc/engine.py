"""Verification-condition generation: every path of a contract harness through the real
(instrumented) functions; each `prove` is an obligation discharged by z3 (cvc5 second)."""
from __future__ import annotations

import asyncio
import builtins
import collections
import contextlib
import datetime as _d
import fractions
import functools
import inspect
import logging
import math
import random
import re
import time
import types

import z3

from . import transform
from .values import *  # noqa: F401,F403
from .dtext import DText, cells_of, pattern_call, piece
from .values import (CUR, SBool, SDt, SInt, SKey, SMap, SReal, SRef, SSeq, SStr, STd, STz, Sym, US, DAY, VDict,
                     Codec, PathEnd, Population, Unsupported, harness_limit, _default, _enc_key, _num, _round_us, bterm, iceil, ifloor,
                     is_sym, itrunc, mkbool, not_, simp, str_rank, td_us, toreal, tzoff)

from .foreach import Acc, ForEach, Log, Mark, Pred, WhileSpec, prove_entries, same_seq, seq_extreme

PKG = "asyncz"


class Budget(BaseException):
    pass


class Restart(BaseException):
    """A cut loop fills a list indirectly: verify again with that list under the loop's contract."""


class Muts(set):
    """Objects that existed when a loop was cut and were modified by its body."""

    def __init__(self, t0):
        self.t0 = t0


class Outcome:
    """Result of calling real code: a value or a raised exception."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types_):
        return self.exc is not None and isinstance(self.exc, types_)


class Loop:
    """One dynamic execution of a loop statement."""

    def __init__(self, e, key, ordinal, kind, iterable, mod, inpl=()):
        self.e, self.key, self.ordinal, self.kind, self.mod, self.inpl = e, key, ordinal, kind, mod, inpl
        self.acc = None
        self.x = None
        self.src = None
        self.srcver = None
        self.count = 0
        self.values = {}
        self.spec = None
        self.cut = False
        self.seq = None
        self.it = None
        self._item = None
        self._stop = False
        self.i = None
        self.entry = None
        if kind == "for":
            view = iterable
            if type(iterable) is FSeq and iterable.plain() is not None:
                iterable = iterable.plain()
            if type(iterable) is SSeq:
                n = z3.simplify(iterable.n)
                if z3.is_int_value(n):
                    self.seqn = n.as_long()
                    src = iterable.copy()
                    self.it = (src.at(z3.IntVal(j)) for j in range(self.seqn))
                else:
                    self.seq = iterable.copy()
                    self.src = view
                    self.srcver = view.version
            elif isinstance(iterable, SymIter):
                self.seq = iterable.seq
                self.src = iterable.src
                self.wrap = iterable.wrap
            elif type(iterable) is Acc:
                self.acc = iterable
            else:
                self.it = iter(e.concrete_iter(iterable))
        self.outer = e.loop_stack[-1] if e.loop_stack else None
        e.loop_stack.append(self)
        if (kind == "while" or self.seq is not None or self.acc is not None) and e.use_specs:
            for s in e.loop_specs:
                if s.matches(self):
                    self.spec = s
                    break
        if self.acc is not None and self.spec is None:
            if any(not isinstance(x, Mark) for x in self.acc.entries) and not any(
                    isinstance(x, Mark) for x in self.acc.entries):
                self.it = iter(list(self.acc.entries))
            else:
                raise Unsupported(f"loop {key}#{ordinal} over an accumulated list without a contract")

    wrap = None

    muts = None

    def src_check(self):
        if self.srcver is not None and self.src.version != self.srcver:
            raise Unsupported(f"loop {self.key}#{self.ordinal}: the list is modified while it is iterated")

    def leave(self):
        """the loop statement was left, in whatever way"""
        e = self.e
        if self in e.loop_stack:
            del e.loop_stack[e.loop_stack.index(self):]
        if self.muts is not None and self in e.cut_loops:
            e.cut_loops.remove(self)
            e.mut_mark = [m for m in e.mut_mark if m is not self.muts]

    def delta(self, sink):
        """entries a sink gained in the arbitrary iteration"""
        for s, m in self.marks:
            if s is sink:
                k = next(j for j, x in enumerate(s.entries) if x is m)
                return s.entries[k + 1:]
        raise AssertionError("no such sink")

    def _fe_head(self, loc):
        e = self.e
        fe = self.spec
        if self.count == 0:
            self.count = 1
            if self.seq is not None:
                self.i = e.fresh(z3.IntSort(), "iter")
                e.assume_term(z3.And(self.i >= 0, self.i <= self.seq.n))
            self.i0 = SInt(self.i) if self.i is not None else None
            self.values = fe.begin(self, loc)
            for n, a in self.accs.items():
                e.acc_names[id(a)] = n
                e.keep.append(a)
            newloc = dict(loc)
            newloc.update(self.values)
            for k in [k for k, v in newloc.items() if v is _UNBOUND]:
                del newloc[k]
            self.loc = newloc
            self.muts = Muts(len(e.born))
            e.mut_mark.append(self.muts)
            e.cut_loops.append(self)
            e.all_cuts.append(self)
            e.had_cuts = True
            return True
        muts = self.muts
        self.src_check()
        ok = {id(x) for x in fe.frame()} | {id(a) for a in self.accs.values()}
        if any(m not in ok for m in muts):
            self.indirect(muts - ok)
            raise Unsupported(f"loop {self.key}#{self.ordinal} modifies an object outside its contract")
        fe.back(self, loc)
        e.reached(f"{fe.name}:back")
        raise PathEnd()

    def forced(self):
        return [n for k, o, n in self.e.forced if (k, o) == (self.key, self.ordinal)]

    def indirect(self, muts):
        e = self.e
        new = {(self.key, self.ordinal, n) for n, v in self.headloc.items() if type(v) is list and id(v) in muts
               and id(v) in e.born}
        if new - e.forced:
            e.forced |= new
            raise Restart()

    # called at the top of every iteration, before the test
    def _while_head(self, loc):
        e = self.e
        w = self.spec
        w.loop = self
        if self.count <= w.peel:
            self.values = {}
            self.count += 1
            if self.count <= w.peel:
                return True
            self.values = w.begin(self, loc)
            for n, a in self.accs.items():
                e.acc_names[id(a)] = n
                e.keep.append(a)
            newloc = dict(loc)
            newloc.update(self.values)
            self.loc = {k: v for k, v in newloc.items() if v is not _UNBOUND}
            # nothing bound before the cut may be read unless it is carried
            self.muts = Muts(len(e.born))
            e.mut_mark.append(self.muts)
            e.cut_loops.append(self)
            e.all_cuts.append(self)
            e.had_cuts = True
            return True
        ok = {id(x) for x in w.frame()} | {id(a) for a in self.accs.values()}
        if any(m not in ok for m in self.muts):
            self.indirect(self.muts - ok)
            raise Unsupported(f"loop {self.key}#{self.ordinal} modifies an object outside its contract")
        w.back(self, loc)
        e.reached(f"{w.name}:back")
        raise PathEnd()

    def head(self, loc):
        e = self.e
        e.tick()
        self.loc = self.headloc = loc
        if type(self.spec) is WhileSpec:
            return self._while_head(loc)
        if self.spec is None:
            self.count += 1
            if self.seq is None:
                if self.kind == "while" and self.count > e.unroll + 1 and e.nsym_branches != getattr(self, "_b0", None):
                    pass
                if self.count == 1:
                    self._b0 = e.nsym_branches
                if self.kind == "while" and self.count > e.max_concrete_iters:
                    raise Unsupported(f"loop {self.key}#{self.ordinal}: no invariant, unrolled {self.count} times")
                if self.kind == "while" and self.count > e.unroll + 1 and e.nsym_branches > self._b0:
                    if not e.concrete_progress(self):
                        e.bounded.add(f"{self.key}#loop{self.ordinal}: no invariant, unrolled to {e.unroll}")
                        raise PathEnd()
            return True
        # cut loop
        L = self
        if isinstance(self.spec, ForEach):
            return self._fe_head(loc)
        if self.count == 0:
            self.count = 1
            self.entry = dict(loc)
            self.i = z3.IntVal(0) if self.kind == "for" else None
            for label, cond in self.spec.inv(self, loc, "entry"):
                e.prove(f"{self.spec.name}: {label} [loop entry]", cond)
            # arbitrary iteration
            self.i = e.fresh(z3.IntSort(), "iter") if self.kind == "for" else None
            if self.kind == "for":
                e.assume_term(z3.And(self.i >= 0, self.i <= self.seq.n))
            self.values = self.spec.havoc(self, loc)
            newloc = dict(loc)
            newloc.update(self.values)
            for k in [k for k, v in newloc.items() if v is _UNBOUND]:
                del newloc[k]
            self.loc = newloc
            for label, cond in self.spec.inv(self, newloc, "assume"):
                e.assume(cond)
            self.spec.on_start(self, newloc)
            self.muts = Muts(len(e.born))
            e.mut_mark.append(self.muts)
            e.cut_loops.append(self)
            e.all_cuts.append(self)
            e.had_cuts = True
            return True
        if self.count == 1:
            # back edge
            muts = self.muts
            self.src_check()
            self.values = {}
            if self.kind == "for":
                self.i = self.i + 1
            self.spec.check_frame(self, muts)
            for label, cond in self.spec.inv(self, loc, "back"):
                e.prove(f"{self.spec.name}: {label} [loop body]", cond)
            e.reached(f"{self.spec.name}:back")
            raise PathEnd()
        raise AssertionError

    def has(self, n):
        return n in self.values and self.values[n] is not _UNBOUND

    def val(self, n):
        return self.values[n]

    def gone(self, n):
        """a local whose value at the cut is unknown"""
        return n in self.headloc and self.values.get(n, None) is _UNBOUND

    def done(self):
        e = self.e
        if self.it is not None:
            try:
                self._item = next(self.it)
                return False
            except StopIteration:
                return True
        if isinstance(self.spec, ForEach):
            if self.seq is None:
                more = e.decide([True, False])
            else:
                more = e.branch(self.i < self.seq.n)
            if more:
                if self.seq is None:
                    raw = self.spec.item_factory() if self.spec.item_factory else Stub("entry", None, {})
                    self.x = self._item = raw
                else:
                    self.x = raw = self.seq.at(self.i)
                    self._item = self.wrap(self.i, raw) if self.wrap else raw
                return False
            self.spec.finish(self)
            return True
        if self.spec is not None:
            if e.branch(self.i < self.seq.n):
                raw = self.seq.at(self.i)
                self._item = self.wrap(self.i, raw) if self.wrap else raw
                return False
            self.spec.on_exit(self, self.loc)
            return True
        # bounded unrolling of a symbolic sequence
        j = self.count - 1
        if self.srcver is not None and self.src.version != self.srcver:
            self.seq = self.src  # list iteration follows modifications of the list
        if not e.branch(self.seq.n > j):
            return True
        if j >= e.unroll:
            e.bounded.add(f"{self.key}#loop{self.ordinal}: no invariant, unrolled to {e.unroll}")
            raise PathEnd()
        raw = self.seq.at(z3.IntVal(j))
        self._item = self.wrap(z3.IntVal(j), raw) if self.wrap else raw
        return False

    def item(self):
        return self._item


_UNBOUND = object()


class SymIter:
    """enumerate()/reversed()/iter() over a symbolic sequence."""

    def __init__(self, seq, src=None, wrap=None):
        self.seq, self.src, self.wrap = seq, src if src is not None else seq, wrap


def lex_less(a, b):
    out = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        out = z3.Or(x < y, z3.And(x == y, out))
    return out


class LoopSpec:
    """Invariant for a loop. `match(loop)` selects it; invariants see the loop and its locals."""

    def __init__(self, name, match, inv, havoc=None, frame=(), on_start=None, on_exit=None, sinks=()):
        self.name, self._match, self._inv, self._havoc = name, match, inv, havoc
        self._sinks = list(sinks)
        self.frame = frame
        self._on_start, self._on_exit = on_start, on_exit

    def matches(self, loop):
        return bool(self._match(loop))

    def inv(self, loop, loc, phase):
        return list(self._inv(loop, loc))

    def sinks(self):
        return self._sinks

    def on_start(self, loop, loc):
        if self._on_start:
            self._on_start(loop, loc)

    def on_exit(self, loop, loc):
        if self._on_exit:
            self._on_exit(loop, loc)

    def havoc(self, loop, loc):
        e = loop.e
        out = {}
        for n in loop.mod:
            if n not in loc:
                out[n] = _UNBOUND
                continue
            v = loc[n]
            r = self._havoc(loop, n, v) if self._havoc else NotImplemented
            if r is NotImplemented:
                r = e.havoc_like(n, v)
            out[n] = r
        if self._havoc:
            # heap part
            self._havoc(loop, None, None)
        return out

    def check_frame(self, loop, muts):
        allowed = self.frame() if callable(self.frame) else self.frame
        ok = {id(x) for x in allowed} | {id(v) for v in loop.loc.values()}
        bad = [m for m in muts if m not in ok]
        if bad:
            raise Unsupported(f"loop {loop.key}#{loop.ordinal} modifies an object outside its frame")


class VC:
    """What instrumented code calls; forwards to the current engine."""

    def __getattr__(self, n):
        return getattr(CUR[0], n)


VCI = VC()


class Engine:
    sym = True
    conc = False
    pipelines = False

    def pipeline_prove(self, label, result, source, keep, element=None, before=None, tail=()):
        """tail: elements that follow;  result lists exactly the elements x of source with keep(x), each once; before(x, y): x must precede y.
        keep/before get (index, source element)."""
        if type(result) is SSeq and not self.pipelines:
            raise Unsupported("pipeline")
        if type(result) is SSeq:
            result = FSeq(result, None, None, 0)
        if type(result) is not FSeq or not same_seq(result.source, source):
            raise Unsupported("the result is not a filtered view of the given sequence")
        from .foreach import compare
        self.prove(f"{label}: what follows", compare(self, result.tail, list(tail)))
        what = self.decide(["elements", "order"] if before else ["elements"])
        i = self.fresh(z3.IntSort(), "pos")
        self.assume_term(z3.And(i >= 0, i < source.n))
        kept, v = result.at(i)
        if what == "elements":
            self.prove(f"{label}: exactly the right elements", self.iff(kept, keep(SInt(i), source.at(i))))
            if kept and element:
                self.prove(f"{label}: each element as it is", element(SInt(i), source.at(i), v))
            return
        j = self.fresh(z3.IntSort(), "pos")
        self.assume_term(z3.And(j >= 0, j < source.n, i != j))
        kept2, w = result.at(j)
        if not (kept and kept2):
            return
        orders = result.orders()
        must = before(SInt(i), source.at(i), SInt(j), source.at(j))
        if not self.truth(must):
            return
        for key, reverse in orders:
            kf = (lambda x: self.call(key, x)) if key is not None else (lambda x: x)
            a, b = kf(v), kf(w)
            rev = self.truth(reverse)
            if key_less(self, b, a) if rev else key_less(self, a, b):
                self.prove(f"{label}: in the requested order", True)
                return
            if key_less(self, a, b) if rev else key_less(self, b, a):
                self.prove(f"{label}: in the requested order", False)
                return
        self.prove(f"{label}: in the requested order", False)

    def __init__(self, unit, timeout_ms=5000, unroll=2, max_paths=4000, deadline=None, seed=0,
                 use_specs=True):
        self.unit = unit
        self.use_specs = use_specs
        self.forced: set = set()
        self.late: dict = {}
        self.needed: set = set()
        self.had_cuts = False
        self.timeout_ms = timeout_ms
        self.unroll = unroll
        self.feas_ms = 1000
        self.max_concrete_iters = 400
        self.max_paths = max_paths
        self.deadline = deadline
        self.trail: list = []
        self.obligations: dict[str, dict] = {}
        self.failures: list = []
        self.unknowns: list = []
        self.undecided: list = []
        self.bounded: set = set()
        self.paths = 0
        self.solver_time = 0.0
        self.covered: set = set()
        self.backends = collections.Counter()
        self.trusted: set = set()
        self.inlined: set = set()
        self.solver_calls = 0

    # ------------------------------------------------------------ running
    variant = 0

    def run(self):
        """A unit may offer several invariants (variants); the obligations count for one of them."""
        first = None
        for self.variant in range(getattr(self.unit, "variants", 1) if self.use_specs else 1):
            if self.variant:
                self._clear()
            self._run()
            if not (self.failures or self.unknowns or self.undecided):
                return self
            keep = {n: type(getattr(self, n))(getattr(self, n)) for n in self._STATE}
            first = first or (keep, self.paths)
        for n, v in first[0].items():
            setattr(self, n, v)
        self.paths = first[1]
        return self

    _STATE = ("late", "needed", "trail", "obligations", "failures", "unknowns", "undecided", "bounded", "covered", "backends")

    def _run(self):
        prev = CUR[0]
        CUR[0] = self
        try:
            while True:
                self._start_path()
                try:
                    self.unit(self)
                    self.reached("end")
                except PathEnd:
                    pass
                except Restart:
                    self._end_path()
                    self._clear()
                    continue
                except Unsupported as ex:
                    self.undecided.append(str(ex))
                    if len(self.undecided) > 5:
                        break
                except (AssertionError, RecursionError, Budget) as ex:
                    self.undecided.append(f"{type(ex).__name__}: {ex}")
                    if isinstance(ex, Budget):
                        break
                except z3.Z3Exception as ex:
                    self.undecided.append(f"z3: {ex}")
                    break
                except Exception as ex:  # a contract harness or model error: undecided
                    import traceback
                    self.undecided.append("harness: " + "".join(
                        traceback.format_exception(type(ex), ex, ex.__traceback__)[-3:]).strip()[-600:])
                    break
                finally:
                    self._end_path()
                self.paths += 1
                if self.paths >= self.max_paths:
                    self.undecided.append(f"path budget {self.max_paths}")
                    break
                if self.deadline and time.time() > self.deadline:
                    self.undecided.append("time budget")
                    break
                if len(self.failures) >= 4:
                    break
                if not self._next():
                    break
            self._settle()
        finally:
            CUR[0] = prev
        return self

    def _clear(self):
        for d in (self.late, self.needed, self.trail, self.obligations, self.failures, self.unknowns, self.undecided,
                  self.bounded, self.covered, self.backends):
            d.clear()
        self.paths = 0

    def later(self, key, label, cond, name):
        """an obligation that counts only when the list `name` turns out to be the result"""
        if self.dead:
            return
        t = z3.simplify(bterm(cond))
        if z3.is_true(t):
            v = ("ok", None)
        else:
            r = self.check(z3.Not(t))
            if r == z3.unknown and self.cvc5_check(z3.Not(t)) == "unsat":
                r = z3.unsat
            v = ("ok", None) if r == z3.unsat else ("bad", {
                "label": label, "values": self.model_values(self.solver.model()), "formula": str(t)[:1500],
                "bounded": sorted(self.bounded)}) if r == z3.sat else ("unknown", None)
        self.late.setdefault((key[0].name, key[1], name), []).append((label, v))

    def need(self, key, name):
        self.needed.add((key[0].name, key[1], name))

    def _settle(self):
        for k in sorted(self.needed, key=str):
            got = self.late.get(k, [])
            if not got:
                self.undecided.append(f"{k}: no iteration of the loop filling the result was verified")
            for label, (v, f) in got:
                rec = self.obligations.setdefault(label, {"instances": 0, "discharged": 0, "refuted": 0, "unknown": 0})
                rec["instances"] += 1
                if v == "ok":
                    rec["discharged"] += 1
                    self.backends["z3"] += 1
                elif v == "bad":
                    rec["refuted"] += 1
                    self.failures.append(f)
                else:
                    rec["unknown"] += 1
                    self.unknowns.append(label)

    def _start_path(self):
        self.pos = 0
        self.counter = 0
        self.names = collections.Counter()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc: list = []
        self.heap: dict = {}
        self.inputs: list = []
        self.contracts: dict = {}
        self.loop_specs: list = []
        self.mut_mark: list = []
        self.cut_loops: list = []
        self.loop_stack: list = []
        self.all_cuts: list = []
        self.acc_names: dict = {}
        self.acc_of: dict = {}  # native list -> the accumulated list that stands for it after a cut loop
        self.born: dict = {}
        self.keep: list = []
        self.now_value = None
        self.uniform_log: list = []
        self.dead = False
        self.nsym_branches = 0
        self.facts: dict = {}
        self.divs: dict = {}
        self.strips: dict = {}
        self.alphabets: dict = {}
        self.intdivs: dict = {}
        self.tsus: dict = {}
        self.cal_cache: dict = {}
        self.cal_axioms: set = set()
        self.cal_days: list = []
        self.cal_parts: dict = {}
        self.ops = 0
        self.exit_stack = contextlib.ExitStack()
        self.events = []

    def _end_path(self):
        self.dead = True
        self.exit_stack.close()

    def _next(self):
        while self.trail:
            v, alts = self.trail[-1]
            if alts:
                self.trail[-1] = (alts[0], alts[1:])
                return True
            self.trail.pop()
        return False

    def tick(self):
        self.ops += 1
        if self.deadline and self.ops % 50 == 0 and time.time() > self.deadline:
            raise Budget("time budget")

    def reached(self, label):
        self.covered.add(label)

    # ------------------------------------------------------------ solver
    def fresh(self, sort, name="v"):
        self.counter += 1
        return z3.Const(f"{name}!{self.counter}", sort)

    def check(self, *extra):
        t0 = time.time()
        self.solver_calls += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t0
        return r

    def assume_term(self, t):
        if z3.is_true(t):
            return
        self.solver.add(t)
        self.pc.append(t)

    def assume(self, c):
        t = bterm(c)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        self.assume_term(t)
        if self.pos < len(self.trail):
            return  # replayed: was found feasible before
        self.solver.set("timeout", self.feas_ms)
        self.solver.set("mbqi", False)
        r = self.check()
        self.solver.set("timeout", self.timeout_ms)
        self.solver.set("mbqi", True)
        if r == z3.unsat:
            raise PathEnd()

    def decide(self, options):
        """Nondeterministic choice among a list of (feasible) options, by replayed trail."""
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
        else:
            v = options[0]
            self.trail.append((v, list(options[1:])))
        self.pos += 1
        return v

    def branch(self, t):
        if self.dead:
            return True
        self.tick()
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.nsym_branches += 1
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
            self.pos += 1
            if v in (True, False):
                self.assume_term(t if v else z3.Not(t))
            elif v == "T":
                v = True
            elif v == "F":
                v = False
            return v
        self.solver.set("timeout", self.feas_ms)
        self.solver.set("mbqi", False)
        rt = self.check(t)
        rf = self.check(z3.Not(t)) if rt != z3.unsat else z3.sat
        self.solver.set("timeout", self.timeout_ms)
        self.solver.set("mbqi", True)
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd()
        if rt == z3.unsat:
            self.trail.append(("F", []))
            self.pos += 1
            return False
        if rf == z3.unsat:
            self.trail.append(("T", []))
            self.pos += 1
            return True
        self.trail.append((True, [False]))
        self.pos += 1
        self.assume_term(t)
        return True

    def truth(self, x):
        if self.acc_of:
            x = self.res(x)
        if isinstance(x, z3.BoolRef):
            return self.branch(x)
        return x if isinstance(x, bool) and not is_sym(x) else bool(x)

    def concretize_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        # try to see whether the path condition fixes it; otherwise case-split over few values
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
            self.pos += 1
            self.assume_term(t == v)
            return v
        vals = []
        s = self.solver
        s.push()
        try:
            while len(vals) < 17:
                if s.check() != z3.sat:
                    break
                v = s.model().eval(t, model_completion=True).as_long()
                vals.append(v)
                s.add(t != v)
        finally:
            s.pop()
        if not vals:
            raise PathEnd()
        if len(vals) > 16:
            raise Unsupported("native use of an unbounded symbolic integer")
        vals.sort()
        self.trail.append((vals[0], vals[1:]))
        self.pos += 1
        self.assume_term(t == vals[0])
        return vals[0]

    def concrete_progress(self, loop):
        return False

    def prove(self, label, cond):
        if self.dead:
            return
        rec = self.obligations.setdefault(label, {"instances": 0, "discharged": 0, "refuted": 0, "unknown": 0})
        rec["instances"] += 1
        t = z3.simplify(bterm(cond))
        if z3.is_true(t):
            rec["discharged"] += 1
            self.backends["simplifier"] += 1
            return
        r = self.check(z3.Not(t))
        backend = "z3"
        if r == z3.unknown:
            who = self.portfolio(z3.Not(t))
            if who:
                r, backend = z3.unsat, who
            else:
                self.solver.set("timeout", self.timeout_ms * 4)
                r = self.check(z3.Not(t))
                self.solver.set("timeout", self.timeout_ms)
        if r == z3.unsat:
            rec["discharged"] += 1
            self.backends[backend] += 1
            if z3.is_false(t):
                raise PathEnd()  # the path itself is infeasible
            self.assume_term(t)
            return
        if r == z3.sat:
            rec["refuted"] += 1
            m = self.solver.model()
            self.failures.append({"label": label, "values": self.model_values(m), "formula": str(t)[:1500],
                                  "bounded": sorted(self.bounded)})
            # stop this path: later obligations would fail for the same reason
            raise PathEnd()
        rec["unknown"] += 1
        self.unknowns.append(label)
        self.assume_term(t)

    def portfolio(self, neg, limit=20):
        """independent solvers on the same query; the name of the first that refutes it"""
        import selectors
        import shutil
        import subprocess
        s = z3.Solver()
        for p in self.pc:
            s.add(p)
        s.add(neg)
        smt = s.to_smt2()
        t0 = time.time()
        jobs = []
        for name, argv, pre in (("z3-new", ["z3-new", "-in", f"-T:{limit}"], ""),
                                ("z3-new/seed", ["z3-new", "-in", f"-T:{limit}", "smt.random_seed=7", "smt.arith.solver=2"], ""),
                                ("z3-4.8", ["z3", "-in", f"-T:{limit}"], ""),
                                ("cvc5", ["cvc5", f"--tlimit={limit * 1000}", "--lang=smt2", "-"], "(set-logic ALL)\n")):
            if shutil.which(argv[0]) is None:
                continue
            try:
                p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     text=True)
                p.stdin.write(pre + smt)
                p.stdin.close()
                jobs.append((name, p))
            except OSError:
                continue
        won = None
        sel = selectors.DefaultSelector()
        for name, p in jobs:
            sel.register(p.stdout, selectors.EVENT_READ, (name, p))
        open_ = len(jobs)
        try:
            while open_ and won is None and time.time() - t0 < limit + 5:
                for key, _ in sel.select(timeout=1):
                    name, p = key.data
                    line = p.stdout.readline().strip()
                    sel.unregister(p.stdout)
                    open_ -= 1
                    if line == "unsat":
                        won = name
                        break
        finally:
            for _, p in jobs:
                p.kill()
                p.wait()
                p.stdout.close()
            sel.close()
        self.solver_time += time.time() - t0
        return won

    def cvc5_check(self, neg):
        return "unsat" if self.portfolio(neg) else "unknown"

    # ------------------------------------------------------------ inputs
    def _uniq(self, name):
        self.names[name] += 1
        return name if self.names[name] == 1 else f"{name}@{self.names[name]}"

    def _input(self, name, kind, term):
        self.inputs.append((name, kind, term))

    def int(self, name, lo=None, hi=None):
        n = self._uniq(name)
        t = z3.Int("in!" + n)
        self._input(n, "int", t)
        if lo is not None:
            self.assume_term(t >= _num(lo))
        if hi is not None:
            self.assume_term(t <= _num(hi))
        return SInt(t)

    def real(self, name, lo=None, hi=None):
        n = self._uniq(name)
        t = z3.Real("in!" + n)
        self._input(n, "real", t)
        if lo is not None:
            self.assume_term(t >= toreal(_num(lo)))
        if hi is not None:
            self.assume_term(t <= toreal(_num(hi)))
        return SReal(t)

    def bool(self, name):
        n = self._uniq(name)
        t = z3.Bool("in!" + n)
        self._input(n, "bool", t)
        return SBool(t)

    def key(self, name, nonempty=False):
        n = self._uniq(name)
        t = z3.Real("in!" + n)
        self._input(n, "key", t)
        self.assume_term(t > 0 if nonempty else t >= 0)
        self.assume_term(t < 1)
        return SKey(t)

    texts_are_bytes = False  # the symbolic texts of this unit stand for bytes

    def text(self, name, maxlen=None, chars=None):
        """any text, or any text over the given characters"""
        n = self._uniq(name)
        t = z3.String("in!" + n)
        self._input(n, "text", t)
        if chars is not None:
            self.alphabets[t.get_id()] = t, frozenset(chars)
            self.assume_term(z3.InRe(t, z3.Star(z3.Union(*[z3.Re(z3.StringVal(c)) for c in chars]))))
        if maxlen is not None:
            self.assume_term(z3.Length(t) <= maxlen)
        return SStr(t)

    def choice(self, name, *options):
        n = self._uniq(name)
        i = self.decide(list(range(len(options))))
        self._input(n, "choice", z3.IntVal(i))
        return options[i]

    def opt(self, name, f):
        return None if self.choice(name + "?", True, False) else f()

    def tz(self, name="tz"):
        n = self._uniq(name)
        t = z3.Int("in!" + n)
        self._input(n, "tz", t)
        self.assume_term(z3.And(t > -DAY, t < DAY, t % (60 * US) == 0))
        return STz(t, n)

    def dt(self, name, tz, lo=None, hi=None):
        n = self._uniq(name)
        t = z3.Int("in!" + n)
        self._input(n, "dt", t)
        # years 2 .. 9998: datetime overflow is outside the contract
        self.assume_term(z3.And(t >= (-719162 + 400) * DAY, t < (2932897 - 400) * DAY))
        return SDt(t, tz)

    def date(self, name):
        n = self._uniq(name)
        t = z3.Int("in!" + n)
        self._input(n, "date", t)
        self.assume_term(z3.And(t >= -719162 + 400, t < 2932897 - 400))
        return SDate(t)

    def digits(self, name, n, like=None):
        """a text of n decimal digits; E.num gives its value"""
        return piece(tuple(self.int(f"{name}.{i}", 0, 9).t for i in range(n)))

    def num(self, text):
        return text.number() if type(text) is DText else int(text)

    def td(self, name, lo=None, hi=None):
        n = self._uniq(name)
        t = z3.Int("in!" + n)
        self._input(n, "td", t)
        if lo is not None:
            self.assume_term(t >= td_us(lo))
        if hi is not None:
            self.assume_term(t <= td_us(hi))
        return STd(t)

    def seq(self, name, codec, gen=None, maxlen=None, long=0):
        n = self._uniq(name)
        s = SSeq.fresh(codec, "in!" + n)
        self._input(n, "seq", s)
        return s

    def obj(self, cls, **attrs):
        o = object.__new__(cls) if not issubclass(cls, _BaseModel()) else cls.__new__(cls)
        if isinstance(o, _BaseModel()):
            object.__setattr__(o, "__dict__", {})
            object.__setattr__(o, "__pydantic_fields_set__", set())
            object.__setattr__(o, "__pydantic_extra__", {})
            object.__setattr__(o, "__pydantic_private__", None)
            for k, fi in cls.model_fields.items():
                if not fi.is_required():
                    o.__dict__[k] = fi.get_default(call_default_factory=True)
        extra = isinstance(o, _BaseModel()) and cls.model_config.get("extra") == "allow"
        if extra:
            object.__setattr__(o, "__pydantic_extra__", {})
        for k, v in attrs.items():
            if extra and k not in cls.model_fields:
                o.__pydantic_extra__[k] = v
            elif isinstance(o, _BaseModel()):
                o.__dict__[k] = v
            else:
                object.__setattr__(o, k, v)
        self.keep.append(o)
        return o

    def stub(self, name, cls=None, /, **attrs):
        return Stub(name, cls, attrs)

    def dict(self, items=(), default_factory=None):
        d = VDict(items, default_factory)
        self.born.setdefault(id(d), len(self.born))
        self.keep.append(d)
        return d

    def list(self, items=()):
        return list(items)

    def set_now(self, v):
        self.now_value = v

    def patch(self, module, name, value):
        """Replace a module-level dependency by a contract stub for the duration of this path."""
        if name in vars(module):
            self.exit_stack.callback(setattr, module, name, vars(module)[name])
        else:
            self.exit_stack.callback(delattr, module, name)
        setattr(module, name, value)

    def contract(self, fn, handler):
        self.contracts[getattr(fn, "__func__", fn)] = handler

    def loop_spec(self, spec):
        self.loop_specs.append(spec)

    def log(self, name="log"):
        return Log(name)

    def foreach(self, name, seq, **k):
        fe = ForEach(name, seq, **k)
        self.loop_specs.append(fe)
        return fe

    def view(self, seq):
        """the sequence as a list that can also be extended"""
        self.pipelines = True
        return FSeq(seq, None, None, 0)

    def search(self, name, seq, holds, **k):
        from .foreach import Search
        fe = Search(name, seq, holds, **k)
        self.loop_specs.append(fe)
        return fe

    def while_(self, name, match, holds, **k):
        w = WhileSpec(name, match, holds, **k)
        self.loop_specs.append(w)
        return w

    def pred(self, f):
        return Pred(f)

    def prove_entries(self, label, sink, want):
        prove_entries(self, label, sink, want)

    def setattr(self, o, n, v):
        if type(o) is not SRef:  # a reference marks its heap component
            self.mutated(o)
        if is_sym(o):
            setattr(o, n, v)
            return
        p = inspect.getattr_static(type(o), n, None)
        if type(p) is property and isinstance(p.fset, types.FunctionType) and self.ours(p.fset):
            self.call(p.fset, o, v)
            return
        setattr(o, n, v)

    def trust(self, what):
        self.trusted.add(what)

    # ------------------------------------------------------------ logic helpers
    def and_(self, *cs):
        return mkbool(z3.And(*[bterm(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return mkbool(z3.Or(*[bterm(c) for c in cs])) if cs else False

    def implies(self, a, b):
        return mkbool(z3.Implies(bterm(a), bterm(b)))

    def iff(self, a, b):
        return mkbool(bterm(a) == bterm(b))

    def neg(self, a):
        return not_(a)

    def forall(self, lo, hi, f):
        """for every integer lo <= i < hi: f(i) -- f receives a raw index"""
        self.counter += 1
        i = z3.Int(f"q!{self.counter}")
        body = bterm(f(SInt(i)))
        return mkbool(z3.ForAll([i], z3.Implies(z3.And(i >= _num(lo), i < _num(hi)), body)))

    def eqv(self, a, b):
        """Python == as a truth value without forking."""
        if self.acc_of:
            a, b = self.res(a), self.res(b)
        if a is b:
            return True
        r = a == b
        if r is NotImplemented:
            return False
        return r

    def ite(self, c, a, b):
        return a if self.truth(c) else b

    # ------------------------------------------------------------ model values
    def model_values(self, m):
        out = {}

        def ev(t):
            return m.eval(t, model_completion=True)

        keyvals = {}
        for n, kind, t in self.inputs:
            try:
                if kind in ("int", "dt", "td", "tz", "choice"):
                    out[n] = ev(t).as_long()
                elif kind == "real":
                    v = ev(t)
                    if not z3.is_rational_value(v):
                        v = v.approx(20)
                    out[n] = [v.numerator_as_long(), v.denominator_as_long()]
                elif kind == "key":
                    v = ev(t)
                    if not z3.is_rational_value(v):
                        v = v.approx(20)
                    keyvals[n] = fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
                    out[n] = {"rank": [v.numerator_as_long(), v.denominator_as_long()]}
                elif kind == "bool":
                    out[n] = z3.is_true(ev(t))
                elif kind == "text":
                    out[n] = ev(t).as_string()
                elif kind == "seq":
                    ln = ev(t.n).as_long()
                    out[n] = {"len": ln}
            except Exception as ex:  # pragma: no cover
                out[n] = {"error": str(ex)}
        return out

    # ------------------------------------------------------------ havoc
    def havoc_like(self, n, v):
        if v is None:
            raise Unsupported(f"havoc of None-valued local {n}: role unknown")
        if isinstance(v, bool) or type(v) is SBool:
            return SBool(self.fresh(z3.BoolSort(), n))
        if type(v) is SInt or (isinstance(v, int) and not is_sym(v)):
            return SInt(self.fresh(z3.IntSort(), n))
        if type(v) is SReal or isinstance(v, float):
            return SReal(self.fresh(z3.RealSort(), n))
        if type(v) is SDt:
            return SDt(self.fresh(z3.IntSort(), n), v.tz)
        if type(v) is STd:
            return STd(self.fresh(z3.IntSort(), n))
        if type(v) is SKey:
            return SKey(self.fresh(z3.RealSort(), n))
        raise Unsupported(f"havoc of local {n}: {type(v).__name__}")

    def mutated(self, o):
        for m in self.mut_mark:
            if self.born.get(id(o), -1) < m.t0:
                m.add(id(o))


    # ------------------------------------------------------------ calendar
    _CAL = {}

    def calendar(self, dt, part):
        """y/m/d as uninterpreted functions of the day number with their range axioms."""
        if part != "isocalendar":
            known = self.clock_part(dt, part)
            if known is not None:
                return known
        d = dt.dayno
        y, mo, da, wk = self._day(d)
        if part == "isocalendar":
            return (self._iso_year(d), SInt(wk), SInt((d + 3) % 7 + 1))
        return SInt({"year": y, "month": mo, "day": da}[part])

    def _day(self, d):
        """year, month, day and week of a day number; days are ordered as their (year, month, day) are"""
        f = {p: z3.Function("cal." + p, z3.IntSort(), z3.IntSort()) for p in ("year", "month", "day", "week")}
        y, mo, da, wk = (f[p](d) for p in ("year", "month", "day", "week"))
        k = d.get_id()
        if k not in self.cal_axioms:
            self.cal_axioms.add(k)
            if z3.is_int_value(d):
                x = _d.date.fromordinal(d.as_long() + 719163)
                self.assume_term(z3.And(y == x.year, mo == x.month, da == x.day, wk == x.isocalendar()[1]))
            ml = self.monthlen(y, mo)
            self.assume_term(z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, da >= 1, da <= ml, wk >= 1, wk <= 53))
            # weekday of the first of the month
            self.assume_term(self.wd1(y, mo) == (d - (da - 1) + 3) % 7)
            for d2 in self.cal_days:
                y2, mo2, da2, _ = self._day(d2)
                for (p, a), (q, b) in (((d, (y, mo, da)), (d2, (y2, mo2, da2))), ((d2, (y2, mo2, da2)), (d, (y, mo, da)))):
                    before = z3.Or(a[0] < b[0], z3.And(a[0] == b[0], z3.Or(a[1] < b[1], z3.And(a[1] == b[1], a[2] < b[2]))))
                    self.assume_term((p < q) == before)
                # within one month, days follow one another
                self.assume_term(z3.Implies(z3.And(y == y2, mo == mo2), d - d2 == da - da2))
            self.cal_days.append(d)
        return y, mo, da, wk

    def daynum(self, y, mo, da):
        """the day number of a (valid) year, month and day"""
        d = z3.Function("cal.num", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())(y, mo, da)
        known = [self.cal_axioms.__contains__(d.get_id())]
        y2, mo2, da2, _ = self._day(d)
        if not known[0]:
            self.assume_term(z3.And(y == y2, mo == mo2, da == da2))
        return d

    def know_parts(self, w, dayno, **parts):
        """w == ((dayno*24 + hour)*60 + minute)*60 + second, in range, without microseconds (or with the given ones).  Such
        datetimes are ordered as their (day, hour, minute, second, microsecond) are (lemma proved by unit c03 `order`)."""
        if w.get_id() in self.cal_parts:
            return
        mine = [dayno, parts["hour"], parts["minute"], parts["second"], parts["microsecond"]]
        for k, (w2, _, p2) in self.cal_parts.items():
            for (p, a), (q, b) in (((w, mine), (w2, p2)), ((w2, p2), (w, mine))):
                self.assume_term((p < q) == lex_less(a, b))
        self.cal_parts[w.get_id()] = (w, dict(parts, dayno=dayno), mine)
        self.keep.append(w)

    def parts_of(self, dt):
        """make the parts of a datetime known"""
        if self.known_parts(dt) is not None:
            return
        i = {n: self.fresh(z3.IntSort(), n) for n in ("year", "month", "day", "hour", "minute", "second", "microsecond")}
        day = self.daynum(i["year"], i["month"], i["day"])
        for n, hi in (("hour", 24), ("minute", 60), ("second", 60), ("microsecond", 1000000)):
            self.assume_term(z3.And(i[n] >= 0, i[n] < hi))
        w = z3.simplify(dt.w)
        self.assume_term(w == day * DAY + ((i["hour"] * 60 + i["minute"]) * 60 + i["second"]) * US + i["microsecond"])
        self.know_parts(w, day, **i)

    def known_parts(self, dt):
        known = self.cal_parts.get(z3.simplify(dt.w).get_id())
        return None if known is None else known[1]

    def clock_part(self, dt, part):
        """the part a datetime was made of, when it was made of parts"""
        known = self.known_parts(dt)
        return None if known is None else SInt(known[part])

    def _iso_year(self, d):
        return SInt(z3.Function("cal.isoyear", z3.IntSort(), z3.IntSort())(d))

    def monthlen(self, y, m):
        leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
        return z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                     z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))

    def wd1(self, y, m):
        return z3.Function("cal.wd1", z3.IntSort(), z3.IntSort(), z3.IntSort())(y, m)

    def dt_text(self, dt, what):
        off = z3.IntVal(0) if dt.tz is None else tzoff(dt.tz)
        I, R = z3.IntSort(), z3.RealSort()
        t = z3.Function(f"text.{what}.{dt.tz is not None}", I, I, R)(dt.w, off)
        if what == "isoformat":  # the text tells the wall clock and the offset
            self.assume_term(z3.And(z3.Function("iso.wall", R, I)(t) == dt.w, z3.Function("iso.off", R, I)(t) == off,
                                    z3.Function("iso.aware", R, z3.BoolSort())(t) == (dt.tz is not None), t != 0))
        return SKey(t)

    def opaque_str(self, op, *a):
        t = self.fresh(z3.RealSort(), "str." + op)
        self.assume_term(z3.And(t >= 0, t < 1))
        return SKey(t)

    # ------------------------------------------------------------ operations used by instrumented code
    def is_(self, a, b):
        if self.acc_of:
            a, b = self.res(a), self.res(b)
        if a is b:
            return True
        if type(a) is SRef or type(a) is STz:
            return a._vc_is(b)
        if type(b) is SRef or type(b) is STz:
            return b._vc_is(a)
        if type(a) is SBool and isinstance(b, bool):
            return a == b
        if type(b) is SBool and isinstance(a, bool):
            return a == b
        return False

    def isnot(self, a, b):
        r = self.is_(a, b)
        return (not r) if isinstance(r, bool) and not is_sym(r) else not_(r)

    def in_(self, a, c):
        if self.acc_of:
            a, c = self.res(a), self.res(c)
        if hasattr(type(c), "_vc_contains"):
            return c._vc_contains(a)
        if is_sym(a) and isinstance(c, (set, frozenset)):
            return any(self.truth(self.eqv(a, x)) for x in sorted(c, key=repr))
        if is_sym(a) and isinstance(c, dict) and not is_sym(c):
            return any(self.truth(self.eqv(a, x)) for x in c)
        if is_sym(a) and isinstance(c, str) and not is_sym(c):
            if type(a) is SStr:
                return mkbool(z3.Contains(z3.StringVal(c), a.t))
            from .values import text_in
            return text_in(a.t, a._o(c))
        if type(c) is SSeq:
            n = c.n
            self.counter += 1
            i = z3.Int(f"m!{self.counter}")
            enc = c.codec.encode(a)
            return mkbool(z3.Exists([i], z3.And(i >= 0, i < n, *[x == y for x, y in zip(c.get(i), enc)])))
        fn = getattr(type(c), "__contains__", None)
        if isinstance(fn, types.FunctionType) and self.ours(fn):
            return self.call(types.MethodType(fn, c), a)
        return a in c

    def notin(self, a, c):
        r = self.in_(a, c)
        return (not r) if isinstance(r, bool) and not is_sym(r) else not_(r)

    def eq(self, a, b):
        if self.acc_of:
            a, b = self.res(a), self.res(b)
        for x, y in ((a, b), (b, a)):
            if not is_sym(x) and not is_sym(y):
                fn = getattr(type(x), "__eq__", None)
                if isinstance(fn, types.FunctionType) and self.ours(fn):
                    r = self.call(types.MethodType(fn, x), y)
                    if r is not NotImplemented:
                        return r
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not is_sym(a) and not is_sym(b):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.and_(r, self.eq(x, y))
            return r
        return a == b

    def ne(self, a, b):
        if not is_sym(a) and isinstance(getattr(type(a), "__ne__", None), types.FunctionType):
            fn = type(a).__ne__
            return self.call(types.MethodType(fn, a), b) if self.ours(fn) else fn(a, b)
        r = self.eq(a, b)
        return (not r) if isinstance(r, bool) and not is_sym(r) else not_(r) if isinstance(r, (bool, SBool)) else not r

    def not_(self, x):
        if self.acc_of:
            x = self.res(x)
        if type(x) is SBool:
            return not_(x)
        if hasattr(type(x), "__bool__") or hasattr(type(x), "__len__"):
            fn = getattr(type(x), "__bool__", None)
            if isinstance(fn, types.FunctionType) and self.ours(fn):
                return not self.truth(self.call(types.MethodType(fn, x)))
        return not x

    def binop(self, op, a, b):
        if self.acc_of:
            a, b = self.res(a), self.res(b)
        import operator
        f = _OPS[op]
        if op == "Mod" and isinstance(a, str) and not is_sym(a) and self.has_sym(b):
            return self.opaque_str("%", a, b)
        return f(a, b)

    def iop(self, op, a, b):
        if self.acc_of:
            a, b = self.res(a), self.res(b)
        if isinstance(a, list) and not is_sym(a) and op == "Add" and type(b) is SSeq:
            raise Unsupported("list += symbolic list")
        f = _IOPS[op]
        return f(a, b)

    def getitem(self, o, k):
        if self.acc_of:
            o = self.res(o)
        if hasattr(type(o), "_vc_getitem"):
            return o._vc_getitem(k)
        if is_sym(k) and isinstance(o, dict):
            for kk in o:
                if self.truth(self.eqv(k, kk)):
                    return o[kk]
            miss = getattr(type(o), "__missing__", None)
            if miss is not None:
                return miss(o, k)
            raise KeyError(k)
        fn = getattr(type(o), "__getitem__", None)
        if isinstance(fn, types.FunctionType) and self.ours(fn):
            return self.call(types.MethodType(fn, o), k)
        if type(k) is SInt and isinstance(o, (list, tuple)):
            for i in range(-len(o), len(o)):
                if self.branch(k.t == i):
                    return o[i]
            raise IndexError("list index out of range")
        return o[k]

    def setitem(self, o, k, v):
        if self.acc_of:
            o = self.res(o)
        if hasattr(type(o), "_vc_setitem"):
            return o._vc_setitem(k, v)
        if is_sym(k) and isinstance(o, dict):
            for kk in o:
                if self.truth(self.eqv(k, kk)):
                    o[kk] = v
                    return
            raise Unsupported("symbolic key into a native dict")
        fn = getattr(type(o), "__setitem__", None)
        if isinstance(fn, types.FunctionType) and self.ours(fn):
            return self.call(types.MethodType(fn, o), k, v)
        self.mutated(o)
        o[k] = v

    def delitem(self, o, k):
        if self.acc_of:
            o = self.res(o)
        if hasattr(type(o), "_vc_delitem"):
            return o._vc_delitem(k)
        self.mutated(o)
        if is_sym(k) and isinstance(o, dict):
            for kk in list(o):
                if self.truth(self.eqv(k, kk)):
                    del o[kk]
                    return
            raise KeyError(k)
        del o[k]

    def slice(self, a, b, c):
        return slice(a, b, c)

    def star(self, x):
        return list(self.concrete_iter(x))

    def iter(self, x):
        return self.concrete_iter(x)

    def concrete_iter(self, x):
        if self.acc_of:
            x = self.res(x)
        if type(x) is SSeq or isinstance(x, SymIter):
            return self.native_iter(x if type(x) is SSeq else x.seq, getattr(x, "wrap", None))
        if type(x) is Comp:
            return x.native()
        fn = getattr(type(x), "__iter__", None)
        if isinstance(fn, types.FunctionType) and self.ours(fn):
            return self.call(types.MethodType(fn, x))
        return x

    def native_iter(self, s, wrap=None):
        """bounded enumeration of a symbolic sequence"""
        n = z3.simplify(s.n)
        s = s.copy()
        if z3.is_int_value(n):
            for j in range(n.as_long()):
                yield wrap(z3.IntVal(j), s.at(z3.IntVal(j))) if wrap else s.at(z3.IntVal(j))
            return
        j = 0
        while self.branch(s.n > j):
            if j >= self.unroll:
                self.bounded.add(f"enumeration of {s.name} bounded to {self.unroll}")
                raise PathEnd()
            yield wrap(z3.IntVal(j), s.at(z3.IntVal(j))) if wrap else s.at(z3.IntVal(j))
            j += 1

    def unpack(self, v, n):
        if self.acc_of:
            v = self.res(v)
        if isinstance(v, (tuple, list)) and not is_sym(v):
            return v
        if type(v) is SSeq:
            if not self.branch(v.n == n):
                raise ValueError("unpack")
            return [v.at(z3.IntVal(i)) for i in range(n)]
        return v

    def mklist(self, x):
        self.born.setdefault(id(x), len(self.born))
        self.keep.append(x)
        return x

    def mkset(self, x):
        if any(is_sym(k) for k in x):
            return VSet(x)
        return set(x)

    def mkdict(self, items):
        d = VDict()
        self.born.setdefault(id(d), len(self.born))
        self.keep.append(d)
        for it in items:
            if it[0]:
                for k in it[1].keys():
                    d[k] = it[1][k]
            else:
                d[it[1]] = it[2]
        if not any(is_sym(k) for k, _ in d.items_) and not any(True for _ in ()):
            return d
        return d

    def fmt(self, v, conversion, spec):
        if self.has_sym(v):
            if conversion in (114, 97):
                v = FText(("repr", v))
            if spec and type(v) is DText:
                m = re.fullmatch(r"(?:(.)?([<>]))?(\d*)s?", spec if isinstance(spec, str) else "?", re.S)
                if m is None or m[3].startswith("0") and not m[2]:
                    raise Unsupported(f"format {spec} of a text")
                return (v.rjust if m[2] == ">" else v.ljust)(int(m[3] or 0), m[1] or " ")
            if spec:
                return FText((f"format {spec}", v))
            return v if is_sym(v) else "<sym>"
        if conversion == 114:
            v = repr(v)
        elif conversion == 115:
            v = str(v)
        return format(v, spec if isinstance(spec, str) else str(spec))

    def fstr(self, *parts):
        if any(type(p) is SStr for p in parts) and all(isinstance(p, str) for p in parts):
            if not any(type(p) is SKey for p in parts):
                ts = [SStr.term(p) for p in parts]
                return SStr(z3.Concat(*ts) if len(ts) > 1 else ts[0])
        if any(type(p) is DText for p in parts) and all(cells_of(p) is not None for p in parts):
            return piece(c for p in parts for c in cells_of(p))
        if any(is_sym(p) for p in parts):
            return FText(parts)
        return "".join(parts)

    def comp(self, kind, it, cond, elt, arity):
        if self.acc_of:
            it = self.res(it)
        if type(it) is SSeq and z3.is_int_value(z3.simplify(it.n)):
            it = list(self.native_iter(it))
        if self.pipelines and self.use_specs and kind in ("list", "gen") and (type(it) is SSeq or type(it) is FSeq):
            return FSeq(it, cond, elt, arity)
        if type(it) is FSeq:
            it = it.native()
        if type(it) is SSeq or isinstance(it, SymIter):
            c = Comp(self, it, cond, elt, arity, kind)
            if kind == "list":
                r = c.as_seq()
                if r is not None:
                    return r
                r = c.by_contract()
                if r is not None:
                    return r
            if kind in ("list",):
                return list(c.native())
            if kind == "gen":
                return c
            if kind == "set":
                return self.mkset(list(c.native()))
            if kind == "dict":
                return self.mkdict([(False, k, v) for k, v in c.native()])
        if type(it) is Comp:
            it = it.native()

        def gen():
            for x in self.concrete_iter(it):
                args = tuple(x) if arity else (x,)
                if arity and len(args) != arity:
                    raise ValueError("unpack")
                if cond is None or self.truth(cond(*args)):
                    yield elt(*args)

        if kind == "gen":
            return gen()
        if kind == "list":
            return self.mklist(list(gen()))
        if kind == "set":
            return self.mkset(list(gen()))
        return self.mkdict([(False, k, v) for k, v in gen()])

    def guard(self, ex):
        if isinstance(ex, (PathEnd, Unsupported, Budget)):
            raise ex
        if isinstance(ex, UnboundLocalError) and any(isinstance(x.spec, (ForEach, WhileSpec)) for x in self.all_cuts):
            raise Unsupported(f"a local is carried between iterations: {ex}")

    def res(self, x):
        return self.acc_of.get(id(x), x) if type(x) is list else x

    def loop(self, key, ordinal, kind, iterable, mod, inpl=()):
        if self.acc_of:
            iterable = self.res(iterable)
        return Loop(self, key, ordinal, kind, iterable, mod, inpl)

    def ours(self, fn):
        m = getattr(fn, "__module__", None) or ""
        return m == PKG or m.startswith(PKG + ".")

    def getattr(self, o, n):
        if is_sym(o):
            try:
                return getattr(o, n)
            except AttributeError:
                c = getattr(o, "__class__", None)
                if c in _BUILTIN and hasattr(c, n):
                    raise Unsupported(f"{c.__name__}.{n} of a symbolic value")
                raise
        t = type(o)
        if t is types.ModuleType or t is Stub:
            return getattr(o, n)
        try:
            p = inspect.getattr_static(t, n)
        except AttributeError:
            p = None
        if type(p) is property and isinstance(p.fget, types.FunctionType) and self.ours(p.fget):
            return self.call(p.fget, o)
        if p is None and not isinstance(o, type):
            ga = getattr(t, "__getattr__", None)
            if isinstance(ga, types.FunctionType) and self.ours(ga) and n not in getattr(o, "__dict__", {}):
                return self.call(types.MethodType(ga, o), n)
        return getattr(o, n)

    def has_sym(self, x, depth=3):
        if is_sym(x) or type(x) in (Comp, FText, VSet):
            return True
        if depth and isinstance(x, (tuple, list, set, frozenset, collections.deque)):
            return any(self.has_sym(y, depth - 1) for y in x)
        if depth and isinstance(x, dict):
            return any(self.has_sym(k, depth - 1) or self.has_sym(v, depth - 1) for k, v in x.items())
        return False

    # ------------------------------------------------------------ calls
    def call(self, f, *a, **k):
        self.tick()
        a = tuple(a)
        if self.acc_of:
            a = tuple(self.res(x) for x in a)
            k = {n: self.res(x) for n, x in k.items()}
            if type(getattr(f, "__self__", None)) is list and id(f.__self__) in self.acc_of:
                f = getattr(self.acc_of[id(f.__self__)], f.__name__)
        # contracts
        base = getattr(f, "__func__", f)
        try:
            h = self.contracts.get(base)
        except TypeError:
            h = None
        if h is not None:
            args = (f.__self__,) + a if isinstance(f, types.MethodType) else a
            return h(*args, **k)
        tf = type(f)
        if tf is SRef:
            if f.pop.call is None:
                raise Unsupported(f"call of a {f.pop.name} reference")
            return f.pop.call(f, *a, **k)
        if tf is types.MethodType:
            fn = f.__func__
            if isinstance(fn, types.FunctionType) and self.ours(fn):
                return self.invoke(fn, (f.__self__,) + a, k)
            if fn in MODELS:
                return MODELS[fn](self, *((f.__self__,) + a), **k)
            if (getattr(fn, "__module__", None) or "").startswith(("contracts", "pyvc", "__main__")):
                return f(*a, **k)
            if isinstance(f.__self__, Sym) or is_sym(f.__self__) or type(f.__self__) in (Stub, FText, VSet, Comp):
                return f(*a, **k)
            if isinstance(f.__self__, logging.Logger):
                self.trust("logging has no effect on results")
                return None
            if isinstance(f.__self__, type) and f.__self__ in CLASSMETHODS and f.__name__ in CLASSMETHODS[f.__self__]:
                return CLASSMETHODS[f.__self__][f.__name__](self, *a, **k)
        elif tf is types.FunctionType:
            if f.__code__ in transform.INSTRUMENTED:
                return f(*a, **k)
            if f in MODELS:
                return MODELS[f](self, *a, **k)
            if self.ours(f):
                return self.invoke(f, a, k)
            if getattr(f, "_vc_stub", False) or (f.__module__ or "").startswith(("contracts", "pyvc", "__main__")):
                return f(*a, **k)
        elif isinstance(f, type):
            return self.instantiate(f, a, k)
        elif tf is Stub:
            return f(*a, **k)
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, *a, **k)
        s = getattr(f, "__self__", None)
        if isinstance(s, re.Pattern) and a and type(a[0]) is DText:
            return pattern_call(s, f.__name__, *a, **k)
        if tf is types.BuiltinFunctionType or tf is types.MethodWrapperType or tf.__name__ == "builtin_function_or_method":
            if isinstance(s, type) and s in CLASSMETHODS and f.__name__ in CLASSMETHODS[s]:
                return CLASSMETHODS[s][f.__name__](self, *a, **k)
            if isinstance(s, (list, collections.deque)) and not is_sym(s):
                if f.__name__ not in ("copy", "index", "count"):
                    self.mutated(s)
                if f.__name__ in ("append", "insert", "pop", "extend", "clear", "popleft", "appendleft", "reverse",
                                  "copy", "remove", "index", "count", "sort"):
                    if f.__name__ == "extend":
                        a = (list(self.concrete_iter(a[0])),)
                    if f.__name__ == "sort" and self.has_sym(s):
                        raise Unsupported("list.sort of symbolic values")
                    return f(*a, **k)
            if isinstance(s, dict):
                if f.__name__ not in ("get", "items", "keys", "values", "copy"):
                    self.mutated(s)
                if f.__name__ in ("get", "pop", "setdefault") and a and is_sym(a[0]):
                    for kk in list(s):
                        if self.truth(self.eqv(a[0], kk)):
                            return f(kk, *a[1:])
                    if f.__name__ == "setdefault":
                        raise Unsupported("symbolic key into a native dict")
                    if f.__name__ == "pop" and len(a) < 2:
                        raise KeyError(a[0])
                    return a[1] if len(a) > 1 else None
                if f.__name__ in ("get", "pop", "setdefault", "items", "keys", "values", "clear", "update", "copy"):
                    return f(*a, **k)
            if isinstance(s, set):
                self.mutated(s)
                if a and is_sym(a[0]):
                    raise Unsupported("symbolic member of a native set")
                return f(*a, **k)
            if isinstance(s, str) and not is_sym(s) and any(type(x) is SStr or isinstance(x, tuple) and any(type(y) is SStr for y in x)
                                                            for x in a) and hasattr(SStr, f.__name__):
                return getattr(SStr(z3.StringVal(s)), f.__name__)(*a, **k)
            if s == b"" and f.__name__ == "join":
                parts = list(self.concrete_iter(a[0]))
                if parts and all(type(p) is SStr for p in parts):
                    out = parts[0]
                    for p in parts[1:]:
                        out = out + p
                    return out
                a = (parts,)
            if isinstance(s, str) and f.__name__ == "join":
                parts = list(self.concrete_iter(a[0]))
                if any(type(p) is SStr for p in parts) and all(type(p) is SStr or isinstance(p, str) and not is_sym(p) for p in parts):
                    out = parts[0]
                    for p in parts[1:]:
                        out = out + s + p
                    return out
                if parts and all(cells_of(p) is not None for p in parts):
                    out = parts[0]
                    for p in parts[1:]:
                        out = out + s + p
                    return out
                if any(is_sym(p) or type(p) is FText for p in parts):
                    return FText([x for i, p in enumerate(parts) for x in ((s, p) if i else (p,))])
                return s.join(parts)
            if isinstance(s, str) and f.__name__ == "format" and self.has_sym((a, k)):
                return self.opaque_str("format")
            if isinstance(s, _d.datetime) and self.has_sym((a, k)):
                return getattr(SDt.of(s), f.__name__)(*a, **k)
        if tf is types.MethodDescriptorType and f.__objclass__ is str and a and type(a[0]) is DText:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if isinstance(s, BaseException) and getattr(f, "__name__", "") == "__init__":
            return f(*a, **k)
        if isinstance(f, functools.partial):
            return self.call(f.func, *f.args, *a, **{**f.keywords, **k})
        cm = getattr(type(f), "__call__", None)
        if isinstance(cm, types.FunctionType) and self.ours(cm):
            return self.invoke(cm, (f,) + a, k)
        if self.has_sym(a) or self.has_sym(k) or is_sym(s):
            if isinstance(s, Sym) or is_sym(s):
                return f(*a, **k)
            raise Unsupported(f"call of {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)} on symbolic values")
        return f(*a, **k)

    def invoke(self, fn, a, k):
        if fn in MODELS:
            return MODELS[fn](self, *a, **k)
        w = getattr(fn, "__wrapped__", None)
        if w is not None and isinstance(w, types.FunctionType) and inspect.isgeneratorfunction(w) \
                and fn.__code__.co_filename.endswith("contextlib.py"):
            self.inlined.add(f"{w.__module__}:{w.__qualname__}")
            deco = contextlib.asynccontextmanager if inspect.isasyncgenfunction(w) else contextlib.contextmanager
            return deco(transform.instrument(w, VCI))(*a, **k)
        try:
            new = transform.instrument(fn, VCI)
        except transform.ExtractionError as ex:
            if not self.has_sym(a) and not self.has_sym(k):
                return fn(*a, **k)
            raise Unsupported(str(ex))
        self.inlined.add(f"{fn.__module__}:{fn.__qualname__}")
        return new(*a, **k)

    def instantiate(self, cls, a, k):
        h = CLASSES.get(cls)
        if h is not None:
            return h(self, *a, **k)
        if issubclass(cls, BaseException):
            return cls(*[x if not self.has_sym(x) else x for x in a], **k) if not self._ours_init(cls) \
                else self._plain(cls, a, k)
        if self.ours(cls):
            if issubclass(cls, _BaseModel()):
                return self._pydantic(cls, a, k)
            if dataclasses_is(cls) or issubclass(cls, __import__("enum").Enum):
                if issubclass(cls, __import__("enum").Enum):
                    if a and is_sym(a[0]):
                        for mem in cls:
                            if self.truth(self.eqv(a[0], mem.value)):
                                return mem
                        raise ValueError("enum")
                    return cls(*a, **k)
                return cls(*a, **k)
            return self._plain(cls, a, k)
        if not self.has_sym(a) and not self.has_sym(k):
            return cls(*a, **k)
        raise Unsupported(f"constructor {cls.__module__}.{cls.__qualname__} on symbolic values")

    def _ours_init(self, cls):
        return isinstance(cls.__init__, types.FunctionType) and self.ours(cls.__init__)

    def _plain(self, cls, a, k):
        new = cls.__new__
        o = new(cls) if new is object.__new__ or issubclass(cls, BaseException) else new(cls, *a, **k)
        self.keep.append(o)
        self.born.setdefault(id(o), len(self.born))
        init = cls.__init__
        if isinstance(init, types.FunctionType) and self.ours(init):
            self.invoke(init, (o,) + a, k)
        elif init is not object.__init__:
            init(o, *a, **k)
        return o

    def _pydantic(self, cls, a, k):
        o = cls.__new__(cls)
        self.keep.append(o)
        self.born.setdefault(id(o), len(self.born))
        init = cls.__init__
        if isinstance(init, types.FunctionType) and self.ours(init):
            self.invoke(init, (o,) + a, k)
        else:
            self.pydantic_init(o, **k)
        return o

    def pydantic_init(self, o, **data):
        """pydantic's BaseModel.__init__: fields take the given value or their default (validation trusted)."""
        cls = type(o)
        if not self.has_sym(data, 4) and not any(isinstance(v, Stub) for v in data.values()):
            for kk, v in list(data.items()):
                if type(v) is VDict:
                    data[kk] = dict(v.items_)
            _BaseModel().__init__(o, **data)
            return
        self.trust("pydantic: a model built from accepted values stores them unchanged")
        d = {}
        for n, fi in cls.model_fields.items():
            if n in data:
                d[n] = data.pop(n)
            elif fi.is_required():
                raise TypeError(f"missing {n}")
            else:
                d[n] = fi.get_default(call_default_factory=True)
        extra = {}
        if cls.model_config.get("extra") == "allow":
            extra = dict(data)
        object.__setattr__(o, "__dict__", d)
        object.__setattr__(o, "__pydantic_fields_set__", set(d))
        object.__setattr__(o, "__pydantic_extra__", extra)
        object.__setattr__(o, "__pydantic_private__", None)

    def run_call(self, f, *a, **k):
        """E.call for harnesses: run real code, capture its outcome."""
        try:
            r = self.call(f, *a, **k)
            if inspect.iscoroutine(r):
                r = self.drive(r)
            return Outcome(value=self.res(r))
        except (PathEnd, Unsupported, Budget, Restart, KeyboardInterrupt):
            raise
        except AssertionError as ex:
            self.note_exc(ex)
            return Outcome(exc=ex)
        except BaseException as ex:
            self.note_exc(ex)
            limit = harness_limit(ex, self.keep)
            if limit:
                raise Unsupported(limit)
            if isinstance(ex, UnboundLocalError) and any(isinstance(x.spec, (ForEach, WhileSpec)) for x in self.all_cuts):
                raise Unsupported(f"a local is carried between iterations: {ex}")
            if isinstance(ex, (SystemExit, GeneratorExit, z3.Z3Exception)):
                raise
            if isinstance(ex, RecursionError):
                raise
            tb = ex.__traceback__
            last = None
            while tb is not None:
                last = tb
                tb = tb.tb_next
            fnm = last.tb_frame.f_code.co_filename if last else ""
            if isinstance(ex, (AttributeError, NameError)) and fnm.endswith(("/values.py", "/dtext.py", "/models.py")) and "/pyvc/" in fnm:
                import linecache
                if not linecache.getline(fnm, last.tb_lineno).strip().startswith("raise"):
                    raise Unsupported(f"model: {ex}")  # an error of the model itself
            if isinstance(ex, (AttributeError, TypeError, NameError)) and "/pyvc/" in fnm and not getattr(
                    ex, "_vc_user", False):
                import traceback
                txt = traceback.format_exception_only(type(ex), ex)[-1].strip()
                # an operation the proxies do not implement is a tool limit, never a violation
                if "sym" in txt or "proxy" in txt or "S" in txt:
                    self.pending_tool_limit = txt
                    if "has no attribute" in txt or "unsupported operand" in txt or "NoneType" in txt \
                            or "not supported between" in txt or "can't compare" in txt:
                        return Outcome(exc=ex)
                    raise Unsupported("proxy: " + txt)
            return Outcome(exc=ex)

    debug = False

    def note_exc(self, ex):
        if self.debug:
            import traceback
            self.excs = getattr(self, "excs", [])[-5:]
            self.excs.append("".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-5:]))

    def drive(self, coro):
        try:
            coro.send(None)
        except StopIteration as ex:
            return ex.value
        raise Unsupported("coroutine suspended")


class Stub:
    """A collaborator known only by its contract: attributes and method handlers given by the harness."""

    def __init__(self, name, cls, attrs):
        self.__dict__["_vc_name"] = name
        self.__dict__["_vc_cls"] = cls
        self.__dict__.update(attrs)

    @property
    def __class__(self):
        return self.__dict__["_vc_cls"] or Stub

    def __call__(self, *a, **k):
        f = self.__dict__.get("call")
        if f is None:
            raise TypeError("not callable")
        return f(*a, **k)

    def __enter__(self):
        f = self.__dict__.get("enter")
        return f() if f else self

    def __exit__(self, *exc):
        f = self.__dict__.get("exit")
        return f(*exc) if f else None

    def __getattr__(self, n):
        cls = self.__dict__.get("_vc_cls")
        if cls is not None and not n.startswith("__") and hasattr(cls, n):
            v = inspect.getattr_static(cls, n)
            if isinstance(v, property):
                e = CUR[0]
                return e.call(v.fget, self) if e is not None and e.sym else v.fget(self)
            if isinstance(v, types.FunctionType):
                return types.MethodType(v, self)
            if not isinstance(v, (staticmethod, classmethod)):
                return getattr(cls, n)
        if CUR[0] is not None and CUR[0].sym and not n.startswith("__"):
            raise AttributeError(f"{self.__dict__['_vc_name']} has no attribute {n!r}")
        raise AttributeError(n)

    def __repr__(self):
        return f"<{self.__dict__['_vc_name']}>"


_BUILTIN = (int, float, bool, str, bytes, list, tuple, dict, set, frozenset, collections.deque, _d.datetime, _d.date, _d.time, _d.timedelta)


class FText:
    """A string built from symbolic parts: only its parts are known."""

    _vc_sym = True

    def __init__(self, parts):
        self.parts = tuple(parts)

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is FText and len(o.parts) == len(self.parts):
            r = True
            for x, y in zip(self.parts, o.parts):
                r = CUR[0].and_(r, CUR[0].eqv(x, y))
            return r
        raise Unsupported("== on a formatted string")

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __str__(self):
        return "".join(p if isinstance(p, str) and not is_sym(p) else "<sym>" for p in self.parts)

    __repr__ = __str__

    def __format__(self, s):
        return str(self)

    def __bool__(self):
        if any(isinstance(p, str) and not is_sym(p) and p for p in self.parts):
            return True
        raise Unsupported("truth of a formatted string")

    def __add__(self, o):
        return FText(self.parts + (o,))

    def __radd__(self, o):
        return FText((o,) + self.parts)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"str.{n} on a formatted string")


class VSet:
    _vc_sym = True

    def __init__(self, items=()):
        self.l = []
        for x in items:
            self.add(x)

    @property
    def __class__(self):
        return set

    def add(self, x):
        if not self.has(x):
            self.l.append(x)
            CUR[0].mutated(self)

    def has(self, x):
        return any(CUR[0].truth(CUR[0].eqv(x, y)) for y in self.l)

    def __contains__(self, x):
        return self.has(x)

    def discard(self, x):
        self.l = [y for y in self.l if not CUR[0].truth(CUR[0].eqv(x, y))]

    def remove(self, x):
        if not self.has(x):
            raise KeyError(x)
        self.discard(x)

    def update(self, xs):
        for x in CUR[0].concrete_iter(xs):
            self.add(x)

    def __iter__(self):
        return iter(list(self.l))

    def __len__(self):
        return len(self.l)

    __hash__ = Sym.__hash__


class Comp:
    """A comprehension over a symbolic sequence, kept as (source, condition, element)."""

    _vc_sym = True

    def __init__(self, e, it, cond, elt, arity, kind):
        self.e, self.it, self.cond, self.elt, self.arity, self.kind = e, it, cond, elt, arity, kind
        self.seq = it.seq if isinstance(it, SymIter) else it
        self.wrap = it.wrap if isinstance(it, SymIter) else None

    def args(self, i):
        x = self.seq.at(i)
        if self.wrap:
            x = self.wrap(i, x)
        return tuple(x) if self.arity else (x,)

    def native(self):
        for x in self.e.native_iter(self.seq, self.wrap):
            args = tuple(x) if self.arity else (x,)
            if self.cond is None or self.e.truth(self.cond(*args)):
                yield self.elt(*args)

    def by_contract(self):
        """a list comprehension as a for-each loop appending to a fresh list"""
        e = self.e
        if not e.use_specs:
            return None
        L = Loop(e, "comprehension", 0, "for", self.it, ("result",), ("result",))
        if type(L.spec) is not ForEach:
            return None
        loc = {"result": e.mklist([])}
        L.head(loc)
        acc = L.values["result"]
        if L.done():
            L.leave()
            return acc
        x = L.item()
        args = tuple(x) if self.arity else (x,)
        if self.cond is None or e.truth(self.cond(*args)):
            acc.append(self.elt(*args))
        L.head({"result": acc})
        raise AssertionError

    def as_seq(self):
        """An unfiltered map over a sequence of references is again a sequence when the element is a
        component of the source tuple."""
        if self.cond is not None:
            return None
        e = self.e
        codec = self.seq.codec
        probe = z3.Int("probe!")
        raws = self.seq.get(probe)
        parts = getattr(codec, "parts", None)
        if parts is None:
            parts_c, offs = (codec,), (0,)
        else:
            parts_c, offs, o = parts, [], 0
            for c in parts:
                offs.append(o)
                o += len(c.sorts)
        marks = tuple(_Mark(i) for i in range(len(parts_c)))
        x = marks[0] if parts is None else marks
        try:
            r = self.elt(*(x if self.arity else (x,)))
        except (Unsupported, Exception):
            return self.pointwise()
        if type(r) is _Mark:
            j = r.i
            c = parts_c[j]
            o, n, g = offs[j], len(c.sorts), self.seq.get
            return SSeq(c, self.seq.n, lambda i: g(i)[o:o + n], self.seq.name + ".map")
        return self.pointwise()

    def pointwise(self):
        """An unfiltered map whose element is evaluated for one arbitrary position without any case split, effect or new
        unknown is the sequence of those values."""
        e = self.e
        if not e.use_specs or self.arity and self.wrap is None and getattr(self.seq.codec, "parts", None) is None:
            return None
        if e.pos < len(e.trail):
            mark = e.trail[e.pos][0]
            e.pos += 1
            if mark == "no map":
                return None
            if mark == "empty":
                return []
            return self._pointwise()
        at = e.pos
        if e.check(self.seq.n > 0) == z3.unsat:
            e.trail.append(("empty", []))
            e.pos += 1
            return []
        e.trail.append(("map", []))
        e.pos += 1
        r = self._pointwise()
        if r is None:
            del e.trail[at:]
            e.trail.append(("no map", []))
            e.pos = at + 1
        return r

    def _pointwise(self):
        e = self.e
        at, counter, pc = e.pos, e.counter, len(e.pc)
        muts = Muts(len(e.born))
        e.mut_mark.append(muts)
        e.solver.push()
        try:
            j = z3.Int(f"any!{at}")
            e.assume_term(z3.And(j >= 0, j < self.seq.n))
            r = self.elt(*self.args(j))
            codec = codec_of(r)
            if codec is None or muts or e.counter != counter or any(t[0] not in ("T", "F") for t in e.trail[at:e.pos]):
                return None
            terms = codec.encode(r)
        except (Unsupported, PathEnd, Exception):
            return None
        finally:
            e.solver.pop()
            del e.pc[pc:]
            e.mut_mark = [m for m in e.mut_mark if m is not muts]
        return SSeq(codec, self.seq.n, lambda i: tuple(z3.substitute(t, (j, i)) for t in terms), self.seq.name + ".map")


def codec_of(v):
    """a codec for values like v"""
    from .values import BoolC, DtC, IntC, KeyC, RealC, TupleC
    t = type(v)
    if t is SRef:
        return v.pop.codec()
    if t in (SKey, SInt, SReal, SBool):
        return {SKey: KeyC, SInt: IntC, SReal: RealC, SBool: BoolC}[t]
    if t is SDt:
        return DtC(v.tz)
    if t is tuple:
        cs = [codec_of(x) for x in v]
        return None if None in cs else TupleC(*cs)
    return None


class FSeq(Sym):
    """A filtered and mapped view of a sequence of unknown length, perhaps sorted: what comprehensions and sorted()
    produce when the harness asks for pipelines.  Conditions and elements are evaluated for arbitrary elements."""

    def __init__(self, base, cond, elt, arity, order=None):
        self.base, self.cond, self.elt, self.arity, self.order = base, cond, elt, arity, order
        self.part = None
        self.tail = []
        if type(base) is FSeq and base.tail:
            raise Unsupported("view of an extended view")

    @property
    def __class__(self):
        return list

    @property
    def source(self):
        return self.base if type(self.base) is SSeq else self.base.source

    def args(self, x):
        return tuple(x) if self.arity else (x,)

    def at(self, i):
        """(kept?, element) for element i of the source"""
        if type(self.base) is SSeq:
            x = self.base.at(i)
        else:
            kept, x = self.base.at(i)
            if not kept:
                return False, None
        if self.part:
            # a slice keeps some of the elements, nothing is known about which
            k = str(i)
            if k not in self.part:
                self.part[k] = CUR[0].branch(CUR[0].fresh(z3.BoolSort(), "kept"))
            if not self.part[k]:
                return False, None
        if self.elt is None:
            return True, x
        a = self.args(x)
        if self.cond is not None and not CUR[0].truth(self.cond(*a)):
            return False, None
        return True, self.elt(*a)

    def plain(self):
        """the sequence this is an unchanged view of"""
        same = self.elt is None and not self.part and not self.tail and self.order is None
        return None if not same else self.base if type(self.base) is SSeq else self.base.plain()

    @property
    def version(self):
        return id(self.base), len(self.tail)

    def orders(self):
        """the sorts applied, the latest first"""
        rest = self.base.orders() if type(self.base) is FSeq else []
        return ([self.order] if self.order else []) + rest

    def native(self):
        raise Unsupported("enumeration of a filtered sequence")

    def sorted(self, key=None, reverse=False):
        return FSeq(self, None, None, 0, (key, reverse))

    def sort(self, key=None, reverse=False):
        if self.tail or self.part:
            raise Unsupported("sort of an extended view")
        self.base = FSeq(self.base, self.cond, self.elt, self.arity, self.order)
        self.cond = self.elt = None
        self.order = (key, reverse)

    def _vc_getitem(self, k):
        if isinstance(k, slice) and k == slice(None):
            return FSeq(self, None, None, 0)
        if isinstance(k, slice):
            r = FSeq(self, None, None, 0)
            r.part = {"": None}
            return r
        raise Unsupported("subscript of a filtered sequence")

    def copy(self):
        r = FSeq(self.base, self.cond, self.elt, self.arity, self.order)
        r.part, r.tail = self.part, list(self.tail)
        return r

    def append(self, x):
        """elements added behind the view"""
        self.tail.append(x)

    def __iter__(self):
        return self.native()

    def __bool__(self):
        raise Unsupported("truth of a filtered sequence")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"list.{n} on a filtered sequence")


def key_less(e, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if e.truth(e.eqv(x, y)):
                continue
            return key_less(e, x, y)
        return len(a) < len(b)
    if isinstance(a, bool) and isinstance(b, bool) and not is_sym(a) and not is_sym(b):
        return a < b
    return e.truth(a < b)


class _Mark:
    def __init__(self, i):
        self.i = i


def dataclasses_is(cls):
    import dataclasses
    return dataclasses.is_dataclass(cls)


@functools.lru_cache(None)
def _BaseModel():
    from pydantic import BaseModel
    return BaseModel


import operator as _op  # noqa: E402

_OPS = {"Add": _op.add, "Sub": _op.sub, "Mult": _op.mul, "Div": _op.truediv, "FloorDiv": _op.floordiv,
        "Mod": _op.mod, "BitAnd": _op.and_, "BitOr": _op.or_, "BitXor": _op.xor, "Pow": _op.pow,
        "LShift": _op.lshift, "RShift": _op.rshift, "MatMult": _op.matmul}
_IOPS = {"Add": _op.iadd, "Sub": _op.isub, "Mult": _op.imul, "Div": _op.itruediv, "FloorDiv": _op.ifloordiv,
         "Mod": _op.imod, "BitAnd": _op.iand, "BitOr": _op.ior, "BitXor": _op.ixor, "Pow": _op.ipow,
         "LShift": _op.ilshift, "RShift": _op.irshift, "MatMult": _op.imatmul}

from .models import CLASSES, CLASSMETHODS, MODELS  # noqa: E402
