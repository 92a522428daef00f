"""C08 the in-memory store stays sorted, indexed and complete."""
import datetime as dt

from asyncz.exceptions import ConflictIdError, TaskLookupError
from asyncz.stores.memory import MemoryStore
from asyncz.tasks import Task

from .util import UTC

NOTE = ("Every operation of the in-memory store is verified against the representation invariant (sorted by time and id, "
        "paused last, index and list hold the same entries, one entry per id) for any number of tasks, any times and "
        "ids, and stored task objects whose own next_run_time was changed behind the store's back; add, update and "
        "delete keep the invariant and change exactly the one entry, the listings return exactly what the invariant "
        "implies. Natively the same clauses are checked over random histories against a reference dictionary.")
ASSUMPTIONS = ["datetime.timestamp() is strictly monotone (exact for microseconds in the supported years)",
               "ids are compared in a dense total order (they are never inspected otherwise)",
               "while a task is stored its id does not change"]


def _task(id, t):
    task = Task.__new__(Task)
    for n, v in (("__dict__", {}), ("__pydantic_fields_set__", set()), ("__pydantic_extra__", None),
                 ("__pydantic_private__", None)):
        object.__setattr__(task, n, v)
    task.__dict__.update(id=id, next_run_time=t, name=id)
    return task


# ------------------------------------------------------------------ symbolic state
class State:
    def __init__(self, E):
        import z3
        from pyvc.values import DtC, KeyC, OptC, Population, RealC, SMap, TupleC
        self.E, self.z3 = E, z3
        self.tz = tz = E.tz()
        self.pop = Population("task", Task, {"id": KeyC, "next_run_time": OptC(DtC(tz)), "name": KeyC})
        codec = TupleC(self.pop.codec(), OptC(RealC))
        self.tasks = E.seq("tasks", codec)
        self.index = SMap.fresh(codec, "index")
        self.old = self.tasks.copy()
        self.oldindex = self.index.copy()
        self.ids = self.pop.arrays("id")[0]
        self.pos = z3.Function("pos", z3.RealSort(), z3.IntSort())
        i, j, k = z3.Int("i!c08"), z3.Int("j!c08"), z3.Real("k!c08")
        t, m = self.tasks, self.index
        g = t.get
        a, b = g(i)[0], g(j)[0]  # z3's MultiPattern frees temporaries
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < t.n), self.less(g(i), g(j))),
                           patterns=[z3.MultiPattern(a, b)]))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t.n), z3.And(
            m.has(self.id(g(i))), self.pos(self.id(g(i))) == i, *[a == b for a, b in zip(m.get_(self.id(g(i))), g(i))])),
            patterns=[g(i)[0]]))
        E.assume(z3.ForAll([k], z3.Implies(m.has(k), z3.And(
            0 <= self.pos(k), self.pos(k) < t.n, self.id(g(self.pos(k))) == k)), patterns=[m.has(k)]))
        self.store = E.obj(MemoryStore, tasks=self.tasks, tasks_index=self.index, alias="default", scheduler=None,
                           lock=None, encryption_key=None, logger_name="x")

    def ref(self, name):
        from pyvc.values import SRef
        return SRef(self.z3.Int("in!" + name), self.pop)

    def id(self, entry):
        return self.z3.Select(self.ids, entry[0])

    def less(self, a, b):
        z3 = self.z3
        return self.lesskey((a[1], a[2], self.id(a)), (b[1], b[2], self.id(b)))

    def lesskey(self, a, b):
        """(paused, time, id) before (paused, time, id)"""
        z3 = self.z3
        (na, ta, ia), (nb, tb, ib) = a, b
        return z3.Or(z3.And(z3.Not(na), nb), z3.And(na, nb, ia < ib),
                     z3.And(z3.Not(na), z3.Not(nb), z3.Or(ta < tb, z3.And(ta == tb, ia < ib))))

    def when(self, ref):
        """(paused, timestamp) of a task object now"""
        n = ref.next_run_time
        z3 = self.z3
        if n is None:
            return z3.BoolVal(True), z3.RealVal(0)
        return z3.BoolVal(False), z3.ToReal(n.inst) / 1000000

    def searches(self, *keys):
        """binary searches: the k-th one is for the given (paused, time, id)"""
        z3, E = self.z3, self.E
        seen = []
        for k, key in enumerate(keys):
            self.search(k, key, seen)

    def search(self, k, key, seen):
        z3, E = self.z3, self.E

        def match(L):
            if L.outer is not None or len(seen) != k:
                return False
            seen.append(1)
            return True

        def holds(L, v, entry):
            t = self.store.tasks
            v = v.t
            j = z3.Int("j!search")
            g = t.get(j)
            kj = (g[1], g[2], self.id(g))
            if z3.is_int_value(z3.simplify(entry.t)) and z3.simplify(entry.t).as_long() == 0:
                body = z3.Implies(z3.And(0 <= j, j < v), self.lesskey(kj, key))
            else:
                body = z3.Implies(z3.And(v <= j, j < t.n), z3.Not(self.lesskey(kj, key)))
            pat = [g[0]] if g[0].decl().kind() == z3.Z3_OP_SELECT else []
            return z3.And(v >= 0, v <= t.n, z3.ForAll([j], body, patterns=pat))

        E.while_(f"search {k + 1}", match, holds)

    def invariant(self, label):
        """the representation invariant of the current state"""
        z3, E = self.z3, self.E
        t, m = self.store.tasks, self.store.tasks_index
        if not hasattr(t, "codec") or not hasattr(m, "codec"):
            E.prove(f"{label}: list and index are consistent", list(t) == [] and dict(m) == {})
            return
        g = t.get
        i = E.int("i").t
        j = E.int("j").t
        inside = z3.And(0 <= i, i < t.n)
        E.prove(f"{label}: sorted by time and id, paused last",
                z3.Implies(z3.And(inside, i < j, j < t.n), self.less(g(i), g(j))))
        E.prove(f"{label}: every listed entry is in the index",
                z3.Implies(inside, z3.And(m.has(self.id(g(i))),
                                          *[a == b for a, b in zip(m.get_(self.id(g(i))), g(i))])))
        k = E.key("k").t
        p = self.pos(k)
        at = lambda q: z3.And(q >= 0, q < t.n, self.id(g(q)) == k)  # noqa: E731
        q = z3.Int("q!inv")
        cands = [p, p + 1, p - 1] + [x for x in self.cands]
        some = z3.Or(*[at(c) for c in cands])
        if not self.cands:
            some = z3.Or(some, z3.Exists([q], at(q)))
        E.prove(f"{label}: every indexed task is listed", z3.Implies(m.has(k), some))

    cands = ()

    def entry_is(self, k, ref, when):
        """the entry indexed under k is (ref, when)"""
        m = self.store.tasks_index
        if not hasattr(m, "codec"):
            return False
        e = m.get_(k)
        z3 = self.z3
        return z3.And(m.has(k), e[0] == ref.t, e[1] == when[0], z3.Or(when[0], e[2] == when[1]))

    def others_same(self, label, k):
        z3, E = self.z3, self.E
        m, o = self.store.tasks_index, self.oldindex
        x = E.key("other").t
        E.prove(f"{label}: the other tasks are untouched", z3.Implies(x != k, z3.And(
            m.has(x) == o.has(x), z3.Implies(o.has(x), z3.And(*[a == b for a, b in zip(m.get_(x), o.get_(x))])))))

    def untouched(self, label):
        z3, E = self.z3, self.E
        t, o = self.store.tasks, self.old
        i = E.int("u").t
        E.prove(f"{label}: nothing changed", z3.And(
            t.n == o.n, z3.Implies(z3.And(0 <= i, i < t.n), z3.And(*[a == b for a, b in zip(t.get(i), o.get(i))]))))
        m, om = self.store.tasks_index, self.oldindex
        x = E.key("any").t
        E.prove(f"{label}: index unchanged", z3.And(m.has(x) == om.has(x), *[
            z3.Implies(om.has(x), a == b) for a, b in zip(m.get_(x), om.get_(x))]))


# ------------------------------------------------------------------ native state
class Native:
    """a store filled through its own operations, with a reference dictionary id -> (task, time)"""

    def __init__(self, E):
        self.E = E
        self.tz = E.choice("zone", UTC, dt.timezone(dt.timedelta(hours=5, minutes=30)))
        self.store = MemoryStore()
        self.store.alias, self.store.lock = "default", None
        self.ref = {}
        for k in range(E.int("steps", 0, 9)):
            what = E.choice("step", "add", "add", "add", "update", "delete")
            id = self.id(f"id{k}")
            t = _task(id, self.time())
            if what == "add" and id not in self.ref:
                self.store.add_task(t)
                self.ref[id] = (t, t.next_run_time)
            elif what == "update":
                t = self.ref[id][0] if id in self.ref and E.choice("same", True, False) else t
                t.next_run_time = self.time()
                self.store.update_task(t)
                self.ref[id] = (t, t.next_run_time)
            elif what == "delete" and id in self.ref:
                self.store.delete_task(id)
                del self.ref[id]
            self.check(f"history step {what}")

    def id(self, name):
        return self.E.choice(name, "a", "aa", "b", "c", "B", "ü", "d", "")

    def time(self):
        E = self.E
        v = E.choice("time", None, 0, 0, 1, 2, "x")
        if v is None:
            return None
        base = dt.datetime(2024, 5, 1, 12, 0, tzinfo=UTC) if v != "x" else dt.datetime(1965, 1, 1, tzinfo=UTC)
        z = E.choice("timezone", UTC, self.tz)
        return (base + dt.timedelta(microseconds=E.choice("us", 0, 1, 500000)) + dt.timedelta(seconds=0 if v == "x" else v)
                ).astimezone(z)

    def expected(self):
        """sorted by time and id, paused last"""
        return [t for t, w in sorted(self.ref.values(), key=lambda e: (
            e[1] is None, e[1] or dt.datetime.max.replace(tzinfo=UTC), e[0].id))]

    def check(self, label):
        E, s = self.E, self.store
        want = self.expected()
        E.prove(f"{label}: sorted by time and id, paused last", _same(s.get_all_tasks(), want))
        for k in {*self.ref, "nosuch"}:
            E.prove(f"{label}: every task is found by its id", s.lookup_task(k) is (self.ref[k][0] if k in self.ref else None))
        now = dt.datetime(2024, 5, 1, 12, 0, 1, tzinfo=UTC)
        E.prove(f"{label}: due tasks", _same(s.get_due_tasks(now), [
            t for t in want if self.ref[t.id][1] is not None and self.ref[t.id][1] <= now]))
        E.prove(f"{label}: next run time", not want or s.get_next_run_time() == want[0].next_run_time)


def _same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def add(E):
    """adding a task with a free id inserts it; a taken id is refused and nothing changes"""
    if E.conc:
        s = Native(E)
        t = _task(s.id("new"), s.time())
        r = E.run_call(s.store.add_task, t)
        if t.id in s.ref:
            E.prove("a taken id is refused", r.raised(ConflictIdError))
        else:
            E.prove("a free id is accepted", r.ok)
            s.ref[t.id] = (t, t.next_run_time)
        return s.check("add")
    s = State(E)
    t = s.ref("new")
    k = t.id.t
    taken = E.truth(s.index.has_key(t.id))
    when = s.when(t)
    s.searches((*when, k))
    r = E.run_call(s.store.add_task, t)
    if taken:
        E.prove("a taken id is refused", r.raised(ConflictIdError))
        s.untouched("refused")
        return
    E.prove("a free id is accepted", r.ok)
    if not r.ok:
        return
    w = _where(s)
    s.cands = w
    s.invariant("add")
    E.prove("the task is stored with its time", s.entry_is(k, t, when))
    E.prove("exactly one entry more", s.store.tasks.n == s.old.n + 1)
    s.others_same("add", k)


def _where(s):
    """positions the binary searches may have settled on"""
    out = []
    for sp in s.E.loop_specs:
        if sp.loop is not None:
            for g in getattr(sp.loop, "groups", ()):
                out.append(g[2].t)
    return out


def update(E):
    """updating moves the entry to its new place; an unknown id is inserted"""
    if E.conc:
        s = Native(E)
        id = s.id("new")
        t = s.ref[id][0] if id in s.ref and E.choice("the stored object", True, False) else _task(id, None)
        t.next_run_time = s.time()
        r = E.run_call(s.store.update_task, t)
        E.prove("an update is accepted", r.ok)
        s.ref[id] = (t, t.next_run_time)
        return s.check("update")
    s = State(E)
    t = s.ref("new")
    k = t.id.t
    when = s.when(t)
    known = E.truth(s.index.has_key(t.id))
    if known:
        e = s.index.get_(k)
        s.searches((e[1], e[2], k), (*when, k))
    else:
        s.searches((*when, k))
    r = E.run_call(s.store.update_task, t)
    E.prove("an update is accepted", r.ok)
    if not r.ok:
        return
    s.cands = _where(s)
    s.invariant("update")
    E.prove("the task is stored with its time", s.entry_is(k, t, when))
    E.prove("one entry per task", s.store.tasks.n == s.old.n + (0 if known else 1))
    s.others_same("update", k)


def delete(E):
    """deleting removes exactly that entry; an unknown id is refused"""
    if E.conc:
        s = Native(E)
        id = s.id("gone")
        r = E.run_call(s.store.delete_task, id)
        E.prove("unknown ids are refused", r.ok if id in s.ref else r.raised(TaskLookupError))
        s.ref.pop(id, None)
        return s.check("delete")
    s = State(E)
    id = E.key("gone")
    known = E.truth(s.index.has_key(id))
    if known:
        e = s.index.get_(id.t)
        s.searches((e[1], e[2], id.t))
    r = E.run_call(s.store.delete_task, id)
    if not known:
        E.prove("unknown ids are refused", r.raised(TaskLookupError))
        s.untouched("refused")
        return
    E.prove("a known id is accepted", r.ok)
    if not r.ok:
        return
    s.cands = _where(s)
    s.invariant("delete")
    E.prove("the task is gone", s.z3.Not(s.store.tasks_index.has(id.t)))
    E.prove("exactly one entry fewer", s.store.tasks.n == s.old.n - 1)
    s.others_same("delete", id.t)


def remove_all(E):
    """removing everything (or shutting down) leaves an empty store"""
    how = E.choice("how", "remove_all_tasks", "shutdown")
    s = Native(E) if E.conc else State(E)
    r = E.run_call(getattr(s.store, how))
    E.prove("accepted", r.ok)
    if E.conc:
        s.ref.clear()
        return s.check("remove all")
    t, m = s.store.tasks, s.store.tasks_index
    E.prove("no entry left", t.n == 0 if hasattr(t, "codec") else list(t) == [])
    k = E.key("k")
    E.prove("no id left", s.z3.Not(m.has(k.t)) if hasattr(m, "codec") else dict(m) == {})


def lookup(E):
    """looking up an id gives the stored object, or nothing / an error"""
    s = Native(E) if E.conc else State(E)
    id = s.id("id") if E.conc else E.key("id")
    known = id in s.ref if E.conc else E.truth(s.index.has_key(id))
    a = E.run_call(s.store.lookup_task, id)
    b = E.run_call(s.store.get_task, id)
    if not known:
        E.prove("an unknown id gives nothing", a.ok and a.value is None)
        E.prove("an unknown id is refused", b.raised(TaskLookupError))
    else:
        want = s.ref[id][0] if E.conc else None
        for r in (a, b):
            E.prove("a known id gives the stored object",
                    r.ok and (r.value is want if E.conc else E.truth(r.value.t == s.index.get_(id.t)[0])))
    if E.sym:
        s.untouched("lookup")


def due(E):
    """the due tasks are exactly the entries with a time up to now, in order"""
    if E.conc:
        s = Native(E)
        now = dt.datetime(2024, 5, 1, 12, 0, E.int("sec", 0, 4), E.choice("us", 0, 1, 500000), tzinfo=UTC)
        got = s.store.get_due_tasks(now)
        E.prove("due tasks", _same(got, [t for t in s.expected() if s.ref[t.id][1] is not None and s.ref[t.id][1] <= now]))
        return s.check("due")
    s = State(E)
    z3 = s.z3
    now = E.dt("now", s.tz)
    ts = z3.ToReal(now.inst) / 1000000
    isdue = lambda g: z3.And(z3.Not(g[1]), g[2] <= ts)  # noqa: E731

    def out(i, x):
        g = s.old.get(i.t if hasattr(i, "t") else z3.IntVal(i))
        return [x[0]] if E.truth(isdue(g)) else []

    fe = E.foreach("stored entries", s.old, out=out)
    r = E.run_call(s.store.get_due_tasks, now)
    E.prove("accepted", r.ok)
    E.prove_entries("exactly the due tasks, in order", r.value, [fe])
    s.untouched("due")


def listing(E):
    """all tasks are listed once, in order; the next run time is that of the first entry"""
    if E.conc:
        return Native(E).check("listing")
    s = State(E)
    what = E.choice("what", "all", "next")
    if what == "all":
        fe = E.foreach("stored entries", s.old, out=lambda i, x: [x[0]])
        r = E.run_call(s.store.get_all_tasks)
        E.prove("accepted", r.ok)
        E.prove_entries("all tasks, in order", r.value, [fe])
    else:
        r = E.run_call(s.store.get_next_run_time)
        E.prove("accepted", r.ok)
        if E.truth(s.old.n == 0):
            E.prove("an empty store has no next run time", r.value is None)
        else:
            want = s.old.at(s.z3.IntVal(0))[0].next_run_time
            E.prove("the next run time is the first task's",
                    r.value is None if want is None else r.value is not None and E.truth(r.value == want))
    s.untouched("listing")


UNITS = [add, update, delete, remove_all, lookup, due, listing]
