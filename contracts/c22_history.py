"""C22 the run history shows each run once with its true outcome."""
import collections
import datetime as dt

from asyncz.contrib.dashboard import history as H
from asyncz.events import TaskExecutionEvent, TaskSubmissionEvent
from asyncz.events import constants as C
from asyncz.events.base import TaskEvent

from .util import UTC, with_state

NOTE = ("record_submission (of up to two run times) and record_execution are verified for histories of any size and content that "
        "satisfy the store's invariant, which is shown to be preserved; the identity of a run (_run_key, _run_id) is verified "
        "separately, the injectivity of the run id by bounded enumeration of texts. Run times are datetimes of any fixed "
        "offset; texts as run times and whole histories against a reference are sampled natively.")
ASSUMPTIONS = ["locks give mutual exclusion; events are recorded one at a time", "sha256 cut to 80 bits has no collisions",
               "the texts of tasks, stores and run times are opaque"]

QUICK_S = 250

TERMINAL = {C.TASK_EXECUTED: "succeeded", C.TASK_ERROR: "failed", C.TASK_MISSED: "missed"}
OPTIONAL = ("store", "task_name", "callable_reference", "executor", "scheduler_identity", "return_value", "exception_type",
            "exception_message", "exception", "traceback")


class _Lock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass


class _State:
    """a history of any size: records by id, the order of arrival, and the ids by the identity of the run"""

    def __init__(self, E):
        import z3
        from pyvc.values import DtC, IntC, KeyC, OptC, Population, SMap
        self.E, self.z3 = E, z3
        f = dict(run_id=KeyC, task_id=KeyC, scheduled_run_time=DtC(UTC), coalesced_run_count=IntC, source=KeyC, status=KeyC,
                 submitted_at=OptC(DtC(UTC)), finished_at=OptC(DtC(UTC)), created_at=OptC(DtC(UTC)), updated_at=OptC(DtC(UTC)))
        f.update({n: OptC(KeyC) for n in OPTIONAL})
        self.fields = f
        self.pop = pop = Population("run", H.RunRecord, f)
        self.records = SMap.fresh(pop.codec(), "records")
        self.first = self.records.copy()
        self.order = E.seq("order", KeyC)
        self.index = SMap.fresh(KeyC, "ids")
        self.limit = E.int("limit", 0)
        self.made = 0
        R, B, I = z3.RealSort(), z3.BoolSort(), z3.IntSort()
        self.K = z3.Function("run.key", R, B, R, I, R)  # task, no store, store, instant
        self.inv = [z3.Function(f"run.key.{n}", R, s) for n, s in (("task", R), ("none", B), ("store", R), ("when", I))]
        self.G, self.G1 = z3.Function("run.id", R, R), z3.Function("run.id.key", R, R)
        self.pos = z3.Function("run.position", R, I)
        E.assume(E.call(len, self.order) <= self.limit)
        E.assume(self._invariant(self.pos))
        E.contract(H._run_key, self.key)
        E.contract(H._run_id, self.id_of)
        E.patch(H, "RunRecord", self.make)

    def _kt(self, a):
        z3 = self.z3
        a = (a[0], a[1], z3.If(a[1], z3.RealVal(0), a[2]), a[3])
        k = self.K(*a)
        return k, z3.And(*(f(k) == x for f, x in zip(self.inv, a)))

    def key(self, task, store, when):
        from pyvc.values import KeyC, SDt, SKey
        z3 = self.z3
        none = z3.BoolVal(store is None)
        st = z3.RealVal(0) if store is None else KeyC.encode(store)[0]
        k, fact = self._kt((KeyC.encode(task)[0], none, st, SDt.of(when).inst))
        self.E.assume(fact)
        return SKey(k)

    def id_of(self, key):
        from pyvc.values import KeyC, SKey
        k = KeyC.encode(key)[0]
        self.E.assume(self.G1(self.G(k)) == k)
        return SKey(self.G(k))

    def load(self, n, ref):
        return self.pop.load(n, ref)

    def key_of(self, ref):
        """the identity term of a record, with the facts about it"""
        st = self.load("store", ref)
        return self._kt((self.load("task_id", ref)[0], st[0], st[1], self.load("scheduled_run_time", ref)[0]))

    def _invariant(self, pos):
        """as an assumption"""
        z3 = self.z3
        i, k = z3.Int("i!c22"), z3.Real("k!c22")
        o, rec, ids = self.order, self.records, self.index
        oi = o.get(i)[0]
        ref = rec.get_(oi)[0]
        key, inj = self.key_of(ref)
        in_order = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.n), z3.And(
            rec.has(oi), self.load("run_id", ref)[0] == oi, pos(oi) == i, inj, oi == self.G(key), self.G1(oi) == key,
            ids.has(key), ids.get_(key)[0] == oi)), patterns=[oi])
        kept = z3.ForAll([k], z3.Implies(rec.has(k), z3.And(0 <= pos(k), pos(k) < o.n, o.get(pos(k))[0] == k)),
                         patterns=[rec.has(k)])
        v = ids.get_(k)[0]
        kk, inj2 = self.key_of(rec.get_(v)[0])
        indexed = z3.ForAll([k], z3.Implies(ids.has(k), z3.And(rec.has(v), inj2, kk == k, v == self.G(k), self.G1(v) == k)),
                            patterns=[ids.has(k)])
        return z3.And(in_order, kept, indexed)

    def all_running(self):
        from pyvc.values import KeyC
        z3 = self.z3
        i = z3.Int("i!running")
        st, sub = self.pop.arrays("status")[0], self.pop.arrays("submitted_at")[0]
        self.E.assume(z3.ForAll([i], z3.Select(st, i) == KeyC.encode("running")[0], patterns=[z3.Select(st, i)]))
        self.E.assume(z3.ForAll([i], z3.Not(z3.Select(sub, i)), patterns=[z3.Select(sub, i)]))

    def prove_invariant(self, when):
        """for an arbitrary position, id and key"""
        E, z3 = self.E, self.z3
        o, rec, ids = self.order, self.records, self.index
        E.prove(f"{when}: no more than the limit", E.call(len, o) <= self.limit)
        i, j = (E.int(n, 0) for n in ("position", "other position"))
        k = E.key("any id")
        if E.choice("about", "positions", "ids") == "positions":
            E.assume(E.and_(i < E.call(len, o), j < i))
            a, ref = o.get(i.t)[0], rec.get_(o.get(i.t)[0])[0]
            key, inj = self.key_of(ref)
            E.assume(inj)
            E.prove(f"{when}: each run of the order is kept under its id",
                    z3.And(rec.has(a), self.load("run_id", ref)[0] == a))
            E.prove(f"{when}: each id is its run's", a == self.G(key))
            E.prove(f"{when}: each run is found by its identity", z3.And(ids.has(key), ids.get_(key)[0] == a))
            E.prove(f"{when}: no run is there twice", o.get(j.t)[0] != a)
            return
        kt = k.t
        if E.choice("of", "records", "identities") == "records":
            E.assume(rec.has(kt))
            p = E.call(len, o)
            E.prove(f"{when}: no record outside the order", z3.Or(
                *(z3.And(0 <= q, q < o.n, o.get(q)[0] == kt) for q in (self.pos(kt), self.pos(kt) - 1, o.n - 1, o.n - 2))))
            return
        E.assume(ids.has(kt))
        v = ids.get_(kt)[0]
        kk, inj = self.key_of(rec.get_(v)[0])
        E.assume(inj)
        E.prove(f"{when}: an identity leads to its run", z3.And(rec.has(v), kk == kt))

    def make(self, **k):
        """a new record with the declared defaults"""
        import dataclasses
        import z3
        from pyvc.values import SRef
        d = {f.name: (None if f.default is dataclasses.MISSING else f.default) for f in dataclasses.fields(H_RECORD)}
        d.update(k)
        r = SRef(z3.Int(f"in!new{self.made}"), self.pop)
        self.made += 1
        q = z3.Real("q!c22")
        old = self.first
        self.E.assume(z3.ForAll([q], z3.Implies(old.has(q), old.get_(q)[0] != r.t), patterns=[old.has(q)]))
        for i in range(self.made - 1):
            self.E.assume(r.t != z3.Int(f"in!new{i}"))
        for n, v in d.items():
            if n not in self.fields:
                from pyvc.values import Unsupported
                raise Unsupported(f"record field {n}")
            setattr(r, n, v)
        return r


H_RECORD = H.RunRecord


def _scheduler(E, part):
    """what the scheduler may tell of the task: nothing, a failure, or details"""
    kind, ident = E.choice("told", ("unknown", None), ("details", None)) if part == "step" else \
        E.choice("told", ("unknown", None), ("lookup fails", None), ("no snapshot", None)) if part == "failures" else \
        ("unknown", None)

    def get_task(task, store):
        if kind == "lookup fails":
            raise KeyError(task)
        return None if kind == "unknown" else task_

    def snapshot():
        if kind == "no snapshot":
            raise RuntimeError("no")
        return E.stub("info", None, name="n", callable_reference=None, callable_name=None, executor=None)

    task_ = E.stub("task", None, name=None, executor="x", snapshot=snapshot)
    return E.stub("scheduler", None, kind=kind, get_task=get_task, identity=ident,
                  get_scheduler_info=lambda: E.stub("about", None, identity=ident))


def _snapshot(st):
    h = E_heap()
    return dict(records=st.records.copy(), index=st.index.copy(), order=st.order.copy(),
                heap={n: st.pop.arrays(n) for n in st.fields})


def E_heap():
    from pyvc.values import eng
    return eng().heap


def _old(st, snap, n, ref):
    z3 = st.z3
    return st.fields[n].decode(tuple(z3.Select(a, ref) for a in snap["heap"][n]))


def _opt_eq(E, a, b):
    return E.truth(E.eqv(a, b)) if a is not None and b is not None else a is None and b is None


def _check_step(E, st, o, before, ev_key, r):
    """after one event about the run `ev_key`: the record returned is that run's, other runs are untouched"""
    z3 = st.z3
    known = before["index"].has(ev_key)
    rid = st.G(ev_key)
    E.prove("the record returned is that of the run", r.run_id.t == rid)
    kk, inj = st.key_of(r.t)
    E.assume(inj)
    E.prove("it has the run's identity", kk == ev_key)
    E.prove("a known run keeps its record", z3.Implies(known, before["records"].get_(rid)[0] == r.t))
    E.prove("a new run is kept when anything may be", z3.Implies(z3.And(z3.Not(known), st.limit.t > 0), z3.And(
        o._records.has(rid), o._records.get_(rid)[0] == r.t)))
    n, m = before["order"].n, o._order.n
    E.prove("a known run changes nothing else", z3.Implies(known, m == n))
    E.prove("only the oldest makes room", z3.Implies(z3.Not(known), m == z3.If(n + 1 > st.limit.t, st.limit.t, n + 1)))
    i = E.int("any position", 0)
    E.assume(i < E.call(len, o._order))
    E.prove("the order is that of arrival", z3.If(known, o._order.get(i.t)[0] == before["order"].get(i.t)[0],
            z3.If(i.t == m - 1, o._order.get(i.t)[0] == rid,
                  o._order.get(i.t)[0] == before["order"].get(i.t + n + 1 - m)[0])))
    x = E.int("any record")
    E.assume(x.t != r.t)
    for f in st.fields:
        E.prove("no other run is changed", z3.And(*(a == z3.Select(b, x.t) for a, b in zip(st.load(f, x.t), before["heap"][f]))))


def _history(E):
    st = _State(E)
    o = with_state(E, H.MemoryRunHistoryStorage(3), _records=st.records, _order=st.order, _key_index=st.index, _lock=_Lock(),
                   maxlen=st.limit)
    return st, o


def execution(E):
    """one outcome event"""
    if E.conc:
        return histories(E)
    part = E.choice("prove", "step", "invariant", "outcome", "failures")
    st, o = _history(E)
    tz = E.tz()
    when = E.dt("when", tz)
    task, store = E.key("task"), E.opt("store", lambda: E.key("store"))
    code = E.choice("code", *TERMINAL) if part == "outcome" else C.TASK_EXECUTED
    exc = E.choice("exception", None, ValueError("bad")) if part == "outcome" else None
    value = E.choice("value", None, 0, "x", []) if part == "outcome" else 1
    ev = E.stub("event", TaskExecutionEvent, code=code, task_id=task, store=store, scheduled_run_time=when, alias=None,
                scheduler_identity=None, return_value=value, exception=exc,
                traceback="tb")
    now = E.dt("now", UTC)
    E.set_now(now)
    before = _snapshot(st)
    key = st.key(task, store, when).t
    known = before["index"].has(key)
    old = before["records"].get_(st.G(key))[0]
    r = E.run_call(o.record_execution, ev, scheduler=_scheduler(E, part),
                   log_storage=E.stub("logs", None, append=lambda d: None) if part == "outcome" else None)
    E.prove("recorded", r.ok)
    st.records, st.order, st.index = o._records, o._order, o._key_index
    if part == "failures":
        E.reached("recorded without knowing the task")
    elif part == "invariant":
        st.prove_invariant("afterwards")
    elif part == "step":
        _check_step(E, st, o, before, key, r.value)
    else:
        rec = r.value
        E.prove("the status is the outcome reported", rec.status == TERMINAL[code])
        E.prove("it has finished now", E.eqv(rec.finished_at, now))
        E.prove("a result is told", (rec.return_value is None) if value is None else E.eqv(rec.return_value, repr(value)))
        E.prove("an error is told", (rec.exception is None and rec.exception_type is None and rec.exception_message is None)
                if exc is None else E.and_(E.eqv(rec.exception, "ValueError('bad')"), E.eqv(rec.exception_type, "ValueError"),
                                           E.eqv(rec.exception_message, "bad")))
        if E.truth(E.and_(known, _given(E, st, before, old))):
            E.prove("when it was submitted stays", _opt_eq(E, rec.submitted_at, _old(st, before, "submitted_at", old)))
        else:
            E.prove("submitted at the latest now", E.eqv(rec.submitted_at, now))
    E.reached("recorded")


def _given(E, st, before, old):
    z3 = st.z3
    return z3.Not(z3.Select(before["heap"]["submitted_at"][0], old))


def submission(E):
    """one submission event of one run time"""
    if E.conc:
        return histories(E)
    part = E.choice("prove", "step", "invariant", "outcome", "failures")
    st, o = _history(E)
    tz = E.tz()
    when = E.dt("when", tz)
    task, store = E.key("task"), E.opt("store", lambda: E.key("store"))
    told = _scheduler(E, part)
    code = E.choice("code", C.TASK_SUBMITTED, C.TASK_MAX_INSTANCES) if part != "step" or told.kind == "unknown" else C.TASK_SUBMITTED
    source = E.choice("source", None, "manual") if part == "outcome" else None
    ev = E.stub("event", TaskSubmissionEvent, code=code, task_id=task, store=store, scheduled_run_times=[when], alias=None,
                scheduler_identity=None, source=source,
                coalesced_run_count=E.int("coalesced", 0) if part == "outcome" else 0)
    now = E.dt("now", UTC)
    E.set_now(now)
    before = _snapshot(st)
    key = st.key(task, store, when).t
    known = before["index"].has(key)
    old = before["records"].get_(st.G(key))[0]
    r = E.run_call(o.record_submission, ev, scheduler=told,
                   log_storage=None)
    E.prove("recorded", r.ok and len(r.value) == 1)
    st.records, st.order, st.index = o._records, o._order, o._key_index
    rec = r.value[0]
    if part == "failures":
        E.reached("recorded without knowing the task")
    elif part == "invariant":
        st.prove_invariant("afterwards")
    elif part == "step":
        _check_step(E, st, o, before, key, rec)
    else:
        skipped = code == C.TASK_MAX_INSTANCES
        E.prove("the source is told", rec.source == (source or "scheduled"))
        if E.truth(known):
            was = _old(st, before, "status", old)
            if E.truth(E.or_(*(was == s for s in ("succeeded", "failed", "missed", "max_instances")))):
                E.prove("an outcome stays", rec.status == was)
                E.prove("and so does when it ended", skipped or _opt_eq(E, rec.finished_at, _old(st, before, "finished_at", old)))
                E.reached("late submission")
                return
        E.prove("the status is the one reported", rec.status == ("max_instances" if skipped else "running"))
        if not E.truth(known):
            E.prove("a skipped run has ended, another has not",
                    E.eqv(rec.finished_at, now) if skipped else rec.finished_at is None)
            E.prove("submitted now", E.eqv(rec.submitted_at, now))
    E.reached("recorded")


def several(E):
    """the run times of a submission are recorded one after another, each as by an event of its own"""
    if E.conc:
        return histories(E)
    n = E.choice("run times", 0, 2)
    st, o = _history(E)
    tz = E.tz()
    times = [E.dt(f"when{i}", tz) for i in range(n)]
    task, store = E.key("task"), E.opt("store", lambda: E.key("store"))
    ev = E.stub("event", TaskSubmissionEvent, code=C.TASK_SUBMITTED, task_id=task, store=store, scheduled_run_times=times,
                alias=None, scheduler_identity=None, source=None, coalesced_run_count=0)
    E.set_now(E.dt("now", UTC))
    st.all_running()
    r = E.run_call(o.record_submission, ev, scheduler=E.stub("scheduler", None, get_task=lambda *a: None, identity=None),
                   log_storage=None)
    E.prove("recorded", r.ok)
    if E.sym:
        E.bounded.add("up to two run times in a submission, the known runs still running")
    E.prove("a record of each", len(r.value) == n and all(
        E.truth(x.run_id.t == st.G(st.key(task, store, t).t)) for x, t in zip(r.value, times)))
    if n == 2 and E.truth(times[0] == times[1]) and E.truth(st.limit > 0):
        E.prove("the same run time is one run", r.value[0].t == r.value[1].t)
    E.reached("recorded")


# ------------------------------------------------------------------ identity
def run_key(E):
    """two run times of the same task and store have the same identity exactly when they are the same instant"""
    runs = []
    for i in (1, 2):
        kind = E.choice(f"kind {i}", "aware", "naive")
        t = E.dt(f"when{i}", E.tz() if kind == "aware" else None)
        store = E.opt(f"store{i}", lambda: E.key(f"store{i}"))
        n = E.call(H._normalize_run_time, t)
        inst = t if kind == "aware" else t.replace(tzinfo=UTC)
        E.prove("normalising keeps the instant", E.eqv(n, inst))
        runs.append((E.key(f"task{i}"), store, inst, n))
    (t1, s1, a, n1), (t2, s2, b, n2) = runs
    k1, k2 = E.call(H._run_key, t1, s1, n1), E.call(H._run_key, t2, s2, n2)
    same = E.truth(t1 == t2) and _opt_eq(E, s1, s2) and E.truth(a == b)
    E.prove("same identity exactly for the same run", _same_key(E, k1, k2) == same)
    E.reached("compared")


def _same_key(E, a, b):
    return len(a) == len(b) and all(_opt_eq(E, x, y) for x, y in zip(a, b))


LETTERS = ("a", "|", ",", "'", '"', " ", "N", "\\", "(", "ab", "None", "a|", "|a", "', '", "")


def identities(E):
    """runs of different tasks, stores or times never share an id (bounded: sampled texts)"""
    runs = []
    for i in (1, 2):
        w = lambda n: "".join(E.choice(f"{n}{i}.{j}", *LETTERS) for j in range(E.int(f"{n}{i} length", 0, 3)))
        runs.append((w("task"), None if E.choice(f"no store {i}", True, False) else w("store"),
                     E.choice(f"when{i}", dt.datetime(2024, 1, 1, tzinfo=UTC), dt.datetime(2024, 1, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=1))),
                              "x", "a|b")))
    o = H.MemoryRunHistoryStorage(10)
    recs = [E.call(o.record_execution, TaskExecutionEvent(code=C.TASK_EXECUTED, task_id=t, store=s, scheduled_run_time=w),
                               scheduler=None) for t, s, w in runs]
    same = runs[0][0] == runs[1][0] and runs[0][1] == runs[1][1] and runs[0][2] == runs[1][2]
    E.prove("one run has one id, different runs have different ids", (recs[0].run_id == recs[1].run_id) == same)
    E.prove("each run is shown once", len(o.query()) == (1 if same else 2) and o.summary()["total"] == (1 if same else 2))
    E.prove("each is found by its id", all(o.get(r.run_id) is r for r in recs))
    E.reached("compared")


def histories(E):
    """whole histories through the listener against a reference (bounded: sampled)"""
    tasks = [("a", "s"), ("a", None), ("a|", "s"), ("a", "|s"), ("b", "s")]
    base = dt.datetime(2024, 1, 1, tzinfo=UTC)
    times = [base, base + dt.timedelta(minutes=1), base.astimezone(dt.timezone(dt.timedelta(hours=5)))]
    limit = E.choice("limit", 1, 2, 3, 50)
    o = H.MemoryRunHistoryStorage(limit)
    got = []

    class Sched:
        identity = "s1"

        def add_listener(self, f, mask):
            got.append((f, mask))

        def remove_listener(self, f):
            got[:] = [x for x in got if x[0] is not f]

        def get_task(self, *a):
            return None

    s = Sched()
    for _ in range(E.choice("installed", 1, 2)):
        H.install_run_history_listener(s, storage=o)
    E.prove("one listener", len(got) == 1)
    model: collections.OrderedDict = collections.OrderedDict()

    def touch(k):
        if k not in model:
            model[k] = {"status": "running", "end": None}
            while len(model) > limit:
                model.popitem(last=False)
        return model.get(k)

    for i in range(E.int("events", 0, 12)):
        t, st = E.choice(f"task{i}", *tasks)
        w = E.choice(f"when{i}", *times)
        code = E.choice(f"code{i}", C.TASK_SUBMITTED, C.TASK_SUBMITTED, C.TASK_MAX_INSTANCES, C.TASK_EXECUTED, C.TASK_ERROR,
                        C.TASK_MISSED, C.TASK_ADDED)
        k = (t, st, w)
        if code in TERMINAL:
            ev = TaskExecutionEvent(code=code, task_id=t, store=st, scheduled_run_time=w, return_value=i,
                                    exception=ValueError(i) if code == C.TASK_ERROR else None)
            m = touch(k)
            m["status"] = TERMINAL[code]
            m["value"] = repr(i)
            m["error"] = str(i) if code == C.TASK_ERROR else None
        elif code == C.TASK_ADDED:
            ev = TaskEvent(code=code, task_id=t, store=st)
        else:
            ws = [w, E.choice(f"also{i}", *times)] if E.choice(f"two{i}", False, True) else [w]
            ev = TaskSubmissionEvent(code=code, task_id=t, store=st, scheduled_run_times=ws)
            for w2 in ws:
                m = touch((t, st, w2))
                if m["status"] == "running" and code == C.TASK_MAX_INSTANCES:
                    m["status"] = "max_instances"
        for f, mask in list(got):
            if mask & code:
                E.prove("an event is recorded without failing", E.run_call(f, ev).ok)
        for r in o.query(limit=1000):
            m = model.get((r.task_id, r.store, r.scheduled_run_time))
            E.prove("when a run was submitted stays", m is not None and m.setdefault("since", r.submitted_at) == r.submitted_at)
    shown = o.query(limit=1000)
    E.prove("each run is shown exactly once", sorted(map(repr, ((r.task_id, r.store, r.scheduled_run_time) for r in shown)))
            == sorted(map(repr, ((t, s_, w.astimezone(UTC)) for t, s_, w in model))))
    for r in shown:
        m = model[(r.task_id, r.store, r.scheduled_run_time)]
        E.prove("with its outcome", r.status == m["status"])
        if "value" in m:
            E.prove("and its result", r.return_value == m["value"] and r.exception_message == m["error"])
    sm = o.summary()
    E.prove("the summary counts them", sm["total"] == len(model) and all(
        sm[x] == sum(m["status"] == x for m in model.values()) for x in ("running", "succeeded", "failed", "missed", "max_instances")))
    for t, st in tasks:
        E.prove("a query by task tells that task's runs",
                sorted(r.run_id for r in o.query(task_id=t)) == sorted(r.run_id for r in shown if r.task_id == t))
    E.reached("shown")


UNITS = [execution, submission, several, run_key]
RUNTIME = [identities, histories]
