"""C21 dashboard buffers keep the newest entries within their limit."""
import collections
import datetime as dt

from asyncz.contrib.dashboard import audit, events
from asyncz.contrib.dashboard.logs import storage as logs
from asyncz.events.base import SchedulerEvent, TaskEvent
from asyncz.events.constants import SCHEDULER_STARTED, TASK_ADDED, TASK_ERROR

from .util import UTC, source_ints, with_state

NOTE = ("append, query and clear of the log, event and audit buffers are verified for buffers of any content and limit: after "
        "an append exactly the newest entries within the limit are held, in order; a query returns exactly the first "
        "requested number of entries that match every filter, newest first. The free text search of events and audit "
        "records is sampled natively (bounded); that of logs is verified with lower-casing, stripping and substring tests "
        "uninterpreted.")
ASSUMPTIONS = ["locks give mutual exclusion", "the audit trail's ids are unique (uuid4)",
               "collections.deque(maxlen) drops the oldest entry when full"]


class _Lock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass


def _first(E, name, *vals):
    return E.choice(name, *vals)


def _word(E, name, *pool):
    """an optional, not blank text"""
    if not E.choice(name + " given", True, False):
        return None
    w = E.key(name) if E.sym else E.choice(name, *pool)
    return w


def _codec(E, name, cls, fields, other=None):
    from pyvc.values import Population
    pop = Population(name, cls, fields, other=other)
    return pop, E.seq(name + "s", pop.codec())


# ------------------------------------------------------------------ logs
def _logs(E):
    tz = E.tz()
    if E.sym:
        from pyvc.values import BoolC, DtC, KeyC, OptC
        memo = {}

        def extra(ref, n):
            if n != "extra":
                return NotImplemented
            k = str(ref.t)
            if k not in memo:
                kind = E.choice("extra", "none", "empty", "run")
                memo[k] = None if kind == "none" else E.dict([] if kind == "empty" else [("run_id", ref.run)])
            return memo[k]

        pop, seq = _codec(E, "entry", logs.LogEntry, {"ts": DtC(tz), "level": KeyC, "message": KeyC, "logger": KeyC,
                                                      "task_id": OptC(KeyC), "run": KeyC}, extra)
        seq.maxlen = E.int("limit of the buffer", 0)
        E.assume(seq._vc_len() <= seq.maxlen)
        return tz, seq
    n, most = E.int("entries", 0, 6), E.int("limit of the buffer", 0, 6)
    es = [_entry(E, tz, i) for i in range(n)]
    es, most = _bulk(E, es, most)
    return tz, collections.deque(es[:most], maxlen=most)


SIZES = (70, 400, *(x for x in source_ints(logs, events, audit)))


def _bulk(E, items, most):
    """sometimes many entries, the given ones amid them"""
    k = E.choice("bulk", *[0] * 10 * len(SIZES), *SIZES)
    if not k or not items:
        return items, most
    k += E.choice("more", 0, 1, 5)
    return items + [items[-1]] * k + items[:1], k + 8


WORDS = ("a", "A", "b", "ab", "Ba", "error", "ERROR", "x y")


def _entry(E, tz, i):
    ex = E.choice(f"extra{i}", None, {}, {"run_id": "r1"}, {"run_id": "r2"}, {"run_id": 7}, {"other": 1})
    return logs.LogEntry(ts=E.dt(f"ts{i}", tz), level=E.choice(f"level{i}", "INFO", "info", "ERROR"),
                         message=E.choice(f"message{i}", *WORDS), logger="l",
                         task_id=E.choice(f"task{i}", None, "a", "b"), extra=ex)


def _storage(E, cls, **state):
    o = with_state(E, cls(3), **state)
    return o


def _lock_name(o):
    return "mutex" if hasattr(o, "mutex") else "_lock"


def log_query(E):
    tz, buf = _logs(E)
    o = _storage(E, logs.MemoryLogStorage, buffer=buf, mutex=_Lock())
    focus = E.choice("filters", "task and level", "run and text", "window", "none") if E.sym else "all"
    task = _word(E, "task", "a", "b", "c") if focus in ("task and level", "all") else None
    level = _word(E, "level", "info", "ERROR", "Warning") if focus in ("task and level", "all") else None
    run = _word(E, "run", "r1", "r2", "7") if focus in ("run and text", "all") else None
    q = _word(E, "q", "a", " A ", "b", "ERR", "zz", "  ") if focus in ("run and text", "all") else None
    since = E.opt("since", lambda: E.dt("since", tz)) if focus in ("window", "all") else None
    until = E.opt("until", lambda: E.dt("until", tz)) if focus in ("window", "all") else None
    limit = E.int("limit", -1, None if E.sym else 7)
    needle = q.strip().lower() if q is not None else ""
    if E.sym and run is not None:
        E.assume(run != "None")

    def match(e):
        if task is not None and E.truth(task != "") and (e.task_id is None or not E.truth(e.task_id == task)):
            return False
        if run is not None and E.truth(run != ""):
            ex = e.extra
            if not ex or "run_id" not in ex or not E.truth((ex["run_id"] if E.sym else str(ex["run_id"])) == run):
                return False
        if since is not None and not E.truth(since <= e.ts):
            return False
        if until is not None and not E.truth(e.ts <= until):
            return False
        if level is not None and E.truth(level != "") and not E.truth(e.level.upper() == level.upper()):
            return False
        if E.truth(needle != "") and not E.truth(E.in_(needle, e.message.lower())):
            return False
        return True

    newest = _backwards(E, buf)
    none = E.truth(limit <= 0)
    fe = None if none else E.foreach("search", newest, out=lambda i, e: [e] if match(e) else [], limit=limit)
    before = _copy(buf)
    r = E.run_call(o.query, task_id=task, run_id=run, level=level, q=q, since=since, until=until, limit=limit)
    E.prove("returns normally", r.ok)
    if none:
        E.prove("nothing is asked for, nothing is returned", E.truth(E.eqv(E.call(len, r.value), 0)))
    else:
        E.prove_entries("exactly the newest matching entries, newest first", _listed(r.value), [fe])
    E.prove("the buffer is unchanged", _same(E, o.buffer, before))
    E.reached("answered")


log_query.variants = 2


def _listed(v):
    return v if hasattr(type(v), "_vc_sym") or isinstance(v, list) else list(v)


def _backwards(E, s):
    if E.sym:
        return s._slice(slice(None, None, -1))
    return list(reversed(s))


def _copy(s):
    return s.copy()


def _same(E, a, b):
    if not E.sym:
        return list(a) == list(b)
    from pyvc.foreach import same_seq
    return type(a) is type(b) and (same_seq(a, b))


def _newest(E, label, now, before, limit, entry):
    """now = the newest `limit` of before followed by entry"""
    if not E.sym:
        want = (list(before) + [entry])
        want = want[max(0, len(want) - limit):]
        got = list(now)
        E.prove(f"{label}: the newest entries within the limit, in order",
                len(got) == len(want) and all(x is y for x, y in zip(got, want)))
        return
    n, m = before._vc_len(), now._vc_len()
    E.prove(f"{label}: never more than the limit", E.or_(m <= limit, E.and_(m == 0, limit <= 0)))
    E.prove(f"{label}: none but the oldest is dropped", E.or_(m == n + 1, E.and_(m == limit, n + 1 > limit)))
    if not E.truth(m > 0):
        return
    E.prove(f"{label}: the new entry is the last", E.eqv(now[m - 1], entry))
    j = E.int("position", 0)
    E.assume(E.and_(j + 1 < m))
    E.prove(f"{label}: the rest is in order", E.eqv(now[j], before[n + 1 - m + j]))


def log_append(E):
    tz, buf = _logs(E)
    o = _storage(E, logs.MemoryLogStorage, buffer=buf, mutex=_Lock())
    before, limit = _copy(buf), buf.maxlen
    what = E.choice("what", "entry", "clear", "junk") if E.sym else E.choice("what", "entry", "dict", "clear", "junk")
    if what == "clear":
        r = E.run_call(o.clear)
        E.prove("cleared", r.ok and E.truth(E.eqv(E.call(len, o.buffer), 0)))
    elif what == "junk":
        r = E.run_call(o.append, E.choice("junk", None, "text", 5, ["x"]))
        E.prove("anything else is refused", r.raised(TypeError))
        E.prove("nothing changes", _same(E, o.buffer, before))
    elif what == "dict":
        d = {k: v for k, v in (("ts", E.choice("ts", None, "x", dt.datetime(2024, 1, 1), dt.datetime(2024, 1, 1, tzinfo=UTC))),
                               ("level", E.choice("level", "INFO", 5)), ("message", E.choice("message", "m", 7)),
                               ("task_id", E.choice("task_id", None, "t")), ("extra", E.choice("extra", None, {"a": 1}, "x")))
             if E.choice("has " + k, True, False)}
        r = E.run_call(o.append, d)
        E.prove("appended", r.ok)
        got = list(o.buffer)
        if limit:
            e = got[-1]
            E.prove("a proper entry with the given content", isinstance(e, logs.LogEntry) and e.ts.tzinfo is not None
                    and (not isinstance(d.get("ts"), dt.datetime) or e.ts.replace(tzinfo=None) == d["ts"].replace(tzinfo=None))
                    and e.level == str(d.get("level", "INFO")) and e.message == str(d.get("message", ""))
                    and e.task_id == d.get("task_id")
                    and e.extra == (d.get("extra") if isinstance(d.get("extra"), dict) else None))
            _newest(E, "append", o.buffer, before, limit, e)
    else:
        if E.sym:
            from pyvc.values import SRef
            import z3
            e = SRef(z3.Int("in!new entry"), buf.codec.decode((z3.IntVal(0),)).pop)
        else:
            e = _entry(E, tz, 99)
        r = E.run_call(o.append, e)
        E.prove("appended", r.ok)
        _newest(E, "append", o.buffer, before, limit, e)
    E.reached("done")


def construct(E):
    """the limit given to a buffer is its limit"""
    n = E.choice("limit", 1, 2, 3, 5000)
    for cls in (logs.MemoryLogStorage, events.MemorySchedulerEventStorage, audit.MemoryAuditTrailStorage):
        r = E.run_call(cls, n)
        E.prove("made", r.ok)
        o = r.value
        E.prove("empty", len(list(E.call(o.query))) == 0)
        b = getattr(o, "buffer", None)
        b = getattr(o, "_records", None) if b is None else b
        E.prove("with that limit", (getattr(b, "maxlen", None) or getattr(o, "maxlen", None)) == n)
    E.reached("made")


# ------------------------------------------------------------------ events
NAMES = ("task.added", "task.error", "scheduler.started")


def _event_records(E):
    if E.sym:
        from pyvc.values import KeyC, OptC
        pop, seq = _codec(E, "record", events.SchedulerEventRecord, {"category": KeyC, "name": KeyC, "task_id": OptC(KeyC)})
        seq.maxlen = E.int("limit of the buffer", 0)
        E.assume(seq._vc_len() <= seq.maxlen)
        return seq
    n, most = E.int("entries", 0, 6), E.int("limit of the buffer", 0, 6)
    rec = []
    for i in range(n):
        name = E.choice(f"name{i}", *NAMES)
        rec.append(events.SchedulerEventRecord(
            event_id=f"e{i}", code=i, name=name, category=name.split(".")[0], observed_at=dt.datetime(2024, 1, 1, tzinfo=UTC),
            alias=E.choice(f"alias{i}", None, "al", "AB"), task_id=E.choice(f"task{i}", None, "a", "b"),
            store=E.choice(f"store{i}", None, "default"), scheduler_identity=E.choice(f"who{i}", None, "host:1"),
            details=E.choice(f"details{i}", {}, {"source": "manual"}, {"x": None})))
    rec, most = _bulk(E, rec, most)
    return collections.deque(rec[:most], maxlen=most)


def event_query(E):
    buf = _event_records(E)
    o = _storage(E, events.MemorySchedulerEventStorage, _records=buf, _lock=_Lock())
    cat = _word(E, "category", "task", " TASK", "scheduler", "x", " ")
    name = _word(E, "name", "task.added", "Task.Error ", "x", "")
    task = _word(E, "task", "a", "b", "c", "")
    q = None if E.sym else _word(E, "q", "a", " AL", "manual", "host", "DEFAULT", "started", "zz", "e1", "source manual", " ")
    limit = E.int("limit", -1, None if E.sym else 7)
    cf, nf = (x.strip().lower() if x is not None else "" for x in (cat, name))
    needle = q.strip().lower() if q is not None else ""

    def match(r):
        if E.truth(cf != "") and not E.truth(r.category == cf):
            return False
        if E.truth(nf != "") and not E.truth(r.name == nf):
            return False
        if task is not None and E.truth(task != "") and (r.task_id is None or not E.truth(r.task_id == task)):
            return False
        if needle:
            details = " ".join(f"{k} {v}" for k, v in r.details.items() if v is not None)
            texts = (r.name, r.category, r.alias, r.task_id, r.store, r.scheduler_identity, r.event_id, details)
            return needle in " ".join(t or "" for t in texts).lower()
        return True

    none = E.truth(limit <= 0)
    fe = None if none else E.foreach("search", _backwards(E, buf), out=lambda i, e: [e] if match(e) else [], limit=limit)
    before = _copy(buf)
    r = E.run_call(o.query, category=cat, name=name, task_id=task, q=q, limit=limit)
    E.prove("returns normally", r.ok)
    if none:
        E.prove("nothing is asked for, nothing is returned", E.truth(E.eqv(E.call(len, r.value), 0)))
    else:
        E.prove_entries("exactly the newest matching entries, newest first", _listed(r.value), [fe])
    E.prove("the buffer is unchanged", _same(E, o._records, before))
    E.reached("answered")


event_query.variants = 2


def event_append(E):
    buf = _event_records(E)
    o = _storage(E, events.MemorySchedulerEventStorage, _records=buf, _lock=_Lock())
    before, limit = _copy(buf), buf.maxlen
    if E.choice("what", "append", "clear") == "clear":
        r = E.run_call(o.clear)
        E.prove("cleared", r.ok and E.truth(E.eqv(E.call(len, o._records), 0)))
        return
    made = []
    if E.sym:
        from pyvc.values import SRef
        import z3
        rec = SRef(z3.Int("in!new record"), buf.codec.decode((z3.IntVal(0),)).pop)

        def make(event, *, scheduler):
            made.append((event, scheduler))
            return rec

        E.contract(events._event_record, make)
        event, who = E.stub("event"), E.stub("scheduler")
        r = E.run_call(o.append, event, scheduler=who)
        E.prove("appended", r.ok)
        E.prove("one record is made of the event", len(made) == 1 and made[0][0] is event and made[0][1] is who)
        E.prove("it is returned", r.value is rec)
    else:
        ev = TaskEvent(code=TASK_ADDED, task_id="t", store="s") if E.choice("kind", 0, 1) \
            else SchedulerEvent(code=SCHEDULER_STARTED, alias="x")
        r = E.run_call(o.append, ev, scheduler=None)
        E.prove("appended", r.ok)
        rec = r.value
        E.prove("the record tells the event", rec.code == ev.code and rec.name == events.EVENT_NAMES[ev.code]
                and rec.category == ("task" if isinstance(ev, TaskEvent) else "scheduler")
                and rec.task_id == getattr(ev, "task_id", None) and rec.store == getattr(ev, "store", None)
                and rec.alias == ev.alias)
    _newest(E, "append", o._records, before, limit, rec)
    E.reached("appended")


# ------------------------------------------------------------------ audit
def _audit_state(E):
    """records by id plus the order of ids: every id of the order has its record"""
    if E.sym:
        import z3
        from pyvc.values import KeyC, Population, SMap
        pop = Population("audit record", audit.AuditRecord, {"action": KeyC, "status": KeyC, "event_id": KeyC})
        order = E.seq("order", KeyC)
        recs = SMap.fresh(pop.codec(), "records")
        limit = E.int("limit of the trail", 0)
        E.assume(order._vc_len() <= limit)
        i, j, k = z3.Int("i!c21"), z3.Int("j!c21"), z3.Real("k!c21")
        ids = pop.arrays("event_id")[0]
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < order.n), z3.And(
            recs.has(order.get(i)[0]), z3.Select(ids, recs.get_(order.get(i)[0])[0]) == order.get(i)[0])),
            patterns=[order.get(i)[0]]))
        a, b = order.get(i)[0], order.get(j)[0]
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < order.n), a != b),
                           patterns=[z3.MultiPattern(a, b)]))
        return pop, recs, order, limit
    limit = E.int("limit of the trail", 0, 5)
    n = min(E.int("entries", 0, 5), limit)
    rs = [audit.AuditRecord(event_id=f"id{i}", action=E.choice(f"action{i}", "run", "pause", "task.add"),
                            status=E.choice(f"status{i}", "succeeded", "failed"), target_id=E.choice(f"target{i}", None, "t1", "B"),
                            message=E.choice(f"message{i}", None, "Hello World"), actor=E.choice(f"actor{i}", "dashboard", "Bob"))
          for i in range(n)]
    return None, {r.event_id: r for r in rs}, collections.deque(r.event_id for r in rs), limit


def audit_query(E):
    pop, recs, order, limit = _audit_state(E)
    o = _storage(E, audit.MemoryAuditTrailStorage, _records=recs, _order=order, _lock=_Lock(), maxlen=limit)
    action = _word(E, "action", "run", " Pause", "task.add", "x", " ")
    status = _word(E, "status", "succeeded", "FAILED", "x", "")
    q = None if E.sym else _word(E, "q", "t1", "b", "hello w", "BOB", "id1", "zz", "task", " ")
    most = E.int("limit", -1, None if E.sym else 6)
    af, sf = (x.strip().lower() if x is not None else "" for x in (action, status))
    needle = q.strip().lower() if q is not None else ""

    def match(r):
        if E.truth(af != "") and not E.truth(r.action == af):
            return False
        if E.truth(sf != "") and not E.truth(r.status == sf):
            return False
        if needle:
            return needle in " ".join(t or "" for t in (r.event_id, r.action, r.status, r.target_type, r.target_id, r.message,
                                                        r.actor)).lower()
        return True

    if E.sym:
        from pyvc.values import SSeq
        g, has = order._slice(slice(None, None, -1)).get, recs.get_
        newest = SSeq(pop.codec(), order.n, lambda i: has(g(i)[0]), "newest")
    else:
        newest = [recs[i] for i in reversed(order)]
    none = E.truth(most <= 0)
    fe = None if none else E.foreach("search", newest, out=lambda i, e: [e] if match(e) else [], limit=most)
    r = E.run_call(o.query, action=action, status=status, q=q, limit=most)
    E.prove("returns normally", r.ok)
    if none:
        E.prove("nothing is asked for, nothing is returned", E.truth(E.eqv(E.call(len, r.value), 0)))
    else:
        E.prove_entries("exactly the newest matching records, newest first", _listed(r.value), [fe])
    E.reached("answered")


audit_query.variants = 2


def audit_append(E):
    pop, recs, order, limit = _audit_state(E)
    o = _storage(E, audit.MemoryAuditTrailStorage, _records=recs, _order=order, _lock=_Lock(), maxlen=limit)
    before, old = _copy(order), recs.copy()
    if E.choice("what", "append", "clear") == "clear":
        r = E.run_call(o.clear)
        E.prove("cleared", r.ok and E.truth(E.eqv(E.call(len, o._order), 0)))
        if E.sym:
            E.prove("no record is left", E.neg(E.in_(E.key("any id"), o._records)))
        else:
            E.prove("no record is left", len(o._records) == 0)
        return
    given = dict(action=E.key("action"), status=E.key("status"))
    for k, mk in (("target_type", lambda: E.key("target type")), ("target_id", lambda: E.key("target")),
                  ("message", lambda: E.key("message")), ("actor", lambda: E.key("actor")), ("details", lambda: {"a": 1})):
        if E.choice("with " + k, True, False) if not E.sym or k in ("target_id",) else True:
            given[k] = mk()
    if E.sym:
        import z3
        from pyvc.values import SRef
        rec = SRef(z3.Int("in!new record"), pop)
        got = {}

        def make(**k):
            got.update(k)
            E.assume(E.neg(E.in_(k["event_id"], old)))
            E.assume(k["event_id"] == rec.event_id)
            return rec

        E.patch(audit, "AuditRecord", make)
        E.patch(audit, "uuid", E.stub("uuid", None, uuid4=lambda: E.stub("uuid4", None, hex=_Hex(E))))
    r = E.run_call(o.append, **given)
    E.prove("appended", r.ok)
    rec = r.value
    if not E.sym:
        got = {k: getattr(rec, k) for k in given}
    for k, v in given.items():
        E.prove("the record tells what was given", k in got and (got[k] is v or E.truth(E.eqv(got[k], v))))
    _newest(E, "append", o._order, before, limit, rec.event_id)
    if E.sym:
        k = E.key("any id")
        m = o._order._vc_len()
        if not E.truth(m > 0):
            E.prove("nothing is kept when nothing may be kept", E.implies(E.in_(rec.event_id, o._records), limit > 0))
            return
        E.prove("the new record is found under its id", E.and_(E.in_(rec.event_id, o._records), o._records[rec.event_id] is rec
                                                              or E.truth(E.eqv(o._records[rec.event_id], rec))))
        j = E.int("kept position", 0)
        E.assume(j + 1 < m)
        i = o._order[j]
        E.prove("every kept id has its record", E.in_(i, o._records))
        E.prove("the same as before", E.eqv(o._records[i], old[i]))
    else:
        E.prove("the records are those of the order", set(o._records) == set(o._order) and
                all(o._records[i] is (rec if i == rec.event_id else old[i]) for i in o._order))
    E.reached("appended")


class _Hex(str):
    def __new__(cls, E):
        return str.__new__(cls, "0" * 32)


def audit_ids(E):
    """audit ids differ and the helper stores the given values (bounded: sampled)"""
    o = audit.MemoryAuditTrailStorage(E.int("limit", 1, 30))
    E.patch(audit, "_storage", o)
    seen = []
    for i in range(E.int("events", 1, 40)):
        seen.append(audit.record_audit_event("run", status=E.choice("status", "succeeded", "failed"), target_id=str(i)))
    E.prove("ids are unique", len({r.event_id for r in seen}) == len(seen))
    kept = seen[-o.maxlen:]
    E.prove("the newest are listed, newest first", o.query(limit=100) == kept[::-1])
    s = o.summary()
    E.prove("the summary counts the kept records", s["total"] == len(kept)
            and s["failed"] == sum(r.status == "failed" for r in kept)
            and s["succeeded"] == sum(r.status == "succeeded" for r in kept))
    E.reached("listed")


def event_summary(E):
    o = events.MemorySchedulerEventStorage(E.int("limit", 1, 10))
    evs = []
    for i in range(E.int("events", 0, 15)):
        kind = E.choice(f"kind{i}", TASK_ADDED, TASK_ERROR, SCHEDULER_STARTED)
        ev = SchedulerEvent(code=kind) if kind == SCHEDULER_STARTED else TaskEvent(code=kind, task_id=f"t{i}", store="s")
        evs.append(o.append(ev, scheduler=None))
    kept = evs[-o.maxlen:]
    E.prove("the newest are listed, newest first", o.query(limit=100) == kept[::-1])
    s = o.summary()
    E.prove("the summary counts the kept events", s == {
        "total": len(kept), "scheduler": sum(e.category == "scheduler" for e in kept),
        "task": sum(e.category == "task" for e in kept), "terminal": sum(e.code == TASK_ERROR for e in kept)})
    E.reached("listed")


UNITS = [log_query, log_append, event_query, event_append, audit_query, audit_append, construct]
RUNTIME = [audit_ids, event_summary]
