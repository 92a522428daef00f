"""C17 each event reaches exactly the listeners whose mask includes it."""
from asyncz.events import SchedulerEvent, TaskEvent, TaskExecutionEvent
from asyncz.events import constants as C

from .util import as_list, scheduler

NOTE = ("dispatch_event, add_listener and remove_listener are verified for any number of listeners, any masks, any event "
        "code and listeners that raise or change the registrations; delivery by other threads at the same time is "
        "covered by the snapshot being taken under the lock, not by an interleaving argument.")
ASSUMPTIONS = ["masks and event codes are non-negative integers below 2**17 (the declared constants)"]

CODES = sorted({getattr(C, n) for n in dir(C) if n.isupper() and n != "ALL_EVENTS"})


class Boom(BaseException):
    pass


def _listeners(E, log, effect):
    """a list of (callback, mask); calling a callback logs the delivery, may have an effect, may raise"""

    def behave(cb, ev, raises):
        log.add(cb, ev)
        effect()
        if raises == 1:
            raise ValueError("listener")
        if raises == 2:
            raise Boom()

    if E.sym:
        from pyvc.values import IntC, Population, TupleC

        def call(ref, ev):
            r = ref.raises
            behave(ref, ev, 1 if E.truth(r == 1) else 2 if E.truth(r == 2) else 0)

        pop = Population("listener", object, {"raises": IntC}, call=call)
        return E.seq("listeners", TupleC(pop.codec(), IntC)), pop

    pool = []

    def gen(i):
        if pool and E.choice("again", False, False, True):
            cb = pool[0]
        else:
            raises = E.choice("raises", 0, 0, 1, 2)

            def cb(ev, raises=raises):
                behave(cb, ev, raises)
            pool.append(cb)
        return (cb, E.int("mask", 0, 2**17 - 1))

    return E.seq("listeners", None, gen), None


def _has(E, code, mask):
    if E.conc:
        return bool(code & mask)
    return code & mask != 0


def _event(E):
    kind = E.choice("kind", "scheduler", "task", "run")
    code = E.int("code", 1, 2**17 - 1)
    if kind == "scheduler":
        return E.obj(SchedulerEvent, code=code, alias=None)
    if kind == "task":
        return E.obj(TaskEvent, code=code, task_id="t", store="default")
    return E.obj(TaskExecutionEvent, code=code, task_id="t", store="default", scheduled_run_time="x")


def dispatch(E):
    """an event is delivered once, in order, to each listener whose mask includes its code"""
    log = E.log("deliveries")
    sch = []
    change = E.choice("meanwhile", "nothing", "adds", "removes")

    def effect():
        if change == "adds":
            E.call(sch[0].add_listener, sch[1], 1)
        elif change == "removes" and E.conc:
            del sch[0].listeners[:1]
        elif change == "removes":
            del_first(E, sch[0])

    seq, pop = _listeners(E, log, effect)
    original = list(seq) if E.conc else seq.copy()
    s = scheduler(E, listeners=seq)
    sch.append(s)
    if E.conc:
        sch.append(lambda ev: None)
    else:
        from pyvc.values import SRef
        import z3
        sch.append(SRef(z3.IntVal(-1), pop))
    ev = _event(E)
    code = ev.code

    def each(i, x):
        cb, mask = x
        return [[(cb, ev)] if E.truth(_has(E, code, mask)) else []]

    def havoc(L):
        import z3
        from pyvc.values import SSeq
        new = SSeq.fresh(seq.codec, "listeners.now")
        seq.get, seq.n = new.get, new.n

    E_assume_masks(E, seq)
    fe = E.foreach("listeners", original, logs=[log], each=each, frame=[seq] if E.sym else (), havoc=havoc)
    r = E.run_call(s.dispatch_event, ev)
    E.prove("dispatching never raises", r.ok)
    E.prove_entries("each listener with the code in its mask got the event exactly once, in order", log, [fe])
    E.prove("the event keeps its code", ev.code == code)
    E.reached("dispatched")


def del_first(E, s):
    s.listeners._vc_delitem(slice(None, 1)) if E.truth(s.listeners.n > 0) else None


def E_assume_masks(E, seq):
    if E.sym:
        import z3
        i = z3.Int("i!mask")
        E.assume(z3.ForAll([i], z3.And(seq.get(i)[1] >= 0, seq.get(i)[1] < 2**17)))


def add(E):
    """adding registers the callback last and touches nothing else"""
    log = E.log()
    seq, pop = _listeners(E, log, lambda: None)
    old = list(seq) if E.conc else seq.copy()
    s = scheduler(E, listeners=seq)
    if E.conc:
        cb = lambda ev: None  # noqa: E731
    else:
        cb = E.choice("cb", *[_ref(pop)])
    mask = E.int("mask", 0, 2**17 - 1)
    r = E.run_call(s.add_listener, cb, mask)
    E.prove("returns normally", r.ok)
    now = s.listeners
    if E.conc:
        E.prove("registered last", now == old + [(cb, mask)])
        return
    E.prove("one more registration", now.n == old.n + 1)
    got = now.at(old.n)
    E.prove("registered last", E.and_(got[0] == cb, got[1] == mask))
    j = E.int("j", 0)
    E.prove("others untouched", E.implies(j < _si(old.n), E.and_(now.at(j.t)[0] == old.at(j.t)[0],
                                                                 now.at(j.t)[1] == old.at(j.t)[1])))


def _si(t):
    from pyvc.values import SInt
    return SInt(t)


def _ref(pop, name="cbref"):
    import z3
    from pyvc.values import SRef
    return SRef(z3.Int("in!" + name), pop)


def remove(E):
    """removing deletes the first registration of the callback only, and says whether there was one"""
    log = E.log()
    seq, pop = _listeners(E, log, lambda: None)
    old = list(seq) if E.conc else seq.copy()
    s = scheduler(E, listeners=seq)
    if E.conc:
        pick = E.int("pick", -1, 4)
        cb = old[pick][0] if 0 <= pick < len(old) else (lambda ev: None)
    else:
        cb = _ref(pop)

    def inv(L, loc):
        return [("no registration of the callback so far",
                 E.forall(0, _si(L.i), lambda j: old.get(j.t)[0] != cb.t))]

    fe = E.foreach("registrations", old, inv=inv, frame=[seq] if E.sym else ())
    r = E.run_call(s.remove_listener, cb)
    E.prove("returns normally", r.ok)
    if E.conc or fe.loop is None:
        xs = as_list(E, old)
        k = next((i for i, (c, m) in enumerate(xs) if E.truth(E.eqv(c, cb))), None)
        want = xs if k is None else xs[:k] + xs[k + 1:]
        now = list(s.listeners) if E.conc else as_list(E, s.listeners)
        E.prove("reports whether one was there", r.value is (k is not None))
        E.prove("removes exactly the first registration", len(now) == len(want) and all(
            E.truth(E.eqv(a[0], b[0])) and E.truth(E.eqv(a[1], b[1])) for a, b in zip(now, want)))
        return
    now = s.listeners
    j = E.int("j", 0)
    same = lambda a, b: E.and_(a[0] == b[0], a[1] == b[1])  # noqa: E731
    if r.value is True:
        k = _si(fe.loop.i)
        E.prove("it was registered", E.and_(old.at(k.t)[0] == cb, k < _si(old.n)))
        E.prove("it is the first", E.implies(j < k, old.get(j.t)[0] != cb.t))
        E.prove("one fewer", now.n == old.n - 1)
        E.prove("the others stay in order", E.implies(j < _si(now.n), E.or_(
            E.and_(j < k, same(now.at(j.t), old.at(j.t))), E.and_(j >= k, same(now.at(j.t), old.at(j.t + 1))))))
        E.reached("removed")
    else:
        E.prove("reports absence", r.value is False)
        E.prove("nothing removed", E.and_(now.n == old.n, E.implies(j < _si(now.n), same(now.at(j.t), old.at(j.t)))))
        E.prove("it was not registered", E.implies(j < _si(old.n), old.get(j.t)[0] != cb.t))


UNITS = [dispatch, add, remove]
