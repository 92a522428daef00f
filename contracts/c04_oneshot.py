"""C04 one-shot and combined schedules fire when their definition says."""
import datetime as dt

from asyncz.triggers import AndTrigger, DateTrigger, OrTrigger, ShutdownTrigger
from asyncz.triggers.base import BaseTrigger
from asyncz.triggers.types import TriggerType

from .util import UTC

NOTE = ("Date and shutdown schedules are verified for every instant and zone. Or-combinations are verified for any number "
        "of members with arbitrary answers; and-combinations for any number of members, any number of rounds, where each "
        "member answers from its own set of fire times (for the current time, or after a previous one), also when a member "
        "does not follow the current time. Every round of the and-search is proved to move on in time.")
ASSUMPTIONS = ["a member's answer to (previous, now) is its least fire time after previous, or - without previous - a fire "
               "time with no other in between now and it (member triggers are under their own contracts C01-C03)",
               "partial correctness: an and-combination whose members never agree need not terminate"]


def date(E):
    """fires exactly once, at its instant"""
    tz, tz2 = E.tz(), E.tz()
    at = E.dt("at", tz)
    form = E.choice("given", "aware", "naive", "none")
    now = E.dt("now", tz2)
    E.set_now(now)
    if form == "naive":
        arg, want = at.replace(tzinfo=None), at
        if E.conc and not isinstance(tz, dt.timezone):
            want = dt.datetime.fromtimestamp(at.timestamp(), tz)
            E.assume(want.replace(tzinfo=None) == arg)
    elif form == "aware":
        arg, want = at, at
    else:
        arg, want = None, now
    zone = tz if form == "naive" else tz2
    r = E.run_call(DateTrigger, arg, zone)
    E.prove("accepted", r.ok)
    prev = E.opt("previous", lambda: E.dt("prev", tz2))
    now2 = E.dt("now2", tz2)
    n = E.run_call(r.value.get_next_trigger_time, tz2, prev, now2)
    E.prove("returns normally", n.ok)
    if prev is None:
        E.prove("fires at its instant", n.value is not None and E.truth(n.value == want))
        E.prove("in the zone asked for", n.value.tzinfo is tz2)
    else:
        E.prove("never again", n.value is None)
    E.prove("an immediate date is run however late", form != "none" or r.value.allow_mistrigger_by_default is True)


def shutdown(E):
    tz = E.tz()
    t = E.run_call(ShutdownTrigger)
    E.prove("accepted", t.ok)
    r = E.run_call(t.value.get_next_trigger_time, tz, E.opt("previous", lambda: E.dt("prev", tz)),
                   E.opt("now", lambda: E.dt("now", tz)))
    E.prove("never fires by itself", r.ok and r.value is None)


class Member(BaseTrigger):
    """a member natively: finite fire times"""
    alias = "member"


def _or_members(E, tz, log):
    """members with one fixed answer each (the combination asks once)"""
    if E.sym:
        from pyvc.values import BoolC, DtC, Population

        def other(ref, n):
            if n == "get_next_trigger_time":
                def ask(timezone, previous_time, now=None):
                    log.add("ask", ref, timezone, previous_time, now)
                    return None if E.truth(ref.ended) else ref.at
                return ask
            return NotImplemented

        pop = Population("member", TriggerType, {"ended": BoolC, "at": DtC(tz)}, other=other)
        return E.seq("members", pop.codec())

    def mk(i):
        ended = E.choice("ended", False, True)
        at = E.dt("at", tz)

        class M:
            pass

        m = E.stub("member", None)
        m.ended, m.at = ended, at

        def ask(timezone, previous_time, now=None):
            log.add("ask", m, timezone, previous_time, now)
            return None if ended else at

        m.get_next_trigger_time = ask
        return m

    return E.seq("members", None, mk, maxlen=4)


def either(E):
    """the earliest time any member gives; ended only when all have ended"""
    log = E.log("asked")
    tz = E.tz()
    members = _or_members(E, tz, log)
    prev = E.opt("previous", lambda: E.dt("prev", tz))
    clock = E.dt("clock", tz)
    E.set_now(clock)
    now = E.opt("now", lambda: E.dt("now", tz))
    j = E.opt("jitter", lambda: E.int("j", 0, 10**6))
    t = E.obj(OrTrigger, triggers=members, jitter=j)
    fe = E.foreach("members", members, logs=[log],
                   each=lambda i, x: [[E.pred(lambda en: en[0] == "ask" and E.truth(E.eqv(en[1], x)) and en[2] is tz and en[3] is prev
                                              and en[4] is not None and E.truth(en[4] == (clock if now is None else now)))]],
                   collect=None if E.conc else (_dtc(tz), lambda i, x, v: v == x.at, lambda i, x: E.neg(x.ended)))
    r = E.run_call(t.get_next_trigger_time, tz, prev, now)
    E.prove("returns normally", r.ok)
    E.prove_entries("every member is asked once", log, [fe])
    got = r.value
    late = dt.timedelta(seconds=1) * (j if j is not None else 0)
    if E.conc:
        ats = [m.at for m in members if not m.ended]
        if got is None:
            E.prove("ended only when all have ended", not ats)
        else:
            E.prove("the earliest time any member gives", bool(ats) and min(ats) <= got <= min(ats) + late)
        return
    if got is None:
        E.prove("ended only when all have ended",
                E.forall(0, _len(members), lambda i: members.at(i.t).ended))
        return
    E.reached("fires")
    E.prove("at most the jitter after every member's time",
            E.forall(0, _len(members), lambda i: E.or_(members.at(i.t).ended, got <= members.at(i.t).at + late)))
    E.prove("not before the earliest member's time",
            E.neg(E.forall(0, _len(members), lambda i: E.or_(members.at(i.t).ended, got < members.at(i.t).at))))


def _len(s):
    from pyvc.values import SInt
    return SInt(s.n)


def _dtc(tz):
    from pyvc.values import DtC
    return DtC(tz)


def both(E):
    """fires only when all members agree, and not later than the first time on which they do; ends when one has ended"""
    tz = E.tz()
    prev = E.opt("previous", lambda: E.dt("prev", tz))
    now = E.dt("now", tz)
    j = E.opt("jitter", lambda: E.int("j", 0, 10**6))
    common = E.choice("a common time exists", True, False)
    c = E.dt("common", tz) if common else None
    if common:
        E.assume(c > prev if prev is not None else c >= now)
    late = dt.timedelta(seconds=1) * (j if j is not None else 0)
    if E.conc:
        return _both_native(E, tz, prev, now, j, c, late)
    import z3
    from pyvc.values import Population, SDt, mkbool
    fires_ = z3.Function("fires", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    ended = [False]

    def fires(ref, t):
        return mkbool(fires_(ref.t, t.w))

    def other(ref, n):
        if n == "get_next_trigger_time":
            def ask(timezone, previous_time, now=None):
                E.prove("members are asked in the schedule's zone and for a time", timezone is tz and now is not None)
                if c is None and E.choice("member", "fires", "ended") == "ended":
                    ended[0] = True
                    return None
                v = E.dt("answer", tz)
                E.assume(fires(ref, v))
                if previous_time is not None:
                    E.assume(v > previous_time)
                    if c is not None:
                        if not E.truth(c > previous_time):
                            if E.choice("member", "fires", "ended") == "ended":
                                ended[0] = True
                                return None
                        else:
                            E.assume(v <= c)
                elif c is not None:
                    if E.truth(c >= now):
                        E.assume(v <= c)
                    elif E.choice("member", "fires", "ended") == "ended":
                        ended[0] = True
                        return None
                return v
            return ask
        return NotImplemented

    pop = Population("member", TriggerType, {}, other=other)
    members = E.seq("members", pop.codec())
    E.assume(_len(members) > 0)
    t = E.obj(AndTrigger, triggers=members, jitter=j)

    def bound(v):
        return v <= c if c is not None else True

    def since(L, v):
        """members are asked again only for times from the latest proposal on"""
        r = True
        for _, _, head, _ in getattr(rounds[0].loop, "groups", ()):
            r = E.and_(r, v >= head)
        return r

    rounds = []
    E.foreach("members", members,
              collect=(_dtc(tz), lambda i, x, v: E.and_(fires(x, v), bound(v), since(None, v))),
              inv=lambda L, loc: [("no member has ended", not ended[0])])
    rounds.append(E.while_(
        "rounds", lambda loop: loop.outer is None, lambda L, v: bound(v), peel=1, progress=lambda L, old, new: new > old,
        state=lambda L, phase: [("no member has ended", not ended[0])]))

    def gone():
        ended[0] = True
        if c is not None:
            E.assume(False)

    E.while_("catching up", lambda loop: loop.outer is not None, lambda L, v: E.and_(bound(v), fires(L.outer.x, v)),
             none=gone, none_ok=lambda: c is None and ended[0])
    r = E.run_call(t.get_next_trigger_time, tz, prev, now)
    E.prove("returns normally", r.ok)
    got = r.value
    if got is None:
        E.prove("ends only when a member has ended", ended[0])
        E.prove("does not end before a time on which all agree", c is None)
        return
    E.prove("ends as soon as a member has ended", not ended[0])
    if j is None or not E.truth(j > 0):
        E.prove("fires only at a time on which all members agree",
                E.forall(0, _len(members), lambda i: fires(members.at(i.t), got)))
    if c is not None:
        E.prove("not later than the first time on which all agree", got <= c + late)
    E.reached("fires")


def _both_native(E, tz, prev, now, j, c, late):
    members = []
    sets = []
    asked = [0]
    base = [now + dt.timedelta(seconds=s) for s in range(-3, 12)]
    for i in range(E.choice("count", 1, 2, 3)):
        s = {t for t in base if E.choice("fires", True, False)}
        if c is not None:
            s.add(c)
        style = E.choice("style", "follows", "ignores", "date")
        s = sorted(s)
        if style == "date":
            s = [c] if c is not None else s[:1]
        sets.append(s)

        def ask(timezone, previous_time, now=None, s=s, style=style):
            asked[0] += 1
            E.prove("the search makes progress", asked[0] < 3000)
            if previous_time is not None:
                later = [t for t in s if t > previous_time]
            elif style == "date" or style == "ignores" and not any(t >= now for t in s):
                later = s[-1:]
            else:
                later = [t for t in s if t >= now]
            return later[0] if later else None

        m = E.stub("member", None)
        m.get_next_trigger_time = ask
        members.append(m)
    t = E.obj(AndTrigger, triggers=members, jitter=j)
    r = E.run_call(t.get_next_trigger_time, tz, prev, now)
    E.prove("returns normally", r.ok)
    agreed = sorted(set.intersection(*map(set, sets)))
    got = r.value
    if got is None:
        E.prove("does not end before a time on which all agree",
                not [x for x in agreed if (x > prev if prev is not None else x >= now)])
    else:
        E.prove("fires only at a time on which all members agree", any(x <= got <= x + late for x in agreed))
        if c is not None:
            E.prove("not later than the first time on which all agree", got <= c + late)


UNITS = [date, shutdown, either, both]
