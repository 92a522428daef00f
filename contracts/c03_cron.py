"""C03 a cron schedule fires at the earliest matching second and never skips one."""
import datetime as dt
import random

import asyncz.triggers.cron.fields as fields
from asyncz.triggers.cron.trigger import CronTrigger

from contracts.c02_cronfields import CLASS, NAMES, _read
from contracts.util import UTC

QUICK_S = 300
FALLBACK_S = 40
NOTE = ("The search is verified for every date, bound and set of admitted values per field (any schedule), by an invariant of "
        "the search loop over an arbitrary second that no step passes over if it matches; the fields answer as C02 proves.")
ASSUMPTIONS = ["zones without clock changes (what zones with clock changes do is checked natively, away from the changes; "
               "KNOWN lists what is wrong at them)",
               "the Gregorian calendar: days are ordered as (year, month, day), months have 28 to 31 days, dates stay within "
               "the years 1 to 9999",
               "BaseField.get_next_value answers as verified for C02"]


def _match_sym(E, d):
    """whether the fields admit a second, one fact per field"""
    import z3
    I, B = z3.IntSort(), z3.BoolSort()
    t = lambda v: v.t if hasattr(v, "t") else z3.IntVal(v)  # noqa: E731
    out = {}
    for n in NAMES:
        if n == "day":
            out[n] = z3.Function("admits day", I, I, I, B)(t(d.year), t(d.month), t(d.day))
        else:
            v = {"week": lambda: d.isocalendar()[1], "day_of_week": d.weekday}.get(n) or (lambda n=n: getattr(d, n))
            out[n] = z3.Function("admits " + n, I, B)(t(v()))
    return out


def first_search(E):
    """the first second that matches every field, from now on"""
    _search(E)


def next_search(E):
    """the first second that matches every field, after the previous fire time"""
    _search(E, previous=True, bound="start")


def next_search_at_once(E):
    """the first second that matches every field, asked for at the previous fire time itself"""
    _search(E, previous="now", bound="start")


def search_from(E):
    """the first second that matches every field, not before a zone-aware start bound"""
    _search(E, bound="start", own=True)


def search_from_naive(E):
    """the first second that matches every field, not before a naive start bound"""
    _search(E, bound="naive start")


def search_until(E):
    """the first second that matches every field, up to a zone-aware end bound"""
    _search(E, previous=None, bound="end", here=True)


def search_until_naive(E):
    """the first second that matches every field, up to a naive end bound"""
    _search(E, previous=None, bound="naive end", own=True, here=True)


def _search(E, previous=False, bound="none", own=False, here=False):
    tz, other = E.tz("zone"), E.tz("other zone")
    where = tz if here else other
    if not E.sym:  # natively, every combination
        bound = E.choice("bound", "none", "start", "naive start", "end", "naive end")
        own, previous, where = E.choice("own zone", True, False), None, E.choice("where", tz, other)
    now = E.dt("now", where)
    at_once = previous == "now"
    last = lambda: E.dt("previous", where)  # noqa: E731
    previous = last() if previous else None if previous is False else E.opt("previous", last)
    if E.sym and bound == "start" and previous is not None:
        E.assume(E.iff(now == previous, at_once))
    start_at = end_at = None
    if bound.endswith("start"):
        start_at = E.dt("start_at", None if "naive" in bound else other)
    elif bound.endswith("end"):
        end_at = E.dt("end_at", None if "naive" in bound else other)
    us = dt.timedelta(microseconds=1)
    aware = lambda v: v.replace(tzinfo=tz) if v is not None and v.tzinfo is None else v  # noqa: E731
    if previous is not None:
        after = previous + us
        start = E.ite(now < after, now, after)
        if E.truth(start == previous):
            start = after
    else:
        start = now
        if start_at is not None and E.truth(aware(start_at) > now):
            start = aware(start_at)
    end = aware(end_at)

    if E.sym:
        S = E.dt("any second", tz)
        E.parts_of(S)
        E.assume(S.microsecond == 0)
        mS = E.and_(*_bools(_match_sym(E, S).values()))
        fs = [E.obj(CLASS.get(n, fields.BaseField), name=n, exprs="*", is_default=False, expressions=[]) for n in NAMES]

        def matches(d, upto=8):
            return E.and_(*_bools([v for n, v in _match_sym(E, d).items() if NAMES.index(n) < upto]))

        def part(d, n):
            return {"week": lambda: d.isocalendar()[1], "day_of_week": d.weekday}.get(n, lambda: getattr(d, n))()

        def ask(self, d):
            n = self.name
            cur, hi = part(d, n), E.call(self.get_max, d)
            mine, s = part(S, n), _bools([_match_sym(E, S)[n]])[0]
            same = E.and_(S.year == d.year, S.month == d.month) if n == "day" else True
            r = E.opt("next " + n, lambda: E.int("next " + n))
            if r is None:
                E.assume(E.implies(E.and_(same, mine >= cur), E.neg(s)))
                E.assume(E.neg(_admits(E, n, d, cur)))
            else:
                E.assume(E.and_(r >= cur, r <= hi, r >= E.call(self.get_min, d), _admits(E, n, d, r)))
                E.assume(E.implies(E.and_(same, mine >= cur, mine < r), E.neg(s)))
                E.assume(E.iff(_admits(E, n, d, cur), r == cur))
            return r

        E.contract(fields.BaseField.get_next_value, ask)
        g = {}

        def holds(L, v, entry):
            from pyvc.values import SDt
            g["d" if type(v) is SDt else "f"] = v
            return True

        def state(L, phase):
            d, f = g["d"], g["f"]
            E.parts_of(d)
            before = E.implies(E.and_(S >= start, S < d), E.neg(mS))
            done = E.implies(S >= start, E.neg(mS))
            live = E.and_(f >= 0, f <= 8, d.microsecond == 0, d >= start, before,
                          True if end is None else E.or_(f == 0, d <= end),
                          *[E.implies(f > k, _bools([_match_sym(E, d)[n]])[0]) for k, n in enumerate(NAMES)])
            yield "nothing that matches was passed over", E.or_(E.and_(f < 0, done), live)

        E.while_("search", lambda loop: loop.outer is None, holds, state=state)
        trigger = E.obj(CronTrigger, timezone=tz if own else None, start_at=start_at, end_at=end_at, jitter=None, fields=fs,
                        field_names=NAMES)
    else:
        trigger, sets = _schedule(E, tz if own else None, start_at, end_at, now)
        S = _second(E, sets, start, end, tz)

    r = E.run_call(trigger.get_next_trigger_time, tz if not own else other, previous, now)
    E.prove("answers", r.ok)
    if E.sym:
        ok = matches
    else:
        ok = lambda d: _matches(sets, d)  # noqa: E731
        mS = ok(S)
    if r.value is None:
        E.prove("none only when no second up to the end matches",
                E.implies(E.and_(S >= start, True if end is None else S <= end), E.neg(mS)))
        E.reached("none")
        return
    v = r.value
    E.prove("in the schedule's zone", v.tzinfo == tz)
    E.prove("not before the search start", v >= start)
    E.prove("not after the end", True if end is None else v <= end)
    E.prove("a whole second that matches every field", E.and_(v.microsecond == 0, ok(v)))
    E.prove("no second in between matches", E.implies(E.and_(S >= start, S < v), E.neg(mS)))
    E.reached("some")


def _bools(ts):
    from pyvc.values import mkbool
    return [mkbool(t) for t in ts]


def _admits(E, n, d, v):
    import z3
    from pyvc.values import mkbool
    I, B = z3.IntSort(), z3.BoolSort()
    t = lambda v: v.t if hasattr(v, "t") else z3.IntVal(v)  # noqa: E731
    if n == "day":
        return mkbool(z3.Function("admits day", I, I, I, B)(t(d.year), t(d.month), t(v)))
    return mkbool(z3.Function("admits " + n, I, B)(t(v)))


# ---------------------------------------------------------------- natively: an independent search
DEFAULTS = {"year": "*", "month": "1", "day": "1", "week": "*", "day_of_week": "*", "hour": "0", "minute": "0", "second": "0"}


def _texts(E, n, date):
    """a well formed text for a field, often near the date"""
    from asyncz.triggers.cron.constants import MAX_VALUES, MIN_VALUES
    lo, hi = MIN_VALUES[n], MAX_VALUES[n]
    near = {"week": lambda: date.isocalendar()[1], "day_of_week": date.weekday}.get(n, lambda: getattr(date, n))()
    num = lambda k: min(max(E.choice(k, lo, hi, near, near + 1, near - 1, near + 2, 29, 30, 31, 2, 12), lo), hi)  # noqa: E731
    form = E.choice("form", "*", "*/", "n", "n", "n-m", "n-m/", "n/", "list", "special")
    span = hi - lo if n != "year" else 8
    if form == "*/":
        return f"*/{min(E.choice('step', 1, 2, 3, 5, 7, 15, span // 2, span), hi - lo)}"
    if form == "n-m":
        a, b = sorted((num("a"), num("b")))
        return f"{a}-{b}"
    if form == "n-m/":
        a, b = sorted((num("a"), num("b")))
        return f"{a}-{b}/{E.choice('s', 1, 2, 3)}" if b - a >= 3 else f"{a}-{b}"
    if form == "n/":
        a = num("a")
        return f"{a}/{E.choice('s', 1, 2, 5)}" if hi - a >= 5 else str(a)
    if form == "list":
        return f"{num('a')},{num('b')},{num('c')}"
    if form == "special":
        if n == "day":
            return E.choice("special", "last", "1st sun", "2nd mon", "3rd wed", "4th fri", "5th tue", "last thu", "31", "29")
        if n == "month":
            return E.choice("special", "feb", "jan-mar", "dec", "2,4,6", "oct-dec")
        if n == "day_of_week":
            return E.choice("special", "mon-fri", "sat", "sun", "sat-sun", "tue,thu")
        return E.choice("special", str(lo), str(hi))
    return "*" if form == "*" else str(num("n"))


def _sets(given):
    """per field, what is admitted as a function of (weekday of the first, days in month)"""
    last = max((NAMES.index(n) for n in given), default=len(NAMES))
    texts = {n: given.get(n, DEFAULTS[n] if NAMES.index(n) > last else "*") for n in NAMES}
    return {n: [_read(x, n) for x in t.split(",")] for n, t in texts.items()}


def _schedule(E, tz, start_at, end_at, near=None):
    near = near or dt.datetime(2024, 1, 1)
    given = {n: _texts(E, n, near) for n in NAMES if E.choice("give " + n, False, False, True)}
    kw = {n: int(t) if t.isdigit() and E.choice("as a number", False, True) else t for n, t in given.items()}
    trigger = CronTrigger(**kw, start_at=start_at, end_at=end_at, timezone=tz)
    if trigger.timezone is None or tz is None:
        trigger.timezone = tz
    return trigger, _sets(given)


def _admitted(sets, n, year, month):
    import calendar
    fw, dim = calendar.monthrange(year, month)
    return set().union(*(s(fw, dim) for s in sets[n]))


def _matches(sets, d):
    v = {n: getattr(d, n) for n in NAMES if n not in ("week", "day_of_week")}
    v.update(week=d.isocalendar()[1], day_of_week=d.weekday())
    return all(v[n] in _admitted(sets, n, d.year, d.month) for n in NAMES)


def _first(sets, start, until):
    """the first wall clock second from start on (naive), looking no further than until"""
    import calendar
    fix = {n: sorted(_admitted(sets, n, 2000, 1)) for n in NAMES if n != "day"}
    if start.microsecond:
        start = start.replace(microsecond=0) + dt.timedelta(seconds=1)
    for y in fix["year"]:
        if y < start.year or y > until.year:
            continue
        for m in fix["month"]:
            if (y, m) < (start.year, start.month):
                continue
            for day in sorted(_admitted(sets, "day", y, m)):
                if day > calendar.monthrange(y, m)[1]:
                    continue
                d = dt.date(y, m, day)
                if d < start.date() or d > until.date() or d.weekday() not in fix["day_of_week"] \
                        or d.isocalendar()[1] not in fix["week"]:
                    continue
                for h in fix["hour"]:
                    for mi in fix["minute"]:
                        for s in fix["second"]:
                            x = dt.datetime(y, m, day, h, mi, s)
                            if x >= start:
                                return x if x <= until else None
                        if d > start.date():
                            break
                    if d > start.date():
                        break
    return None


def _second(E, sets, start, end, tz):
    """the first second that matches; schedules without one in the next years are left out (the search would take long)"""
    wall = start.astimezone(tz).replace(tzinfo=None)
    far = wall + dt.timedelta(days=12 * 366)
    until = far if end is None else min(far, end.astimezone(tz).replace(tzinfo=None))
    first = _first(sets, wall, until)
    if first is None and until is far:
        E.assume(False)
    return (first or until.replace(microsecond=0)).replace(tzinfo=tz)


def order(E):
    """a lemma of the verification: datetimes are ordered as their parts are"""
    if not E.sym:
        a, b = E.dt("a", UTC), E.dt("b", UTC)
        p = [(x.toordinal(), x.hour, x.minute, x.second, x.microsecond) for x in (a, b)]
        E.prove("ordered as the parts are", (a < b) == (p[0] < p[1]))
        return
    import z3
    from pyvc.engine import lex_less
    from pyvc.values import mkbool
    parts, w = [], []
    for x in "ab":
        v = [E.int(x + " day", -10 ** 6, 10 ** 7), E.int(x + " hour", 0, 23), E.int(x + " minute", 0, 59),
             E.int(x + " second", 0, 59), E.int(x + " microsecond", 0, 999999)]
        parts.append([i.t for i in v])
        d, h, m, s, u = parts[-1]
        w.append((((d * 24 + h) * 60 + m) * 60 + s) * 1000000 + u)
    E.prove("ordered as the parts are", mkbool((w[0] < w[1]) == lex_less(*parts)))


def jitter(E):
    """jitter only delays, by at most the given number of seconds, and never past the end"""
    tz = UTC
    now = E.dt("now", tz)
    amount = E.choice("kind of jitter", "seconds", "none", "zero")
    amount = None if amount == "none" else 0 if amount == "zero" else E.int("jitter", 1, 10 ** 6)
    end_at = E.opt("end_at", lambda: E.dt("end_at", tz))
    asked = []

    def uniform(a, b):
        E.prove("jitter is drawn between nothing and the given number of seconds", E.and_(a == 0, b == amount))
        u = E.real("drawn", 0, 10 ** 6)
        E.assume(u <= b)
        asked.append(u)
        return u

    E.patch(random, "uniform", uniform)
    trigger = E.obj(CronTrigger, timezone=tz, start_at=None, end_at=end_at, jitter=amount, fields=[], field_names=NAMES)
    r = E.run_call(trigger.get_next_trigger_time, tz, None, now)
    E.prove("answers", r.ok)
    v = r.value
    if v is None:
        return  # the searches settle when there is none
    E.prove("never before the matching second", E.or_(v >= now, v == end_at if end_at is not None else False))
    E.prove("never past the end", True if end_at is None else v <= end_at)
    second = dt.timedelta(seconds=1)
    E.prove("a delay of at most the jitter", v < now + (second * (0 if amount is None else amount) + second))
    if not amount:
        E.prove("no delay without jitter", E.and_(v.microsecond == 0, v < now + second) if end_at is None else True)
    E.reached("jittered" if amount else "plain")


def defaults(E):
    """fields not given: any value above the least given field, the smallest one below it"""
    tz = UTC
    r = dt.datetime(2024, 2, 28, 10, 20, 30)
    given = {n: _texts(E, n, r) for n in NAMES if E.choice("give " + n, False, False, True)}
    kw = {n: int(t) if t.isdigit() and E.choice("as a number", False, True) else t for n, t in given.items()}
    how = E.choice("made", "directly", "crontab")
    if how == "crontab":
        given = {n: "*" for n in ("minute", "hour", "day", "month", "day_of_week")} | {
            n: t for n, t in given.items() if n in ("minute", "hour", "day", "month", "day_of_week") and " " not in t}
        text = E.choice("separator", " ", "  ", "\t").join(given[n] for n in ("minute", "hour", "day", "month", "day_of_week"))
        trigger = CronTrigger.from_crontab(text, E.choice("zone", tz, "UTC"))
    else:
        trigger = CronTrigger(**kw, timezone=E.choice("zone", tz, "UTC"))
    sets = _sets(given)
    E.prove("in the given zone", trigger.timezone.utcoffset(r) == dt.timedelta(0))
    for _ in range(20):
        base = E.dt("near", tz) if E.choice("close", False, True) else dt.datetime(
            E.choice("y", 2023, 2024, 2025), E.choice("m", *range(1, 13)), E.choice("d", 1, 2, 15, 28),
            E.choice("h", *range(24)), E.choice("mi", *range(60)), E.choice("s", 0, 1, 30, 59), tzinfo=tz)
        for f in trigger.fields:
            adm = _admitted(sets, f.name, base.year, base.month)
            cur = {"week": base.isocalendar()[1], "day_of_week": base.weekday()}.get(f.name) if f.name in (
                "week", "day_of_week") else getattr(base, f.name)
            E.prove("the field admits what is described", (f.get_next_value(base) == cur) == (cur in adm))


def zones(E):
    """the first matching second also in zones with clock changes, unless the clock is turned back in between"""
    from zoneinfo import ZoneInfo
    name, gap = E.choice("zone", ("Europe/Berlin", dt.datetime(2024, 3, 31, 1)), ("America/New_York", dt.datetime(2024, 3, 10, 7)),
                         ("Australia/Sydney", dt.datetime(2024, 10, 5, 16)), ("Asia/Tehran", dt.datetime(2022, 3, 21, 20)),
                         ("America/Sao_Paulo", dt.datetime(2018, 11, 4, 3)), ("Australia/Lord_Howe", dt.datetime(2024, 10, 5, 15)))
    tz = ZoneInfo(name)
    now = E.dt("now", UTC)
    if E.choice("near a change", True, False):
        now += (gap.replace(tzinfo=UTC) - dt.datetime(2024, 1, 1, tzinfo=UTC)) - dt.timedelta(hours=E.choice("hours", 0, 1, 2, 20, 50))
    now = now.astimezone(tz)
    day = dt.timedelta(days=1)
    ago = dt.timedelta(seconds=E.choice("ago", 1, 60, 3600, 86400))
    previous = (now.astimezone(UTC) - ago).astimezone(tz) if E.choice("fired", True, False) else None
    start = now if previous is None else previous + dt.timedelta(microseconds=1)
    trigger, sets = _schedule(E, tz if E.choice("own", True, False) else None, None, None, now)
    wall = start.replace(tzinfo=None)
    far = wall + dt.timedelta(days=300)
    while True:
        first = _first(sets, wall, far)
        E.assume(first is not None)
        want = first.replace(tzinfo=tz)
        if want.astimezone(UTC).astimezone(tz).replace(tzinfo=None) == first:
            break
        wall = first + dt.timedelta(seconds=1)
    at = (min(start, now) - day).astimezone(UTC)
    offset = at.astimezone(tz).utcoffset()
    while at < want.astimezone(UTC) + 2 * day:
        o = at.astimezone(tz).utcoffset()
        E.assume(o >= offset)
        offset = o
        at += dt.timedelta(hours=6)
    r = E.run_call(trigger.get_next_trigger_time, tz, previous, now)
    E.prove("the first matching second", r.ok and r.value == want)
    E.prove("the same instant", r.value.timestamp() == want.timestamp())


SEARCHES = [first_search, next_search, next_search_at_once, search_from, search_from_naive, search_until, search_until_naive]
for u in SEARCHES:
    u.unroll = 60
UNITS = [order, *SEARCHES, jitter]
RUNTIME = [defaults, zones]


def _fold():
    """in the repeated hour the search goes back to the first pass"""
    from zoneinfo import ZoneInfo
    tz = ZoneInfo("America/New_York")
    t = CronTrigger(minute="*/30", timezone=tz)
    now = dt.datetime(2024, 11, 3, 6, 10, tzinfo=UTC).astimezone(tz)  # 1:10, second pass
    r = t.get_next_trigger_time(tz, None, now)
    return r.timestamp() < now.timestamp()


KNOWN = {"F2": _fold}
