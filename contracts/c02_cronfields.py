"""C02 a cron field yields exactly the smallest admitted value not below the current."""
import calendar
import datetime as dt
import itertools

import asyncz.triggers.cron.expressions as ex
import asyncz.triggers.cron.fields as fields
from asyncz.triggers.cron.constants import MAX_VALUES, MIN_VALUES
from asyncz.triggers.cron.trigger import CronTrigger

NOTE = ("Each kind of expression is verified for every admissible bound, order and step and every date, a field for any number "
        "of expressions with arbitrary proposals, and the range checks for every bound and step; reading the text of an "
        "expression is checked natively (bounded) against an independent reading of the grammar.")
ASSUMPTIONS = ["calendar.monthrange, date.weekday and date.isocalendar are right",
               "re and int read decimal digits as documented"]

NAMES = ("year", "month", "day", "week", "day_of_week", "hour", "minute", "second")
CLASS = {"month": fields.MonthField, "week": fields.WeekField, "day": fields.DayOfMonthField,
         "day_of_week": fields.DayOfWeekField}


class Date:
    """a date (symbolically: its components and the calendar's facts about it)"""

    def __init__(self, E):
        if E.sym:
            v = {n: E.int(n, lo, hi) for n, lo, hi in (("year", 1, 9999), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23),
                                                      ("minute", 0, 59), ("second", 0, 59))}
            self.first = E.int("first weekday", 0, 6)
            self.last = E.int("days in month", 28, 31)
            E.assume(v["day"] <= self.last)
            week = E.int("week", 1, 53)
            self.week, self.wday = week, (self.first + v["day"] - 1) % 7
            date = E.stub("date", dt.datetime, **v)
            date.weekday = lambda: self.wday
            date.isoweekday = lambda: self.wday + 1
            date.isocalendar = lambda: (v["year"], week, self.wday + 1)

            def monthrange(year, month):
                E.prove("the calendar is asked for the date's month", E.and_(year == v["year"], month == v["month"]))
                return self.first, self.last

            E.contract(calendar.monthrange, monthrange)
            self.date, self.v = date, v
            return
        y = E.choice("decade", 1, 1900, 1960, 1970, 1999, 2000, 2016, 2020, 2024, 2100, 9996) + E.choice("year", 0, 1, 2, 3)
        m = E.choice("month", *range(1, 13))
        self.first, self.last = calendar.monthrange(y, m)
        d = min(E.choice("day", *range(1, 32)), self.last)
        self.date = dt.datetime(y, m, d, E.choice("hour", *range(24)), E.choice("minute", *range(60)),
                                E.choice("second", *range(60)))
        self.week, self.wday = self.date.isocalendar()[1], self.date.weekday()
        self.v = {n: getattr(self.date, n) for n in NAMES if n not in ("week", "day_of_week")}

    def value(self, name):
        return {"week": self.week, "day_of_week": self.wday}.get(name) if name in ("week", "day_of_week") else self.v[name]

    def limits(self, name):
        return MIN_VALUES[name], self.last if name == "day" else MAX_VALUES[name]


def _field(E, name, exprs=()):
    return E.obj(CLASS.get(name, fields.BaseField), name=name, exprs="*", is_default=False, expressions=exprs)


def limits(E):
    """a field's value and limits are those of the date"""
    name = E.choice("field", *NAMES)
    d = Date(E)
    f = _field(E, name, [])
    got = [E.run_call(getattr(f, g), d.date) for g in ("get_value", "get_min", "get_max")]
    for r, want, label in zip(got, (d.value(name), *d.limits(name)), ("value", "smallest", "greatest")):
        E.prove(f"the {label} value", r.ok and E.truth(r.value == want))
    E.reached("done")


def field(E):
    """the smallest of what the expressions propose"""
    name = E.choice("field", *NAMES)
    d = Date(E)
    if E.sym:
        import z3
        from pyvc.values import IntC, OptC, Population, SInt

        def attr(ref, n):
            if n == "get_next_value":
                def ask(date, f):
                    E.prove("each expression is asked about the date and the field", date is d.date and f is made[0])
                    return ref.proposal
                return ask
            return NotImplemented

        pop = Population("expression", ex.BaseExpression, {"proposal": OptC(IntC)}, other=attr)
        seq = E.seq("expressions", pop.codec())
        none_a, val_a = pop.arrays("proposal")

        def at(j):
            r = seq.get(j)[0]
            return z3.Select(none_a, r), z3.Select(val_a, r)

        def inv_for(upto):
            def inv(v):
                j = z3.Int("j!c02")
                inside = z3.And(j >= 0, j < upto())
                some, val = at(j)
                some = z3.Not(some)
                if v is None:
                    return z3.ForAll([j], z3.Implies(inside, z3.Not(some)), patterns=[seq.get(j)[0]])
                if type(v) is not SInt:
                    return False
                return z3.And(z3.ForAll([j], z3.Implies(z3.And(inside, some), v.t <= val), patterns=[seq.get(j)[0]]),
                              z3.Exists([j], z3.And(inside, some, v.t == val)))
            return inv

        def carry(n, value, L):
            if value is not None and type(value) is not SInt:
                return None
            return (lambda: E.opt("so far", lambda: E.int("smallest so far")), inv_for(lambda: L.i))

        E.foreach("expressions", seq, carry=carry)
        holds = inv_for(lambda: seq.n)
    else:
        def gen(i):
            p = E.opt("proposal", lambda: E.choice("p", *range(-3, 20)))
            return E.stub("expression", ex.BaseExpression, get_next_value=lambda date, f: p, p=p)

        seq = E.seq("expressions", None, gen, maxlen=6, long=80)

        def holds(v):
            ps = [x.p for x in seq if x.p is not None]
            return v == (min(ps) if ps else None)

    made = []
    f = _field(E, name, seq)
    made.append(f)
    r = E.run_call(f.get_next_value, d.date)
    E.prove("answers", r.ok)
    E.prove("the smallest proposal, or none when there is none", holds(r.value))
    E.reached("done")


def _expression(E, name, cls=ex.RangeExpression):
    """an expression whose bounds and step fit the field"""
    lo, hi = MIN_VALUES[name], MAX_VALUES[name]
    step = E.opt("step", lambda: E.int("step", 1, hi - lo))
    if cls is ex.AllExpression:
        return E.obj(cls, step=step), lo, None, step
    first = E.int("first", lo, hi)
    last = E.opt("last", lambda: E.int("last", lo, hi))
    if last is None:
        E.assume(step is not None)
    else:
        E.assume(first <= last)
    if step is not None:
        E.assume(step <= (hi if last is None else last) - first)
    return E.obj(cls, first=first, last=last, step=step), first, last, step


def ranges(E):
    """any, stepped, ranged and named expressions"""
    name = E.choice("field", *NAMES)
    kinds = [ex.AllExpression, ex.RangeExpression]
    kinds += {"month": [ex.MonthRangeExpression], "day_of_week": [ex.WeekdayRangeExpression]}.get(name, [])
    cls = E.choice("expression", *kinds)
    e, first, last, step = _expression(E, name, cls)
    d = Date(E)
    f = _field(E, name, [e])
    cur = d.value(name)
    lo, hi = d.limits(name)
    r = E.run_call(e.get_next_value, d.date, f)
    E.prove("answers", r.ok)
    top = hi if last is None else E.ite(last < hi, last, hi)
    start = E.ite(cur < first, first, cur)
    if step is None:
        if r.value is None:
            E.prove("nothing only when no admitted value is left", start > top)
            E.reached("none")
        else:
            E.prove("the smallest admitted value", E.and_(r.value == start, start <= top))
            E.reached("some")
        return
    if r.value is None:
        # the next multiple lies beyond the limits
        E.prove("nothing only when no admitted value is left", E.or_(start > top, E.neg(_multiple(E, first, start, top, step))))
        E.reached("none")
    else:
        v = r.value
        E.prove("the proposal is admitted", E.and_(v >= first, v <= top, (v - first) % step == 0))
        E.prove("not below the date's own value", v >= cur)
        E.prove("no smaller value is admitted", v - start < step)
        E.reached("some")


def _multiple(E, first, start, top, step):
    """some first + k*step lies in [start, top] (start >= first)"""
    rest = (start - first) % step
    return E.or_(E.and_(rest == 0, start <= top), E.and_(rest != 0, start + (step - rest) <= top))


def weekdays(E):
    """the nth or last weekday of a month"""
    which = E.choice("position", *range(6))
    wday = E.choice("weekday", *range(7))
    e = E.obj(ex.WeekdayPositionExpression, step=None, option_number=which, weekday=wday)
    d = Date(E)
    f = _field(E, "day", [e])
    r = E.run_call(e.get_next_value, d.date, f)
    E.prove("answers", r.ok)

    def admitted(x):
        is_day = E.and_((d.first + x - 1) % 7 == wday, x >= 1, x <= d.last)
        return E.and_(is_day, x + 7 > d.last if which == 5 else E.and_(x > 7 * which, x <= 7 * which + 7))

    if r.value is None:
        E.prove("nothing only when no admitted day is left",
                E.forall(1, 32, lambda x: E.implies(E.and_(x >= d.v["day"], x <= d.last), E.neg(admitted(x)))))
        E.reached("none")
    else:
        v = r.value
        E.prove("the day is admitted", admitted(v))
        E.prove("not before the date", v >= d.v["day"])
        E.reached("some")


def last_day(E):
    """the last day of a month"""
    e = E.obj(ex.LastDayOfMonthExpression, step=None)
    d = Date(E)
    r = E.run_call(e.get_next_value, d.date, _field(E, "day", [e]))
    E.prove("the month's last day", r.ok and E.truth(r.value == d.last))
    E.reached("done")


def fits(E):
    """bounds, order and step that do not fit the field are refused"""
    name = E.choice("field", *NAMES)
    lo, hi = MIN_VALUES[name], MAX_VALUES[name]
    cls = E.choice("expression", ex.AllExpression, ex.RangeExpression)
    step = E.opt("step", lambda: E.int("step", 1, 20000))
    if cls is ex.AllExpression:
        e = E.obj(cls, step=step)
        ok = step is None or step <= hi - lo
    else:
        first = E.int("first", 0, 20000)
        last = E.opt("last", lambda: E.int("last", 0, 20000))
        E.assume(first <= last if last is not None else step is not None)
        e = E.obj(cls, step=step, first=first, last=last)
        top = hi if last is None else last
        ok = E.and_(first >= lo, top <= hi, True if step is None else step <= top - first)
    r = E.run_call(e.validate_range, name)
    if r.ok:
        E.prove("accepted only if it fits", ok)
        E.reached("accepted")
    else:
        E.prove("refused only if it does not fit", E.neg(ok))
        E.prove("refused with an error", r.raised(ValueError))
        E.reached("refused")


# ---------------------------------------------------------------- natively: the text of expressions
DAYS = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
MON = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
POS = ["1st", "2nd", "3rd", "4th", "5th", "last"]


def _read(text, name):
    """what one expression admits, as a function of (first weekday, days in month) -> set; None: malformed"""
    import re
    lo, hi = MIN_VALUES[name], MAX_VALUES[name]
    text = text.lower()
    m = re.fullmatch(r"\*(?:/([0-9]+))?|([0-9]+)(?:-([0-9]+))?(?:/([0-9]+))?", text)
    if m:
        if text[0] == "*":
            first, last, step = lo, None, m[1]
        else:
            first, last, step = int(m[2]), m[3], m[4]
        step = None if step is None else int(step)
        if text[0] != "*" and last is None and step is None:
            last = first
        last = None if last is None else int(last)
        top = hi if last is None else last
        if first < lo or top > hi or first > top or step is not None and (step < 1 or step > top - first):
            return None
        return lambda fw, n: {v for v in range(first, top + 1) if (v - first) % (step or 1) == 0}
    if name in ("month", "day_of_week"):
        table, off = (MON, 1) if name == "month" else (DAYS, 0)
        parts = text.split("-")
        if len(parts) > 2 or any(p not in table for p in parts):
            return None
        a, b = table.index(parts[0]) + off, table.index(parts[-1]) + off
        return None if a > b else lambda fw, n: set(range(a, b + 1))
    if name == "day":
        if text == "last":
            return lambda fw, n: {n}
        m = re.fullmatch(r"(\w+) +(\w+)", text)
        if m and m[1] in POS and m[2] in DAYS:
            p, w = POS.index(m[1]), DAYS.index(m[2])
            return lambda fw, n: {x for x in range(1, n + 1) if (fw + x - 1) % 7 == w
                                  and (x + 7 > n if p == 5 else (x - 1) // 7 == p)}
    return None


def _text(E, name):
    lo, hi = MIN_VALUES[name], MAX_VALUES[name]
    span = hi - lo
    near = [0, 1, 2, 3, 5, 7, 10, 15, 29, 30, 31, 32, 53, 54, 59, 60, 61, lo, lo + 1, hi, hi - 1, hi + 1, span, span + 1]
    num = lambda n: E.choice(n, *near)  # noqa: E731
    kind = E.choice("form", "all", "all/", "n", "n/", "n-n", "n-n/", "name", "names", "pos", "last", "junk")
    form = {"all": lambda: "*", "all/": lambda: f"*/{num('s')}", "n": lambda: f"{num('a')}",
            "n/": lambda: f"{num('a')}/{num('s')}", "n-n": lambda: f"{num('a')}-{num('b')}",
            "n-n/": lambda: f"{num('a')}-{num('b')}/{num('s')}",
            "name": lambda: E.choice("name", *DAYS, *MON, "xyz", "Mon", "JAN"),
            "names": lambda: E.choice("n1", *DAYS, *MON, "xyz") + "-" + E.choice("n2", *DAYS, *MON, "xyz"),
            "pos": lambda: E.choice("p", *POS, "6th", "LAST") + E.choice("gap", " ", "  ", "") + E.choice("w", *DAYS, "xyz", "1"),
            "last": lambda: "last",
            "junk": lambda: E.choice("junk", "", "-", "*/", "/5", "1-", "-1", "1/", "*5", "1 2", "jan feb", "1.5", "a-b-c", "5x")}
    t = form[kind]()
    return t + E.choice("more", "", "", "", "", "", "/2", "x", " 3", "-5", " mon")


def texts(E):
    """a written expression is read as documented or refused; its proposals are right for every date"""
    name = E.choice("field", *NAMES)
    count = E.choice("count", 1, 1, 2, 3)
    parts = [_text(E, name) for _ in range(count)]
    text = E.choice("separator", ",", ", ", " , ").join(parts)
    sets = [_read(p, name) for p in text.strip().replace(" ,", ",").replace(", ", ",").split(",")] \
        if "  ," not in text and ",  " not in text else None
    cls = CLASS.get(name, fields.BaseField)
    make = E.choice("made by", "field", "trigger")
    if make == "field":
        r = E.run_call(cls, name, text)
        f = r.value
    else:
        r = E.run_call(CronTrigger, **{name: text}, timezone=dt.timezone.utc)
        f = r.ok and next(x for x in r.value.fields if x.name == name)
    if sets is None:
        return
    good = all(s is not None for s in sets)
    E.prove("accepted exactly when every expression is well formed and fits", r.ok == good)
    if not good:
        E.prove("refused with an error", r.raised(ValueError))
        return
    for _ in range(12):
        d = Date(E)
        cur = d.value(name)
        lo, hi = d.limits(name)
        want = [v for s in sets for v in s(d.first, d.last) if max(cur, lo) <= v <= hi]
        E.prove("the smallest admitted value not below the date's", f.get_next_value(d.date) == (min(want) if want else None))


UNITS = [limits, field, ranges, weekdays, last_day, fits]
RUNTIME = [texts]
