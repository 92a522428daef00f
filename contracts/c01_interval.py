"""C01 interval schedules stay on their grid."""
import datetime as dt

from asyncz.triggers.base import BaseTrigger
from asyncz.triggers.interval import IntervalTrigger
from asyncz.utils import timedelta_seconds

from .util import UTC

US = 1_000_000


def seconds_of(E):
    """timedelta_seconds is exactly the length of the timedelta in seconds"""
    d = E.td("delta", dt.timedelta(days=-10**5), dt.timedelta(days=10**5))
    r = E.run_call(timedelta_seconds, d)
    E.prove("returns normally", r.ok)
    if E.sym:
        E.prove("equals the total seconds", r.value == d.total_seconds())
    else:
        E.prove("equals the total seconds", abs(r.value - d.total_seconds()) < 1e-4)


def seconds_contract(E):
    if E.sym:
        E.contract(timedelta_seconds, lambda d: d.total_seconds())


UNITS_ALL = ("seconds", "minutes", "hours", "days", "weeks")


def _mk(E, jitter=False, units=("seconds",)):
    seconds_contract(E)
    tz = E.tz()
    parts = E.choice("unit", *units)
    n = E.int("n", 0, 10**6)
    start = E.dt("start", tz)
    end = E.opt("end", lambda: E.dt("end", tz))
    j = E.int("jitter", 0, 10**6) if jitter else None
    r = E.run_call(IntervalTrigger, **{parts: n}, start_at=start, end_at=end, timezone=tz, jitter=j)
    E.prove("constructor accepts a non-negative interval", r.ok)
    unit = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 7 * 86400}[parts]
    step = dt.timedelta(seconds=1) * (n * unit) if E.truth(n > 0) else dt.timedelta(seconds=1)
    if E.sym:
        from pyvc.values import STd
        step = STd.of(step)
    if E.conc:
        E.assume(step <= dt.timedelta(days=700))
    return r.value, tz, start, end, step, j


def first(E):
    """first occurrence: the least start + k*step (k >= 0) that is >= now, or None past the end"""
    trig, tz, start, end, step, _ = _mk(E)
    now = E.dt("now", tz)
    r = E.run_call(trig.get_next_trigger_time, tz, None, now)
    E.prove("returns normally", r.ok)
    got = r.value
    k = E.int("k", 0, None if E.sym else 1000)  # an arbitrary grid point
    g = start + step * k
    if got is None:
        E.prove("finished only when an end bound exists", end is not None)
        if E.sym and end is not None and E.truth(now > start):
            # proof steps: k0 is the index of the first grid point not before now
            k0 = E.int("k0", 1)
            E.assume(E.and_(start + step * (k0 - 1) < now, start + step * k0 >= now))
            E.prove("step: the first due grid point lies after the end", start + step * k0 > end)
            if E.truth(k >= k0):
                E.prove("step: later grid points lie later", g >= start + step * k0)
            else:
                E.prove("step: earlier grid points lie earlier", g <= start + step * (k0 - 1))
        E.prove("finished only when no grid point lies in [now, end]",
                E.or_(g < now, g > end) if end is not None else False)
        return
    E.prove("not before now", got >= now)
    E.prove("not before start", got >= start)
    E.prove("no earlier grid point is due", E.or_(g < now, g >= got))
    E.prove("on the grid", (got - start) % step == dt.timedelta(0))
    if end is not None:
        E.prove("not after end", got <= end)
    E.reached("first fires")


def following(E):
    trig, tz, start, end, step, _ = _mk(E, units=UNITS_ALL)
    now = E.dt("now", tz)
    prev = E.dt("prev", tz)
    r = E.run_call(trig.get_next_trigger_time, tz, prev, now)
    E.prove("returns normally", r.ok)
    got = r.value
    if got is None:
        E.prove("finished exactly when previous + interval passes the end",
                end is not None and E.truth(prev + step > end))
    else:
        E.prove("exactly one interval after the previous", got == prev + step)
        E.prove("not after end", end is None or E.truth(got <= end))
        E.reached("next fires")


def jitter_amount(E):
    """apply_jitter delays by at least zero and at most the jitter; without jitter nothing moves"""
    tz = E.tz()
    t = E.opt("time", lambda: E.dt("t", tz))
    j = E.opt("jitter", lambda: E.int("j", 0, 10**6))
    now = E.dt("now", tz)
    trig = E.obj(IntervalTrigger, jitter=j)
    r = E.run_call(trig.apply_jitter, t, j, now)
    E.prove("returns normally", r.ok)
    if t is None:
        E.prove("no time stays no time", r.value is None)
        return
    E.prove("never earlier", r.value >= t)
    E.prove("at most the jitter later", r.value <= t + dt.timedelta(seconds=1) * (j if j is not None else 0))


def jittered(E):
    """with jitter: the delayed time of the schedule without jitter, or the end when that lies after the bound"""
    seconds_contract(E)
    trig, tz, start, end, step, j = _mk(E, jitter=True)
    plain = E.run_call(IntervalTrigger, start_at=start, timezone=tz).value
    plain.interval, plain.interval_size = trig.interval, trig.interval_size  # same schedule: no jitter, no end
    now = E.dt("now", tz)
    prev = E.opt("previous", lambda: E.dt("prev", tz))
    base = E.run_call(plain.get_next_trigger_time, tz, prev, now).value
    late = base + dt.timedelta(seconds=1) * j
    r = E.run_call(trig.get_next_trigger_time, tz, prev, now)
    E.prove("returns normally", r.ok)
    if r.value is None:
        E.prove("ends only when a delay within the jitter passes the end bound", end is not None and E.truth(late > end))
    else:
        E.prove("never earlier than the time without jitter", base is None or E.truth(r.value >= base))
        E.prove("at most the jitter later", base is None or E.truth(r.value <= late))
        E.prove("not after the end", end is None or E.truth(r.value <= end))
        E.reached("fires")


def bounds(E):
    """bounds without a zone are read in the schedule's zone; without a start the schedule starts one interval from now"""
    tz = E.tz()
    n = E.int("n", 0, 10**5)
    naive = E.choice("start", "naive", "none", "other zone")
    now = E.dt("now", tz)
    E.set_now(now)
    step = dt.timedelta(seconds=1) * (n if E.truth(n > 0) else 1)
    start = {"naive": lambda: E.dt("start", None), "none": lambda: None,
             "other zone": lambda: E.dt("start", UTC)}[naive]()
    end = E.opt("end", lambda: E.dt("end", None))
    r = E.run_call(IntervalTrigger, seconds=n, start_at=start, end_at=end, timezone=tz)
    E.prove("accepted", r.ok)
    t = r.value
    if naive == "none":
        E.prove("starts one interval from now", t.start_at == now + step)
    elif naive == "other zone":
        E.prove("keeps the instant of the start", t.start_at == start)
    elif E.sym or zone_plain(tz):
        E.prove("reads the start in the zone", t.start_at == start.replace(tzinfo=tz))
    if end is None:
        E.prove("no end", t.end_at is None)
    elif E.sym or zone_plain(tz):
        E.prove("reads the end in the zone", t.end_at == end.replace(tzinfo=tz))
    E.prove("the configured zone", t.timezone is tz)


def zone_plain(tz):
    return isinstance(tz, dt.timezone)


UNITS = [seconds_of, first, following, jitter_amount, jittered, bounds]
