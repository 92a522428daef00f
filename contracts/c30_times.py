"""C30 date, time zone and timestamp conversions denote the same instant."""
import datetime as dt
import zoneinfo

from asyncz import utils
from asyncz.exceptions import AsynczException

UTC = dt.timezone.utc

NOTE = ("to_datetime is verified for every datetime, date and every text of the documented shapes (every digit of every "
        "field symbolic, 1 or 2 digit month/day/clock fields, a fraction of 0 to 6 digits, Z or a signed offset), with and "
        "without a zone; timestamps, timedelta_seconds, rounding up, normalisation and localisation for all values. Text that "
        "is not of a documented shape is only sampled (bounded).")
ASSUMPTIONS = ["float timestamps are exact to the microsecond (years 1698 to 2242) and are computed with as real numbers; "
               "checked natively", "zones have a fixed offset; daylight-saving zones are sampled natively",
               "datetime, date and regular expression operations behave as documented"]

QUICK_S = 200

DAY_US = 86400 * 10**6


def same(E, got, want):
    """same wall time, same zone"""
    return E.and_(isinstance(got, dt.datetime), E.eqv(got.replace(tzinfo=None), want.replace(tzinfo=None)),
                  got.tzinfo is want.tzinfo if got.tzinfo is None or want.tzinfo is None
                  else E.eqv(got.utcoffset(), want.utcoffset()))


def values(E):
    """datetimes, dates and everything that is not text"""
    kind = E.choice("value", "aware", "naive", "date", "none", "junk")
    zone = E.choice("zone", "given", "none", "name")
    tz = E.tz("tz") if zone == "given" else None if zone == "none" else "UTC"
    need = E.choice("require_tz", True, False, "unspecified")
    kw = {} if need == "unspecified" else {"require_tz": need}
    if kind == "aware":
        v = want = E.dt("value", E.tz("own"))
    elif kind == "naive":
        v = E.dt("value", None)
    elif kind == "date":
        v = E.date("value")
    elif kind == "none":
        v = E.choice("nothing", None, "")
    else:
        v = E.choice("junk", 5, 1.5, ["2020-01-01"], b"2020-01-01", dt.time(1, 2), dt.timedelta(1), (2020, 1, 1))
    r = E.run_call(utils.to_datetime, v, tz, "when", **kw)
    if kind == "none":
        E.prove("nothing stays nothing", r.ok and r.value is None)
    elif kind == "junk":
        E.prove("other types are refused", r.raised(AsynczException))
    elif kind == "aware":
        E.prove("an aware time is returned unchanged", r.ok and same(E, r.value, want))
    else:
        wall = v if kind == "naive" else E.call(dt.datetime.combine, v, dt.time())
        if tz is None:
            if need is False:
                E.prove("a naive time without a zone stays naive", r.ok and same(E, r.value, wall))
            else:
                E.prove("a zone is required", r.raised(AsynczException))
        else:
            E.prove("a naive time gets the zone", r.ok and same(
                E, r.value, wall.replace(tzinfo=tz if zone == "given" else UTC)))
    E.reached("converted")


def _text(E, clock, fraction):
    wide = lambda n, like: E.digits(n, 2 if E.choice(f"wide {n}", True, False) else 1, like)
    y, mo, d = E.digits("year", 4, (1990, 2040)), wide("month", (1, 12)), wide("day", (1, 31))
    text = y + "-" + mo + "-" + d
    num = [E.num(x) for x in (y, mo, d)]
    own = None
    if clock:
        h, mi, s = wide("hour", (0, 23)), wide("minute", (0, 59)), wide("second", (0, 59))
        text = text + E.choice("separator", " ", "T") + h + ":" + mi + ":" + s
        num += [E.num(x) for x in (h, mi, s)]
        if fraction:
            n = E.choice("fraction digits", *fraction)
            f = E.digits("fraction", n)
            text = text + "." + f
            num.append(E.num(f) * 10 ** (6 - n))
        else:
            num.append(0)
        own = E.choice("offset", None, "Z", "+", "-")
        if own == "Z":
            text, own = text + "Z", 0
        elif own:
            oh, om = E.digits("offset hours", 2, (0, 14)), E.digits("offset minutes", 2, (0, 59))
            text = text + own + oh + ":" + om
            E.assume(E.and_(E.num(oh) < 24, E.num(om) < 60))
            own = (E.num(oh) * 60 + E.num(om)) * (1 if own == "+" else -1)
    return text, num, own


def _texts(clock, fraction):
    def unit(E):
        text, num, own = _text(E, clock, fraction)
        zone = E.choice("zone", "given", "none", "naive") if own is None else E.choice("zone", "given", "none")
        tz = E.tz("tz") if zone == "given" else None
        r = E.run_call(utils.to_datetime, text, tz, "when", **({"require_tz": False} if zone == "naive" else {}))
        try:
            wall = E.call(dt.datetime, *num)
        except ValueError:
            E.prove("a day or time that does not exist is refused", not r.ok)
            return
        if not (E.truth(num[0] > 1) and E.truth(num[0] < 9999)):
            E.assume(False)  # datetime overflow
        if E.conc:
            E.assume(1698 < num[0] < 2242)  # float timestamps
        if own is None and zone == "none":
            E.prove("a zone is required", r.raised(AsynczException))
            return
        E.prove("a documented text is read", r.ok)
        got = r.value
        E.prove("the wall time of the text", E.and_(isinstance(got, dt.datetime), E.eqv(got.replace(tzinfo=None), wall)))
        if own is None:
            E.prove("in the given zone", got.tzinfo is None if zone == "naive"
                    else E.and_(got.tzinfo is not None, E.eqv(got.utcoffset(), tz.utcoffset(None))))
        else:
            E.prove("in the zone of the text",
                    E.and_(got.tzinfo is not None, E.eqv(got.utcoffset(), dt.timedelta(minutes=1) * own)))
        E.reached("read")

    unit.__name__ = "text_" + ("date" if not clock else "clock" if not fraction else "fraction_" + str(fraction[0]))
    unit.max_paths = 60000
    return unit


text_units = [_texts(False, ()), _texts(True, ())] + [_texts(True, (n,)) for n in range(1, 7)]


def stamps(E):
    which = E.choice("which", "round trip", "none", "seconds", "ceil", "normalize", "localize")
    if which == "none":
        E.prove("nothing stays nothing", E.call(utils.datetime_to_utc_timestamp, None) is None
                and E.call(utils.utc_timestamp_to_datetime, None) is None)
        return
    if which == "seconds":
        a, b = E.td("a"), E.td("b")
        s = E.run_call(utils.timedelta_seconds, a)
        E.prove("returns", s.ok)
        if E.sym:
            E.prove("the duration in seconds", E.eqv(s.value, a.total_seconds()))
        else:
            E.prove("the duration in seconds", abs(s.value - a.total_seconds()) <= 1e-9 * max(1, abs(s.value)))
        return
    tz = E.tz()
    t = E.dt("t", tz)
    if which == "round trip":
        s = E.run_call(utils.datetime_to_utc_timestamp, t)
        E.prove("a timestamp", s.ok)
        E.prove("the seconds since the epoch", E.eqv(s.value, t.timestamp()))
        b = E.run_call(utils.utc_timestamp_to_datetime, s.value)
        E.prove("the same instant comes back", b.ok and E.truth(b.value == t))
        E.prove("in UTC", E.eqv(b.value.utcoffset(), dt.timedelta(0)))
    elif which == "ceil":
        if E.choice("naive", True, False):
            t = t.replace(tzinfo=None)
        r = E.run_call(utils.datetime_ceil, t)
        E.prove("returns", r.ok)
        c = r.value
        E.prove("a whole second", E.eqv(c.microsecond, 0))
        E.prove("the first one not before the time", E.and_(c >= t, c - t < dt.timedelta(seconds=1)))
        E.prove("in the same zone", c.tzinfo is t.tzinfo)
    elif which == "normalize":
        r = E.run_call(utils.normalize, t)
        E.prove("the same time in the same zone", r.ok and same(E, r.value, t))
    else:
        r = E.run_call(utils.localize, t.replace(tzinfo=None), tz)
        E.prove("the wall time in the zone", r.ok and same(E, r.value, t))
    E.reached("converted")


def zones(E):
    """to_timezone and its fallback"""
    kind = E.choice("kind", "zone", "name", "none", "junk", "unknown name")
    local = E.tz("local")
    E.patch(utils, "get_localzone", lambda: local)
    fb = E.choice("fallback", True, False)
    f = utils.to_timezone_with_fallback if fb else utils.to_timezone
    if kind == "zone":
        tz = E.tz("tz")
        r = E.run_call(f, tz)
        E.prove("a zone is itself", r.ok and r.value is tz)
    elif kind == "name":
        n = E.choice("zone name", "UTC", "Europe/Berlin", "America/New_York")
        r = E.run_call(f, n)
        E.prove("a name is the zone of that name", r.ok and isinstance(r.value, zoneinfo.ZoneInfo) and r.value.key == n)
    elif kind == "none":
        r = E.run_call(f, None)
        E.prove("nothing is no zone, or the local one where one is needed", r.ok and r.value is (local if fb else None))
    elif kind == "junk":
        r = E.run_call(f, E.choice("junk", 5, 0, 1.5, b"UTC", ["UTC"], dt.datetime(2020, 1, 1)))
        E.prove("anything else is refused", r.raised(TypeError))
    else:
        r = E.run_call(f, E.choice("unknown", "Nowhere/Land", "x"))
        E.prove("an unknown name is refused", not r.ok)
    E.reached("converted")


UNITS = [values, *text_units, stamps, zones]

# ------------------------------------------------------------------ native
PIECES = ("\n", "٣", "３", "2024", "24", "2024-", "-", "1", "13", "00", "02", "30", " ", "T", "t", ":", "10", "10:", "25", "61", ".", ".5",
          "Z", "z", "+", "+01:00", "-0100", "+1:00", "UTC", "\t", "x", "２", "/", "")


def malformed(E):
    """text that is not of a documented shape is refused (bounded: sampled)"""
    import re
    n = E.int("pieces", 1, 12)
    if E.choice("near", True, False):
        t = ["2024", "-", "02", "-", "10", " ", "10", ":", "20", ":", "30", ".5", "Z"][:E.int("cut", 1, 13)]
        for i in range(E.int("edits", 1, 2)):
            k = E.int(f"at{i}", 0, len(t) - 1)
            how = E.choice(f"how{i}", "insert", "replace", "drop")
            t[k:k + (how != "insert")] = [] if how == "drop" else [E.choice(f"piece{i}", *PIECES)]
            if not t:
                E.assume(False)
        text = "".join(t)
    else:
        text = "".join(E.choice(f"piece{i}", *PIECES) for i in range(n))
    if not text:
        E.assume(False)
    good = re.fullmatch(r"[0-9]{4}-[0-9]{1,2}-[0-9]{1,2}([ T][0-9]{1,2}:[0-9]{1,2}:[0-9]{1,2}(\.[0-9]{1,6})?"
                        r"(Z|[+-][0-9]{2}:[0-9]{2})?)?", text)
    if good:
        E.assume(False)
    E.prove("text of another shape is refused", E.run_call(utils.to_datetime, text, UTC, "when").raised(Exception))
    E.reached("refused")


def berlin(E):
    """named zones with daylight saving (bounded: sampled)"""
    zone = zoneinfo.ZoneInfo(E.choice("zone name", "Europe/Berlin", "America/New_York", "Australia/Lord_Howe"))
    at = E.int("instant", 1.0e9, 2.0e9)
    if E.choice("near a clock change", True, False):
        after = {"Europe/Berlin": 1729990800, "America/New_York": 1730613600, "Australia/Lord_Howe": 1712415600}[zone.key]
        at = after + E.int("from it", -3605, 3605)
    inst = dt.datetime.fromtimestamp(at, UTC) + dt.timedelta(microseconds=E.int("us", 0, 999999))
    there = inst.astimezone(zone)
    E.prove("an aware time is kept", utils.to_datetime(there, UTC, "when") is there)
    E.prove("normalisation keeps the instant", utils.normalize(there).astimezone(UTC) == inst)
    for x in (inst, there):
        up = utils.datetime_ceil(x)
        E.prove("rounding up keeps the instant order", dt.timedelta(0) <= up.astimezone(UTC) - inst < dt.timedelta(seconds=1)
                and up.microsecond == 0 and up.tzinfo is x.tzinfo)
    wall = there.replace(tzinfo=None, fold=0)
    unique = wall.replace(tzinfo=zone).utcoffset() == wall.replace(tzinfo=zone, fold=1).utcoffset()
    if unique:
        for v in (wall, wall.isoformat(" "), wall.isoformat("T")):
            got = utils.to_datetime(v, E.choice("as", zone, zone.key), "when")
            E.prove("a wall time that exists once is that instant", got.astimezone(UTC) == inst and got.tzinfo.key == zone.key)
    got = utils.to_datetime(there.replace(tzinfo=None), zone, "when")
    E.prove("a naive time of either pass is that instant", got.astimezone(UTC) == inst)
    E.prove("and localized too", utils.localize(there.replace(tzinfo=None), zone).astimezone(UTC) == inst)
    E.prove("a timestamp comes back as the instant",
            utils.utc_timestamp_to_datetime(utils.datetime_to_utc_timestamp(there)) == inst)
    E.reached("kept")


RUNTIME = [malformed, berlin]
