"""C07 - time objects denote the instant they were given."""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp.core import Check, check, check_eq
from vp.strat import UTC, utc_datetimes

from mt_metadata.common.mttime import MDate, MTime, calculate_leap_seconds, parse
from obspy import UTCDateTime

C = Check(
    "C07",
    rule="instants drawn from 1950-2190 at microsecond (some nanosecond) resolution and written in one of "
    "16 representations; non-trivial: the instant is not the default 1980-01-01",
    assumptions=[
        "sub-microsecond digits are only exercised below 500 ns: the code rounds larger remainders to "
        "microseconds by design (machine round-off)",
        "float epoch seconds are compared within 1 microsecond (double precision)",
    ],
)
EPOCH = dt.datetime(1970, 1, 1)


def us_of(d):
    """microseconds since the epoch of a naive UTC datetime (exact integer)."""
    delta = d - EPOCH
    return (delta.days * 86400 + delta.seconds) * 10**6 + delta.microseconds


def ns_of(t):
    """nanoseconds since the epoch of the instant an MTime holds, via the ISO text it prints."""
    ts = t.time_stamp
    assert ts.tzinfo is not None
    u = ts.tz_convert("UTC")
    return us_of(dt.datetime(u.year, u.month, u.day, u.hour, u.minute, u.second, u.microsecond)) * 1000 + u.nanosecond


OFFSETS = st.integers(-14 * 4, 14 * 4).map(lambda q: q * 15)  # minutes


def iso(d, sep="T", off=None, digits=None):
    base = d
    suffix = ""
    if off is not None:
        base = d + dt.timedelta(minutes=off)
        s = "-" if off < 0 else "+"
        suffix = f"{s}{abs(off)//60:02d}:{abs(off)%60:02d}"
    txt = base.strftime(f"%Y-%m-%d{sep}%H:%M:%S")
    if base.year < 1000:
        txt = txt.zfill(19)
    if base.microsecond or digits:
        txt += f".{base.microsecond:06d}"
    return txt + suffix


KINDS = [
    "iso", "isoz", "iso_off", "iso_space", "iso_utc_suffix", "epoch_int", "epoch_float", "epoch_np", "epoch_ns",
    "datetime", "datetime_tz", "np64us", "np64ns", "pdts", "pdts_tz", "mtime", "obspy", "dict", "us_date",
]


@st.composite
def representation(draw):
    d = draw(utc_datetimes())
    kind = draw(st.sampled_from(KINDS))
    off = draw(OFFSETS)
    if kind in ("epoch_int", "us_date"):
        d = d.replace(microsecond=0)
    if kind == "epoch_ns" and d.year < 1972:
        d = d.replace(year=1990, day=min(d.day, 28))
    if kind == "obspy" and d.year < 1970:
        d = d.replace(year=1990, day=min(d.day, 28))
    return kind, d, off


def build(kind, d, off):
    """-> (value, tolerance in ns)"""
    us = us_of(d)
    tz = dt.timezone(dt.timedelta(minutes=off))
    if kind == "iso":
        return iso(d), 0
    if kind == "isoz":
        return iso(d) + "Z", 0
    if kind == "iso_off":
        return iso(d, off=off), 0
    if kind == "iso_space":
        return iso(d, sep=" "), 0
    if kind == "iso_utc_suffix":
        return iso(d, off=0), 0
    if kind == "epoch_int":
        return us // 10**6, 0
    if kind == "epoch_float":
        return us / 1e6, 2000
    if kind == "epoch_np":
        return np.float64(us / 1e6), 2000
    if kind == "epoch_ns":
        return us * 1000, 2000
    if kind == "datetime":
        return d, 0
    if kind == "datetime_tz":
        return d.replace(tzinfo=UTC).astimezone(tz), 0
    if kind == "np64us":
        return np.datetime64(d, "us"), 0
    if kind == "np64ns":
        return np.datetime64(us * 1000, "ns"), 0
    if kind == "pdts":
        return pd.Timestamp(d), 0
    if kind == "pdts_tz":
        return pd.Timestamp(d, tz="UTC").tz_convert(tz), 0
    if kind == "mtime":
        return MTime(time_stamp=iso(d)), 0
    if kind == "obspy":
        return UTCDateTime(iso(d)), 0
    if kind == "dict":
        return {"time_stamp": iso(d), "gps_time": False}, 0
    if kind == "us_date":
        return d.strftime("%m/%d/%Y %H:%M:%S") if d.year >= 1000 else iso(d), 0
    raise KeyError(kind)


@C.given(representation(), quick=1500, thorough=40000)
def any_representation_denotes_its_instant(ctx, r):
    """MTime(representation of an instant) is that instant, tagged UTC."""
    kind, d, off = r
    ctx.tag(kind)
    if d == dt.datetime(1980, 1, 1):
        ctx.trivial()
    v, tol = build(kind, d, off)
    t = MTime(time_stamp=v)
    want = us_of(d) * 1000
    got = ns_of(t)
    check(abs(got - want) <= tol, f"{kind} {v!r}: instant off by {got - want} ns ({t})")
    check(t.time_stamp.utcoffset() == dt.timedelta(0), f"{kind} {v!r}: not in UTC: {t}")
    check(t.isoformat().endswith("+00:00"), f"printed without UTC offset: {t.isoformat()}")
    p = parse(v) if kind != "mtime" else parse(v.isoformat())
    check(p == t.time_stamp, f"parse() and MTime disagree: {p} {t}")
    # in place: assignment through from_dict
    t2 = MTime()
    t2.from_dict(str(t))
    check(t2 == t, "from_dict(str(t)) differs")
    check(t == v or tol > 0, f"t == {v!r} is False")
    if tol == 0:
        check(not (t != v), "!= inconsistent with ==")


@C.given(utc_datetimes(), st.integers(0, 499), st.sampled_from(["str", "np", "pd"]), quick=300, thorough=8000)
def nanoseconds_survive(ctx, d, ns, how):
    """nanoseconds below the rounding threshold are kept and re-parse to the same time."""
    total = us_of(d) * 1000 + ns
    if how == "str":
        v = d.strftime("%Y-%m-%dT%H:%M:%S") + f".{d.microsecond*1000+ns:09d}+00:00"
    elif how == "np":
        v = np.datetime64(total, "ns")
    else:
        v = pd.Timestamp(total, unit="ns", tz="UTC")
    t = MTime(time_stamp=v)
    check_eq(ns_of(t), total, f"instant of {v!r}")
    again = MTime(time_stamp=t.isoformat())
    check(again == t and hash(again) == hash(t), f"{t} -> {again}")


@C.given(utc_datetimes(), utc_datetimes(), st.booleans(), st.sampled_from(["mtime", "str", "dt", "np", "pd", "epoch"]),
         quick=600, thorough=15000)
def order_is_the_order_of_instants(ctx, a, b, same, how):
    """==, !=, <, <=, >, >= agree with the order of instants, against MTime and against representations."""
    if same:
        b = a
    ctx.tag(how, "same" if a == b else "differ")
    if how == "epoch":
        a, b = a.replace(microsecond=0), b.replace(microsecond=0)
    t = MTime(time_stamp=iso(a))
    o = {
        "mtime": lambda: MTime(time_stamp=iso(b, off=330)),
        "str": lambda: iso(b),
        "dt": lambda: b,
        "np": lambda: np.datetime64(b, "us"),
        "pd": lambda: pd.Timestamp(b, tz="UTC"),
        "epoch": lambda: us_of(b) // 10**6,
    }[how]()
    for op, got, want in (
        ("==", t == o, a == b), ("!=", t != o, a != b), ("<", t < o, a < b),
        ("<=", t <= o, a <= b), (">", t > o, a > b), (">=", t >= o, a >= b),
    ):
        check(bool(got) == want, f"{t} {op} {o!r} is {got}")
    if a == b and how == "mtime":
        check(hash(t) == hash(o), "equal times hash differently")


@C.given(st.lists(utc_datetimes(), min_size=1, max_size=8), quick=200, thorough=4000)
def sorting(ctx, ds):
    """sorted / min / max of times follow the instants."""
    ts = [MTime(time_stamp=iso(d)) for d in ds]
    ctx.nontrivial = len(set(ds)) > 1
    check_eq([ns_of(t) for t in sorted(ts)], sorted(us_of(d) * 1000 for d in ds), "sorted")
    check_eq(ns_of(min(ts)), min(us_of(d) for d in ds) * 1000, "min")
    check_eq(ns_of(max(ts)), max(us_of(d) for d in ds) * 1000, "max")


DELTA_US = st.integers(-(10**15), 10**15)


HOWS = ["int", "float", "td", "np", "pd", "np.int64", "np.float32", "np.float64"]


@C.given(utc_datetimes(1960, 2150), DELTA_US, st.sampled_from(HOWS), quick=800, thorough=20000)
def arithmetic(ctx, d, us, how):
    """t + x, t - x and t - u follow the arithmetic of instants in seconds."""
    ctx.tag(how)
    if how in ("int", "np.int64", "np.float32"):
        us = us // 10**6 * 10**6
    if how == "np.float32":
        us = int(np.float32(us // 10**6)) * 10**6
    tol = 2000 if "float" in how else 0
    x = {
        "np.int64": np.int64(us // 10**6),
        "np.float32": np.float32(us // 10**6),
        "np.float64": np.float64(us / 1e6),
        "int": us // 10**6,
        "float": us / 1e6,
        "td": dt.timedelta(microseconds=us),
        "np": np.timedelta64(us, "us"),
        "pd": pd.Timedelta(us, unit="us"),
    }[how]
    t = MTime(time_stamp=iso(d))
    before = ns_of(t)
    plus = t + x
    minus = t - x
    base = us_of(d) * 1000
    check(abs(ns_of(plus) - (base + us * 1000)) <= tol, f"{t} + {x!r} = {plus}")
    check(abs(ns_of(minus) - (base - us * 1000)) <= tol, f"{t} - {x!r} = {minus}")
    check_eq(ns_of(t), before, "operand changed")
    check(isinstance(plus, MTime) and isinstance(minus, MTime), "result type")
    diff = plus - t
    check(abs(diff - us / 1e6) <= max(2e-6, abs(us) * 1e-21), f"({plus}) - ({t}) = {diff}")
    diff = t - plus.isoformat()
    check(abs(diff + us / 1e6) <= 2e-6, f"t - str: {diff}")


@C.given(utc_datetimes(1960, 2150), st.integers(0, 499), st.integers(-10**6, 10**6), st.integers(0, 499),
         st.sampled_from(["pd", "np", "float", "int"]), quick=300, thorough=8000)
def nanoseconds_in_arithmetic(ctx, d, ns, us, add, how):
    """what is below a microsecond is kept when time is added or taken away"""
    base = us_of(d) * 1000 + ns
    t = MTime(time_stamp=pd.Timestamp(base, unit="ns", tz="UTC"))
    check_eq(ns_of(t), base, "the start")
    total = us * 1000 + add
    x = {"pd": pd.Timedelta(total, unit="ns"), "np": np.timedelta64(total, "ns"), "float": total / 1e9, "int": us}[how]
    if how == "int":
        total = us * 10**9
    want = base + total
    # the last three digits stay below the threshold at which times are rounded
    if want % 1000 < 499:
        check(abs(ns_of(t + x) - want) <= (1 if how == "float" else 0), f"{t} + {x!r} = {t + x}")
    want = base - total
    if 1 < want % 1000 < 499:
        check(abs(ns_of(t - x) - want) <= (1 if how == "float" else 0), f"{t} - {x!r} = {t - x}")
    u = MTime(time_stamp=pd.Timestamp(base - (base % 1000) + add, unit="ns", tz="UTC"))
    check(abs((t - u) - (ns - add) / 1e9) <= 1e-12, f"{t} - {u} = {t - u}")
    if not (ns or add):
        ctx.trivial()


@C.given(
    utc_datetimes(1950, 2190),
    st.sampled_from(["year", "month", "day", "hour", "minutes", "seconds", "microseconds"]),
    st.integers(0, 60),
    st.integers(1960, 2190),
    quick=400,
    thorough=8000,
)
def component_setters(ctx, d, comp, v, year):
    """setting one component changes that component only; impossible values are refused without effect."""
    val = {"year": year, "microseconds": v * 1000 + 7}.get(comp, v)
    name = {"minutes": "minute", "seconds": "second", "microseconds": "microsecond"}.get(comp, comp)
    t = MTime(time_stamp=iso(d))
    ctx.tag(comp)
    try:
        want = d.replace(**{name: val})
    except ValueError:
        want = None
    try:
        setattr(t, comp, val)
        ok = True
    except ValueError:
        ok = False
    check_eq(ok, want is not None, f"setting {comp}={val} on {d} accepted")
    ctx.tag("accepted" if ok else "refused")
    exp = want if ok else d
    check_eq(ns_of(t), us_of(exp) * 1000, f"after {comp}={val} on {iso(d)}: {t}")
    check_eq(
        (t.year, t.month, t.day, t.hour, t.minutes, t.seconds, t.microseconds),
        (exp.year, exp.month, exp.day, exp.hour, exp.minute, exp.second, exp.microsecond),
        "component getters",
    )
    check_eq(t.date, exp.date().isoformat(), "date")
    check_eq(t.isodate(), exp.date().isoformat(), "isodate")
    check_eq(tuple(t.isocalendar()), tuple(exp.isocalendar()), "isocalendar")
    check_eq(t.iso_no_tz, t.isoformat().replace("+00:00", ""), "iso_no_tz")


@C.given(utc_datetimes(), utc_datetimes(), quick=200, thorough=4000)
def epoch_seconds_roundtrip(ctx, d, e):
    """epoch_seconds reads back the instant and assigning it moves the time there."""
    t = MTime(time_stamp=iso(d))
    check(abs(t.epoch_seconds - us_of(d) / 1e6) < 1e-5, f"epoch_seconds {t.epoch_seconds}")
    t.epoch_seconds = us_of(e) / 1e6
    check(abs(ns_of(t) - us_of(e) * 1000) <= 2000, f"epoch_seconds setter -> {t}, wanted {e}")
    c = t.copy()
    c.hour = (c.hour + 1) % 24
    check(abs(ns_of(t) - us_of(e) * 1000) <= 2000 and c != t, "copy shares state")
    t = MTime(time_stamp=iso(d))
    f = MTime(**t.model_dump())
    check(f == t, f"model_dump round trip {t} {f}")


LEAPS = [
    dt.date(*x)
    for x in (
        (1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1), (1991, 1, 1),
        (1992, 7, 1), (1993, 7, 1), (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1),
        (2009, 1, 1), (2012, 7, 1), (2015, 7, 1), (2017, 1, 1),
    )
]


@st.composite
def gps_dates(draw):
    if draw(st.booleans()):
        d = draw(st.sampled_from(LEAPS)) + dt.timedelta(days=draw(st.integers(-2, 2)))
    else:
        d = dt.date(1980, 1, 6) + dt.timedelta(days=draw(st.integers(0, 16970)))
    secs = draw(st.integers(0, 86399))
    return d, secs


@C.given(gps_dates(), st.sampled_from(["str", "epoch", "pd", "dict"]), quick=500, thorough=10000)
def gps_time_is_shifted_by_leap_seconds(ctx, ds, how):
    """gps_time=True subtracts exactly the leap seconds in effect on the given date."""
    d, secs = ds
    leaps = sum(1 for x in LEAPS if d >= x)
    check_eq(calculate_leap_seconds(d.year, d.month, d.day), leaps, f"leap seconds on {d}")
    g = dt.datetime(d.year, d.month, d.day) + dt.timedelta(seconds=secs)
    v = {"str": iso(g), "epoch": us_of(g) // 10**6, "pd": pd.Timestamp(g), "dict": {"time_stamp": iso(g), "gps_time": True}}[how]
    t = MTime(time_stamp=v, gps_time=True)
    check_eq(ns_of(t), (us_of(g) - leaps * 10**6) * 1000, f"GPS {g} -> {t}")
    if us_of(g) // 10**6 >= 3 * 10**8 or how != "epoch":
        plain = MTime(time_stamp=v if how != "dict" else iso(g))
        check_eq(plain - t, float(leaps), "difference between UTC and GPS reading")


@C.given(st.dates(dt.date(1950, 1, 1), dt.date(2190, 1, 1)), st.integers(-20000, 20000),
         st.dates(dt.date(1950, 1, 1), dt.date(2190, 1, 1)), quick=300, thorough=6000)
def dates(ctx, d, n, e):
    """date-only objects: print the date, re-parse to an equal date, count in days."""
    a, b = MDate(time_stamp=d.isoformat()), MDate(time_stamp=e)
    check_eq(a.isoformat(), d.isoformat(), "isoformat")
    check_eq(str(b), e.isoformat(), "str")
    check_eq(b.to_dict(), e.isoformat(), "to_dict")
    check(MDate(time_stamp=str(a)) == a, "re-parse")
    check_eq((a < b, a <= b, a > b, a >= b, a == b, a != b), (d < e, d <= e, d > e, d >= e, d == e, d != e), "order")
    check_eq((a + n).isoformat(), (d + dt.timedelta(days=n)).isoformat(), f"{a} + {n} days")
    check_eq((a - n).isoformat(), (d - dt.timedelta(days=n)).isoformat(), f"{a} - {n} days")
    check_eq((a + np.int64(n)).isoformat(), (d + dt.timedelta(days=n)).isoformat(), f"{a} + np.int64({n}) days")
    check_eq((a - np.int32(n)).isoformat(), (d - dt.timedelta(days=n)).isoformat(), f"{a} - np.int32({n}) days")
    check_eq(b - a, float((e - d).days), "difference in days")
    check_eq(MDate(time_stamp=None).is_default(), True, "default")
    check_eq(a.is_default(), d == dt.date(1980, 1, 1), "is_default")


@C.given(st.integers(1, 9999), st.integers(1, 12), st.integers(1, 28), quick=200, thorough=2000)
def far_dates_are_clamped(ctx, y, m, d):
    """dates the time type cannot hold become its limits; others are kept."""
    t = MTime(time_stamp=f"{y:04d}-{m:02d}-{d:02d}T00:00:00+00:00")
    ctx.tag("late" if y > 2262 else "early" if y < 1677 else "in")
    if y > 2262:
        check_eq(t.isoformat(), "2262-04-11T23:47:16.854775807+00:00", "upper limit")
    elif y < 1677:
        check(t.year == 1677, f"lower limit {t}")
    elif 1678 <= y <= 2261:
        check_eq((t.year, t.month, t.day), (y, m, d), "in range")


@C.given(st.sampled_from([None, "", "none", "None", "NONE"]), st.text(max_size=12), quick=300, thorough=6000)
def null_and_garbage(ctx, null, junk):
    """null values give the default time; any other text is parsed or refused with ValueError, never comparing equal by accident."""
    t = MTime(time_stamp=null)
    check(t.is_default() and t.isoformat() == "1980-01-01T00:00:00+00:00", f"{null!r} -> {t}")
    try:
        u = MTime(time_stamp=junk)
    except ValueError:
        ctx.tag("refused")
        check(not (t == junk) and (t != junk), f"unparsable {junk!r} compares equal")
    else:
        ctx.tag("parsed")
        check(u.time_stamp.utcoffset() == dt.timedelta(0), f"{junk!r} -> {u!r} not UTC")
        check(MTime(time_stamp=u.isoformat()) == u, f"{junk!r}: re-parse of {u} differs")
