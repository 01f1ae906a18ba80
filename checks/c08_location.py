"""C08: positions: degrees, DD:MM:SS text, ranges, datum."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from mt_metadata.common import BasicLocation, Location, StationLocation
from mt_metadata.common.location import BasicLocationNoDatum
from mt_metadata.utils.location_helpers import (
    convert_position_float2str,
    convert_position_str2float,
)

from vp.core import Check, check, check_eq
from vp.strat import names, plain_text

C = Check("C08", rule="non-trivial: the position has a fraction of a degree, or the value must be refused")
CLASSES = [BasicLocationNoDatum, BasicLocation, Location, StationLocation]
LIMIT = {"latitude": 90, "longitude": 180}

near = st.builds(lambda d, m, s, e, g: g * (d + m / 60 + s / 3600 + e), st.integers(0, 179), st.integers(0, 59),
                 st.sampled_from([0, 0.5, 30, 59, 59.9999, 59.99995, 59.99996, 59.999999, 1e-5]), st.sampled_from([0, 0, 1e-12, -1e-12, 1e-9]), st.sampled_from([1, -1]))
degrees = st.one_of(st.floats(-180, 180), near, st.integers(-180, 180), st.floats(-1, 1), st.floats(0, 0.02).map(lambda x: -x),
                    st.sampled_from([0.0, -0.5, 0.5, -0.0001, 59.99999999, -59.99999999, 180.0, -180.0, 90.0, -90.0, 12.999999999, -12.999999999]))


@C.given(degrees, quick=1500, thorough=30000)
def degrees_to_text_and_back(ctx, x):
    """the DD:MM:SS text of any position denotes that position (to 1e-4 seconds), is normalised, keeps the sign and reads back"""
    text = convert_position_float2str(x)
    if float(x) == int(x):
        ctx.trivial()
    parts = text.split(":")
    check(len(parts) == 3, f"{x!r} -> {text!r}")
    deg, minutes, seconds = parts
    neg = deg.startswith("-")
    check(deg.lstrip("-").isdigit() and minutes.isdigit() and len(minutes) == 2, f"{x!r} -> {text!r}")
    check(0 <= int(minutes) < 60 and 0 <= float(seconds) < 60, f"{x!r} -> {text!r}: minutes and seconds are below 60")
    value = Fraction(int(deg.lstrip("-"))) + Fraction(int(minutes), 60) + Fraction(seconds) / 3600
    if neg:
        value = -value
    tol = Fraction(6, 100000) / 3600
    check(abs(value - Fraction(float(x))) <= tol, f"{x!r} -> {text!r} is {float(value)!r}")
    back = convert_position_str2float(text)
    check(isinstance(back, float) and abs(back - x) <= float(tol) + 1e-12, f"{x!r} -> {text!r} -> {back!r}")


dms = st.tuples(st.sampled_from(["", "-"]), st.integers(0, 179), st.integers(0, 59), st.integers(0, 59999999), st.booleans())


@C.given(dms, st.sampled_from(["latitude", "longitude"]), st.sampled_from(CLASSES), quick=800, thorough=15000)
def text_is_the_position_it_denotes(ctx, d, name, cls):
    """DD:MM:SS text, given to the converter or to a location, is sign * (deg + min/60 + sec/3600), or refused when out of range"""
    sign, deg, mn, us, pad = d
    if name == "latitude":
        deg = deg % 95
    sec = us / 1e6
    text = f"{sign}{deg:03d}:{mn:02d}:{sec:09.6f}" if pad else f"{sign}{deg}:{mn}:{sec!r}"
    want = Fraction(deg) + Fraction(mn, 60) + Fraction(us, 3600 * 10**6)
    if sign:
        want = -want
    got = convert_position_str2float(text)
    check(abs(Fraction(got) - want) < Fraction(1, 10**11), f"{text!r} -> {got!r}, is {float(want)!r}")
    loc = cls()
    before = loc.to_dict(single=True)
    if abs(want) > LIMIT[name]:
        check(refused(lambda: setattr(loc, name, text)), f"{name} = {text!r} accepted as {getattr(loc, name)!r}")
        check_eq(loc.to_dict(single=True), before, "a refused position changes nothing")
    elif abs(want) < LIMIT[name]:
        setattr(loc, name, text)
        check(abs(getattr(loc, name) - float(want)) < 1e-10, f"{name} = {text!r} gives {getattr(loc, name)!r}")
        check_eq(cls(**{name: text}), loc, "constructor and assignment agree")


def refused(fn):
    try:
        fn()
    except (ValueError, TypeError):
        return True
    return False


@C.given(st.sampled_from(["latitude", "longitude"]), st.sampled_from(CLASSES),
         st.one_of(st.floats(-200, 200), st.floats(-90.0001, -89.9999), st.floats(179.9999, 180.0001), st.integers(-200, 200),
                   st.sampled_from([90, -90, 180, -180, 90.0000001, -90.0000001, 180.0000001, float("inf"), float("-inf"), float("nan"), 1e300])),
         st.sampled_from(["number", "text"]), quick=600, thorough=10000)
def degrees_are_kept_or_refused(ctx, name, cls, x, how):
    """a latitude is accepted exactly within +-90 and a longitude exactly within +-180, and kept as given, as number or text"""
    loc = cls(latitude=12.5, longitude=-13.25)
    given = x if how == "number" else repr(x)
    if abs(x) <= LIMIT[name]:
        setattr(loc, name, given)
        check(getattr(loc, name) == float(x) and isinstance(getattr(loc, name), float), f"{name} = {given!r} gives {getattr(loc, name)!r}")
        other = "longitude" if name == "latitude" else "latitude"
        check_eq(getattr(loc, other), 12.5 if other == "latitude" else -13.25, "the other coordinate is left alone")
        check_eq(getattr(cls(**{name: given}), name), float(x), "constructor")
        short = {"latitude": "lat", "longitude": "lon"}[name]
        check_eq(getattr(cls(**{short: given}), name), float(x), f"constructor with {short}")
    else:
        check(refused(lambda: setattr(loc, name, given)), f"{name} = {given!r} accepted")
        check(refused(lambda: cls(**{name: given})), f"{cls.__name__}({name}={given!r}) accepted")
        check_eq((loc.latitude, loc.longitude), (12.5, -13.25), "a refused position changes nothing")


@C.given(st.sampled_from(["latitude", "longitude"]), st.sampled_from(CLASSES),
         st.one_of(names(6).filter(lambda s: s.lower() not in ("nan", "inf", "infinity", "none") and not _number(s)),
                   st.lists(st.integers(0, 59).map(str), min_size=2, max_size=5).filter(lambda p: len(p) != 3).map(":".join),
                   st.tuples(st.integers(0, 59), names(3, alphabet="abcxyz")).map(lambda p: f"{p[0]}:{p[1]}:00")), quick=300, thorough=4000)
def not_a_position(ctx, name, cls, text):
    """text that is neither a number nor DD:MM:SS is refused and nothing changes"""
    loc = cls(latitude=12.5, longitude=-13.25)
    check(refused(lambda: setattr(loc, name, text)), f"{name} = {text!r} gives {getattr(loc, name)!r}")
    check_eq((loc.latitude, loc.longitude), (12.5, -13.25), "a refused position changes nothing")


def _number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


EPSG = [4326, 4269, 4267, 4283, 4258, 4230, 32611, 26911, 3857, 2193]


@C.given(st.sampled_from(EPSG), st.sampled_from(["int", "text", "EPSG", "name"]), st.sampled_from([BasicLocation, Location, StationLocation]), quick=60, thorough=300, budget=40)
def datum_is_named(ctx, code, how, cls):
    """a datum given as EPSG number, its text or its name is stored as its name; unknown datums are refused"""
    from pyproj import CRS

    name = CRS.from_epsg(code).name
    given = {"int": code, "text": str(code), "EPSG": f"EPSG:{code}", "name": name}[how]
    if how == "text":
        given = f"epsg:{code}"
    loc = cls(datum=given)
    check_eq(loc.datum, name, f"datum = {given!r}")
    loc = cls()
    loc.datum = given
    check_eq(loc.datum, name, f"datum = {given!r}")
    if how == "int":
        bad = 999999 if cls is Location else "no such datum"
        check(refused(lambda: setattr(loc, "datum", bad)) and loc.datum == name, "an unknown datum is refused and changes nothing")
