"""C17: FDSN channel codes."""
import string

from hypothesis import strategies as st

from mt_metadata.timeseries import Electric, Magnetic
from mt_metadata.timeseries.stationxml import fdsn_tools as ft

from vp.core import Check, check, check_eq, raises

C = Check("C17", rule="non-trivial: the code has a letter other than the default (A, Y) in every place, or the input is malformed")

# SEED manual, appendix A: band codes by sample rate (of those for weak-motion and MT data)
BANDS = {
    "F": (1000, 5000), "G": (1000, 5000), "D": (250, 1000), "C": (250, 1000), "E": (80, 250), "S": (10, 80), "H": (80, 250), "B": (10, 80), "M": (1, 10),
    "L": (0.95, 1.05), "V": (0.095, 0.105), "U": (0.0095, 0.0105), "R": (1e-4, 1e-3), "P": (1e-5, 1e-4), "T": (1e-6, 1e-5), "Q": (0, 1e-6),
}
MEAS = {
    "tilt": "A", "creep": "B", "calibration": "C", "pressure": "D", "magnetic": "F", "gravity": "G", "humidity": "I", "temperature": "K", "water_current": "O",
    "electric": "Q", "rain_fall": "R", "linear_strain": "S", "tide": "T", "wind": "W",
}
rates = st.one_of(
    st.floats(-8, 4.5).map(lambda e: 10.0**e), st.sampled_from([v for b in BANDS.values() for v in b]),
    st.sampled_from([1, 1.0, 4, 8, 10, 64, 80, 150, 256, 250, 1000, 4096, 5000, 24000, 0.1, 0.01, 0.1001, 1.049, 0.951, 1.06]),
)
cases = st.sampled_from([str.lower, str.upper, str.title])
azimuths = st.one_of(st.floats(-1080, 1080, allow_nan=False), st.integers(-720, 720), st.sampled_from([0, 14.9, 15.1, 44.9, 45.1, 74.9, 75.1, 90, 105.1, 134.9, 165.1, 179, 194.9, 270, 345.1, 359.99]))


def fold(az):
    az = az % 180
    return min(az, 180 - az)


def near_edge(a):
    return any(abs(a - e) < 1e-6 for e in (15, 45, 75))


def orientation(az, kind):
    a = fold(az)
    if kind == "vertical":
        return "Z" if a < 15 else "3"
    return "N" if a < 15 else "1" if a < 45 else "2" if a < 75 else "E"


@C.given(rates, quick=400, thorough=20000)
def band(ctx, rate):
    """the band code is one whose range holds the sample rate, A if none does, and the same every time"""
    code = ft.get_period_code(rate)
    holding = {k for k, (a, b) in BANDS.items() if a <= rate <= b}
    if holding:
        check(code in holding, f"{rate} samples/s has the band {code}, which is {BANDS.get(code)}")
    else:
        check_eq(code, "A", f"band of {rate}")
        ctx.trivial()
    for k in ("L", "V", "U"):
        if k in holding:
            check_eq(code, k, f"band of {rate}")
    check_eq(ft.get_period_code(rate), code, "again")


@C.given(rates, st.sampled_from(sorted(MEAS)), cases, st.one_of(azimuths.map(lambda a: ("az", a)), st.sampled_from("xyzXYZ").map(lambda d: ("dir", d))), st.sampled_from(["horizontal", "vertical"]), quick=600, thorough=30000)
def code_and_back(ctx, rate, meas, case, where, kind):
    """a channel code says sample rate band, measurement and orientation, and reading it gives ranges and the measurement that fit; electric and magnetic ones give the component"""
    how, value = where
    if how == "az" and near_edge(fold(value)):
        ctx.trivial()
        return
    code = ft.make_channel_code(rate, case(meas), value, orientation=kind)
    check_eq(len(code), 3, f"code {code!r}")
    check_eq(code[0], ft.get_period_code(rate), "band")
    check_eq(code[1], MEAS[meas], "measurement")
    want = orientation(value, kind) if how == "az" else {"x": "N", "y": "E", "z": "Z"}[value.lower()]
    check_eq(code[2], want, f"orientation of {value} {kind}")
    ctx.tag(code[2], how)
    if code[0] != "A":
        got = ft.read_channel_code(code)
        lo, hi = got["period"]["min"], got["period"]["max"]
        check(lo <= rate <= hi, f"{code} is read as {lo} to {hi} samples/s, was {rate}")
        check_eq(got["measurement"], "magnetic" if meas == "tide" else meas, "measurement read")
        o = got["orientation"]
        if kind == "horizontal" and how == "az":
            check(abs(fold(value) - o["angle"]) <= o["variance"] + 1e-6, f"{code}: orientation {o} does not hold {value}")
    else:
        ctx.trivial()
    if meas in ("electric", "magnetic"):
        axis = {"N": "x", "1": "x", "E": "y", "2": "y", "Z": "z", "3": "z"}[want]
        check_eq(ft.create_mt_component(code), {"electric": "e", "magnetic": "h"}[meas] + axis, f"component of {code}")


@C.given(azimuths, st.integers(-3, 3), st.sampled_from(["horizontal", "vertical"]), quick=300, thorough=10000)
def symmetry(ctx, az, turns, kind):
    """the orientation code does not depend on whole or half turns nor on the side of north"""
    if near_edge(fold(az)):
        ctx.trivial()
        return
    a = ft.get_orientation_code(az, orientation=kind)
    check_eq(a, orientation(az, kind), f"orientation of {az} {kind}")
    for other in (az + 360 * turns, az + 180 * turns, -az):
        check_eq(ft.get_orientation_code(other, orientation=kind), a, f"{other} and {az}")


@C.given(st.text(string.ascii_letters + string.digits + " _", max_size=6), quick=300, thorough=10000)
def reading(ctx, code):
    """a text that is not three characters or has unknown measurement or orientation letters is refused; an unknown measurement name is written as Y"""
    ok = len(code) == 3 and code[1] in MEAS.values() and code[2] in "NEZ123"
    if ok:
        ctx.tag("good")
        got = ft.read_channel_code(code)
        check_eq(MEAS["tide" if code[1] == "T" else got["measurement"]], code[1], "measurement")
    else:
        raises(ValueError, lambda: ft.read_channel_code(code), f"code {code!r}")
        raises(ValueError, lambda: ft.create_mt_component(code), f"component of {code!r}")
    low = code.lower()
    if low and sum(low in k for k in MEAS) == 1:
        check_eq(ft.get_measurement_code(code), [v for k, v in MEAS.items() if low in k][0], f"measurement {code!r}, part of a name")
    if not any(low in k for k in MEAS):
        check_eq(ft.get_measurement_code(code), "Y", f"measurement {code!r}")
    if code and code.lower() not in ("x", "y", "z"):
        raises(ValueError, lambda: ft.get_orientation_code(direction=code), f"direction {code!r}")


@C.given(st.sampled_from(sorted(MEAS)), st.integers(0, 12), st.integers(1, 13), cases, quick=200, thorough=2000)
def part_of_a_name(ctx, name, start, length, case):
    """part of the name of a measurement that is in no other name stands for it"""
    part = name[start: start + length]
    if not part or sum(part in k for k in MEAS) > 1:
        ctx.trivial()
        return
    check_eq(ft.get_measurement_code(case(part)), MEAS[name], f"measurement {part!r}")


@C.given(st.tuples(st.sampled_from("LMBCFDGESHVURPTQ"), st.sampled_from(sorted(MEAS.values())), st.sampled_from("NEZ123")).map("".join), quick=200, thorough=3000)
def every_code(ctx, code):
    """every code made of known letters is read as its band, measurement and direction"""
    got = ft.read_channel_code(code)
    check_eq((got["period"]["min"], got["period"]["max"]), BANDS[code[0]], f"band of {code}")
    check_eq(got["measurement"], "magnetic" if code[1] == "T" else {v: k for k, v in MEAS.items()}[code[1]], f"measurement of {code}")
    check_eq(got["orientation"]["angle"], {"N": 0, "E": 90, "Z": 0, "1": 30, "2": 60, "3": 0}[code[2]], f"angle of {code}")
    if code[1] in "QFT":
        check_eq(ft.create_mt_component(code), ("e" if code[1] == "Q" else "h") + {"N": "x", "E": "y", "Z": "z", "1": "x", "2": "y", "3": "z"}[code[2]], f"component of {code}")


@C.given(st.sampled_from(["ex", "ey", "hx", "hy", "hz"]), st.integers(0, 999), quick=100, thorough=2000)
def location_code(ctx, comp, number):
    """the location code is the letter of the field and the last digit of the channel number"""
    ch = (Electric if comp[0] == "e" else Magnetic)(component=comp, channel_number=number)
    check_eq(ft.create_location_code(ch), f"{comp[0].upper()}{number % 10}", f"location code of {comp} {number}")
