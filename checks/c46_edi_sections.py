"""C46: the head and the measurements of EDI files of other programs become metadata."""
import datetime
import math

import numpy as np
from hypothesis import strategies as st

from mt_metadata.common.mttime import MTime
from mt_metadata.timeseries import Electric, Magnetic, Run
from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.edi import EDI

from vp import metagen
from vp.core import Check, check, check_eq

C = Check("C46", rule="non-trivial: two items of the head, two channels at least")

word = st.text("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-", min_size=1, max_size=8).filter(lambda s: s not in ("None", "none", "null", "nan") and any(c.isalpha() for c in s))
text = st.lists(word, min_size=1, max_size=3).map(" ".join)
name = st.text("abcdefgABCDEFG0123456789_", min_size=1, max_size=8)


def dec(lo, hi, n):
    return st.integers(int(lo * 10**n), int(hi * 10**n)).map(lambda k: k / 10**n)


date = st.dates(min_value=datetime.date(1981, 1, 1), max_value=datetime.date(2030, 1, 1))
times = st.tuples(date, st.sampled_from(["%Y-%m-%d", "%Y/%m/%d", "%Y-%m-%dT%H:%M:%S", "%m/%d/%Y", "%Y-%m-%d 12:13:14"]))


def degrees(x, form):
    if form == "dd":
        return f"{x:.6f}"
    s = round(abs(x) * 3600, 3)
    d, s = divmod(s, 3600)
    m, s = divmod(s, 60)
    sign = "-" if x < 0 else "+" if form == "+dms" else ""
    return f"{sign}{int(d):02}:{int(m):02}:{s:06.3f}"


forms = st.sampled_from(["dd", "dms", "+dms"])
# an item: its names, its values
TEXT = {"ACQBY": text, "FILEBY": text, "LOC": text, "PROSPECT": text, "PROJECT": text, "STATE": word, "COUNTRY": word, "PROGVERS": text, "PROGNAME": text}
items = st.fixed_dictionaries(
    {},
    optional={
        **TEXT,
        "DATAID": name,
        "SURVEY": name,
        "ACQDATE": times,
        "ENDDATE": times,
        "FILEDATE": times,
        "LAT": dec(-89, 89, 3),
        "LON": dec(-179, 179, 3),
        "ELEV": dec(-100, 5000, 2),
        "DECLINATION": dec(-40, 40, 2),
        "EMPTY": st.sampled_from(["1e32", "1.0E+32", "-999", "1E+33"]),
        "UNITS": st.sampled_from(["m", "M"]),
        "STDVERS": st.sampled_from(["SEG 1.0", "N/A", "None"]),
        "COORDINATE_SYSTEM": st.sampled_from(["GEOGRAPHIC NORTH", "geomagnetic north", "Station", "geographic"]),
        "MAXSECT": st.just("999"),
    },
)
NAMES = {"LAT": ["LAT", "LATITUDE"], "LON": ["LON", "LONG", "LONGITUDE"], "ELEV": ["ELEV", "ELEVATION"]}
layout = st.fixed_dictionaries(
    {
        "case": st.sampled_from([str.upper, str.lower, str.capitalize]),
        "eq": st.sampled_from(["=", " = ", "= ", " ="]),
        "indent": st.sampled_from(["", "  ", "\t"]),
        "quotes": st.booleans(),
        "form": forms,
        "order": st.randoms(use_true_random=False),
        "blank": st.booleans(),
        "wrap": st.booleans(),
        "attr": st.sampled_from(["=", "= ", " = "]),
        "noise": st.booleans(),
        "newline": st.sampled_from(["\n", "\r\n", "\r"]),
    }
)
define = st.fixed_dictionaries(
    {},
    optional={
        "MAXCHAN": st.integers(1, 99),
        "MAXRUN": st.integers(1, 9999),
        "MAXMEAS": st.integers(1, 9999),
        "UNITS": st.sampled_from(["M", "m"]),
        "REFTYPE": st.sampled_from(["CART", "cart", "cartesian"]),
        "REFLOC": text,
        "REFLAT": dec(-89, 89, 3),
        "REFLONG": dec(-179, 179, 3),
        "REFELEV": dec(-100, 5000, 2),
    },
)
meter = dec(-500, 500, 1)
acq = st.sampled_from(["", "3", "CH7", "ADU06/12", "0"])
hmeas = st.fixed_dictionaries({}, optional={"X": meter, "Y": meter, "Z": dec(-2, 2, 1), "AZM": dec(-180, 360, 1), "DIP": dec(-90, 90, 1), "ACQCHAN": acq, "SENSOR": text, "GAIN": st.just("")})
emeas = st.fixed_dictionaries({}, optional={"X": meter, "Y": meter, "X2": meter, "Y2": meter, "AZM": dec(-180, 360, 1), "ACQCHAN": acq, "TYPE": text, "GAIN": st.just("")})
channels = st.fixed_dictionaries({}, optional={**{c: hmeas for c in ("HX", "HY", "HZ", "RRHX", "RRHY")}, "EX": emeas, "EY": emeas})
ids = st.sampled_from([(1000, 0.001), (0, 0.001), (1, 0.0), (300, 0.5)])


class Writer:
    def __init__(self, lay):
        self.lay = lay
        self.lines = []

    def section(self, s):
        if self.lay["blank"]:
            self.lines.append("")
        self.lines.append(s)

    def shuffled(self, d):
        d = list(d)
        self.lay["order"].shuffle(d)
        return d

    def item(self, key, value, is_text=False):
        q = '"' if self.lay["quotes"] and is_text else ""
        self.lines.append(f"{self.lay['indent']}{self.lay['case'](key)}{self.lay['eq']}{q}{value}{q}")

    def measurement(self, kind, attrs):
        """attributes in any order; some on a second line"""
        words = [f"{self.lay['case'](k)}{self.lay['attr']}{v}" for k, v in self.shuffled(attrs)]
        n = len(words) // 2 if self.lay["wrap"] else len(words)
        n = max(n, 1)
        self.lines.append(f">{kind} " + " ".join(words[:n]))
        if words[n:]:
            self.lines.append("   " + " ".join(words[n:]))

    def write(self, fn):
        with open(fn, "w", newline="") as f:
            f.write("".join(x + self.lay["newline"] for x in "\n".join(self.lines).split("\n")))


def value_of(key, v, lay):
    if key in ("LAT", "LON", "REFLAT", "REFLONG"):
        return degrees(v, lay["form"])
    if isinstance(v, tuple):
        return v[0].strftime(v[1])
    return v


@C.given(items, define, channels, layout, ids, quick=250, thorough=10000)
def sections(ctx, head, define, chans, lay, numbers):
    """every item of the head, in any order, case and spacing, is where it belongs: station, place, survey, people, times, declination; a place that is not in the head is the reference; channels have the places, azimuths, tilts and numbers of their measurements, and the data section knows their ids"""
    # an id of its own for each channel
    num = {c: f"{numbers[0] + i + 1 + numbers[1]:.3f}".rstrip("0").rstrip(".") for i, c in enumerate(sorted(chans))}
    w = Writer(lay)
    w.lines.append(">HEAD")
    for k, v in w.shuffled(head.items()):
        names = NAMES.get(k, [k])
        w.item(names[(len(lay["indent"]) + len(lay["eq"])) % len(names)], value_of(k, v, lay), k in TEXT or k in ("DATAID", "SURVEY"))
        if lay["noise"] and lay["blank"]:
            w.lines.append("")
    w.section(">INFO")
    w.lines.append("  no items")
    w.section(">=DEFINEMEAS")
    for k, v in w.shuffled(define.items()):
        w.item(k, value_of(k, v, lay), k == "REFLOC")
    if lay["noise"]:
        w.lines.append(lay["indent"] + "reference of the station")
    w.lines.append("")
    # remotes come after, as channels of the same name or of their own
    same = lay["quotes"]
    for c in sorted(chans, key=lambda c: c.startswith("RR")):
        kind = "EMEAS" if c[0] == "E" else "HMEAS"
        t = c[2:] if c.startswith("RR") and c[2:] in chans and same else c
        w.measurement(kind, [("ID", num[c]), ("CHTYPE", t)] + list(chans[c].items()))
    w.section(">=MTSECT")
    w.item("SECTID", head.get("DATAID", "x"), True)
    w.item("NFREQ", 2)
    for c in w.shuffled(chans):
        w.item(c, num[c])
    w.section(">FREQ // 2\n 10. 1.\n>ZXYR ROT=ZROT // 2\n 1. 2.\n>ZXYI ROT=ZROT // 2\n 3. 4.")
    w.section(">END")
    w.write("c46.edi")
    e = EDI(fn="c46.edi")
    h = e.Header
    # what is read of the head
    for k, v in head.items():
        if k in ("LAT", "LON", "ELEV", "MAXSECT"):
            continue
        if k == "DECLINATION":
            check_eq(h.declination.value, v, "declination")
        elif k in ("ACQDATE", "ENDDATE", "FILEDATE"):
            check_eq(getattr(h, k.lower()), MTime(time_stamp=v[0].strftime("%Y-%m-%d") + ("T12:13:14" if "12:" in v[1] else "")), k)
        elif k == "EMPTY":
            check_eq(h.empty, float(v), k)
        elif k == "UNITS":
            check_eq(h.units, "meter", k)
        elif k == "STDVERS":
            check_eq(h.stdvers, "SEG 1.0", k)
        elif k == "COORDINATE_SYSTEM":
            check_eq(h.coordinate_system, v.lower().split()[0], k)
        elif k == "COUNTRY":
            check_eq(h.country, v, k)
            check_eq(e.survey_metadata.country, [v], "country of the survey")
        else:
            check_eq(getattr(h, k.lower()), v, k)
    # place
    for k, ref, got, tol in (("LAT", "REFLAT", e.lat, 3e-7), ("LON", "REFLONG", e.lon, 3e-7), ("ELEV", "REFELEV", e.elev, 1e-9)):
        want = head.get(k, 0) or define.get(ref, 0)
        check(abs(got - want) <= tol, f"{k}: {got}, expected {want}")
    # the define section
    m = e.Measurement
    for k, v in define.items():
        a = {"REFLONG": "reflon"}.get(k, k.lower())
        got = getattr(m, a)
        if isinstance(v, float):
            check(abs(got - v) <= 3e-7, f"{k}: {got}, expected {v}")
        else:
            check_eq(got, "meter" if k == "UNITS" else v, k)
    check_eq(sorted(m.measurements), sorted(c.lower() for c in chans), "channels measured")
    check_eq(e.Data.nfreq, 2, "NFREQ")
    for c in ("EX", "EY", "HX", "HY", "HZ", "RRHX", "RRHY"):
        got = getattr(e.Data, c.lower())
        check((got is None) == (c not in chans) and (got is None or float(got) == float(num[c])), f"{c} in the data section: {got}, expected {num.get(c)}")
    s = e.station_metadata
    before = metagen.leaves(m)
    for c, a in chans.items():
        o = getattr(e, f"{c.lower()}_metadata")
        same_channel(o, c, a, num[c], "channel")
        run = s.runs[0]
        check(c.lower() in run.channels.keys(), f"run has {c}: {run.channels.keys()}")
        # remote channels of a run are known by name only
        if not c.startswith("RR"):
            same_channel(run.channels[c.lower()], c, a, num[c], "channel of the run", zeros=False)
    check_eq(sorted(c.component for c in s.runs[0].channels), sorted(c.lower() for c in chans), "channels of the run")
    # station and survey
    v = e.survey_metadata
    sid = head.get("DATAID")
    if sid:
        check_eq((s.id, s.transfer_function.id), (sid, sid), "station")
        check_eq(e.Data.sectid, sid, "section")
    for k, got in {"ACQBY": s.acquired_by.author, "FILEBY": s.provenance.submitter.author, "LOC": s.geographic_name, "PROGVERS": s.provenance.software.version, "SURVEY": v.id}.items():
        if k in head:
            check_eq(got, head[k], f"metadata of {k}")
    check_eq(v.project or None, head.get("PROJECT", head.get("PROSPECT")), "project")
    if "SURVEY" not in head:
        check_eq(v.id, "0", "survey")
    for k, t in (("ACQDATE", s.time_period.start), ("ENDDATE", s.time_period.end), ("FILEDATE", s.transfer_function.processed_date)):
        if k in head:
            check_eq(str(t), str(getattr(h, k.lower())), f"metadata of {k}")
    check_eq((s.location.declination.value, s.location.latitude, s.location.longitude, s.location.elevation), (head.get("DECLINATION", 0.0), e.lat, e.lon, e.elev), "place of the station")
    # dictionaries do not change it
    m.to_dict()
    check(not metagen.diff(before, metagen.leaves(m)), "to_dict changes the measurements")
    check_eq(sorted(type(x).__name__ for x in m.measurements.values()), sorted(("E" if c[0] == "E" else "H") + "Measurement" for c in chans), "measurements after to_dict")
    # again, as written by the object
    e.write("c46b.edi")
    r = EDI(fn="c46b.edi")
    check(abs(r.lat - e.lat) <= 3e-7 and abs(r.lon - e.lon) <= 3e-7 and abs(r.elev - e.elev) <= 1e-3, "place written again")
    check_eq(sorted(r.Measurement.measurements), sorted(m.measurements), "channels written again")
    for c, a in chans.items():
        same_channel(getattr(r, f"{c.lower()}_metadata"), c, a, num[c], "channel written again", number=False)
    if len(head) < 2 or len(chans) < 2:
        ctx.trivial()


def near(got, want, what, tol=0.0051):
    check(got is not None and abs(float(got) - want) <= tol, f"{what}: {got}, expected {want}")


def same_channel(o, c, a, num, what, number=True, zeros=True):
    what = f"{what} {c}"
    check_eq(o.component, c.lower(), f"{what}: component")
    near(o.channel_id, float(num), f"{what}: id", 1e-9)
    if number:
        digits = "".join(x for x in a.get("ACQCHAN", "") if x.isdigit())
        check_eq(o.channel_number, int(digits or 0), f"{what}: number")
    if c[0] == "E":
        x, y, x2, y2 = (a.get(k, 0.0) for k in ("X", "Y", "X2", "Y2"))
        near(o.dipole_length, math.hypot(x2 - x, y2 - y), f"{what}: dipole length", 0.02)
        for k, got, want in (("x", o.negative.x, x), ("y", o.negative.y, y), ("x2", o.positive.x2, x2), ("y2", o.positive.y2, y2)):
            near(got, want, f"{what}: {k}")
        want = a.get("AZM", 0.0)
        if x != x2 or y != y2:
            want = math.degrees(math.atan2(y2 - y, x2 - x))
        near(o.measurement_azimuth, want, f"{what}: azimuth")
        if want or zeros:
            near(o.translated_azimuth, want, f"{what}: azimuth translated")
    else:
        near(o.location.x, a.get("X", 0.0), f"{what}: x")
        near(o.location.y, a.get("Y", 0.0), f"{what}: y")
        near(o.location.z, a.get("Z", 0.0), f"{what}: z")
        near(o.measurement_azimuth, a.get("AZM", 0.0), f"{what}: azimuth")
        if a.get("AZM") or zeros:
            near(o.translated_azimuth, a.get("AZM", 0.0), f"{what}: azimuth translated")
        near(o.measurement_tilt, a.get("DIP", 0.0), f"{what}: tilt")


elec = st.fixed_dictionaries({"x": meter, "y": meter, "x2": meter, "y2": meter, "azm": dec(-180, 180, 1), "n": st.integers(1, 20)})
mag = st.fixed_dictionaries({"x": meter, "y": meter, "z": dec(-2, 2, 1), "azm": dec(-180, 180, 1), "dip": dec(-90, 90, 1), "n": st.integers(1, 20)})


@C.given(st.fixed_dictionaries({"hx": mag, "hy": mag, "ex": elec, "ey": elec}, optional={"hz": mag}), name, st.booleans(), quick=60, thorough=2000)
def written(ctx, chans, station, file):
    """places, azimuths, tilts and numbers of the channels of a transfer function are those read from the EDI file written of it"""
    t = TF()
    t.station_metadata.id = station
    run = Run(id=f"{station}a")
    for i, (c, a) in enumerate(sorted(chans.items())):
        o = Electric(component=c) if c[0] == "e" else Magnetic(component=c)
        o.channel_id, o.channel_number = str(i + 1.5), a["n"]
        if c[0] == "e":
            o.negative.x, o.negative.y, o.positive.x2, o.positive.y2 = (a[k] for k in ("x", "y", "x2", "y2"))
            o.dipole_length = math.hypot(a["x2"] - a["x"], a["y2"] - a["y"])
            if o.dipole_length:
                a["azm"] = math.degrees(math.atan2(a["y2"] - a["y"], a["x2"] - a["x"]))
        else:
            o.location.x, o.location.y, o.location.z = (a[k] for k in "xyz")
            o.measurement_tilt = a["dip"]
        o.measurement_azimuth = o.translated_azimuth = a["azm"]
        run.add_channel(o)
    t.station_metadata.runs = [run]
    t.period = np.array([1.0, 10.0])
    t.impedance = np.ones((2, 2, 2), dtype=complex)
    e = t.to_edi()
    if file:
        e.write("c46c.edi")
        e = EDI(fn="c46c.edi")
    for i, (c, a) in enumerate(sorted(chans.items())):
        up = {k.upper(): a[k] for k in a if k != "n"}
        same_channel(getattr(e, f"{c}_metadata"), c.upper(), {**up, "ACQCHAN": str(a["n"])}, str(i + 1.5), "written" if file else "made")
