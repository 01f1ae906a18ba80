"""C22: EDI files keep the transfer function."""
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.edi import EDI

from vp import strat
from vp.core import Check, check, check_eq
from vp.tfgen import close, random_tf, seeds

C = Check("C22", rule="non-trivial: at least two frequencies and a non-zero impedance or tipper")

EMPTY = 1e32
Z = ["zxx", "zxy", "zyx", "zyy"]
T = ["tx", "ty"]

exps = st.lists(st.integers(-500, 500), min_size=1, max_size=14, unique=True)
freqs = exps.map(lambda l: [float(f"{10 ** (e / 100):.6e}") for e in sorted(l, reverse=True)])
kinds = st.sampled_from(["both", "both", "z", "t"])
orders = st.sampled_from(["down", "down", "up"])
stations = strat.names(6).map(lambda s: "m" + s)
lats = st.one_of(st.floats(-90, 90).map(lambda x: round(x, 5)), st.sampled_from([0.0, -0.25, 0.5, -89.99999, 59.99999]))
lons = st.one_of(st.floats(-180, 180).map(lambda x: round(x, 5)), st.sampled_from([0.0, -0.25, 0.5, -179.99999]))
elevs = st.integers(-50000, 8848000).map(lambda i: i / 1000)
options = st.fixed_dictionaries({}, optional={"longitude_format": st.sampled_from(["LON", "LONG"]), "latlon_format": st.sampled_from(["dms", "dd"])})
rots = st.one_of(st.none(), st.integers(-180, 360), st.floats(-180, 360).map(lambda x: round(x, 3)), st.just("array"))


def where():
    return tempfile.TemporaryDirectory(prefix="vp_edi_")


def expected_rotation(rot, n, seed):
    if rot is None:
        return np.zeros(n)
    if rot == "array":
        return np.round(np.random.default_rng(seed).uniform(-180, 360, n), 3)
    return np.full(n, float(rot))


def by_frequency(frequency, *arrays):
    """sorted from high to low frequency"""
    k = np.argsort(-np.asarray(frequency))
    return [None if a is None else np.asarray(a)[k] for a in (frequency,) + arrays]


def compare_edi(e, freq, z, ze, t, te, rot, what):
    check(e.frequency is not None and e.frequency.shape == (len(freq),), f"{what}: frequencies {e.frequency}")
    check(np.all(np.diff(e.frequency) < 0), f"{what}: not from high to low frequency {e.frequency}")
    close(e.frequency, freq, 1e-6, f"{what}: frequency")
    close(e.period, 1 / np.asarray(freq), 1e-6, f"{what}: period")
    close(e.z, z, 1e-6, f"{what}: z")
    close(e.z_err, ze, 1e-6, f"{what}: z_err")
    close(e.t, t, 1e-6, f"{what}: t")
    close(e.t_err, te, 1e-6, f"{what}: t_err")
    close(e.rotation_angle, rot, 1e-6, f"{what}: rotation angle")


def place(e, station, lat, lon, elev, what, dms):
    check_eq(e.station, station, f"{what}: station")
    tol = 1e-6 if not dms else 1e-8
    check(abs(e.lat - lat) <= tol, f"{what}: latitude {e.lat}, expected {lat}")
    check(abs(e.lon - lon) <= tol, f"{what}: longitude {e.lon}, expected {lon}")
    check(abs(e.elev - elev) <= 5.1e-4, f"{what}: elevation {e.elev}, expected {elev}")


@C.given(freqs, kinds, orders, seeds, stations, lats, lons, elevs, options, rots, quick=120, thorough=6000)
def objects(ctx, freq, kind, order, seed, station, lat, lon, elev, opts, rot):
    """an EDI object written with any options reads back with the same station, location, frequencies, impedance, tipper, errors and rotation angles, from high to low frequency; missing (NaN) and zero values read as zero; writing again changes nothing"""
    n = len(freq)
    z, ze, t, te = random_tf(n, seed, kind)
    ra = expected_rotation(rot, n, seed)
    e = EDI()
    sl = slice(None, None, -1 if order == "up" else 1)
    e.frequency = np.array(freq)[sl]
    if z is not None:
        e.z, e.z_err = z[sl].copy(), ze[sl].copy()
    if t is not None:
        e.t, e.t_err = t[sl].copy(), te[sl].copy()
    if rot is not None:
        e.rotation_angle = ra[sl].copy() if rot == "array" else rot
    e.station = station
    e.lat, e.lon, e.elev = lat, lon, elev
    zero = lambda a, k: np.zeros((n, k, 2)) if a is None else np.nan_to_num(a)
    want = [np.array(freq), zero(z, 2), zero(ze, 2), zero(t, 1), zero(te, 1) if t is not None and np.nan_to_num(t).any() else np.zeros((n, 1, 2)), ra]
    dms = opts.get("latlon_format", "dms") == "dms"
    with where() as d:
        fn = pathlib.Path(d) / "a.edi"
        got = e.write(fn, **opts)
        check_eq(pathlib.Path(got), fn, "name written")
        r = EDI(fn=fn)
        compare_edi(r, *want, "written and read")
        place(r, station, lat, lon, elev, "written and read", dms)
        fn2 = pathlib.Path(d) / "b.edi"
        r.write(fn2, **opts)
        r2 = EDI()
        r2.read(fn2)
        compare_edi(r2, *want, "written twice")
        place(r2, station, lat, lon, elev, "written twice", dms)
    if n < 2 or not (want[1].any() or want[3].any()):
        ctx.trivial()
    ctx.tag(kind, order, f"rot {rot if rot in (None, 'array') else 'number'}")


@C.given(freqs, kinds, orders, seeds, stations, lats, lons, elevs, options, rots, quick=40, thorough=3000)
def transfer_functions(ctx, freq, kind, order, seed, station, lat, lon, elev, opts, rot):
    """a TF written to an EDI file reads back as the same TF: periods, impedance and tipper with their errors, what it does not have, rotation angles, station and location"""
    n = len(freq)
    z, ze, t, te = random_tf(n, seed, kind, nan=False)
    ra = expected_rotation(rot, n, seed)
    sl = slice(None, None, -1 if order == "up" else 1)
    tf = TF(period=1 / np.array(freq)[sl])
    if z is not None:
        tf.impedance, tf.impedance_error = z[sl], ze[sl]
    if t is not None:
        tf.tipper, tf.tipper_error = t[sl], te[sl]
    if rot is not None:
        tf._rotation_angle = ra[sl].copy() if rot == "array" else rot
    tf.station, tf.survey, tf.latitude, tf.longitude, tf.elevation = station, "sv", lat, lon, elev
    had_z, had_t = bool(tf.has_impedance()), bool(tf.has_tipper())
    with where() as d:
        fn = pathlib.Path(d) / "a.edi"
        tf.write(fn, **opts)
        for form in ("TF.read", "TF(fn)", "from_edi"):
            r = TF()
            if form == "TF.read":
                r.read(fn)
            elif form == "TF(fn)":
                r = TF(fn=fn)
                r.read()
            else:
                r.from_edi(EDI(fn=fn))
            what = f"{form}"
            k = np.argsort(r.period)
            check_eq(r.period.size, n, f"{what}: number of periods")
            close(r.period[k], 1 / np.array(freq), 1e-6, f"{what}: period")
            check_eq((bool(r.has_impedance()), bool(r.has_tipper())), (had_z, had_t), f"{what}: has impedance, tipper")
            if had_z:
                close(r.impedance.data[k], z, 1e-6, f"{what}: impedance")
                close(r.impedance_error.data[k], ze, 1e-6, f"{what}: impedance error")
            if had_t:
                close(r.tipper.data[k], t, 1e-6, f"{what}: tipper")
                close(r.tipper_error.data[k], te, 1e-6, f"{what}: tipper error")
            # rotation angles are written as given, whatever they belong to
            close(np.asarray(r._rotation_angle)[k], ra, 1e-6, f"{what}: rotation angle")
            check_eq((r.station, r.survey), (station, "sv"), f"{what}: station, survey")
            check(abs(r.latitude - lat) <= 1e-6 and abs(r.longitude - lon) <= 1e-6 and abs(r.elevation - elev) <= 5.1e-4, f"{what}: location {r.latitude, r.longitude, r.elevation}")
    if n < 2 or not (had_z or had_t):
        ctx.trivial()
    ctx.tag(kind, order)


# ---------------------------------------------------------------- other writers
style = st.fixed_dictionaries(
    {
        "per_line": st.integers(1, 8),
        "digits": st.integers(6, 9),
        "empty": st.sampled_from(["1.0E32", "1e+32", "-999.0", "1.0E+33"]),
        "null": st.sampled_from(["empty", "empty", "stars"]),
        "odd": st.sampled_from([None, None, 1e32, -999.0, 1e30, 0.0]),
        "upper": st.booleans(),
        "size": st.sampled_from([" // {}", " //{}", ""]),
        "rot": st.sampled_from(["zrot", "rhorot", None]),
        "lon": st.sampled_from(["LON", "LONG"]),
        "dms": st.booleans(),
        "indent": st.sampled_from(["", "  ", "\t", "    "]),
        "quotes": st.booleans(),
        "titles": st.booleans(),
        "blank": st.booleans(),
        "crlf": st.booleans(),
    }
)


def dms(x):
    s = round(abs(x) * 3600, 4)
    d, s = divmod(s, 3600)
    m, s = divmod(s, 60)
    return f"{'-' if x < 0 else ''}{int(d):02}:{int(m):02}:{s:07.4f}"


class Text:
    def __init__(self, s):
        self.s = s
        self.lines = []

    def add(self, line):
        self.lines.append(self.s["indent"] + line)

    def section(self, line):
        if self.s["blank"]:
            self.lines.append("")
        self.lines.append(">" + line)

    def title(self, text):
        if self.s["titles"]:
            self.lines.append(f">!****{text}****!")

    def block(self, key, values):
        k = key.upper() if self.s["upper"] else key.lower()
        rot = "" if key in ("freq", "zrot", "rhorot", "trot") else " ROT=ZROT"
        self.section(f"{k}{rot}{self.s['size'].format(len(values))}")
        words = []
        for v in values:
            if v is None or np.isnan(v):
                words.append(self.s["empty"] if self.s["null"] == "empty" else "********")
            else:
                words.append(f"{v:.{self.s['digits']}E}")
        for i in range(0, len(words), self.s["per_line"]):
            self.lines.append(" " + " ".join(words[i : i + self.s["per_line"]]))

    def head(self, station, lat, lon, elev, n):
        s = self.s
        q = '"' if s["quotes"] else ""
        self.lines.append(">HEAD")
        self.add(f"DATAID={q}{station}{q}")
        self.add("STDVERS=SEG 1.0")
        self.add(f"LAT={dms(lat) if s['dms'] else f'{lat:.6f}'}")
        self.add(f"{s['lon']}={dms(lon) if s['dms'] else f'{lon:.6f}'}")
        self.add(f"ELEV={elev:.3f}")
        self.add(f"EMPTY={s['empty']}")
        self.section("INFO")
        self.add("written by hand")
        self.section("=DEFINEMEAS")
        self.add("MAXCHAN=5")
        self.add("UNITS=M")
        self.add(f"REFLAT={lat:.6f}")
        self.add(f"REFLONG={lon:.6f}")
        for i, (c, az) in enumerate([("HX", 0), ("HY", 90), ("HZ", 0)]):
            self.lines.append(f">HMEAS ID={i + 1}.001 CHTYPE={c} X=0.00 Y=0.00 AZM={az:.2f}")
        for i, (c, x, y) in enumerate([("EX", 50, 0), ("EY", 0, 50)]):
            self.lines.append(f">EMEAS ID={i + 4}.001 CHTYPE={c} X={-x:.2f} Y={-y:.2f} X2={x:.2f} Y2={y:.2f}")
        self.section("=MTSECT")
        self.add(f"SECTID={q}{station}{q}")
        self.add(f"NFREQ={n}")
        for i, c in enumerate(["HX", "HY", "HZ", "EX", "EY"]):
            self.add(f"{c}={i + 1}.001")
        self.lines.append("")

    def write(self, fn):
        self.section("END")
        nl = "\r\n" if self.s["crlf"] else "\n"
        fn.write_bytes((nl.join(self.lines) + nl).encode())


@C.given(freqs, kinds, orders, seeds, stations, lats, lons, elevs, style, st.integers(0, 2**10 - 1), quick=120, thorough=6000)
def other_writers(ctx, freq, kind, order, seed, station, lat, lon, elev, s, missing):
    """EDI files in any common layout (values per line, empty value, case of the keywords, number formats, rotation and variance blocks or none, components left out, either order of frequencies) read with the values written in them"""
    n = len(freq)
    z, ze, t, te = random_tf(n, seed, kind)
    rot = np.round(np.random.default_rng(seed).uniform(-180, 360, n), 3) if s["rot"] else np.zeros(n)
    # what other files have for a missing value is a value in this one
    if s["odd"] is not None and z is not None and s["odd"] != float(s["empty"]):
        z[seed % n, 0, 1] = s["odd"] + 1j
    x = Text(s)
    x.head(station, lat, lon, elev, n)
    sl = slice(None, None, -1 if order == "up" else 1)
    x.title("FREQUENCIES")
    x.block("freq", np.array(freq)[sl])
    if s["rot"]:
        x.title("IMPEDANCE ROTATION ANGLES")
        x.block(s["rot"], rot[sl])
    want = [np.zeros((n, k, 2), dtype=d) for k, d in ((2, complex), (2, float), (1, complex), (1, float))]
    if z is not None:
        x.title("IMPEDANCES")
        for i, k in enumerate(Z):
            a, b = divmod(i, 2)
            if missing >> i & 1 and missing >> 8 & 1:
                continue
            x.block(k + "r", z[sl, a, b].real)
            x.block(k + "i", z[sl, a, b].imag)
            want[0][:, a, b] = np.nan_to_num(z[:, a, b].real) + 1j * np.nan_to_num(z[:, a, b].imag)
            if not (missing >> i + 4 & 1 and missing >> 9 & 1):
                x.block(k + ".var", ze[sl, a, b] ** 2)
                want[1][:, a, b] = np.nan_to_num(ze[:, a, b])
    if t is not None:
        x.title("TIPPER")
        x.block("trot", rot[sl])
        for i, k in enumerate(T):
            x.block(k + "r.exp", t[sl, 0, i].real)
            x.block(k + "i.exp", t[sl, 0, i].imag)
            x.block(k + "var.exp", te[sl, 0, i] ** 2)
            want[2][:, 0, i] = np.nan_to_num(t[:, 0, i].real) + 1j * np.nan_to_num(t[:, 0, i].imag)
            want[3][:, 0, i] = np.nan_to_num(te[:, 0, i])
    with where() as d:
        fn = pathlib.Path(d) / "a.edi"
        x.write(fn)
        r = EDI(fn=fn)
        compare_edi(r, np.array(freq), *want, rot, "read")
        check_eq(r.station, station, "station")
        check(abs(r.lat - lat) <= 1e-6 and abs(r.lon - lon) <= 1e-6 and abs(r.elev - elev) <= 5.1e-4, f"location {r.lat, r.lon, r.elev}")
    if n < 2 or not (want[0].any() or want[2].any()):
        ctx.trivial()
    ctx.tag(kind, order, "crlf" if s["crlf"] else "lf")


@C.given(freqs, orders, seeds, st.sampled_from(["free", "quadrants"]), style, quick=80, thorough=3000)
def resistivity_phase(ctx, freq, order, seed, phases, s):
    """EDI files of apparent resistivity and phase read as the impedance sqrt(5 f rho) exp(i phase) (a yx phase given in the first quadrant is turned by 180 degrees), with the errors of the phase"""
    n = len(freq)
    r = np.random.default_rng(seed)
    rho = 10 ** r.uniform(-2, 5, (n, 4))
    ph = r.uniform(-179, 179, (n, 4))
    turned = bool(seed % 2)
    ph[:, 2] = r.uniform(1, 89, n) if turned else r.uniform(-179, -91, n)
    if phases == "quadrants":
        ph[:, 1] = r.uniform(1, 89, n)
    err = r.uniform(0.1, 20, (n, 4))
    s = dict(s, rot="rhorot", null="empty")
    x = Text(s)
    x.head("mt01", 1.0, 2.0, 3.0, n)
    sl = slice(None, None, -1 if order == "up" else 1)
    x.block("freq", np.array(freq)[sl])
    rot = np.round(r.uniform(-180, 360, n), 3)
    x.block("rhorot", rot[sl])
    keys = ["xx", "xy", "yx", "yy"] if seed % 3 else ["xy", "yx"]
    want = [np.zeros((n, 2, 2), dtype=complex), np.zeros((n, 2, 2)), np.zeros((n, 1, 2), dtype=complex), np.zeros((n, 1, 2))]
    for i, k in enumerate(["xx", "xy", "yx", "yy"]):
        if k not in keys:
            continue
        x.block("rho" + k, rho[sl, i])
        x.block("rho" + k + ".err", (rho * 0.1)[sl, i])
        x.block("phs" + k, ph[sl, i])
        x.block("phs" + k + ".err", err[sl, i])
        a, b = divmod(i, 2)
        p = ph[:, i] + (180 if k == "yx" and turned else 0)
        mag = np.sqrt(5 * np.array(freq) * rho[:, i])
        want[0][:, a, b] = mag * np.exp(1j * np.deg2rad(p))
        want[1][:, a, b] = mag * np.deg2rad(err[:, i])
    with where() as d:
        fn = pathlib.Path(d) / "a.edi"
        x.write(fn)
        e = EDI(fn=fn)
        e_z = e.z
        check(e_z.shape == (n, 2, 2), f"shape {e_z.shape}")
        check(np.all(abs(e_z - want[0]) <= 1e-4 * abs(want[0])), f"z {e_z.tolist()}, expected {want[0].tolist()}")
        close(e.z_err, want[1], 1e-4, "z_err")
        close(e.frequency, freq, 1e-6, "frequency")
        close(e.rotation_angle, rot, 1e-5, "rotation angle")
    if n < 2:
        ctx.trivial()
    ctx.tag("turned" if turned else "as is", order)
