"""C42: a transfer function converted from one file format to another stays the same."""
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF

from checks import c23_edi_spectra as c23
from vp.core import Check, check, check_eq
from vp.tfgen import seeds

C = Check("C42", rule="non-trivial: at least two different formats in the chain")

FORMATS = ["edi", "xml", "zmm", "zss", "zrr", "avg"]
Z = {"zmm", "zss", "zrr"}
decimals = lambda lo, hi, d: st.integers(int(lo * 10**d), int(hi * 10**d)).map(lambda i: i / 10**d)
def rounded(v):
    return f"{v[0] * 10.0 ** v[1]:.3e}"


periods = st.lists(st.tuples(st.integers(100, 99999), st.integers(-8, 4)), min_size=1, max_size=4, unique_by=rounded).map(lambda x: [float(f"{m}e{e}") for m, e in x])
# lower case letters and digits: AVG files are read so, XML files have nothing else
names = st.text("abcdefghkxz0123456789", min_size=0, max_size=5).map(lambda s: "m" + s)
step = st.tuples(st.sampled_from(FORMATS), st.sampled_from(["file", "file", "upper", "object", "file_type"]))
# what a format keeps
ELEVATION, SURVEY = {"edi", "xml"}, {"edi", "xml"}


def start(kind, period, seed, cov, station, survey, p, data_type="BBMT"):
    r = np.random.default_rng(seed)
    n = len(period)

    def c(*s):
        return 10 ** r.uniform(-2, 1, s) * np.exp(1j * r.uniform(-np.pi, np.pi, s))

    tf = TF(period=np.array(period))
    full = np.zeros((n, 3, 2), complex)
    err = np.zeros((n, 3, 2))
    rows = {"both": [0, 1, 2], "z": [0, 1], "t": [2]}[kind]
    full[:, rows] = c(n, len(rows), 2)
    tf.transfer_function = full
    if cov:
        a, b = c(n, 2, 5), c(n, 3, 6)
        m = np.zeros((3, 3))
        if kind != "t":
            m[:2, :2] = 1
        if kind != "z":
            m[2, 2] = 1
        tf.inverse_signal_power = a @ a.conj().swapaxes(1, 2)
        tf.residual_covariance = (b @ b.conj().swapaxes(1, 2)) * m
    else:
        err[:, rows] = np.abs(c(n, len(rows), 2))
        tf.transfer_function_error = err
    tf.station, tf.survey = station, survey
    tf.latitude, tf.longitude, tf.elevation = p["lat"], p["lon"], p["elev"]
    tf.station_metadata.location.declination.value = p["declination"]
    tf.station_metadata.data_type = data_type
    return tf


def values(tf):
    o = np.argsort(tf.period)
    out = {"period": np.asarray(tf.period)[o]}
    for k in ("impedance", "tipper", "impedance_error", "tipper_error", "inverse_signal_power", "residual_covariance"):
        v = getattr(tf, k)
        out[k] = None if v is None else v.data[o].copy()
    return out


def near(got, want, tol, what):
    if want is None:
        check(got is None, f"{what}: {got!r}, expected None")
        return
    check(got is not None, f"{what}: gone")
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    for k in range(len(want)):
        size = np.max(np.abs(want[k])) or 1.0
        check(bool(np.all(np.abs(got[k] - want[k]) <= tol * size)), f"{what}, period {k}: {got[k].tolist()}, expected {want[k].tolist()}")


def convert(tf, fmt, how, d, k):
    if how == "object":
        obj = getattr(tf, {"xml": "to_emtfxml"}.get(fmt, f"to_{fmt}"))()
        new = TF()
        if fmt in Z or fmt == "avg":
            # made complete by a file
            fn = d / f"{k}.{fmt}"
            obj.write(fn)
            new.read(fn)
            return new
        getattr(new, {"xml": "from_emtfxml"}.get(fmt, f"from_{fmt}"))(obj)
        return new
    if how == "file_type" and fmt not in Z:
        tf.write(save_dir=d, fn_basename=f"{k}x", file_type=fmt)
        fn = d / f"{k}x.{fmt}"
        new = d / f"{k}.txt"
        fn.rename(new)
        out = TF()
        out.read(new, file_type=fmt)
        return out
    fn = d / f"{k}.{fmt.upper() if how == 'upper' else fmt}"
    tf.write(fn)
    new = TF(fn)
    new.read()
    return new


kinds = st.sampled_from(["both", "z", "t"])
where = st.fixed_dictionaries({"lat": decimals(-89, 89, 3), "lon": decimals(-179, 179, 3), "elev": decimals(-400, 8000, 1), "declination": decimals(-30, 30, 2)})
types = st.sampled_from(["BBMT", "AMT", "NSAMT", "LPMT", "MT", "CSAMT", "RMT", "ULPMT", "WB"])
chain = st.lists(step, min_size=1, max_size=4)


@C.given(kinds, periods, seeds, st.booleans(), names, names, where, types, chain, quick=100, thorough=4000)
def chains(ctx, kind, period, seed, cov, station, survey, p, data_type, steps):
    """through any chain of EDI, EMTF XML, Z and AVG files (and objects of these formats), impedance, tipper, periods, station and place are those at the start, and errors, covariances, elevation, survey and declination as long as the formats have them"""
    if kind == "t":
        steps = [s for s in steps if s[0] != "avg"]
    tf = start(kind, period, seed, cov, station, survey, p, data_type)
    want = values(tf)
    tol = 1e-5
    errors = True
    keep = {"elevation", "survey", "declination", "type"}
    place = 1e-5
    with tempfile.TemporaryDirectory() as tmp:
        d = pathlib.Path(tmp)
        for k, (fmt, how) in enumerate(steps):
            tf = convert(tf, fmt, how, d, k)
            w = " > ".join(f"{f} ({h})" for f, h in steps[: k + 1])
            got = values(tf)
            if fmt in Z:
                tol += 3e-4
                errors = errors and cov
                place = max(place, 1e-3)
            elif fmt == "avg":
                tol += 6e-4
                errors = False
            if fmt in ("edi", "avg"):
                cov = False
            if fmt not in ELEVATION:
                keep -= {"elevation", "survey"}
            if fmt not in ("edi", "xml", "zmm", "zrr", "zss"):
                keep -= {"declination"}
            check(np.allclose(got["period"], want["period"], rtol=tol, atol=np.where(want["period"] < 1, 0, 6e-6 * (k + 1))), f"{w}: periods {got['period']}, expected {want['period']}")
            quantities = ["impedance", "tipper"] + (["impedance_error", "tipper_error"] if errors else [])
            for q in quantities:
                near(got[q], want[q], 3 * tol if "error" in q else tol, f"{w}: {q}")
            if cov:
                for q in ("inverse_signal_power", "residual_covariance"):
                    near(got[q], want[q], 2 * tol, f"{w}: {q}")
            check_eq(tf.station, station, f"{w}: station")
            check(abs(tf.latitude - p["lat"]) < place and abs(tf.longitude - p["lon"]) < place, f"{w}: at {tf.latitude, tf.longitude}, expected {p}")
            if fmt != "xml":
                keep -= {"type"}
            if "type" in keep:
                check_eq(tf.station_metadata.data_type, data_type, f"{w}: type of data")
            if "elevation" in keep:
                check(abs(tf.elevation - p["elev"]) < 1e-3, f"{w}: elevation {tf.elevation}, expected {p['elev']}")
            if "survey" in keep:
                check_eq(tf.survey, survey, f"{w}: survey")
            if "declination" in keep:
                v = tf.station_metadata.location.declination.value
                check(abs(v - p["declination"]) < 1e-2, f"{w}: declination {v}, expected {p['declination']}")
    if len({f for f, _ in steps}) < 2:
        ctx.trivial()
    ctx.tag(kind, *[f for f, _ in steps])


@C.given(st.sampled_from([4, 5, 6, 7]), c23.freqs, seeds, c23.style, st.lists(step, min_size=1, max_size=3), quick=50, thorough=2000)
def of_spectra(ctx, nchan, freq, seed, s, steps):
    """impedance and tipper of an EDI file of spectra are the same after any chain of conversions"""
    chans = c23.CHANNELS[nchan]
    mats, avgts = [], []
    for k in range(len(freq)):
        data, avgt = c23.recorded(nchan, seed, k)
        mats.append(c23.spectra(data, chans))
        avgts.append(avgt)
    with tempfile.TemporaryDirectory() as tmp:
        d = pathlib.Path(tmp)
        c23.write(d / "s.edi", nchan, freq, mats, avgts, s, seed)
        tf = TF(d / "s.edi")
        tf.read()
        want = values(tf)
        tol = 1e-5
        for k, (fmt, how) in enumerate(steps):
            tf = convert(tf, fmt, how, d, k)
            w = " > ".join(["spectra", *[f"{f} ({h})" for f, h in steps[: k + 1]]])
            got = values(tf)
            tol += 3e-4 if fmt in Z else 6e-4 if fmt == "avg" else 0
            check(np.allclose(got["period"], want["period"], rtol=tol, atol=np.where(want["period"] < 1, 0, 6e-6 * (k + 1))), f"{w}: periods {got['period']}, expected {want['period']}")
            for q in ("impedance", "tipper"):
                near(got[q], want[q], tol, f"{w}: {q}")
            check_eq(tf.station, "sp01", f"{w}: station")
            check(abs(tf.latitude - 40.5) < 1e-3 and abs(tf.longitude + 110.25) < 1e-3, f"{w}: at {tf.latitude, tf.longitude}")
    ctx.tag(str(nchan), *[f for f, _ in steps])
