"""C25: Z files (zmm, zrr, zss) keep the transfer function; channels at any azimuth are rotated to the axes."""
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Electric, Magnetic, Run
from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.zfiles import ZMM

from vp import strat
from vp.core import Check, check, check_eq
from vp.tfgen import seeds

C = Check("C25", rule="non-trivial: both impedance and tipper, or channels along other directions than north and east, or at least two periods")

OUT = {"both": ["hz", "ex", "ey"], "z": ["ex", "ey"], "t": ["hz"]}
decimals = lambda lo, hi, d: st.integers(int(lo * 10**d), int(hi * 10**d)).map(lambda i: i / 10**d)
names = strat.names(6).map(lambda s: "m" + s).filter(lambda s: not any(k in s for k in ("period", "number", "coordinate", "orientations", "station")))
def rounded(v):
    return f"{v[0] * 10.0 ** v[1]:.3e}"


# also short ones, close to each other
any_periods = st.lists(st.tuples(st.integers(100, 99999), st.integers(-8, 4)), min_size=1, max_size=4, unique_by=rounded).map(lambda x: [float(f"{m}e{e}") for m, e in x])
periods = st.lists(st.integers(100, 10**9), min_size=1, max_size=4, unique=True).map(lambda x: [v * 1e-5 for v in x])
processing = st.sampled_from(["Robust Single station", "Robust Remote Reference", "robust multiple station", "aurora"])
place = st.fixed_dictionaries({"lat": decimals(-89, 89, 3), "lon": decimals(-179, 179, 3), "declination": decimals(-90, 90, 2)})


def arrays(n, kind, seed):
    """transfer function, inverse signal power, residual covariance of random recordings"""
    r = np.random.default_rng(seed)
    c = lambda *s: r.normal(size=s) + 1j * r.normal(size=s)
    k = len(OUT[kind])
    t = c(n, k, 2) * 10.0 ** r.integers(-3, 4)
    a = c(n, 2, 5) * 10.0 ** r.integers(-3, 3)
    b = c(n, k, 6) * 10.0 ** r.integers(-3, 3)
    return t, a @ a.conj().swapaxes(1, 2), b @ b.conj().swapaxes(1, 2)


def near(got, want, tol, what):
    got = np.asarray(got)
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    for k in range(len(want)):
        size = np.max(np.abs(want[k])) or 1.0
        check(bool(np.all(np.abs(got[k] - want[k]) <= tol * size)), f"{what}, period {k}: {got[k].tolist()}, expected {want[k].tolist()}")


def compare(tf, kind, period, t, isp, cov, what, tol=3e-4):
    out = OUT[kind]
    err = np.sqrt(np.abs(np.einsum("kii->ki", cov)[:, :, None] * np.einsum("kjj->kj", isp)[:, None, :]))
    check(np.allclose(sorted(tf.period), sorted(period), rtol=0, atol=np.where(np.array(sorted(period)) < 1, 1e-8 * np.array(sorted(period)), 6e-6)), f"{what}: periods {tf.period}, expected {period}")
    pos = [int(np.argmin(abs(np.asarray(tf.period) - p))) for p in period]
    check_eq((bool(tf.has_impedance()), bool(tf.has_tipper())), ("ex" in out, "hz" in out), f"{what}: has impedance, tipper")
    for rows, name in ((["ex", "ey"], "impedance"), (["hz"], "tipper")):
        i = [out.index(c) for c in rows if c in out]
        got, gerr = getattr(tf, name), getattr(tf, f"{name}_error")
        if not i:
            check(got is None, f"{what}: {name} {got!r}, expected None")
            continue
        near(got.data[pos], t[:, i], tol, f"{what}: {name}")
        near(gerr.data[pos], err[:, i], 2 * tol, f"{what}: {name} error")
    near(tf.inverse_signal_power.data[pos], isp, tol, f"{what}: inverse signal power")
    rc = tf.residual_covariance.sel(output=out, input=out).data[pos]
    near(rc, cov, tol, f"{what}: residual covariance")


# ------------------------------------------------------------ what is written
@C.given(st.sampled_from(list(OUT)), st.one_of(periods, any_periods), seeds, names, place, processing, st.sampled_from(["zmm", "zrr", "zss", "ZMM"]), st.sampled_from(["default", "none", "azimuths"]), decimals(0, 359, 2), quick=60, thorough=4000)
def written(ctx, kind, period, seed, station, p, proc, suffix, channels, azimuth):
    """a TF with covariances written as a Z file reads back with the same values, periods and station; written and read again it stays the same"""
    t, isp, cov = arrays(len(period), kind, seed)
    out = OUT[kind]
    tf = TF(period=np.array(period))
    full = np.zeros((len(period), 3, 2), complex)
    pos = [["ex", "ey", "hz"].index(c) for c in out]
    full[:, pos] = t
    tf.transfer_function = full
    full = np.zeros((len(period), 3, 3), complex)
    for i, a in enumerate(pos):
        for j, b in enumerate(pos):
            full[:, a, b] = cov[:, i, j]
    tf.residual_covariance = full
    tf.inverse_signal_power = isp
    tf.station, tf.survey = station, "s1"
    tf.latitude, tf.longitude = p["lat"], p["lon"]
    m = tf.station_metadata
    m.location.declination.value = p["declination"]
    m.transfer_function.processing_type = proc
    want = (t, isp, cov)
    if channels == "none":
        m.runs = []
    elif channels == "azimuths":
        r = Run(id="a")
        for c in ["hx", "hy", "hz", "ex", "ey"]:
            if c[0] == "h" or c in out:
                ch = Electric(component=c) if c[0] == "e" else Magnetic(component=c)
                ch.measurement_azimuth = 0 if c == "hz" else azimuth + 90 * (c[1] == "y")
                r.add_channel(ch)
        m.runs = [r]
        want = rotate(t, isp, cov, out, {"hx": azimuth, "hy": azimuth + 90, "ex": azimuth, "ey": azimuth + 90}, 0)
    with tempfile.TemporaryDirectory() as d:
        fn = pathlib.Path(d) / f"a.{suffix}"
        tf.write(fn)
        for k in ("written", "written twice"):
            tf = TF()
            tf.read(fn)
            w = f"{kind}, {channels} channels, {k}"
            compare(tf, kind, period, *want, w)
            check_eq(tf.station, station, f"{w}: station")
            loc = tf.station_metadata.location
            check_eq((tf.latitude, tf.longitude, loc.declination.value), (p["lat"], p["lon"], p["declination"]), f"{w}: latitude, longitude, declination")
            check_eq(tf.station_metadata.transfer_function.processing_type, proc, f"{w}: processing type")
            check_eq(sorted(c for c in tf.station_metadata.runs[0].channels_recorded_all), sorted(out + ["hx", "hy"]), f"{w}: channels")
            fn = pathlib.Path(d) / f"b.{suffix}"
            tf.write(fn)
    if kind != "both" and len(period) < 2 and channels != "azimuths":
        ctx.trivial()
    ctx.tag(kind, channels, suffix)


# ------------------------------------------------------- files of another writer
def rotate(t, isp, cov, out, az, angle):
    """from fields along the azimuths to fields along the axes x (at azimuth angle) and y"""
    rows = lambda *a: np.array([[np.cos(np.deg2rad(x - angle)), np.sin(np.deg2rad(x - angle))] for x in a])
    u = rows(az["hx"], az["hy"])  # measured = u along axes
    v = np.eye(len(out))
    if "ex" in out:
        i = [out.index("ex"), out.index("ey")]
        v[np.ix_(i, i)] = rows(az["ex"], az["ey"])
    w = np.linalg.inv(v)
    return w @ t @ u, u.T @ isp @ u, w @ cov @ w.T


azimuths = st.one_of(
    st.sampled_from([0.0, 0.0, 90.0, -90.0, 180.0]),
    decimals(-180, 360, 2),
)
layout = st.fixed_dictionaries(
    {
        "hx": azimuths,
        "ex": azimuths,
        "hy": st.one_of(st.just(90.0), decimals(-60, 60, 2).map(lambda a: 90 + a), decimals(-60, 60, 2).map(lambda a: 270 + a)),
        "ey": st.one_of(st.just(90.0), decimals(-60, 60, 2).map(lambda a: 90 + a), decimals(-60, 60, 2).map(lambda a: 270 + a)),
        "tilt": decimals(-90, 90, 2),
        "hz_last": st.booleans(),
        "station": st.sampled_from(["{}", "station: {}", "station    :{}", "{}                 "]),
        "lon360": st.booleans(),
        "lower": st.booleans(),
        "numbers": st.sampled_from(["12.4E", "14.6E", "13.5e"]),
        "covariance": st.sampled_from([" Residual Covariance", " Residual Covaraince"]),
    }
)


def order_of(kind, hz_last):
    return ["ex", "ey", "hz"] if hz_last and kind == "both" else OUT[kind]


def z_file(fn, kind, out, period, t, isp, cov, station, p, proc, s, az, dec):
    chans = ["hx", "hy"] + out
    num = lambda v: "".join(f"{x.real:>{s['numbers']}} {x.imag:>{s['numbers']}} " for x in v)
    x = [" TRANSFER FUNCTIONS IN MEASUREMENT COORDINATES", " ********* WITH FULL ERROR COVARIANCE ********", f"{proc:<80}", s["station"].format(station)]
    lon = p["lon"] + 360 if s["lon360"] and p["lon"] < 0 else p["lon"]
    x.append(f"coordinate {p['lat']:9.3f} {lon:9.3f} declination {p['declination']:8.2f}")
    x.append(f"number of channels {len(chans):3d}   number of frequencies {len(period):3d}")
    x.append(" orientations and tilts of each channel")
    for i, c in enumerate(chans):
        x.append(f"{i + 1:5d} {az[c]:8.2f} {s['tilt'] if c == 'hz' else 0:8.2f} {station[:6]} {c if s['lower'] else c.capitalize():>3}   ")
    x.append("")
    for k, v in enumerate(period):
        l, lo, hi, n, sr = dec[k]
        x.append(f"period : {v:{"12.5f" if v >= 1 else "12.9g"}}    decimation level {l:3d}    freq. band from {lo:4d} to {hi:4d}")
        x.append(f"number of data point {n:6d} sampling freq. {sr:9.5f} Hz")
        x.append(" Transfer Functions")
        x += [num(t[k, i]) for i in range(len(out))]
        x.append(" Inverse Coherent Signal Power Matrix")
        x += [num(isp[k, i, : i + 1]) for i in range(2)]
        x.append(s["covariance"])
        x += [num(cov[k, i, : i + 1]) for i in range(len(out))]
    fn.write_text("\n".join(x) + "\n"[: int(s["lower"])])


@C.given(st.sampled_from(list(OUT)), st.one_of(periods, any_periods), seeds, names, place, processing, layout, st.sampled_from(["axes", "axes", "declination", "measured"]), st.sampled_from(["zmm", "zrr", "zss"]), quick=100, thorough=6000)
def files(ctx, kind, period, seed, station, p, proc, s, how, suffix):
    """Z files of another writer, with channels at any azimuths (not along one line): transfer function, errors and covariances are those of fields along the axes (north and east of the file's reference, of true north with the declination, or as measured), the header is read, and writing what was read keeps it"""
    r = np.random.default_rng(seed)
    out = order_of(kind, s["hz_last"])
    OUTK = list(out)
    t, isp, cov = arrays(len(period), kind, seed)
    az = {"hx": s["hx"], "hy": s["hx"] + s["hy"], "hz": 0.0, "ex": s["ex"], "ey": s["ex"] + s["ey"]}
    az = {c: float(round((v + 180) % 360 - 180, 2)) for c, v in az.items()}
    dec = [(int(r.integers(1, 9)), int(r.integers(1, 90)), int(r.integers(90, 200)), int(r.integers(1, 999999)), float(r.choice([0.01, 0.125, 1.0, 256.0]))) for _ in period]
    want = {"axes": lambda: rotate(t, isp, cov, out, az, 0), "declination": lambda: rotate(t, isp, cov, out, az, -p["declination"]), "measured": lambda: (t, isp, cov)}[how]()
    # reorder the outputs the way OUT lists them
    i = [OUTK.index(c) for c in OUT[kind]]
    want = (want[0][:, i], want[1], want[2][:, i][:, :, i])
    opts = {"axes": {}, "declination": {"use_declination": True}, "measured": {"rotate_to_measurement_coordinates": False}}[how]
    with tempfile.TemporaryDirectory() as d:
        fn = pathlib.Path(d) / f"a.{suffix}"
        z_file(fn, kind, out, period, t, isp, cov, station, p, proc, s, az, dec)
        tf = TF()
        tf.read(fn, **opts)
        zmm = ZMM()
        zmm.read(fn, **opts)
        # the arrays of what is in the file along any axes
        asked = 0.0 if how == "axes" else float(p["declination"])
        calculated = {"z": zmm.calculate_impedance(asked), "t": zmm.calculate_tippers(asked)}
        again = None
        if how == "axes":
            fn2 = pathlib.Path(d) / f"b.{suffix}"
            tf.write(fn2)
            again = TF()
            again.read(fn2)
    w = f"{kind}, {how}, azimuths {az}"
    cond = 1.0 / min(abs(np.sin(np.deg2rad(az["hy"] - az["hx"]))), abs(np.sin(np.deg2rad(az["ey"] - az["ex"]))))
    tol = 3e-4 * cond**2
    compare(tf, kind, period, *want, f"TF, {w}", tol)
    at, aisp, acov = rotate(t, isp, cov, out, az, asked)
    aerr = np.sqrt(np.abs(np.einsum("kii->ki", acov)[:, :, None] * np.einsum("kjj->kj", aisp)[:, None, :]))
    for key, rows in (("z", ["ex", "ey"]), ("t", ["hz"])):
        i = [out.index(c) for c in rows if c in out]
        value, error = calculated[key]
        if not i:
            check(value is None and error is None, f"{key} at {asked} of a file without it: {value!r}")
            continue
        near(value, at[:, i], tol, f"{key} calculated along {asked}, {w}")
        near(error, aerr[:, i], 2 * tol, f"error of {key} calculated along {asked}, {w}")
    if again is not None:
        compare(again, kind, period, *want, f"TF written, {w}", 2 * tol)
        check_eq(again.decimation_dict, tf.decimation_dict, f"decimation of the file written, {w}")
    for name, rows, cols, val in (("inverse_signal_power", ["hx", "hy"], ["hx", "hy"], want[1]), ("transfer_function", OUT[kind], ["hx", "hy"], want[0]), ("residual_covariance", OUT[kind], OUT[kind], want[2])):
        near(zmm.dataset[name].sel(output=rows, input=cols).data, val, tol, f"ZMM, {w}: {name}")
    check(np.allclose(zmm.periods, period, rtol=0, atol=np.where(np.array(period) < 1, 1e-8 * np.array(period), 6e-6)), f"ZMM: periods {zmm.periods}, expected {period}")
    for m in (tf.station_metadata, zmm.station_metadata):
        check_eq(m.id, station.lower() if ":" not in s["station"] else m.id, f"station, {s['station']}")
        check_eq(m.id.lower(), station.lower(), f"station, {s['station']}")
        loc = m.location
        check(np.allclose((loc.latitude, loc.longitude), (p["lat"], p["lon"]), rtol=0, atol=1e-9), f"location {loc.latitude, loc.longitude}, expected {p['lat'], p['lon']}")
        check_eq(loc.declination.value, p["declination"], "declination")
        check_eq(m.transfer_function.processing_type, proc, "processing type")
        check_eq(sorted(m.runs[0].channels_recorded_all), sorted(out + ["hx", "hy"]), "channels")
        check_eq(m.runs[0].sample_rate, float(np.median([v[4] for v in dec])), "sample rate")
        for j, c in enumerate(["hx", "hy"] + out):
            ch = m.runs[0].channels[c]
            check_eq((ch.measurement_azimuth, ch.measurement_tilt, ch.channel_number), (az[c], s["tilt"] if c == "hz" else 0.0, j + 1), f"azimuth, tilt and number of {c}")
    got = sorted((v["level"], tuple(v["bands"]), v["npts"], v["sample_rate"]) for v in tf.decimation_dict.values())
    check_eq(got, sorted((v[0], (v[1], v[2]), v[3], v[4]) for v in dec), "decimation")
    if kind != "both" and len(period) < 2 and not any(az.values()):
        ctx.trivial()
    ctx.tag(kind, how, "orthogonal" if cond < 1.01 else "skewed")
