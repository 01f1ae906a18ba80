"""C29: AVG files of Zonge."""
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.zonge import ZongeMTAvg

from vp.core import Check, check, check_eq, raises
from vp.strat import pretty_floats

C = Check("C29", rule="non-trivial: components of different frequencies, a tipper, or z positive up")

ZC = ["zxx", "zxy", "zyx", "zyy"]
TC = ["tzx", "tzy"]
DOWN = {"zxx": (0, 0), "zxy": (0, 1), "zyx": (1, 0), "zyy": (1, 1), "tzx": (0, 0), "tzy": (0, 1)}
UP = {"zxx": (1, 1), "zxy": (1, 0), "zyx": (0, 1), "zyy": (0, 0), "tzx": (0, 1), "tzy": (0, 0)}
freqs = st.lists(st.one_of(pretty_floats(0.01, 900, 3).filter(lambda v: v > 0), st.sampled_from([7.3242e-4, 1.0, 1024.0, 8192.0])), min_size=1, max_size=6, unique=True)
number = lambda lo, hi: pretty_floats(lo, hi, 4)


@st.composite
def rows(draw, freqs):
    out = []
    for f in freqs:
        if draw(st.sampled_from([True] * 5 + [False])):
            out.append((f, dict(
                mag=draw(st.one_of(number(0.0001, 900), st.sampled_from([1.2821, 4.8911e-1, 1.5e4]))), phase=draw(number(-3141, 3141)), rho=draw(number(0.001, 5000)), err=draw(number(0, 200)),
                perr=draw(number(0, 999)), coh=draw(st.one_of(number(0, 1), st.just("*"))),
            )))
    return draw(st.permutations(out)) if draw(st.booleans()) else out


@st.composite
def files(draw):
    fs = draw(freqs)
    comps = draw(st.sampled_from([ZC, ZC, ["zxy", "zyx"], ["zxy"], ["zxy", "zyx", "zyy"]]))
    tip = draw(st.sampled_from([[], TC, TC, ["tzx"]]))
    remote = draw(st.booleans()) and not tip and comps == ZC
    full = draw(st.booleans())  # the newer layout, with channels
    data = {}
    for c in comps + tip:
        r = draw(rows(fs))
        # every block has a line
        data[c + ("r" if remote else "")] = r or [(fs[0], dict(mag=1.5, phase=250.0, rho=20.0, err=5.0, perr=25.0, coh=0.9))]
    if draw(st.booleans()):
        data = dict(draw(st.permutations(list(data.items()))))
    return dict(
        data=data,
        remote=remote,
        full=full,
        station=draw(st.sampled_from(["22", "2813", "mt01", "a1"])),
        lat=draw(pretty_floats(-80, 80, 7)),
        lon=draw(pretty_floats(-170, 170, 7)),
        type=draw(st.sampled_from(["NSAMT", "MT", "AMT"])),
        version=draw(st.sampled_from([("3.10m", "2021-01-27"), ("3.12a", "2022-08-02")])),
        smooth=draw(st.sampled_from([None, "Robust", "Minimal", "Normal", "None"])),
        flip=draw(st.booleans()),
        to_z=draw(st.booleans()),
        length=draw(st.sampled_from([50.0, 100.0, 12.5])),
        heading=draw(pretty_floats(0, 179, 1)),
        start=draw(st.one_of(st.none(), st.sampled_from([("05/16/2022", "23:46:18.000", "2022-05-16T23:46:18+00:00"), ("06/30/2017", "21:30:19.000", "2017-06-30T21:30:19+00:00")]))),
        gdp=draw(st.one_of(st.none(), st.sampled_from([("Zen", "4457:ZenACQv5.22"), ("GDP32", "3899:x")]))),
        channels={c: (draw(pretty_floats(0, 359, 1)), draw(pretty_floats(-10, 10, 1)), draw(st.sampled_from(["4", "22", "2374", "287"]))) for c in ("ex", "ey", "hx", "hy")},
        box=draw(st.sampled_from(["17", "24"])),
        job=draw(st.one_of(st.none(), st.sampled_from(['"Yellow"', '"a=b"']))),
        spaces=draw(st.booleans()),
        skip_header=draw(st.booleans()),
        positive=draw(st.sampled_from(["down", "down", "up"])),
    )


def text(s):
    g = lambda v: f"{v:g}" if not isinstance(v, float) else f"{v:.7g}"
    eq = "= " if s["spaces"] else "="
    head = [("Survey.Type", s["type"]), ("Survey.Array", "Tensor"), ("Tx.Type", "Natural "), ("MTEdit:Version", f"{s['version'][0]} applied {s['version'][1].replace('-', '/')}"), ("MTEdit:Auto.PhaseFlip", "Yes" if s["flip"] else "No")]
    if s["smooth"]:
        head.append(("MTEdit:PhaseSlope.Smooth", s["smooth"]))
    head += [("MTEdit:PhaseSlope.toZmag", "Yes" if s["to_z"] else "No"), ("MTEdit:DPlus.Use", "No")]
    if s["job"]:
        head.append(("Job.Name", s["job"]))
    if s["start"]:
        head += [("GDP.Date", s["start"][0]), ("GDP.Time", s["start"][1])]
    if s["gdp"]:
        head += [("GDP.Type", s["gdp"][0]), ("GDP.ProgVer", s["gdp"][1])]
    head += [("Rx.GdpStn", " " + s["station"])]
    if not s["full"]:
        head += [("Rx.Length", f"{g(s['length'])} M")]
    head += [("Rx.HPR", f"{g(s['heading'])},0,180"), ("GPS.Lat", g(s["lat"]) if 0 else f"{s['lat']:.7f}"), ("GPS.Lon", f"{s['lon']:.7f}"), ("Unit.Length", "m")]
    out = [" "] + [f"${k}{eq}{v}" for k, v in head]
    cols = "Skp,Freq,      E.mag,      B.mag,      Z.mag,      Z.phz,   ARes.mag,   ARes.%err,Z.perr,  Coher,   FC.NUse,FC.NTry"
    if s["skip_header"]:
        out.append(cols)
    for c, rs in s["data"].items():
        out.append(f"$Rx.Cmp = {c.capitalize()}")
        if s["full"]:
            a = {"x": "ex", "y": "ey", "z": "hz"}[c[1]]
            b = "h" + c[2]
            x, y = s["channels"].get(a, (0.0, 90.0, "7")), s["channels"][b]
            if c[0] == "z":
                out.append(f"$Rx.Length={g(s['length'])} m")
            out += [
                "$Rx.Center=311288:4281879:1548.1 m",
                "$Ch.ADCardSN=7A07B42B,5EE2EE6B",
                f"$Ch.GdpBox={s['box']},17",
                f"$Ch.Number={x[2]},{y[2]}",
                f"$Ch.Cmp={a.capitalize()},{b.capitalize()}{'r' if s['remote'] else ''}",
                f"$Ch.Azimuth={g(x[0])},{g(y[0])}",
                f"$Ch.Incl={g(x[1])},{g(y[1])}",
            ]
        if not s["skip_header"]:
            out.append(cols)
        for f, r in rs:
            coh = r["coh"] if r["coh"] == "*" else g(r["coh"])
            out.append(f"2,  {f:.6g},    1.0000E-02, 2.0000E-03, {r['mag']:.6E}, {r['phase']:.4f}, {r['rho']:.6E}, {r['err']:.4f},    {r['perr']:.4f},  {coh},   8,      16")
    return "\n".join(out) + "\n"


def expected(s):
    f = np.array(sorted({f for rs in s["data"].values() for f, _ in rs}))
    n = len(f)
    z, ze = np.zeros((n, 2, 2), complex), np.ones((n, 2, 2))
    t, te = np.zeros((n, 1, 2), complex), np.ones((n, 1, 2))
    index = DOWN if s["positive"] == "down" else UP
    for c, rs in s["data"].items():
        i, j = index[c[:3]]
        for fr, r in rs:
            k = int(np.flatnonzero(f == fr)[0])
            v = r["mag"] * np.exp(1j * r["phase"] / 1000)
            e = r["err"] / 100 * r["rho"]
            if c[0] == "z":
                z[k, i, j], ze[k, i, j] = v, np.sqrt(e * 5 * fr)
            else:
                t[k, i, j], te[k, i, j] = (-v if s["positive"] == "up" else v), np.sqrt(e)
    tip = any(c[0] == "t" for c in s["data"])
    return f, z, ze, (t if tip else None), (te if tip else None)


def near(a, b, what, rtol=1e-5, atol=1e-9):
    if a is None or b is None:
        check(a is None and b is None, f"{what}: {a}, expected {b}")
        return
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol)), f"{what}: {a.tolist()}, expected {b.tolist()}")


def angle(a, b, what):
    check(abs(a - b) < 1e-4, f"{what}: {a}, expected {b}")


def channels(run, s):
    there = "zxy" in s["data"] or "zxxr" in s["data"]
    want = (["ex", "ey", "hx", "hy"] if there else []) + (["hz"] if "tzx" in s["data"] else [])
    check_eq(list(run.channels_recorded_all), want, "channels")
    if not there:
        return
    own = lambda c: s["full"] and c in s["data"]
    for c, comp, side in (("ex", "zxy", 0), ("ey", "zyx", 0), ("hx", "zyx", 1), ("hy", "zxy", 1)):
        ch = run.get_channel(c)
        if own(comp):
            az, tilt, num = s["channels"][c]
            angle(ch.measurement_azimuth, az % 360, f"azimuth of {c}")
            angle(ch.translated_azimuth, az % 360, f"translated azimuth of {c}")
            angle(ch.measurement_tilt, tilt, f"tilt of {c}")
            if side:
                check_eq(ch.sensor.id, num, f"sensor of {c}")
            else:
                check_eq(ch.channel_id, num, f"number of {c}")
                check_eq(ch.dipole_length, s["length"], f"length of {c}")
            if s["start"]:
                check_eq(str(ch.time_period.start), s["start"][2], f"start of {c}")
        else:
            angle(ch.measurement_azimuth, s["heading"] + (90 if c[1] == "y" else 0), f"azimuth of {c}")
            if not side and not s["full"]:
                check_eq(ch.dipole_length, s["length"], f"length of {c}")


def place(station, s, ident=None):
    check_eq(station.id, s["station"] if ident is None else ident, "station")
    check(abs(station.location.latitude - s["lat"]) < 1e-6 and abs(station.location.longitude - s["lon"]) < 1e-6, f"place {station.location.latitude}, {station.location.longitude}, expected {s['lat']}, {s['lon']}")


@C.given(files(), quick=90, thorough=2500)
def read(ctx, s):
    """an AVG file gives the impedance, tipper and errors of every frequency and component in it, with z positive down or up, and station, place and channels of its header"""
    fn = Path("t.avg")
    fn.write_text(text(s))
    a = ZongeMTAvg(z_positive=s["positive"])
    a.read(fn)
    f, z, ze, t, te = expected(s)
    near(a.frequency, f, "frequencies")
    near(a.z, z, "impedance")
    near(a.z_err, ze, "errors")
    near(a.t, t, "tipper")
    near(a.t_err, te, "errors of the tipper")
    sm = a.station_metadata
    place(sm, s)
    check_eq(sm.data_type, s["type"], "type of data")
    check_eq(sm.transfer_function.software.version, s["version"][0], "version")
    check_eq(str(sm.transfer_function.software.last_updated)[:10], s["version"][1], "date of the software")
    p = sm.transfer_function.processing_parameters
    for k, v in (("auto.phase_flip", s["flip"]), ("phase_slope.to_z_mag", s["to_z"])):
        check(f"mtedit.{k}={'yes' if v else 'no'}" in p, f"{k} is {v}, but {p}")
    check(f"mtedit.phase_slope.smooth={(s['smooth'] or 'None') if (s['smooth'] or 'None') == 'None' else s['smooth'].lower()}" in p, f"smoothing {s['smooth']}: {p}")
    check_eq(sm.transfer_function.runs_processed, [r.id for r in sm.runs], "runs")
    channels(sm.runs[0], s)
    if s["start"]:
        check_eq(str(sm.time_period.start), s["start"][2], "start")
        check_eq(str(sm.runs[0].time_period.start), s["start"][2], "start of the run")
    if s["gdp"]:
        check_eq(sm.runs[0].data_logger.type, s["gdp"][0].upper(), "type of the instrument")
        check_eq(sm.runs[0].data_logger.firmware.version, s["gdp"][1].split(":")[0], "firmware")
    if s["full"] and "zxx" in s["data"]:
        check_eq(sm.runs[0].data_logger.id, s["box"], "instrument")
    tf = TF(fn=fn)
    tf.read(z_positive=s["positive"])
    o = np.argsort(tf.period)
    near(tf.period[o], (1 / f)[::-1], "periods of the TF")
    back = lambda x: np.asarray(x)[o][::-1]
    near(back(tf.impedance.data) if tf.has_impedance() else np.zeros_like(z), z, "impedance of the TF")
    near(back(tf.impedance_error.data), ze, "errors of the TF")
    if t is not None:
        near(back(tf.tipper.data), t, "tipper of the TF")
        near(back(tf.tipper_error.data), te, "errors of the tipper of the TF")
    else:
        check(not tf.has_tipper(), "the TF has a tipper")
    place(tf.station_metadata, s)
    if len({tuple(sorted(f for f, _ in rs)) for rs in s["data"].values()}) == 1 and t is None and s["positive"] == "down":
        ctx.trivial()
    # written again the same is read
    out = Path("u.avg")
    a.write(out)
    b = ZongeMTAvg(z_positive=s["positive"])
    b.read(out)
    near(b.frequency, f, "frequencies written again", 1e-3)
    tol = lambda x: 3e-4 * np.abs(x).max() + 1e-12
    near(b.z, z, "impedance written again", 3e-4, 0)
    near(b.t, t, "tipper written again", 3e-4, 0)
    place(b.station_metadata, s)
    check_eq(b.station_metadata.data_type, s["type"], "type of data written again")


value = st.builds(lambda m, p: complex(m * np.cos(p), m * np.sin(p)), st.one_of(number(0.01, 900), st.sampled_from([1.5e-4, 2.5e4])), st.floats(-3.14, 3.14))


@st.composite
def arrays(draw):
    n = draw(st.integers(1, 5))
    f = np.array(draw(st.lists(st.integers(1, 9999), min_size=n, max_size=n, unique=True))) * draw(st.sampled_from([1e-3, 1.0]))
    z = np.array(draw(st.lists(value, min_size=4 * n, max_size=4 * n))).reshape(n, 2, 2)
    t = np.array(draw(st.lists(value, min_size=2 * n, max_size=2 * n))).reshape(n, 1, 2) if draw(st.booleans()) else None
    return f, z, t


@C.given(arrays(), st.sampled_from(["down", "down", "up"]), st.sampled_from(["mt01", "22", "b7"]), pretty_floats(-80, 80, 6), pretty_floats(-170, 170, 6), st.sampled_from([None, 50.0, 120.0]), st.sampled_from(["avg", "tf", "tf.write"]), quick=70, thorough=2000)
def write(ctx, a, positive, station, lat, lon, length, how):
    """impedance and tipper written to an AVG file, from arrays or a TF, read back to the digits written, in blocks of one component each, with station and place"""
    from mt_metadata.timeseries import Electric, Run
    from mt_metadata.transfer_functions.tf import Station

    f, z, t = a
    fn = Path("w.avg")
    s = Station(id=station)
    s.location.latitude, s.location.longitude = lat, lon
    if length:
        r = Run(id=f"{station}a")
        r.add_channel(Electric(component="ex", dipole_length=length))
        s.add_run(r)
    if how == "avg":
        o = ZongeMTAvg(z_positive=positive)
        o.frequency, o.z, o.t = f, z, t
        o.station_metadata = s
        o.write(fn)
    else:
        positive = "down"
        tf = TF()
        tf.station_metadata = s
        tf.period = 1 / f
        tf.impedance = z
        if t is not None:
            tf.tipper = t
        if how == "tf":
            tf.to_avg().write(fn)
        else:
            tf.write(fn)
    lines = [x.split("=")[1].strip().lower() for x in fn.read_text().splitlines() if x.startswith("$Rx.Cmp")]
    check_eq(lines, ZC + (TC if t is not None else []), "blocks")
    b = ZongeMTAvg(z_positive=positive)
    b.read(fn)
    o = np.argsort(f)
    near(b.frequency, f[o], "frequencies", 1e-3)
    near(b.z, z[o], "impedance", 3e-4, 0)
    near(b.t, None if t is None else t[o], "tipper", 3e-4, 0)
    sm = b.station_metadata
    place(sm, dict(station=station, lat=lat, lon=lon))
    if length:
        check_eq(sm.runs[0].get_channel("ex").dipole_length, length, "length of the dipole")
    n = TF(fn=fn)
    n.read(z_positive=positive)
    o = np.argsort(n.period)[::-1]
    near(n.impedance.data[o], z[np.argsort(f)], "impedance of the TF", 3e-4, 0)
    check_eq(n.station, station, "station of the TF")
    if t is None and positive == "down":
        ctx.trivial()


@C.given(st.sampled_from(["north", "Down", "", "x"]), quick=4, thorough=8)
def refuse(ctx, positive):
    """files that are not there and other directions are refused"""
    raises(FileNotFoundError, lambda: ZongeMTAvg(fn=Path("none.avg")).read(), "a file that is not there")
    raises(FileNotFoundError, lambda: ZongeMTAvg().read(), "no file")
    fn = Path("r.avg")
    fn.write_text("$Rx.Cmp = Zxy\n2,  1.5,    1.0000E-02, 2.0000E-03, 1.5, 20.0, 1.0, 5.0,  10.0,  0.5,   8,      16\n")
    raises(ValueError, lambda: ZongeMTAvg(fn=fn, z_positive=positive).read(), f"z positive {positive!r}")


@C.known_finding("errors")
def errors():
    tf = TF(period=np.array([1.0]))
    tf.impedance = np.array([[[10, 10j], [10j, 10]]])
    tf.impedance_error = np.full((1, 2, 2), 0.5)
    fn = Path("e.avg")
    tf.write(fn)
    n = TF(fn)
    n.read()
    got = float(n.impedance_error.data[0, 0, 0])
    return None if abs(got / 0.5 - 1) < 0.05 else f"an error of 0.5 of an impedance of 10, written to an AVG file as the per cent of the apparent resistivity, reads back as {got:.3g} (the square root of the error of the resistivity)"
