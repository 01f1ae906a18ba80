"""C26: EMTF XML files keep the transfer function."""
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.emtfxml import EMTFXML

from vp import strat
from vp.core import Check, check, check_eq
from vp.tfgen import close, seeds

C = Check("C26", rule="non-trivial: covariances, or only one of impedance and tipper, or one period, or periods from long to short")

OUT = {"both": ["ex", "ey", "hz"], "z": ["ex", "ey"], "t": ["hz"]}
decimals = lambda lo, hi, d: st.integers(int(lo * 10**d), int(hi * 10**d)).map(lambda i: i / 10**d)
names = st.text("abcdefXYZ0123456789", min_size=0, max_size=6).map(lambda s: "m" + s)
periods = st.lists(st.floats(1e-6, 1e6, allow_nan=False), min_size=1, max_size=6, unique_by=lambda v: f"{v:.6e}").flatmap(lambda x: st.sampled_from([sorted(x), sorted(x, reverse=True), x]))
place = st.fixed_dictionaries({"lat": decimals(-89, 89, 6), "lon": decimals(-179, 179, 6), "elev": decimals(-400, 8000, 3)})


def random(n, seed, kind, errors, cov):
    r = np.random.default_rng(seed)
    out = OUT[kind]
    k = len(out)

    def c(*s):
        return 10 ** r.uniform(-3, 1, s) * np.exp(1j * r.uniform(-np.pi, np.pi, s)) * 10.0 ** r.integers(-4, 5)

    q = {"tf": np.zeros((n, 3, 2), complex), "err": np.zeros((n, 3, 2)), "isp": None, "cov": None}
    pos = [["ex", "ey", "hz"].index(x) for x in out]
    v = c(n, k, 2)
    # some without a real or imaginary part
    part = r.integers(0, 8, v.shape)
    v[part == 0] = v[part == 0].real
    v[part == 1] = 1j * v[part == 1].imag
    q["tf"][:, pos] = v
    if errors:
        q["err"][:, pos] = np.abs(c(n, k, 2))
    if cov:
        a = c(n, 2, 5)
        q["isp"] = a @ a.conj().swapaxes(1, 2)
        b = c(n, 3, 6)
        b = b @ b.conj().swapaxes(1, 2)
        # what the files hold: impedance and tipper by themselves
        m = np.zeros((3, 3))
        if "ex" in out:
            m[:2, :2] = 1
        if "hz" in out:
            m[2, 2] = 1
        q["cov"] = b * m
        for i in pos:
            q["err"][:, i] = np.sqrt(np.abs(q["cov"][:, i, i, None] * np.einsum("kjj->kj", q["isp"])))
    return q


def compare(tf, kind, period, q, what, rtol=1e-6):
    check(np.shape(tf.period) == np.shape(period) and bool(np.allclose(tf.period, period, rtol=1e-11, atol=0)), f"{what}: periods {tf.period}, expected {period}")
    check_eq((bool(tf.has_impedance()), bool(tf.has_tipper())), (kind != "t", kind != "z"), f"{what}: has impedance, tipper")
    close(None if tf.impedance is None else tf.impedance.data, q["tf"][:, :2] if kind != "t" else None, rtol, f"{what}: impedance")
    close(None if tf.impedance_error is None else tf.impedance_error.data, q["err"][:, :2] if kind != "t" else None, rtol, f"{what}: impedance error")
    close(None if tf.tipper is None else tf.tipper.data, q["tf"][:, 2:] if kind != "z" else None, rtol, f"{what}: tipper")
    close(None if tf.tipper_error is None else tf.tipper_error.data, q["err"][:, 2:] if kind != "z" else None, rtol, f"{what}: tipper error")
    for name, key in (("inverse_signal_power", "isp"), ("residual_covariance", "cov")):
        got = getattr(tf, name)
        close(None if got is None else got.data, q[key], rtol, f"{what}: {name}")


def compare_xml(e, kind, q, what):
    """the data of an EMTFXML object; what is absent is None, empty or zero"""
    d = e.data
    want = {"z": q["tf"][:, :2], "z_var": q["err"][:, :2] ** 2, "t": q["tf"][:, 2:], "t_var": q["err"][:, 2:] ** 2}
    if q["isp"] is not None:
        want["z_residcov"] = q["cov"][:, :2, :2]
        want["t_residcov"] = q["cov"][:, 2:, 2:]
        want["z_invsigcov"] = q["isp"] if kind != "t" else 0 * q["isp"]
        want["t_invsigcov"] = q["isp"] if kind != "z" else 0 * q["isp"]
    for key in ("z", "z_var", "z_invsigcov", "z_residcov", "t", "t_var", "t_invsigcov", "t_residcov"):
        got, w = getattr(d, key), want.get(key)
        if w is None or not np.any(w):
            check(got is None or not np.any(got), f"{what}: {key} {got!r}, expected nothing"[:600])
        else:
            close(got, w, 2e-6, f"{what}: {key}")


@C.given(st.sampled_from(list(OUT)), periods, seeds, st.booleans(), st.booleans(), names, names, place, quick=60, thorough=4000)
def written(ctx, kind, period, seed, errors, cov, station, survey, p):
    """a TF written as EMTF XML reads back with the same periods (in the same order), transfer function, errors and covariances; so does a file written from what was read, as TF or as EMTFXML"""
    q = random(len(period), seed, kind, errors, cov)
    tf = TF(period=np.array(period))
    tf.transfer_function = q["tf"]
    if errors or cov:
        tf.transfer_function_error = q["err"]
    if cov:
        tf.residual_covariance = q["cov"]
        tf.inverse_signal_power = q["isp"]
    tf.station, tf.survey = station, survey
    tf.latitude, tf.longitude, tf.elevation = p["lat"], p["lon"], p["elev"]
    with tempfile.TemporaryDirectory() as d:
        fn = pathlib.Path(d) / "a.xml"
        tf.write(fn)
        for k, w in enumerate(("written", "written again", "written by EMTFXML")):
            w = f"{kind}, {w}"
            tf = TF()
            tf.read(fn)
            compare(tf, kind, period, q, w)
            check_eq((tf.station, tf.survey), (station, survey), f"{w}: station, survey")
            loc = (tf.latitude, tf.longitude, tf.elevation)
            check(np.allclose(loc, (p["lat"], p["lon"], p["elev"]), rtol=0, atol=1e-9), f"{w}: location {loc}, expected {p}")
            e = EMTFXML(fn=fn)
            compare_xml(e, kind, q, w)
            check(abs(e.period_range.min / min(period) - 1) < 1e-5 and abs(e.period_range.max / max(period) - 1) < 1e-5, f"{w}: period range {e.period_range.min, e.period_range.max}")
            check_eq((e.tags or "").replace(" ", ""), ",".join((["impedance"] if kind != "t" else []) + (["tipper"] if kind != "z" else [])), f"{w}: tags")
            est = sorted(x.name for x in e.statistical_estimates.estimates_list)
            check_eq(est, sorted(["VAR"] * (errors or cov) + ["INVSIGCOV", "RESIDCOV"] * cov), f"{w}: statistical estimates")
            check_eq(sorted(x.name for x in e.data_types.data_types_list), sorted({"both": ["T", "Z"], "z": ["Z"], "t": ["T"]}[kind]), f"{w}: data types")
            fn = pathlib.Path(d) / f"{k}.xml"
            tf.write(fn) if k == 0 else e.write(fn)
    if kind == "both" and not cov and len(period) > 1 and list(period) == sorted(period):
        ctx.trivial()
    ctx.tag(kind, "covariances" if cov else "errors" if errors else "bare")


# ------------------------------------------------------- files of another writer
style = st.fixed_dictionaries(
    {
        "case": st.sampled_from([str.capitalize, str.upper, str.lower]),
        "count": st.booleans(),
        "type": st.booleans(),
        "name": st.booleans(),
        "digits": st.integers(7, 12),
        "nl": st.sampled_from(["\n", "\r\n", ""]),
        "derived": st.booleans(),
        "drop": st.integers(0, 20),
        "empty": st.booleans(),
        "comment": st.booleans(),
        "ampersand": st.booleans(),
    }
)
INDEX = {"z": ("exey", "hxhy"), "t": ("hz", "hxhy"), "invsigcov": ("hxhy", "hxhy")}


def xml_file(fn, kind, period, q, station, s, seed):
    r = np.random.default_rng(seed)
    f = f".{s['digits']}e"
    x = ['<?xml version="1.0" encoding="UTF-8"?>', "<EM_TF>", f"<Description>{'rock &amp; roll' if s['ampersand'] else 'test'}</Description>", f"<ProductId>P.{station}.2001</ProductId>", "<SubType>MT_TF</SubType>", "<Tags>impedance,tipper</Tags>"]
    if s["empty"]:
        x += ["<Notes/>", "<PrimaryData><Filename/></PrimaryData>", "<Attachment><Filename/></Attachment>"]
    if s["comment"]:
        x.append("<!-- made by hand -->")
    x.append("<Provenance><CreateTime>2012-01-05T18:53:44</CreateTime><CreatingApplication>test</CreatingApplication><Creator><Name>me</Name></Creator><Submitter><Name>me</Name></Submitter></Provenance>")
    x.append("<Copyright><Citation><Title>t</Title><Authors>a</Authors><Year>2010</Year></Citation><ReleaseStatus>Unrestricted Release</ReleaseStatus></Copyright>")
    x.append(f"<Site><Project>P</Project><Survey>S</Survey><YearCollected>2001</YearCollected><Country>C</Country><Id>{station}</Id><Name>n</Name><Location datum=\"WGS84\"><Latitude>10.5</Latitude><Longitude>-20.25</Longitude><Elevation units=\"meters\">5</Elevation><Declination epoch=\"1995.0\">3.5</Declination></Location><AcquiredBy>me</AcquiredBy><Start>2001-02-03T00:00:00</Start><End>2001-02-04T00:00:00</End><RunList>{station}a</RunList></Site>")
    x.append("<ProcessingInfo><SignConvention>exp(+ i\\omega t)</SignConvention><ProcessedBy>me</ProcessedBy></ProcessingInfo>")
    lay = {"h": '<Magnetic name="{}" orientation="{}" x="0" y="0" z="0"/>', "e": '<Electric name="{}" orientation="{}" x="-50" y="0" z="0" x2="50" y2="0" z2="0"/>'}
    chan = lambda c: lay[c[0]].format(c.capitalize(), 90.0 if c[1] == "y" else 0.0)
    x.append('<SiteLayout><InputChannels ref="site" units="m">' + chan("hx") + chan("hy") + '</InputChannels><OutputChannels ref="site" units="m">' + "".join(chan(c) for c in OUT[kind]) + "</OutputChannels></SiteLayout>")
    x.append(f'<Data count="{len(period)}">' if s["count"] else "<Data>")

    def block(tag, arr, outs, ins, units=""):
        cplx = np.iscomplexobj(arr)
        typ = f' type="{"complex" if cplx else "real"}"' if s["type"] else ""
        y = [f'<{tag}{typ} size="{arr.shape[0]} {arr.shape[1]}"{units}>']
        cells = [(i, j) for i in range(arr.shape[0]) for j in range(arr.shape[1])]
        for n in r.permutation(len(cells)) if s["derived"] else range(len(cells)):
            i, j = cells[n]
            v = arr[i, j]
            if v == 0:
                continue
            a = f' name="X{i}{j}"' if s["name"] else ""
            text = f"{v.real:{f}} {v.imag:{f}}" if cplx else f"{v:{f}}"
            y.append(f'<value{a} output="{s["case"](outs[i])}" input="{s["case"](ins[j])}">{text}</value>')
        return y + [f"</{tag}>"]

    for k, v in enumerate(period):
        x.append(f'<Period value="{v:.12e}" units="secs">')
        for c, sl, outs in (("Z", slice(0, 2), ["ex", "ey"]), ("T", slice(2, 3), ["hz"])):
            if (c == "Z") == (kind == "t") and kind != "both":
                continue
            x += block(c, q["tf"][k, sl], outs, ["hx", "hy"], ' units="[mV/km]/[nT]"' if c == "Z" else ' units="[]"')
            if np.any(q["err"]):
                x += block(f"{c}.VAR", q["err"][k, sl] ** 2, outs, ["hx", "hy"])
            if q["isp"] is not None:
                x += block(f"{c}.INVSIGCOV", q["isp"][k], ["hx", "hy"], ["hx", "hy"])
                x += block(f"{c}.RESIDCOV", q["cov"][k, sl, sl], outs, outs)
        if s["derived"]:
            x.append('<TIPMAG type="real" size="1 1" units="[]"><value name="Tipmag" output="Hz" input="H">1.0</value></TIPMAG>')
        x.append("</Period>")
    x += ["</Data>", f'<PeriodRange min="{min(period):.5e}" max="{max(period):.5e}"/>', "</EM_TF>"]
    fn.write_text(s["nl"].join(x), newline="")


@C.given(st.sampled_from(list(OUT)), periods, seeds, st.booleans(), st.booleans(), names, style, quick=60, thorough=4000)
def files(ctx, kind, period, seed, errors, cov, station, s):
    """EMTF XML files of another writer: any order and case of channels, elements missing or empty, types and count left out, derived quantities; elements of a matrix that are not there read as zero"""
    q = random(len(period), seed, kind, errors, cov)
    if s["drop"] < 6 and not cov:
        i, j = divmod(s["drop"], 2)
        if OUT["both"][i] in OUT[kind]:
            q["tf"][seed % len(period), i, j] = 0
            q["err"][seed % len(period), i, j] = 0
    with tempfile.TemporaryDirectory() as d:
        fn = pathlib.Path(d) / "a.xml"
        xml_file(fn, kind, period, q, station, s, seed)
        tf = TF()
        tf.read(fn)
        e = EMTFXML(fn=fn)
    if np.any(q["tf"][:, :2]) == (kind != "t") and np.any(q["tf"][:, 2:]) == (kind != "z"):
        compare(tf, kind, period, q, f"{kind}, file")
        compare_xml(e, kind, q, f"{kind}, file")
    check_eq((tf.station, e.station_metadata.id, tf.latitude, tf.longitude, tf.elevation), (station, station, 10.5, -20.25, 5.0), "station and location")
    check_eq(tf.station_metadata.location.declination.value, 3.5, "declination")
    check_eq(e.description, "rock & roll" if s["ampersand"] else "test", "description")
    ctx.tag(kind, "covariances" if cov else "errors" if errors else "bare", *[k for k in ("derived", "empty", "comment") if s[k]])


@C.known_finding("zeros")
def zeros():
    tf = TF(period=np.array([1.0]))
    tf.impedance = np.array([[[0, 1 + 1j], [2 + 2j, 3 + 3j]]])
    with tempfile.TemporaryDirectory() as d:
        fn = pathlib.Path(d) / "a.xml"
        tf.write(fn)
        n = TF(fn)
        n.read()
    got = complex(n.impedance.data[0, 0, 0])
    return None if got == 0 else f"an element of the impedance that is zero is written as missing (1E32) and reads back as {got}"
