"""C28: J-files."""
import os

import numpy as np
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.jfiles import JFile

from vp.core import Check, check, check_eq, raises
from vp.strat import pretty_floats

C = Check("C28", rule="non-trivial: a component or a period is missing, or the place is known")

ZC = ["ZXX", "ZXY", "ZYX", "ZYY"]
TC = ["TZX", "TZY"]
POS = {"ZXX": (0, 0), "ZXY": (0, 1), "ZYX": (1, 0), "ZYY": (1, 1), "TZX": (0, 0), "TZY": (0, 1)}
value = st.one_of(pretty_floats(-900, 900, 3).filter(lambda v: v not in (0, -999)), st.sampled_from([1.5e-4, -2.25e7, 0.5]))
error = st.one_of(pretty_floats(0, 100, 3).filter(lambda v: v != 0), st.just(1.25e-5))
# a missing value: a number, or not a number
missing = st.sampled_from(["-999.0000", "NaN", "*******"])
PAR_I = ["outputs", "inputs", "references", "nf1", "nfinc", "nfsect", "npcs", "nar", "imode", "jmode", "nz"]
PAR_F = ["tbw", "nfft", "nsctinc", "nsctmax", "uin", "ainlin", "ainuin", "c2threshe", "c2threshe1"]


@st.composite
def files(draw):
    periods = draw(st.lists(st.one_of(pretty_floats(0.001, 99, 3), st.sampled_from([1e-4, 120.5, 1000.0, 86400.0, 2.0, 10.0])).filter(lambda v: v > 0), min_size=1, max_size=6, unique=True))
    comps = ZC + (TC if draw(st.booleans()) else [])
    data = {}
    # periods of all components, of the impedance or of the tipper only
    only = {p: draw(st.sampled_from(["ZT", "ZT", "ZT", "Z", "T"])) if len(comps) > 4 else "ZT" for p in periods}
    for c in comps:
        rows = {}
        for p in periods:
            if c[0] not in only[p]:
                continue
            how = draw(st.sampled_from(["there"] * 6 + ["left out", "masked"]))
            if how != "left out":
                rows[p] = ("masked", draw(missing)) if how == "masked" else ("there", (draw(value), draw(value), draw(error)))
        data[c] = rows
    # every period is there in some component
    for p in periods:
        if not any(p in r and r[p][0] == "there" for r in data.values()):
            data["ZXY"][p] = ("there", (1.5, -2.5, 0.25))
    if "TZX" in data and not data["TZX"]:
        data["TZX"][periods[0]] = ("there", (0.25, -0.5, 0.125))
    place = draw(st.one_of(st.none(), st.tuples(pretty_floats(-80, 80, 4), pretty_floats(-170, 170, 4), pretty_floats(-100, 4000, 1), pretty_floats(-90, 90, 1))))
    return dict(
        periods=periods,
        data=data,
        station=draw(st.sampled_from(["BP05", "mt001", "Site_2", "300", "a"])),
        place=place,
        deltat=draw(st.sampled_from([0.1, 0.5, 4.0, -8.0, -150.0])),
        title=draw(st.sampled_from(["BIRRP Version 5 basic mode output", "BIRRP"])),
        ints=draw(st.fixed_dictionaries({k: st.integers(0, 12) for k in PAR_I})),
        floats=draw(st.fixed_dictionaries({k: st.sampled_from([0.0, 2.0, -999.0, 5164.0] if k in ("nfft", "nsctinc", "nsctmax") else [0.0, 2.0, 0.9990, -999.0]) for k in PAR_F})),
        blocks=draw(st.lists(st.tuples(st.sampled_from(["/data/a.txt", "/data/plateau/elevator.txt", "b.dat"]), st.integers(0, 900), st.integers(1, 99999), st.integers(1, 5)), min_size=1, max_size=3)),
        angles=draw(st.lists(st.tuples(*[pretty_floats(-90, 90, 1)] * 3), min_size=1, max_size=2)),
        upper=draw(st.booleans()),
        resistivity=draw(st.booleans()),
        shuffle=draw(st.booleans()),
        sci=draw(st.booleans()),
    )


def write(d):
    num = (lambda v: f"{v:.7E}") if d["sci"] else (lambda v: f"{v:.9g}")
    i, f = d["ints"], d["floats"]
    L = [f"#{d['title']}"]
    L.append(f"#outputs=       {i['outputs']} inputs=       {i['inputs']} references=       {i['references']}")
    L.append(f"#tbw=   {f['tbw']:.6f}     deltat=  {d['deltat']:.7f}    ")
    L.append(f"#nfft=    {f['nfft']:.0f} nsctinc=       {f['nsctinc']:.0f} nsctmax=       {f['nsctmax']:.0f}")
    L.append(f"#nf1=       {i['nf1']} nfinc=       {i['nfinc']} nfsect=       {i['nfsect']}")
    L.append(f"#uin=   {f['uin']:.6f}     ainlin=  {f['ainlin']:.4f}     ainuin=  {f['ainuin']:.7f}    ")
    L.append(f"#c2threshe=  {f['c2threshe']:.7f}    ")
    L.append(f"#nz=       {i['nz']}")
    L.append(f"#c2threshe1=   {f['c2threshe1']:.6f}    ")
    L.append(f"# npcs=       {i['npcs']} nar=       {i['nar']}")
    L.append(f"#imode=       {i['imode']} jmode=       {i['jmode']}")
    for name, skip, read, n in d["blocks"]:
        L += ["#nfil=       0", f"#ncomp=       {n}", "#indices=       1       2", f"#filnam={name}                  ", f"#nskip=       {skip} nread=   {read}"]
    for a in d["angles"]:
        L.append("#theta1=   %.6f     theta2=   %.6f     phi=   %.6f    " % a)
    p = d["place"]
    for k, name in enumerate(["LATITUDE  ", "LONGITUDE ", "ELEVATION ", "AZIMUTH   "]):
        name = name if d["upper"] else name.lower()
        L.append(f">{name}=    {p[k]:.6f}    " if p else f">{name}=                     ")
    L.append(f"{d['station']}      ")
    fake = [f"{n} S.I." for n in ["RXX", "RXY", "RYX", "RYY"]] if d["resistivity"] else []
    for c, rows in d["data"].items():
        L += [f"{c} S.I.", str(len(rows))]
        items = sorted(rows.items(), reverse=d["shuffle"])
        for per, (kind, v) in items:
            if kind == "there":
                L.append("    ".join([""] + [num(x) for x in (per, *v)] + ["0.5000000", "0.4335710"]))
            else:
                L.append("    ".join(["", num(per) if v != "-999.0000" else v, v, v, v, v, v]))
    for c in fake:
        L += [c, "1", "   1.5   9.9E+03   45.0   1.0   2.0   3.0"]
    return "\n".join(L) + "\n"


def dig(v):
    return float(f"{v:.7E}")


@C.given(files(), st.sampled_from(["JFile", "TF", "from_jfile"]), quick=120, thorough=6000)
def read(ctx, d, how):
    """a J-file gives the impedance, tipper and errors of every period that is in any component, zero where a component has none, with station, place, processing parameters, data blocks and angles of its header"""
    with open("a.j", "w") as fid:
        fid.write(write(d))
    j = JFile("a.j")
    want = {}
    for c, rows in d["data"].items():
        for p, (kind, v) in rows.items():
            want.setdefault(dig(p), {})
            if kind == "there":
                want[dig(p)][c] = v
    # a period whose number is masked is not known there
    for c, rows in d["data"].items():
        for p, (kind, v) in rows.items():
            if kind == "masked" and v == "-999.0000" and not any(q.get(p, ("", ""))[0] == "there" or q.get(p, ("", "-999.0000"))[1] != "-999.0000" for q in d["data"].values()):
                want.pop(dig(p), None)
    got = [float(f"{p:.7E}") for p in j.periods]
    check_eq(sorted(got), sorted(want), "periods")
    check(bool(np.allclose(j.frequency * j.periods, 1)), "frequency")
    tip = "TZX" in d["data"]
    z, ze = np.zeros((len(got), 2, 2), complex), np.zeros((len(got), 2, 2))
    t, te = np.zeros((len(got), 1, 2), complex), np.zeros((len(got), 1, 2))
    for k, p in enumerate(got):
        for c, (re, im, err) in want[p].items():
            a, b = (z, ze) if c in ZC else (t, te)
            a[k][POS[c]], b[k][POS[c]] = re + 1j * im, err
    same = lambda a, b, what: check(np.shape(a) == np.shape(b) and bool(np.allclose(a, b, rtol=1e-6, atol=1e-12)), f"{what}: got {np.asarray(a).tolist()}, expected {b.tolist()}")
    for a, b, what in ((j.z, z, "impedance"), (j.z_err, ze, "impedance errors"), (j.t, t, "tipper"), (j.t_err, te, "tipper errors")):
        same(a, b, what)
    # header
    h, bp = j.header, j.header.birrp_parameters
    place = d["place"] or (0.0, 0.0, 0.0, 0.0)
    check_eq((h.title, h.station), (d["title"], d["station"]), "title and station")
    check_eq((h.latitude, h.longitude, h.elevation, h.azimuth), place, "place")
    check_eq({k: getattr(bp, k) for k in PAR_I}, d["ints"], "parameters")
    check(all(abs(getattr(bp, k) - v) < 1e-6 for k, v in d["floats"].items()) and abs(bp.deltat - d["deltat"]) < 1e-6, f"parameters {bp}")
    check_eq([(b.filnam, b.nskip, b.nread, b.ncomp) for b in h.data_blocks], d["blocks"], "data blocks")
    check_eq([(a.theta1, a.theta2, a.phi) for a in h.angles], d["angles"], "angles")
    # as a transfer function
    if how == "TF":
        tf = TF("a.j")
        tf.read()
    else:
        tf = TF()
        tf.from_jfile("a.j" if how == "from_jfile" else j)
    check_eq([float(f"{p:.7E}") for p in tf.period], got, "periods of the transfer function")
    for name, a, zero in (("impedance", z, not z.any()), ("impedance_error", ze, not ze.any()), ("tipper", t, not t.any()), ("tipper_error", te, not te.any())):
        x = getattr(tf, name)
        if zero:
            check(x is None or not np.asarray(x).any(), f"{name} is not there")
        else:
            same(np.asarray(x), a, f"{name} of the transfer function")
    check_eq((tf.has_impedance(), tf.has_tipper()), (bool(z.any()), bool(t.any())), "what is there")
    sm = tf.station_metadata
    check_eq((sm.id, sm.location.latitude, sm.location.longitude, sm.location.elevation), (d["station"], *place[:3]), "station")
    r = sm.runs[0]
    check(abs(r.sample_rate - (-d["deltat"] if d["deltat"] < 0 else 1 / d["deltat"])) < 1e-6 * abs(r.sample_rate), f"sample rate {r.sample_rate} of {d['deltat']}")
    check_eq(sorted(r.channels_recorded_all), sorted((["ex", "ey", "hx", "hy"] if z.any() else []) + (["hz"] if t.any() else [])), "channels")
    check_eq((sm.provenance.software.name, sm.transfer_function.id, list(sm.transfer_function.runs_processed)), ("BIRRP", d["station"], ["001"]), "processing")
    params = dict(x.split(" = ") for x in sm.transfer_function.processing_parameters)
    check(all(float(params[k]) == d["ints"][k] for k in PAR_I), f"processing parameters {params}")
    os.remove("a.j")
    if not d["place"] and all(len(r) == len(d["periods"]) and all(v[0] == "there" for v in r.values()) for r in d["data"].values()):
        ctx.trivial()


@C.given(st.sampled_from(["a.edi", "a.txt", "b"]), quick=5, thorough=20)
def refuse(ctx, name):
    """other files are refused"""
    raises(ValueError, lambda: JFile(name), f"reading {name} as J-file")
    raises((NameError, OSError), lambda: JFile("not_there.j"), "a file there is not")
