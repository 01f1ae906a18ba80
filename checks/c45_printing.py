"""C45: what is printed of an object is what it holds."""
import json
import re

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from mt_metadata.base import MetadataBase
from mt_metadata.common.list_dict import ListDict
from mt_metadata.timeseries import Experiment, Run, Station, Survey
from mt_metadata.timeseries.filters import ChannelResponse
from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.edi import EDI
from mt_metadata.transfer_functions.io.emtfxml import EMTFXML
from mt_metadata.transfer_functions.io.jfiles import JFile
from mt_metadata.transfer_functions.io.zfiles import ZMM
from mt_metadata.transfer_functions.io.zfiles.metadata import Channel
from mt_metadata.transfer_functions.io.zonge import ZongeMTAvg

from checks.c01_roundtrip import ALL
from checks import c12_experiment as c12
from checks import c28_jfile as c28
from checks import c42_conversions as c42
from vp import metagen
from vp.core import Check, check, check_eq
from vp.tfgen import seeds

C = Check("C45", rule="non-trivial: objects with something in them; empty ones are a few of each run")

HOW = {"tf": lambda t: t, "edi": lambda t: t.to_edi(), "xml": lambda t: t.to_emtfxml(), "zmm": lambda t: t.to_zmm(), "avg": lambda t: t.to_avg(), "copy": lambda t: t.copy() if hasattr(t, "copy") else t}


def item(text, *names):
    """what is said after one of the names, first time"""
    for line in text.splitlines():
        for n in names:
            m = re.match(rf"\s*{n}\s*:\s*(.*)$", line, re.I)
            if m:
                return m[1].strip()
    return None


def number(text, *names):
    v = item(text, *names)
    check(v is not None, f"{names[0]} is not printed in\n{text}")
    return float(v.split()[0])


def spans(text):
    """least and greatest period and frequency printed"""
    num = r"([-+0-9.]+E[-+]\d+)"
    one = [re.search(rf"{w} Range:?\s*{num}\s*--\s*{num}", text) for w in ("Period", "Frequency")]
    if all(one):
        return [tuple(map(float, m.groups())) for m in one]
    two = [re.search(rf"{w} Range:\s*Min:\s*{num} \S+\s*Max:\s*{num}", text) for w in ("Period", "Frequency")]
    check(all(two), f"ranges are not printed in\n{text}")
    return [tuple(map(float, m.groups())) for m in two]


def same_span(got, lo, hi, what):
    check(all(abs(g - w) <= 1.1e-5 * abs(w) for g, w in zip(got, (lo, hi))), f"{what}: {got}, expected {lo}, {hi}")


def held(text, station, place, kind, period, what):
    check_eq(item(text, "Station"), station, f"{what}: station")
    for k, v in place.items():
        check(abs(number(text, k) - v) <= 0.00051, f"{what}: {k} {number(text, k)}, expected {v}")
    if kind is not None:
        check_eq(item(text, "Impedance"), str(kind in ("both", "z")), f"{what}: impedance")
        check_eq(item(text, "Tipper"), str(kind in ("both", "t")), f"{what}: tipper")
    check_eq(number(text, "N Periods", "Number of Periods"), len(period), f"{what}: periods")
    p, f = spans(text)
    same_span(p, min(period), max(period), f"{what}: period range")
    same_span(f, 1 / max(period), 1 / min(period), f"{what}: frequency range")


dec = c42.decimals
place = st.fixed_dictionaries({"lat": dec(-80, 80, 3), "lon": dec(-170, 170, 3), "elev": dec(-100, 4000, 2), "declination": dec(-30, 30, 1)})


@C.given(st.sampled_from(["both", "z", "t"]), c42.periods, seeds, c42.names, st.sampled_from(["s1", "MT survey"]), place, st.sampled_from(sorted(HOW)), quick=150, thorough=6000)
def transfer_functions(ctx, kind, period, seed, station, survey, p, how):
    """a transfer function, and the file object of any format made of it, prints its station, survey, place, whether it has impedance and tipper, its periods and their ranges"""
    if how == "avg" and kind == "t":
        kind = "both"
    t = c42.start(kind, period, seed, how in ("zmm", "xml"), station, survey, p)
    o = HOW[how](t)
    if how == "zmm":
        # made complete by a file
        o.write("c45.zmm")
        o = ZMM("c45.zmm")
        o.read()
    if how == "edi" and seed % 2:
        # periods in any order
        order = np.random.default_rng(seed).permutation(len(period))
        o.frequency = o.frequency[order]
        if o.z is not None:
            o.z = o.z[order]
        if o.t is not None:
            o.t = o.t[order]
    text, short = str(o), repr(o)
    where = {"Latitude": p["lat"], "Longitude": p["lon"]}
    if how not in ("zmm", "avg"):
        where["Elevation"] = p["elev"]
        check_eq(item(text, "Survey"), str(getattr(o, "survey_metadata").id), f"{how}: survey")
        check_eq(float(item(text, "Value")), p["declination"], "declination") if how != "edi" else None
    if how == "avg":
        pass
    else:
        held(text, station, where, kind, period, how)
        check(station in short, f"{how}: {short} does not say {station}")
        for k in ("lat", "lon"):
            check(any(abs(float(v) - p[k]) <= 0.0051 for v in re.findall(r"-?\d+\.\d+", short)), f"{how}: {short} does not say {p[k]}")
    check_eq((str(o), repr(o)), (text, short), "printed twice")


@C.given(c28.files(), quick=100, thorough=2000)
def jfiles(ctx, d):
    """a J-file that was read prints its station, place, periods, impedance and tipper"""
    with open("c45.j", "w") as f:
        f.write(c28.write(d))
    o = JFile("c45.j")
    text = str(o)
    z, t = o.z, o.t
    kind = {(True, True): "both", (True, False): "z", (False, True): "t"}.get((bool((z != 0).any()), bool((t != 0).any())))
    lat, lon, elev = d["place"][:3] if d["place"] else (0, 0, 0)
    used = {p for rows in d["data"].values() for p, (k, _) in rows.items() if k == "there"}
    held(text, d["station"], {"Latitude": lat, "Longitude": lon, "Elevation": elev}, kind, [c28.dig(p) if d["sci"] else p for p in used], "J")
    check(d["station"] in repr(o), repr(o))


@C.given(st.sampled_from([TF, EDI, EMTFXML, ZMM, ZongeMTAvg, JFile, Experiment, Survey, Station, Run, ChannelResponse, ListDict, Channel]), quick=40, thorough=40)
def empty(ctx, cls):
    """an empty object can be printed"""
    o = cls()
    check(isinstance(str(o), str) and isinstance(repr(o), str), f"{cls.__name__} prints text")
    if cls in (TF, EDI, EMTFXML, ZMM, JFile):
        check_eq(item(str(o), "Impedance"), "False", f"impedance of an empty {cls.__name__}")
        check_eq(item(str(o), "Tipper"), "False", f"tipper of an empty {cls.__name__}")


@C.given(c12.surveys, quick=60, thorough=1500)
def experiments(ctx, spec):
    """an experiment prints its surveys, filters, stations, runs and their channels and times, in order"""
    e = c12.build(spec)
    got = [tuple(x.strip() for x in line.split(":", 1)) for line in str(e).splitlines() if ":" in line]
    want = []
    if len(e.surveys):
        want.append(("Number of Surveys", str(len(spec))))
    for sid, _, stns, fl in spec:
        want += [("Survey ID", sid), ("Number of Stations", str(len(stns))), ("Number of Filters", str(len(fl)))]
        for i, (k, _, _) in enumerate(fl):
            want += [("Filter Name", f"f{i}"), ("Filter Type", k().type)]
        v = e.surveys[sid]
        for tid, _, rs in stns:
            want += [("Station ID", tid), ("Number of Runs", str(len(rs)))]
            for rid, _, chans in rs:
                r = v.stations[tid].runs[rid]
                want += [("Run ID", rid), ("Number of Channels", str(len(chans))), ("Recorded Channels", ", ".join(sorted(c for _, c, _, _ in chans)))]
                want += [("Start", str(r.time_period.start)), ("End", str(r.time_period.end))]
    got = [(k, ", ".join(sorted(x.split(", "))) if k == "Recorded Channels" else x) for k, x in got]
    check_eq(got, want, "printed experiment")
    check_eq(repr(e), str(e), "repr")
    for v in e.surveys:
        text = str(v.stations)
        check(all(f"\t{k} = " in text for k in v.stations.keys()), f"keys of a list in {text[:300]}")
    if not spec:
        ctx.trivial()


@C.given(metagen.object_specs(ALL, 6), quick=400, thorough=8000)
def metadata(ctx, spec):
    """any metadata object prints as text, and its repr is its JSON"""
    o = metagen.build(spec)
    # not a band, not a filter
    assume(getattr(o, "frequency_min", None) is None or not hasattr(o, "frequency_max") or o.frequency_min <= o.frequency_max)
    assume(getattr(o, "decimation_factor", 1) != 0)
    before = metagen.leaves(o)
    check(isinstance(str(o), str), "text")
    r = repr(o)
    if type(o).__repr__ is MetadataBase.__repr__:
        check_eq(json.loads(r), json.loads(o.to_json()), "repr is the JSON")
    else:
        check(isinstance(r, str), "text")
    if type(o).__str__ is MetadataBase.__str__:
        # sections of EDI files are written, which sets what is written
        check(not metagen.diff(before, metagen.leaves(o)), "printing changes nothing")
    if not before:
        ctx.trivial()
