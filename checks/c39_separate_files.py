"""C39: MT XML files of each level in a folder are collected into an experiment (tools.MT2StationXML)."""
import os
import tempfile
from pathlib import Path
from xml.etree import ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Electric, Magnetic, Run, Station, Survey
from mt_metadata.timeseries.filters import CoefficientFilter, FIRFilter, PoleZeroFilter, TimeDelayFilter
from mt_metadata.timeseries.tools import MT2StationXML

from vp import filtgen as fg
from vp import metagen as mg
from vp.core import Check, check, check_eq, raises

C = Check("C39", rule="non-trivial: at least one run with channels, and a filter applied or a station left out")

SKIP = {
    Survey: ("time_period", "northwest_corner", "southeast_corner", "id"),
    Station: ("time_period", "id", "run_list", "channels_recorded", "location"),
    Run: ("time_period", "id", "channels_recorded"),
    Electric: ("time_period", "component", "type", "filter", "positive", "negative", "dipole_length", "channel_id", "sample_rate"),
    Magnetic: ("time_period", "component", "type", "filter", "location", "channel_id", "sample_rate"),
}
ORDER = ["hx", "hy", "hz", "ex", "ey"]


def fields(cls, most=3):
    fs = {f: s for f, s in mg.usable_fields(cls).items() if not f.startswith(SKIP[cls])}
    return st.lists(st.sampled_from(sorted(fs)), max_size=most, unique=True).flatmap(
        lambda sel: st.fixed_dictionaries({f: fs[f] for f in sel}))


place = st.tuples(st.floats(-80, 80), st.floats(-170, 170), st.floats(1, 4000)).map(lambda t: tuple(round(v, 5) for v in t))
applied = st.lists(st.sampled_from(["f0", "f1", "f2", "f3"]), max_size=3, unique=True)


def channel(c):
    return st.fixed_dictionaries({
        "comp": st.just(c), "fields": fields(Electric if c[0] == "e" else Magnetic), "applied": applied,
        "another": st.booleans(),
        "dipole": st.sampled_from([None, "electric_dipole_100", "dipole", "a dipole of 50 m"]) if c[0] == "e" else st.none(),
        "at": st.integers(0, 3), "length": st.floats(1, 500).map(lambda v: round(v, 4)), "place": st.none() | place,
        "start": st.integers(0, 400), "days": st.integers(1, 30),
    })


channels = st.lists(st.sampled_from(ORDER), unique=True, max_size=5).flatmap(lambda cs: st.tuples(*(channel(c) for c in cs)))
runs = st.lists(st.tuples(st.sampled_from(["a", "b", "001", "003", "ex1", "hx2", "010"]), fields(Run), channels), max_size=3, unique_by=lambda r: r[0])
stations = st.lists(st.tuples(st.sampled_from(["mt01", "mt010", "Z9", "hy1", "ex"]), fields(Station), place, runs), min_size=1, max_size=3, unique_by=lambda r: r[0])
filters = st.lists(fg.filters((PoleZeroFilter, CoefficientFilter, TimeDelayFilter, FIRFilter)), min_size=4, max_size=4)


def fill(o, values):
    for k, v in values.items():
        o.update_attribute(k, v)
    return o


def names_of(ch):
    """names of the filters as written"""
    out = list(ch["applied"])
    if ch["dipole"]:
        out.insert(min(ch["at"], len(out)), ch["dipole"])
        if ch["another"]:
            # only the first one is that of the channel
            out.append("another dipole")
    return out


def make_channel(ch):
    o = fill((Electric if ch["comp"][0] == "e" else Magnetic)(component=ch["comp"], sample_rate=8.0), ch["fields"])
    if ch["comp"][0] == "e":
        o.dipole_length = ch["length"]
    if ch["place"]:
        p = o.positive if ch["comp"][0] == "e" else o.location
        p.latitude, p.longitude, p.elevation = ch["place"]
    for j, n in enumerate(names_of(ch)):
        o.add_filter(name=n, stage=j + 1, applied=j % 2 == 0)
    o.time_period.start = str(np.datetime64("2020-01-01") + ch["start"])
    o.time_period.end = str(np.datetime64("2020-01-01") + ch["start"] + ch["days"])
    return o


def write(folder, spec, nest):
    """the files, in subfolders as nest says"""
    sf, stns, fl = spec
    out = []
    out.append(("survey.xml", fill(Survey(id="sv"), sf).to_xml()))
    x = ET.Element("filters")
    for i, f in enumerate(fl):
        e = fg.make(f, f"f{i}").to_xml()
        e.tag = "filter"
        x.append(e)
    out.append(("filters.xml", x))
    for tid, tf, where, rs in stns:
        t = fill(Station(id=tid), tf)
        t.location.latitude, t.location.longitude, t.location.elevation = where
        out.append((f"{tid}.xml", t.to_xml()))
        for rid, rf, chans in rs:
            r = fill(Run(id=rid), rf)
            objects = [make_channel(ch) for ch in chans]
            if objects:
                r.time_period.start = min(o.time_period.start for o in objects)
                r.time_period.end = max(o.time_period.end for o in objects)
            out.append((f"{tid}.{rid}.xml", r.to_xml()))
            for ch, o in zip(chans, objects):
                out.append((f"{tid}.{rid}.{o.type}.{ch['comp']}.xml", o.to_xml()))
    for i, (name, x) in enumerate(out):
        d = folder / ["", "s", "s/t", name.split(".")[0]][(i * (nest % 7) + nest) % 4 if nest else 0]
        d.mkdir(parents=True, exist_ok=True)
        (d / name).write_bytes(ET.tostring(x))


def attrs(o, vals, name, ref):
    fill(ref, vals)
    for f in vals:
        w, g = mg.flat_value(ref, f), mg.flat_value(o, f)
        if w in ("", None) or (isinstance(w, str) and w != w.strip()):
            continue
        check(mg.same_value(w, g), f"{name}.{f} was {w!r}, is {g!r}")


def expected_names(ch):
    out = names_of(ch)
    if ch["dipole"]:
        out[out.index(ch["dipole"])] = f"electric_dipole_{ch['length']:.3f}"
    return out


def dipole_ok(f, ch):
    check(isinstance(f, PoleZeroFilter) and f.gain == ch["length"] and not len(f.poles) and not len(f.zeros), f"dipole filter {f!r}")
    check_eq((str(f.units_in), str(f.units_out)), ("Volt per meter", "Volt"), "units of the dipole filter")


def channel_ok(o, ch, where, name):
    e = ch["comp"][0] == "e"
    check(type(o) is (Electric if e else Magnetic), f"{name} is a {type(o).__name__}")
    attrs(o, ch["fields"], name, type(o)(component=ch["comp"]))
    check_eq([(f.name, f.stage, f.applied) for f in o.filters], [(n, j + 1, j % 2 == 0) for j, n in enumerate(expected_names(ch))], f"filters of {name}")
    p = o.positive if e else o.location
    want = ch["place"] or where or (0.0, 0.0, 0.0)
    check(np.allclose((p.latitude, p.longitude, p.elevation), want, rtol=1e-12, atol=1e-12), f"{name} is at {(p.latitude, p.longitude, p.elevation)}, not {want}")
    if e:
        check_eq(o.dipole_length, ch["length"], f"length of {name}")
    ref = make_channel(ch)
    check(o.time_period.start == ref.time_period.start and o.time_period.end == ref.time_period.end, f"span of {name}: {o.time_period}")
    check_eq(o.sample_rate, 8.0, f"sample rate of {name}")


def filters_ok(fd, spec_filters, chans):
    want = {f"f{i}" for i in range(len(spec_filters))} | {f"electric_dipole_{c['length']:.3f}" for c in chans if c["dipole"]}
    check_eq(sorted(fd.keys()), sorted(want), "filters")
    for i, f in enumerate(spec_filters):
        check(type(fd[f"f{i}"]) is f[0], f"filter {i} is a {type(fd[f'f{i}']).__name__}")
        bad = fg.differs(fd[f"f{i}"], f)
        check(not bad, bad)
    for c in chans:
        if c["dipole"]:
            f = fd[f"electric_dipole_{c['length']:.3f}"]
            check(abs(f.gain - c["length"]) < 1e-3, f"gain {f.gain} of the dipole filter of {c['length']} m")


@C.given(st.tuples(fields(Survey), stations, filters), st.integers(0, 30), st.sampled_from(["all", "one", "some", "none"]), st.integers(0, 5), quick=120, thorough=4000)
def collected(ctx, spec, nest, which, pick):
    """the experiment has exactly what is in the files"""
    sf, stns, fl = spec
    ids = [t[0] for t in stns]
    with tempfile.TemporaryDirectory() as d:
        folder = Path(d)
        write(folder, spec, nest)
        m = MT2StationXML(folder if nest % 2 else d)
        check_eq(sorted(m.stations), sorted(ids), "stations")
        check_eq((Path(m.survey).name, Path(m.filters).name), ("survey.xml", "filters.xml"), "survey and filters")
        kinds = {r.fn.name: (r.is_station, r.is_run, r.is_channel, r.is_filters, r.is_survey) for r in m.df.itertuples()}
        for name, k in kinds.items():
            n = name.count(".") - 1
            special = name in ("survey.xml", "filters.xml")
            check_eq(k, (not special and n == 0, n == 1, n > 1, name == "filters.xml", name == "survey.xml"), f"kind of {name}")
        if which == "all":
            want, ask = list(m.stations), None
        elif which == "none":
            want, ask = list(m.stations), []
        elif which == "one":
            want = [ids[pick % len(ids)]]
            ask = want[0]
        else:
            want = ids[: 1 + pick % len(ids)][::-1]
            ask = list(want)
        e = m.make_experiment(ask) if ask is not None else m.make_experiment()
        again = m.make_experiment(ask) if ask is not None else m.make_experiment()
    check(e == again, "made twice they differ")
    check_eq(len(e.surveys), 1, "one survey")
    s = e.surveys[0]
    attrs(s, sf, "survey", Survey(id="sv"))
    check_eq([t.id for t in s.stations], want, "stations")
    spans = []
    used = []
    by_id = {t[0]: t for t in stns}
    for t in s.stations:
        tid, tf, where, rs = by_id[t.id]
        attrs(t, tf, f"station {tid}", Station(id=tid))
        check_eq((t.location.latitude, t.location.longitude, t.location.elevation), where, f"place of {tid}")
        check_eq([r.id for r in t.runs], sorted(r[0] for r in rs), f"runs of {tid}")
        mine = []
        for r in t.runs:
            rid, rf, chans = {x[0]: x for x in rs}[r.id]
            attrs(r, rf, f"run {rid}", Run(id=rid))
            check_eq([c.component for c in r.channels], [c for c in ORDER if c in [x["comp"] for x in chans]], f"channels of {tid} {rid}")
            for o in r.channels:
                ch = {x["comp"]: x for x in chans}[o.component]
                channel_ok(o, ch, where, f"{tid} {rid} {o.component}")
                used.append(ch)
                mine.append(o.time_period)
        if mine:
            spans.append(t.time_period)
            check(t.time_period.start == min(p.start for p in mine) and t.time_period.end == max(p.end for p in mine), f"span of {tid}: {t.time_period}")
    if spans:
        check(s.time_period.start_date == min(p.start for p in spans).isoformat()[:10] and s.time_period.end_date == max(p.end for p in spans).isoformat()[:10], f"span of the survey {s.time_period}")
    places = [by_id[t][2] for t in want]
    check_eq((s.northwest_corner.latitude, s.southeast_corner.latitude), (max(p[0] for p in places), min(p[0] for p in places)), "latitudes")
    check_eq((s.northwest_corner.longitude, s.southeast_corner.longitude), (min(p[1] for p in places), max(p[1] for p in places)), "longitudes")
    filters_ok(s.filters, fl, used)
    if not used or not (any(names_of(c) for c in used) or len(want) < len(ids)):
        ctx.trivial()
    ctx.tag(which)


@C.given(st.sampled_from(ORDER).flatmap(channel), filters, quick=120, thorough=3000)
def one_channel(ctx, ch, fl):
    """a channel file and the file of the filters give the channel and its response"""
    # a response needs units that follow each other
    ch = {**ch, "at": 0, "another": False}
    fl = [(k, {**v, "units_in": "Volt", "units_out": "Volt"}) for k, v in fl]
    with tempfile.TemporaryDirectory() as d:
        folder = Path(d)
        write(folder, ({}, [("mt01", {}, (1.0, 2.0, 3.0), [("a", {}, [ch])])], fl), 0)
        fn = next(folder.glob("mt01.a.*.xml"))
        o, response = MT2StationXML(folder).get_mt_channel(fn, folder / "filters.xml")
    channel_ok(o, ch, None, ch["comp"])
    got = [f.name for f in response.filters_list]
    check_eq(got, expected_names(ch), "filters of the response")
    for f in response.filters_list:
        if "dipole" in f.name:
            dipole_ok(f, ch)
        else:
            bad = fg.differs(f, fl[int(f.name[1:])])
            check(not bad, bad)
    if not got:
        ctx.trivial()


@C.given(st.sampled_from([5, 1.5, ("mt01",), {"mt01": 1}]), quick=8, thorough=20)
def refused(ctx, ask):
    """no folder, or stations that are neither a name nor a list"""
    m = MT2StationXML()
    raises(ValueError, m.get_xml_files, "no folder")
    check(m.stations is None and m.survey is None and m.filters is None and not m.has_xml_path(), "no folder")
    with tempfile.TemporaryDirectory() as d:
        write(Path(d), ({}, [("mt01", {}, (1.0, 2.0, 3.0), [])], []), 0)
        m.xml_path = d
        check(m.has_xml_path(), "folder")
        raises(ValueError, lambda: m.make_experiment(ask), f"stations {ask!r}")
        m.xml_path = None
        check(m.stations is None, "folder taken away")
