"""C12: a whole experiment survives dictionary, JSON (text, file) and XML (element, file)."""
import json
import os
import tempfile
from pathlib import Path
from xml.etree import ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Auxiliary, Electric, Experiment, Magnetic, Run, Station, Survey
from mt_metadata.timeseries.filters import (
    CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter,
)

from vp import metagen as mg
from vp.core import Check, check, check_eq

C = Check("C12", rule="non-trivial: at least two levels hold an attribute that was set, or a filter with arrays")

SKIP = {
    Survey: ("time_period", "northwest_corner", "southeast_corner", "id"),
    Station: ("time_period", "id", "run_list", "channels_recorded"),
    Run: ("time_period", "id", "channels_recorded"),
    Electric: ("time_period", "component", "type", "filter"),
    Magnetic: ("time_period", "component", "type", "filter"),
    Auxiliary: ("time_period", "component", "type", "filter"),
}
KINDS = {Electric: ["ex", "ey", "e1"], Magnetic: ["hx", "hy", "hz", "bx"], Auxiliary: ["temperature", "voltage"]}
FILTERS = [PoleZeroFilter, CoefficientFilter, TimeDelayFilter, FIRFilter, FrequencyResponseTableFilter]


def fields(cls, most=4):
    fs = {f: s for f, s in mg.usable_fields(cls).items() if not f.startswith(SKIP[cls])}
    return st.lists(st.sampled_from(sorted(fs)), max_size=most, unique=True).flatmap(
        lambda sel: st.fixed_dictionaries({f: fs[f] for f in sel}))


def places(k):
    """where the channel (the positive electrode) is, in any combination of nothing and zero"""
    place = "positive" if k is Electric else "location"
    return st.fixed_dictionaries({}, optional={
        f"{place}.{n}": st.sampled_from([0.0, v, -v]) for n, v in (("latitude", 5.0), ("longitude", 7.5), ("elevation", 310.0))})


def merged(k):
    return st.tuples(fields(k), places(k)).map(lambda t: {**t[0], **t[1]})


one_channel = st.sampled_from(list(KINDS)).flatmap(
    lambda k: st.tuples(st.just(k), st.sampled_from(KINDS[k]), merged(k), st.lists(st.sampled_from(["f0", "f1", "f2"]), max_size=3, unique=True)))
runs = st.lists(st.tuples(st.sampled_from(["a", "b", "003"]), fields(Run), st.lists(one_channel, max_size=3, unique_by=lambda c: c[1])), max_size=2, unique_by=lambda r: r[0])
station_place = st.fixed_dictionaries({}, optional={f"location.{n}": st.just(v) for n, v in (("latitude", 11.0), ("longitude", -17.5), ("elevation", 1310.0))})
station_fields = st.tuples(fields(Station), st.one_of(st.just({}), station_place)).map(lambda t: {**t[0], **t[1]})
stations = st.lists(st.tuples(st.sampled_from(["mt01", "mt02", "Z9"]), station_fields, runs), max_size=2, unique_by=lambda r: r[0])

number = st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: 0.0 if abs(v) < 1e-9 else v)
positive = st.floats(1e-6, 1e6, allow_nan=False)
cplx = st.builds(complex, number, number)
FVAL = {
    PoleZeroFilter: st.fixed_dictionaries({"poles": st.lists(cplx, max_size=4), "zeros": st.lists(cplx, max_size=4), "normalization_factor": positive}),
    CoefficientFilter: st.fixed_dictionaries({"gain": positive}),
    TimeDelayFilter: st.fixed_dictionaries({"delay": number}),
    FIRFilter: st.fixed_dictionaries({"coefficients": st.lists(number, min_size=1, max_size=5), "decimation_factor": positive, "gain": positive, "gain_frequency": positive}),
    FrequencyResponseTableFilter: st.integers(0, 5).flatmap(lambda n: st.fixed_dictionaries({k: st.lists(positive, min_size=n, max_size=n) for k in ("frequencies", "amplitudes")} | {"phases": st.lists(st.floats(-3.1, 3.1), min_size=n, max_size=n)})),
}
COMMON = st.fixed_dictionaries({
    "comments": st.sampled_from(["a filter", "x <y> & z", "lab, 3:4"]),
    "units_in": st.sampled_from(["milliVolt", "digital counts", "nanoTesla"]),
    "units_out": st.sampled_from(["Volt", "digital counts", "milliVolt per kilometer"]),
    "gain": positive, "sequence_number": st.integers(0, 5),
})
filters = st.one_of(
    st.lists(st.sampled_from(FILTERS).flatmap(lambda k: st.tuples(st.just(k), FVAL[k], COMMON)), max_size=4),
    # several of one kind
    st.sampled_from(FILTERS).flatmap(lambda k: st.lists(st.tuples(st.just(k), FVAL[k], COMMON), min_size=2, max_size=5)),
)
surveys = st.lists(st.tuples(st.sampled_from(["sv1", "sv2", "a b"]), fields(Survey), stations, filters), min_size=1, max_size=2, unique_by=lambda r: r[0])


def fill(o, values):
    for k, v in values.items():
        o.update_attribute(k, v)
    return o


def build(spec):
    e = Experiment()
    for sid, sf, stns, fl in spec:
        v = fill(Survey(id=sid), sf)
        for i, (k, vals, common) in enumerate(fl):
            f = k(name=f"f{i}")
            for name, x in {**common, **vals}.items():
                setattr(f, name, np.array(x) if isinstance(x, list) else x)
            v.filters[f"f{i}"] = f
        for tid, tf, rs in stns:
            t = fill(Station(id=tid), tf)
            for rid, rf, chans in rs:
                r = Run(id=rid)
                for k, c, cf, applied in chans:
                    ch = fill(k(component=c), cf)
                    for j, name in enumerate(applied):
                        ch.add_filter(name=name, stage=j + 1, applied=j % 2 == 0)
                    r.add_channel(ch)
                t.add_run(fill(r, rf))
            v.add_station(t)
        e.add_survey(v)
    return e


def flat(o, f):
    v = mg.flat_value(o, f)
    return v


def same_number(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def compare(e, spec, what, xml):
    check_eq(sorted(e.survey_names), sorted(s[0] for s in spec), f"{what}: surveys")
    for sid, sf, stns, fl in spec:
        v = e.get_survey(sid)

        def attrs(o, vals, name, ref):
            fill(ref, vals)
            for f in vals:
                w, g = flat(ref, f), flat(o, f)
                if w in ("", None) or (xml and isinstance(w, str) and w != w.strip()):
                    continue
                check(mg.same_value(w, g), f"{what}: {name}.{f} was {w!r}, is {g!r}")

        attrs(v, sf, "survey", Survey(id=sid))
        check_eq(sorted(v.station_names), sorted(t[0] for t in stns), f"{what}: stations of {sid}")
        check_eq(sorted(v.filter_names), [f"f{i}" for i in range(len(fl))], f"{what}: filters of {sid}")
        for i, (k, vals, common) in enumerate(fl):
            f = v.filters[f"f{i}"]
            check(type(f) is k, f"{what}: filter {i} is a {type(f).__name__}, was a {k.__name__}")
            for name, want in {**common, **vals}.items():
                got = getattr(f, name)
                if isinstance(want, list):
                    got = np.asarray(got)
                    check(got.size == len(want) and all(same_number(x, y) for x, y in zip(got.tolist(), want)), f"{what}: {k.__name__}.{name} was {want}, is {got!r}")
                elif name == "comments":
                    check_eq(str(got.value), want, f"{what}: comments")
                elif isinstance(want, (int, float)):
                    check(same_number(got, want), f"{what}: {k.__name__}.{name} was {want}, is {got!r}")
                else:
                    check_eq(str(got), str(getattr(k(**{name: want}), name)), f"{what}: {k.__name__}.{name}")
        for tid, tf, rs in stns:
            t = v.get_station(tid)
            attrs(t, tf, f"station {tid}", Station(id=tid))
            check_eq(sorted(t.run_list), sorted(r[0] for r in rs), f"{what}: runs of {tid}")
            check_eq(list(t.channels_recorded), sorted({c[1] for r in rs for c in r[2]}), f"{what}: channels recorded at {tid}")
            for rid, rf, chans in rs:
                r = t.get_run(rid)
                attrs(r, rf, f"run {rid}", Run(id=rid))
                check_eq(sorted(r.channels_recorded_all), sorted(c[1] for c in chans), f"{what}: channels of {tid} {rid}")
                for k, c, cf, applied in chans:
                    ch = r.get_channel(c)
                    check(type(ch) is k, f"{what}: channel {c} is a {type(ch).__name__}")
                    if xml:
                        place = "positive" if k is Electric else "location"
                        coords = [f"{place}.{n}" for n in ("latitude", "longitude", "elevation")]
                        ref = fill(k(component=c), cf)
                        where = [mg.flat_value(ref, n) for n in coords]
                        if where == [0, 0, 0]:
                            where = [mg.flat_value(t, f"location.{n}") for n in ("latitude", "longitude", "elevation")]
                        for n, want in zip(coords, where):
                            if want is not None:
                                check(mg.same_value(want, mg.flat_value(ch, n)), f"{what}: {n} of {c} was {want}, is {mg.flat_value(ch, n)}")
                        cf = {a: b for a, b in cf.items() if a not in coords}
                    attrs(ch, cf, f"channel {c}", k(component=c))
                    check_eq([(f.name, f.stage, f.applied) for f in ch.filters], [(n, j + 1, j % 2 == 0) for j, n in enumerate(applied)], f"{what}: filters of channel {c}")


def weight(spec):
    levels = any(s[1] for s in spec) + any(t[1] for s in spec for t in s[2]) + any(r[1] for s in spec for t in s[2] for r in t[2]) + any(c[2] for s in spec for t in s[2] for r in t[2] for c in r[2])
    arrays = any(isinstance(x, list) and x for s in spec for f in s[3] for x in f[1].values())
    return levels >= 2 or arrays


@C.given(surveys, st.sampled_from(["dict", "nested dict", "json", "json file", "json path"]), st.booleans(), quick=120, thorough=4000)
def dict_and_json(ctx, spec, how, required):
    """an experiment written as dictionary or JSON (text or file) and read back has the same surveys, stations, runs, channels, filters and attributes; writing does not change it"""
    e = build(spec)
    before = json.dumps(e.to_dict(), default=str, sort_keys=True)
    n = Experiment()
    if how == "dict":
        n.from_dict(e.to_dict(required=required))
    elif how == "nested dict":
        n.from_dict(e.to_dict(nested=True, required=required))
    elif how == "json":
        n.from_json(e.to_json(required=required))
    else:
        with tempfile.TemporaryDirectory() as d:
            fn = Path(d) / "e.json"
            e.to_json(fn, required=required, nested=True)
            json.loads(fn.read_text())
            n.from_json(fn if how == "json path" else str(fn))
    compare(n, spec, f"{how} required={required}", False)
    check_eq(json.dumps(e.to_dict(), default=str, sort_keys=True), before, "writing changed the experiment")
    if not weight(spec):
        ctx.trivial()
    ctx.tag(how)


@C.given(surveys, st.sampled_from(["element", "text", "file"]), st.booleans(), quick=60, thorough=1500)
def xml(ctx, spec, how, required):
    """the same for XML"""
    e = build(spec)
    n = Experiment()
    if how == "element":
        n.from_xml(element=e.to_xml(required=required))
    elif how == "text":
        n.from_xml(element=ET.fromstring(ET.tostring(e.to_xml(required=required))))
    else:
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "e.xml")
            e.to_xml(fn, required=required)
            n.from_xml(fn)
    compare(n, spec, f"xml {how} required={required}", True)
    if not weight(spec):
        ctx.trivial()
    ctx.tag(how)
