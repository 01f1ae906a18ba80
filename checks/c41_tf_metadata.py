"""C41: the survey, station and run given to a transfer function are what it holds."""
import os
import pathlib
import tempfile
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Electric, Magnetic, Run, Survey
from mt_metadata.timeseries import Station as TSStation
from mt_metadata.transfer_functions.core import TF, TFError
from mt_metadata.transfer_functions.tf import Station

from vp import metagen
from vp.core import Check, check, check_eq, raises

C = Check("C41", rule="non-trivial: at least two pieces of metadata are given one after the other")

STATIONS, RUNS, COMPS = ["mt01", "mt02", "x"], ["a", "b", "003"], ["ex", "ey", "hx", "hy", "hz"]
DERIVED = ("runs", "run_list", "channels_recorded", "time_period", "stations", "filters", "id", "northwest_corner", "southeast_corner", "channels", "provenance.creation_time")
NOTHING = (None, 0, 0.0, "", [], "null", "None", "NONE", "NULL", "Null", "none", "1980-01-01T00:00:00", "1980-01-01T00:00:00+00:00")


def own(spec):
    """what is given to an object itself"""
    n, f = spec
    return n, {k: v for k, v in f.items() if not k.startswith(DERIVED)}


run = st.tuples(st.sampled_from(RUNS), st.lists(st.sampled_from(COMPS), unique=True, max_size=4), metagen.object_specs([Run], 4))
station = st.tuples(st.sampled_from(STATIONS), st.lists(run, max_size=2, unique_by=lambda r: r[0]), metagen.object_specs([Station], 4))
survey = st.tuples(st.sampled_from(["s1", "s2"]), st.lists(station, max_size=2, unique_by=lambda s: s[0]), metagen.object_specs([Survey], 4))
forms = st.sampled_from(["object", "object", "dict", "bare"])
op = st.one_of(
    st.tuples(st.just("run"), forms, run),
    st.tuples(st.just("station"), forms, station),
    st.tuples(st.just("survey"), forms, survey),
)


def make_run(s):
    o = metagen.build(own(s[2]))
    o.id = s[0]
    for c in s[1]:
        o.add_channel((Electric if c[0] == "e" else Magnetic)(component=c))
    return o


def make_station(s):
    o = metagen.build(own(s[2]))
    o.id = s[0]
    for r in s[1]:
        o.add_run(make_run(r))
    return o


def make_survey(s):
    o = metagen.build(own(s[2]))
    o.id = s[0]
    for x in s[1]:
        o.add_station(make_station(x))
    return o


MAKE = {"run": make_run, "station": make_station, "survey": make_survey}


def given(o, form):
    if form == "object":
        return o
    d = o.to_dict()
    return d if form == "dict" else d[next(iter(d))]


def facts(o):
    """what the object itself says"""
    return {k: v for k, v in metagen.leaves(o).items() if not k.startswith(DERIVED)}


def same(got, want, what):
    d = metagen.diff(facts(got), want)
    check(not d, f"{what}: {d[:3]}")


@C.given(st.lists(op, min_size=1, max_size=4), quick=100, thorough=4000)
def histories(ctx, ops):
    """through any history of giving surveys, stations and runs, as objects or dictionaries: what was given last is there, first, as given; runs and survey given before are kept"""
    tf = TF()
    held = OrderedDict()  # runs of the station
    sid, fixed = "0", None
    surv = "0"
    several = False
    for k, (level, form, spec) in enumerate(ops):
        o = MAKE[level](spec)
        want = facts(o)
        what = f"{k + 1}: {level} as {form}"
        first = (tf.station_metadata.runs.keys() or ["0"])[0]
        setattr(tf, f"{level}_metadata", given(o, form))
        setattr(tf, f"{level}_metadata", None)
        sm = tf.station_metadata
        if level == "run":
            check_eq(tf.run_metadata.id, spec[0], f"{what}: run")
            same(tf.run_metadata, want, what)
            check_eq(sorted(tf.run_metadata.channels.keys()), sorted(spec[1]), f"{what}: channels")
            old = held
            held = OrderedDict({spec[0]: (want, spec[1])})
            held |= {i: r for i, r in old.items() if i != spec[0]}
            check_eq(list(sm.runs.keys()), list(held), f"{what}: runs")
            check_eq((sm.id, tf.survey), (sid, surv), f"{what}: station and survey")
        elif level == "station":
            check_eq((sm.id, tf.survey, tf.survey_metadata.station_names), (spec[0], surv, [spec[0]]), f"{what}: station, survey, stations")
            same(sm, want, what)
            sid = spec[0]
            new = OrderedDict()
            if first in held:
                # the first run is the one that was given; none when it stands for none (the station of a survey was given with none before)
                new[first] = held[first]
            held = new | {r[0]: (facts(make_run(r)), r[1] if form == "object" else sm.runs[r[0]].channels.keys()) for r in spec[1]}
            if form != "object":
                held = OrderedDict((i, (facts(sm.runs[i]), r[1])) for i, r in held.items() if i in sm.runs.keys())
            check_eq(list(sm.runs.keys()), list(held) or ["0"], f"{what}: runs")
        else:
            check_eq(tf.survey, spec[0], f"{what}: survey")
            surv = spec[0]
            told = {k: v for k, v in own(spec[2])[1].items() if metagen.flat_value(o, k) not in NOTHING}
            for key in told:
                g = metagen.flat_value(tf.survey_metadata, key)
                check(metagen.same_value(g, metagen.flat_value(o, key)), f"{what}: {key} is {g!r}, expected {metagen.flat_value(o, key)!r}")
            if form == "object" and spec[1]:
                there = set(tf.survey_metadata.station_names)
                check({s[0] for s in spec[1]} <= there, f"{what}: stations {there}")
                for s in spec[1]:
                    x = tf.survey_metadata.stations[s[0]]
                    check({r[0] for r in s[1]} <= set(x.runs.keys()), f"{what}: runs {x.runs.keys()} of {s[0]}")
                check(("0" in there) == (sid == "0" and not spec[1]), f"{what}: stations {there}, the one that stood for none is there")
            if sid != "0":
                check_eq(sm.id, sid, f"{what}: station")
            elif form == "object" and spec[1]:
                sid = spec[1][0][0]
                check_eq(sm.id, sid, f"{what}: station")
            held = OrderedDict((i, (facts(sm.runs[i]), list(sm.runs[i].channels.keys()))) for i in sm.runs.keys() if i != "0")
        for i, (f, chans) in held.items():
            same(tf.station_metadata.runs[i], f, f"{what}: run {i}")
            check(set(chans) <= set(tf.station_metadata.runs[i].channels.keys()), f"{what}: channels of run {i}: {tf.station_metadata.runs[i].channels.keys()}, expected {chans}")
    if len(ops) < 2:
        ctx.trivial()
    ctx.tag(*[f"{o[0]} {o[1]}" for o in ops])


@C.given(st.sampled_from(["run", "station", "survey"]), st.sampled_from(["number", "text", "list", "other", "time series"]), op, quick=60, thorough=1000)
def refused(ctx, level, bad, before):
    """metadata of another type are refused with TypeError and change nothing"""
    tf = TF()
    setattr(tf, f"{before[0]}_metadata", MAKE[before[0]](before[2]))
    was = tf.copy()
    x = {"number": 5, "text": "mt01", "list": [Run(id="a")], "other": {"run": Survey(id="q"), "station": Run(id="q"), "survey": Station(id="q")}[level], "time series": TSStation(id="q") if level != "survey" else TSStation(id="q")}[bad]
    raises(TypeError, lambda: setattr(tf, f"{level}_metadata", x), f"{level} given as {type(x).__name__}")
    check(tf == was, f"{level} given as {type(x).__name__} changed something")
    if before[0] == level:
        ctx.trivial()


text = st.text("abcXYZ019_", min_size=1, max_size=8)


@C.given(st.permutations(["station", "survey", "latitude", "longitude", "elevation", "tf_id"]), st.integers(0, 6), text, text, st.integers(-80, 80), st.integers(-170, 170), st.integers(0, 4000), st.booleans(), quick=60, thorough=1000)
def short_cuts(ctx, order, n, station, survey, lat, lon, elev, at_once):
    """station, survey, place and id given as attributes, in any order, at once or one by one, are those of the metadata and of the dataset, and of the time series station made of it"""
    v = {"station": station, "survey": survey, "latitude": float(lat), "longitude": float(lon), "elevation": float(elev), "tf_id": text and station + "b"}
    kw = {k: v[k] for k in order[:n]}
    if at_once:
        tf = TF(period=np.array([1.0]), **kw)
    else:
        tf = TF()
        for k, x in kw.items():
            setattr(tf, k, x)
    default = TF()
    for k in v:
        check_eq(getattr(tf, k), kw.get(k, getattr(default, k)), k)
    m = tf.station_metadata
    check_eq((m.id, tf.survey_metadata.id, m.location.latitude, m.location.longitude, m.location.elevation, m.transfer_function.id), tuple(getattr(tf, k) for k in ("station", "survey", "latitude", "longitude", "elevation", "tf_id")), "metadata")
    t = tf.to_ts_station_metadata()
    check_eq((t.id, t.location.latitude, t.location.longitude, t.location.elevation), (tf.station, tf.latitude, tf.longitude, tf.elevation), "station of time series")
    s, r = str(tf), repr(tf)
    for x in (tf.station, tf.survey, f"{tf.latitude:.2f}", f"{tf.longitude:.2f}"):
        check(x in s and x in r, f"{x} is not in {s!r}, {r!r}")
    tf.survey = None
    check(tf.survey not in (None, ""), f"survey {tf.survey!r}")
    if n < 2:
        ctx.trivial()


def flat(o):
    return {k.split(".", 1)[-1] if k.startswith("station.") else k: v for k, v in facts(o).items() if not k.startswith("transfer_function")}


def said(k, d):
    """a comment is one value of a dictionary"""
    return k in d or ".comments." in "." + k and k.rsplit(".", 1)[0] in d


@C.given(st.tuples(st.sampled_from(STATIONS), st.just([]), metagen.object_specs([Station], 5)), st.tuples(st.sampled_from(STATIONS), metagen.object_specs([TSStation], 6)), quick=80, thorough=3000)
def time_series(ctx, before, spec):
    """a station of time series given to a transfer function is its station, attribute by attribute, also where they are zero; what the other has not stays, and the station given back is that of the transfer function"""
    tf = TF()
    tf.station_metadata = make_station(before)
    old = flat(tf.station_metadata)
    s = metagen.build(own(spec[1]))
    s.id = spec[0]
    d = s.to_dict(single=True)
    want = flat(s)
    tf.from_ts_station_metadata(s)
    check_eq(tf.station, spec[0], "station")
    got = flat(tf.station_metadata)
    for k, v in want.items():
        if k in got and k not in ("type",):
            expected = v if said(k, d) else old[k]
            check(metagen.same_value(got[k], expected), f"{k} is {got[k]!r}, expected {expected!r}")
    check_eq(flat(s), want, "the station given")
    back = tf.to_ts_station_metadata()
    check(type(back) is TSStation, f"{type(back)}")
    check_eq(back.id, spec[0], "station given back")
    there = tf.station_metadata.to_dict(single=True)
    new = flat(TSStation())
    for k, v in flat(back).items():
        if k in got:
            expected = got[k] if said(k, there) else new[k]
            check(metagen.same_value(v, expected), f"{k} given back is {v!r}, expected {expected!r}")
    if len(spec[1][1]) < 2 or not before[2][1]:
        ctx.trivial()


base = st.text("abcXYZ019_", min_size=1, max_size=8)


@C.given(base, st.one_of(st.none(), base), st.sampled_from(["edi", "xml", "avg", "emtfxml"]), st.sampled_from(["fn", "fn upper", "dir", "dir name", "dir name.ext", "attribute", "none"]), quick=50, thorough=600)
def file_names(ctx, station, name, kind, how):
    """a transfer function is written to the file asked for: a path, a name with or without extension in a folder, or the name of the station; the object returned is of the format, and the file reads back"""
    station = "m" + station.replace("_", "")
    tf = TF(period=np.array([1.0, 10.0]))
    tf.impedance = np.full((2, 2, 2), 1 + 2j)
    tf.station = station
    name = name or "other"
    with tempfile.TemporaryDirectory() as tmp:
        d = pathlib.Path(tmp)
        if how in ("fn", "fn upper"):
            kind = kind if kind != "emtfxml" else "xml"
            fn = d / f"{name}.{kind.upper() if how == 'fn upper' else kind}"
            o = tf.write(str(fn) if len(name) % 2 else fn)
        elif how == "dir":
            fn = d / f"{station}.{kind}"
            o = tf.write(save_dir=d, file_type=kind)
        elif how == "dir name":
            fn = d / f"{name}.{kind}"
            o = tf.write(save_dir=str(d), fn_basename=name, file_type=kind)
        elif how == "dir name.ext":
            fn = d / f"{name}.{kind}"
            o = tf.write(save_dir=d, fn_basename=f"{name}.{kind}", file_type=kind)
        elif how == "attribute":
            fn = d / f"{station}.{kind}"
            tf.save_dir = d
            o = tf.write(file_type=kind)
        else:
            kind = "edi"
            fn = d / f"{station}.edi"
            here = os.getcwd()
            os.chdir(d)
            try:
                t = TF(period=np.array([1.0, 10.0]))
                t.impedance, t.station = np.full((2, 2, 2), 1 + 2j), station
                o = t.write()
            finally:
                os.chdir(here)
        check_eq(sorted(p.name for p in d.iterdir()), [fn.name], f"files written ({how})")
        check_eq(type(o).__name__, {"edi": "EDI", "xml": "EMTFXML", "emtfxml": "EMTFXML", "avg": "ZongeMTAvg"}[kind], "type of the object")
        check_eq(pathlib.Path(o.fn), fn, "file of the object")
        r = TF(fn)
        check_eq(r.fn, fn, "file to be read")
        r.read()
        check_eq(r.station, station.lower() if kind == "avg" else station, "station")
        check(np.allclose(r.impedance.data, 1 + 2j, rtol=1e-3), f"impedance {r.impedance}")
        # the folder of what was read is where it is written next
        r.station = station + "2"
        r.write(file_type="edi")
        check_eq(sorted(p.name for p in d.iterdir()), sorted([fn.name, f"{station}2.edi"]), "files after writing again")
        raises(TFError, lambda: tf.write(save_dir=d, fn_basename="q", file_type="txt"), "a format that is not known")
        check_eq(len(list(d.iterdir())), 2, "files after refusing")
        raises((OSError, NameError), lambda: TF(d / f"none.{kind}").read(), "a file that is not there")
    ctx.tag(kind, how)
