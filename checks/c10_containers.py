"""C10: the survey / station / run / channel tree through any history of edits (model based)."""
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Auxiliary, Electric, Experiment, Magnetic, Run, Station, Survey
from mt_metadata.timeseries.filters import CoefficientFilter, PoleZeroFilter

from vp.core import Check, check, check_eq

C = Check("C10", rule="non-trivial: at some point a station held two or more runs with channels and something was added to or removed from an object that was not empty")

SURVEYS = ["sv_b", "sv_a"]
STATIONS = ["mt02", "mt01", "mt10"]
RUNS = ["b", "a", "sr1_001"]
COMPS = ["ex", "ey", "hx", "hy", "hz", "bx", "e1", "temperature", "battery", "voltage"]
FILTERS = ["gain", "lowpass", "dip"]

comp = st.sampled_from(COMPS)
azimuth = st.integers(0, 9)  # 0: not given
channels = st.lists(st.tuples(comp, azimuth), max_size=4, unique_by=lambda t: t[0])
run_spec = st.tuples(st.sampled_from(RUNS), channels, st.sampled_from(["add", "list", "dict", "recorded"]), azimuth)
station_spec = st.tuples(st.sampled_from(STATIONS), st.lists(run_spec, max_size=3, unique_by=lambda t: t[0]), st.sampled_from(["add", "list", "dict"]), azimuth)
survey_spec = st.tuples(st.sampled_from(SURVEYS), st.lists(station_spec, max_size=3, unique_by=lambda t: t[0]), st.sets(st.sampled_from(FILTERS)), st.sampled_from(["add", "list"]))
start_station = st.tuples(st.sampled_from(STATIONS), st.lists(st.tuples(st.sampled_from(RUNS), st.lists(st.tuples(comp, azimuth), min_size=1, max_size=4, unique_by=lambda t: t[0]), st.sampled_from(["add", "list", "dict", "recorded"]), azimuth), min_size=2, max_size=3, unique_by=lambda t: t[0]), st.sampled_from(["add", "list", "dict"]), azimuth)
start_survey = st.one_of(survey_spec, *[st.tuples(st.sampled_from(SURVEYS), st.lists(start_station, min_size=1, max_size=2, unique_by=lambda t: t[0]), st.sets(st.sampled_from(FILTERS)), st.sampled_from(["add", "list"]))] * 3)
at = st.tuples(*[st.integers(0, 5)] * 3)


def kind(c):
    return Electric if c[0] == "e" else Magnetic if c[0] in "hb" and c != "battery" else Auxiliary


def make_channel(spec):
    c, az = spec
    ch = kind(c)(component=c)
    if az:
        ch.measurement_azimuth = az
    return ch


def listed(names, form):
    """a list of names, in a form it may be given in"""
    return [list, tuple, ", ".join, np.array, ",".join][form % 5](names) if names else [[], None, "None"][form % 3]


def make_run(spec):
    name, chans, how, geo = spec
    if how == "list":
        r = Run(id=name, channels=[make_channel(c) for c in chans])
    elif how == "dict":
        r = Run(id=name, channels=OrderedDict((c[0], make_channel(c)) for c in chans))
    elif how == "recorded":
        r = Run(id=name)
        for k, attr in ((Electric, "electric"), (Magnetic, "magnetic"), (Auxiliary, "auxiliary")):
            setattr(r, f"channels_recorded_{attr}", listed([c for c, _ in chans if kind(c) is k], geo))
        for c, az in chans:
            if az:
                r.get_channel(c).measurement_azimuth = az
    else:
        r = Run(id=name)
        for c in chans:
            r.add_channel(make_channel(c))
    if geo:
        r.sample_rate = geo
    return r


def model_run(spec):
    name, chans, how, geo = spec
    if how == "recorded":
        chans = [c for k in (Electric, Magnetic, Auxiliary) for c in chans if kind(c[0]) is k]
    return {"rate": geo, "ch": OrderedDict((c, az) for c, az in chans)}


def make_station(spec):
    name, runs, how, lat = spec
    if how == "list":
        s = Station(id=name, runs=[make_run(r) for r in runs])
    elif how == "dict":
        s = Station(id=name, runs={r[0]: make_run(r) for r in runs})
    else:
        s = Station(id=name)
        for r in runs:
            s.add_run(make_run(r))
    if lat:
        s.location.latitude = lat
    return s


def model_station(spec):
    name, runs, how, lat = spec
    return {"lat": lat, "runs": OrderedDict((r[0], model_run(r)) for r in runs), "stale": False}


def make_filter(name):
    return PoleZeroFilter(name=name, normalization_factor=2) if name == "lowpass" else CoefficientFilter(name=name, gain=3)


def make_survey(spec):
    name, stations, filters, how = spec
    if how == "list":
        s = Survey(id=name, stations=[make_station(x) for x in stations])
    else:
        s = Survey(id=name)
        for x in stations:
            s.add_station(make_station(x))
    s.filters.update({f: make_filter(f) for f in sorted(filters)})
    return s


def model_survey(spec):
    name, stations, filters, how = spec
    return {"st": OrderedDict((x[0], model_station(x)) for x in stations), "f": set(filters)}


def merge_run(old, new):
    if new["rate"]:
        old["rate"] = new["rate"]
    for c, az in new["ch"].items():
        old["ch"][c] = az or old["ch"].get(c, 0)


def merge_station(old, new):
    if new["lat"]:
        old["lat"] = new["lat"]
    for k, r in new["runs"].items():
        if k in old["runs"]:
            merge_run(old["runs"][k], r)
        else:
            old["runs"][k] = r
    old["stale"] = False


def merge_survey(old, new):
    for k, s in new["st"].items():
        if k in old["st"]:
            merge_station(old["st"][k], s)
        else:
            old["st"][k] = s
    old["f"] |= new["f"]


def same_run(r, m, what):
    keys = list(m["ch"])
    check_eq(sorted(r.channels.keys()), sorted(keys), f"{what}: channels")
    check_eq(r.n_channels, len(keys), f"{what}: n_channels")
    for k, attr in ((Electric, "electric"), (Magnetic, "magnetic"), (Auxiliary, "auxiliary")):
        check_eq(list(getattr(r, f"channels_recorded_{attr}")), sorted(c for c in keys if kind(c) is k), f"{what}: channels_recorded_{attr}")
    check_eq(sorted(r.channels_recorded_all), sorted(keys), f"{what}: channels_recorded_all")
    for c in COMPS:
        check_eq(r.has_channel(c), c in keys, f"{what}: has_channel({c!r})")
        g = r.get_channel(c)
        i = r.channel_index(c)
        if c in keys:
            check(isinstance(g, kind(c)) and g.component == c, f"{what}: get_channel({c!r}) gave {type(g).__name__} {getattr(g, 'component', None)!r}")
            check_eq(float(g.measurement_azimuth or 0), float(m["ch"][c]), f"{what}: azimuth of {c}")
            check_eq(r.channels_recorded_all[i], c, f"{what}: channel_index({c!r})")
        else:
            check(g is None and i is None, f"{what}: {c!r} is not there but was found")
    check_eq(float(r.sample_rate or 0), float(m["rate"]), f"{what}: sample rate")


def same_station(s, m, what):
    keys = list(m["runs"])
    check_eq(list(s.runs.keys()), keys, f"{what}: runs")
    check_eq(list(s.run_list), keys, f"{what}: run_list")
    check_eq(s.n_runs, len(keys), f"{what}: n_runs")
    for k in RUNS:
        check_eq(s.has_run(k), k in keys, f"{what}: has_run({k!r})")
        check_eq(s.run_index(k), keys.index(k) if k in keys else None, f"{what}: run_index({k!r})")
        g = s.get_run(k)
        if k in keys:
            check(g.id == k, f"{what}: get_run({k!r}) gave {g.id!r}")
            same_run(g, m["runs"][k], f"{what}, run {k}")
        else:
            check(g is None, f"{what}: get_run({k!r}) of a missing run gave something")
    if not m["stale"]:
        check_eq(list(s.channels_recorded), sorted({c for r in m["runs"].values() for c in r["ch"]}), f"{what}: channels_recorded")
    check_eq(float(s.location.latitude or 0), float(m["lat"]), f"{what}: latitude")


def same_survey(v, m, what):
    keys = list(m["st"])
    check_eq(list(v.station_names), keys, f"{what}: station_names")
    check_eq(v.n_stations, len(keys), f"{what}: n_stations")
    check_eq(sorted(v.filter_names), sorted(m["f"]), f"{what}: filter_names")
    for k in STATIONS:
        check_eq(v.has_station(k), k in keys, f"{what}: has_station({k!r})")
        check_eq(v.station_index(k), keys.index(k) if k in keys else None, f"{what}: station_index({k!r})")
        g = v.get_station(k)
        if k in keys:
            check(g.id == k, f"{what}: get_station({k!r}) gave {g.id!r}")
            same_station(g, m["st"][k], f"{what}, station {k}")
        else:
            check(g is None, f"{what}: get_station({k!r}) of a missing station gave something")


def same(e, m, what):
    keys = list(m)
    check_eq(list(e.survey_names), keys, f"{what}: survey_names")
    check_eq(e.n_surveys, len(keys), f"{what}: n_surveys")
    for k in SURVEYS:
        check_eq(e.has_survey(k), k in keys, f"{what}: has_survey({k!r})")
        check_eq(e.survey_index(k), keys.index(k) if k in keys else None, f"{what}: survey_index({k!r})")
        g = e.get_survey(k)
        if k in keys:
            check(g.id == k, f"{what}: get_survey({k!r}) gave {g.id!r}")
            same_survey(g, m[k], f"{what}, survey {k}")
        else:
            check(g is None, f"{what}: get_survey({k!r}) of a missing survey gave something")


ops = st.one_of(
    st.tuples(st.just("add_survey"), survey_spec),
    st.tuples(st.just("add_station"), at, station_spec),
    st.tuples(st.just("add_station"), at, station_spec),
    st.tuples(st.just("add_run"), at, run_spec),
    st.tuples(st.just("add_run"), at, run_spec),
    st.tuples(st.just("add_channel"), at, st.tuples(comp, azimuth), st.sampled_from(["object", "dict", "typed dict", "text"])),
    st.tuples(st.just("add_channel"), at, st.tuples(comp, azimuth), st.sampled_from(["object", "dict", "typed dict", "text"])),
    st.tuples(st.just("remove_survey"), st.sampled_from(SURVEYS)),
    st.tuples(st.just("remove_station"), at, st.sampled_from(STATIONS)),
    st.tuples(st.just("remove_run"), at, st.sampled_from(RUNS)),
    st.tuples(st.just("remove_channel"), at, comp),
    st.tuples(st.just("merge"), at, survey_spec),
    st.tuples(st.just("merge_survey"), at, survey_spec),
    st.tuples(st.just("merge_station"), at, station_spec),
    st.tuples(st.just("merge_run"), at, run_spec),
    st.tuples(st.just("more_runs"), at, st.lists(st.sampled_from(RUNS), min_size=1, max_size=3, unique=True)),
    st.tuples(st.just("more_channels"), at, st.lists(comp, min_size=1, max_size=3, unique=True)),
    st.tuples(st.just("touch"), at),
    st.tuples(st.just("wrong"), at, st.sampled_from(["survey", "station", "run", "channel", "merge"]), st.sampled_from(["object", "none", "number", "other level"])),
    st.tuples(st.just("sort"), st.booleans()),
)


def raises(fn, what):
    try:
        fn()
    except (TypeError, ValueError):
        return
    check(False, f"{what} was accepted")


def pick(model, e, where, depth):
    """the object at a position of the tree, or None"""
    out = []
    m, o = model, e
    for level in range(depth):
        keys = list(m)
        if not keys:
            return None
        k = keys[where[level] % len(keys)]
        if level == 0:
            o, mm = e.get_survey(k), m[k]
            m = mm["st"]
        elif level == 1:
            o, mm = o.get_station(k), m[k]
            m = mm["runs"]
        else:
            o, mm = o.get_run(k), m[k]
        out.append((o, mm))
    return out


@C.given(start_survey, st.lists(ops, min_size=1, max_size=9), quick=300, thorough=8000, budget=90)
def history(ctx, start, steps):
    """any history of adding, removing, merging, sorting and declaring leaves the tree equal to nested ordered mappings, with every summary derived from it"""
    e = Experiment()
    e.add_survey(make_survey(start))
    model = OrderedDict([(start[0], model_survey(start))])
    same(e, model, "new")
    rich = changed = False
    for op in steps:
        name, what = op[0], repr(op)
        if name == "add_survey":
            e.add_survey(make_survey(op[1]))
            new = model_survey(op[1])
            if op[1][0] in model:
                merge_survey(model[op[1][0]], new)
                changed = True
            else:
                model[op[1][0]] = new
        elif name == "remove_survey":
            e.remove_survey(op[1])
            model.pop(op[1], None)
        elif name == "merge":
            x = Experiment()
            x.add_survey(make_survey(op[2]))
            check(e.merge(x) is e, "merge returns the experiment")
            model[op[2][0]] = model_survey(op[2])
        elif name == "sort":
            if op[1]:
                e.sort()
                t = e
            else:
                t = e.sort(inplace=False)
                check(t is not e, "sort(inplace=False) returned the experiment itself")
            want = OrderedDict()
            for k in sorted(model):
                v = want[k] = {"f": model[k]["f"], "st": OrderedDict()}
                for j in sorted(model[k]["st"]):
                    s = model[k]["st"][j]
                    v["st"][j] = {"lat": s["lat"], "stale": True, "runs": OrderedDict()}
                    for i in sorted(s["runs"]):
                        r = s["runs"][i]
                        v["st"][j]["runs"][i] = {"rate": r["rate"], "ch": OrderedDict(sorted(r["ch"].items()))}
            for v in t.surveys:
                for s in v.stations:
                    s.update_all()
                    for r in s.runs:
                        check_eq(list(r.channels.keys()), sorted(r.channels.keys()), f"{what}: order of channels")
            same(t, want, what)
            if op[1]:
                for k in want:
                    for j in want[k]["st"]:
                        want[k]["st"][j]["stale"] = False
                model = want
            changed = True
        elif name == "wrong":
            p = pick(model, e, op[1], 3)
            if p:
                (v, _), (s, _), (r, _) = p
                bad = {"object": object(), "none": None, "number": 3.5}
                low = {"survey": (e.add_survey, s), "station": (v.add_station, r), "run": (s.add_run, v), "channel": (r.add_channel, s)}
                if op[2] == "merge":
                    raises(lambda: e.merge(v), what)
                    raises(lambda: v.merge(s), what)
                    raises(lambda: s.merge(r), what)
                    raises(lambda: r.merge(e), what)
                else:
                    fn, other = low[op[2]]
                    raises(lambda: fn(bad.get(op[3], other)), what)
        else:
            depth = {"add_station": 1, "remove_station": 1, "merge_survey": 1, "add_run": 2, "remove_run": 2, "merge_station": 2, "more_runs": 2, "touch": 2}.get(name, 3)
            p = pick(model, e, op[1], depth)
            if not p:
                continue
            o, m = p[-1]
            if name == "add_station":
                o.add_station(make_station(op[2]))
                new = model_station(op[2])
                if op[2][0] in m["st"]:
                    merge_station(m["st"][op[2][0]], new)
                    changed = True
                else:
                    m["st"][op[2][0]] = new
            elif name == "remove_station":
                o.remove_station(op[2])
                changed = changed or op[2] in m["st"]
                m["st"].pop(op[2], None)
            elif name == "merge_survey":
                o.merge(make_survey(op[2]), inplace=True)
                m["st"].update(model_survey(op[2])["st"])
            elif name == "add_run":
                o.add_run(make_run(op[2]))
                new = model_run(op[2])
                if op[2][0] in m["runs"]:
                    merge_run(m["runs"][op[2][0]], new)
                    changed = True
                else:
                    m["runs"][op[2][0]] = new
                m["stale"] = False
            elif name == "remove_run":
                o.remove_run(op[2])
                if op[2] in m["runs"]:
                    del m["runs"][op[2]]
                    m["stale"] = False
                    changed = True
            elif name == "merge_station":
                o.merge(make_station(op[2]), inplace=True)
                m["runs"].update(model_station(op[2])["runs"])
                m["stale"] = False
            elif name == "more_runs":
                names = list(m["runs"]) + [r for r in op[2] if r not in m["runs"]]
                if len(names) > len(m["runs"]):
                    o.run_list = names
                    for r in names:
                        m["runs"].setdefault(r, {"rate": 0, "ch": OrderedDict()})
                    m["stale"] = False
            elif name == "touch":
                o.data_type = "LPMT"
                o.geographic_name = "somewhere"
                m["stale"] = False
            elif name == "add_channel":
                c, az = op[2]
                if op[3] == "text":
                    az = 0
                    o.add_channel(c)
                elif op[3] == "object":
                    o.add_channel(make_channel(op[2]))
                else:
                    d = {"component": c}
                    if az:
                        d["measurement_azimuth"] = az
                    if op[3] == "typed dict" or c == "battery":
                        d["type"] = {Electric: "electric", Magnetic: "magnetic", Auxiliary: "auxiliary"}[kind(c)]
                    o.add_channel(d)
                if op[3] == "text" and c == "battery":
                    # a text that starts with b is a magnetic channel: take it away again
                    if c not in m["ch"]:
                        o.remove_channel(c)
                else:
                    m["ch"][c] = az or m["ch"].get(c, 0)
                p[1][1]["stale"] = True
                changed = True
            elif name == "remove_channel":
                o.remove_channel(op[2])
                if op[2] in m["ch"]:
                    del m["ch"][op[2]]
                    p[1][1]["stale"] = True
                    changed = True
            elif name == "merge_run":
                o.merge(make_run(op[2]), inplace=True)
                m["ch"].update(model_run(op[2])["ch"])
                p[1][1]["stale"] = True
            elif name == "more_channels":
                for k, attr in ((Electric, "electric"), (Magnetic, "magnetic"), (Auxiliary, "auxiliary")):
                    names = [c for c in m["ch"] if kind(c) is k] + [c for c in op[2] if kind(c) is k and c not in m["ch"]]
                    setattr(o, f"channels_recorded_{attr}", sorted(names))
                    for c in names:
                        m["ch"].setdefault(c, 0)
                p[1][1]["stale"] = True
        same(e, model, what)
        rich = rich or any(sum(bool(r["ch"]) for r in s["runs"].values()) > 1 for v in model.values() for s in v["st"].values())
        ctx.tag(name)
    if not (rich and changed):
        ctx.trivial()


@C.given(st.lists(st.tuples(st.sampled_from(STATIONS + RUNS), st.sampled_from(["x1", "x2", "x3"])), min_size=1, max_size=3, unique_by=(lambda t: t[0], lambda t: t[1])), st.sampled_from(["station", "run", "channel"]), quick=150, thorough=2000)
def renamed_items(ctx, names, level):
    """after an item is renamed, updating the keys makes it found under the new name and no longer under the old one, in its place"""
    box, items, fix, get = {
        "station": lambda: (Survey(id="a"), [Station(id=n) for n, _ in names], "update_station_keys", "get_station"),
        "run": lambda: (Station(id="a"), [Run(id=n) for n, _ in names], "update_run_keys", "get_run"),
        "channel": lambda: (Run(id="a"), [Electric(component=f"e{i}") for i in range(len(names))], "update_channel_keys", "get_channel"),
    }[level]()
    attr = "component" if level == "channel" else "id"
    for x in items:
        getattr(box, f"add_{level}")(x)
    old = [getattr(x, attr) for x in items]
    new = [(f"ee{i}" if level == "channel" else n) for i, (_, n) in enumerate(names)]
    renamed = [i % 2 == 0 for i in range(len(items))]
    for x, n, yes in zip(items, new, renamed):
        if yes:
            setattr(x, attr, n)
    got = getattr(box, fix)()
    check_eq(got, {o: n for o, n, yes in zip(old, new, renamed) if yes}, "mapping of old to new names")
    want = [n if yes else o for o, n, yes in zip(old, new, renamed)]
    listdict = getattr(box, level + "s")
    check_eq(list(listdict.keys()), want, "keys")
    for k, x in zip(want, items):
        check(listdict[k] is x, f"{k} is another object")
    ctx.tag(level)
