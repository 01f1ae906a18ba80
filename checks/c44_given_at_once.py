"""C44: items given to a container all at once, in any form."""
import copy
import json
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from mt_metadata.common.list_dict import ListDict
from mt_metadata.processing.aurora.decimation_level import DecimationLevel
from mt_metadata.processing.aurora.processing import Processing
from mt_metadata.processing.aurora.run import Run as AuroraRun
from mt_metadata.processing.aurora.station import Station as AuroraStation
from mt_metadata.processing.aurora.stations import Stations
from mt_metadata.processing.fourier_coefficients.decimation import Decimation
from mt_metadata.processing.fourier_coefficients.fc import FC
from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel
from mt_metadata.transfer_functions.io.emtfxml.metadata import Site
from mt_metadata.timeseries import Auxiliary, Electric, Experiment, Magnetic, Run, Station, Survey

from vp import metagen as mg
from vp.core import Check, check, check_eq, raises

C = Check("C44", rule="non-trivial: at least two items with attributes that were set, or items with items of their own")

SKIP = {
    Survey: ("time_period", "id", "northwest_corner", "southeast_corner"),
    Station: ("time_period", "id", "channels_recorded", "run_list"),
    Run: ("time_period", "id", "channels_recorded", "sample_rate"),
    Electric: ("time_period", "component", "type", "filter"),
    Magnetic: ("time_period", "component", "type", "filter"),
    Auxiliary: ("time_period", "component", "type", "filter"),
    FCChannel: ("time_period", "component"),
    Decimation: ("id", "channels_estimated", "time_period", "time_series_decimation.level"),
    DecimationLevel: ("decimation.level", "bands", "channel_weight_specs", "input_channels", "output_channels", "reference_channels"),
    AuroraStation: ("id", "runs", "remote", "mth5_path"),
    AuroraRun: ("id", "input_channels", "output_channels", "time_periods"),
}
NAMES = {
    Survey: ["sv1", "sv2", "cal"], Station: ["mt01", "mt02", "Z9"], Run: ["a", "b", "003"],
    Electric: ["ex", "ey", "e1"], Magnetic: ["hx", "hy", "bz"], Auxiliary: ["temperature", "battery", "wind"],
    FCChannel: ["ex", "hy", "rrhx"], Decimation: ["l0", "l1", "l2"], DecimationLevel: [0, 1, 2],
    AuroraStation: ["mt01", "mt02", "Z9"], AuroraRun: ["001", "b", "003"],
}
#: class, attribute, classes of the items, attribute of the name, the class of the items of items
CONTAINERS = {
    "experiment": (Experiment, "surveys", [Survey], "id"),
    "survey": (Survey, "stations", [Station], "id"),
    "station": (Station, "runs", [Run], "id"),
    "run": (Run, "channels", [Electric, Magnetic, Auxiliary], "component"),
    "coefficients": (FC, "levels", [Decimation], "id"),
    "decimation": (Decimation, "channels", [FCChannel], "component"),
    "processing": (Processing, "decimations", [DecimationLevel], "decimation.level"),
    "remotes": (Stations, "remote", [AuroraStation], "id"),
    "runs": (AuroraStation, "runs", [AuroraRun], "id"),
}
BELOW = {Survey: "survey", Station: "station", Run: "run", Decimation: "decimation", AuroraStation: "runs"}
#: those that are lists
LISTS = ("processing", "remotes", "runs")
FORMS = ["object", "dict", "single", "nested", "JSON"]


def fields(cls, most=3):
    if cls is AuroraStation:
        return st.fixed_dictionaries({}, optional={"mth5_path": st.sampled_from(["a.h5", "b/c d.h5"])})
    fs = {f: s for f, s in mg.usable_fields(cls).items() if not f.startswith(SKIP[cls])}
    return st.just({}) if not fs else st.lists(st.sampled_from(sorted(fs)), max_size=most, unique=True).flatmap(
        lambda sel: st.fixed_dictionaries({f: fs[f] for f in sel}))


def items_of(kind, depth=2, most=3):
    """[(class, name, attributes, items)]"""
    classes, out = CONTAINERS[kind][2], []
    for k in classes:
        below = items_of(BELOW[k], depth - 1, 2) if k in BELOW and depth > 0 else st.just([])
        out.append(st.tuples(st.just(k), st.sampled_from(NAMES[k]), fields(k), below))
    return st.lists(st.one_of(out), max_size=most, unique_by=lambda i: i[1])


def make(item):
    k, name, values, below = item
    o = k()
    for f, v in values.items():
        o.update_attribute(f, v)
    key = next(c for c in CONTAINERS.values() if k in c[2])[3]
    o.update_attribute(key, name)
    if k is FCChannel:
        # the name of the default units is the short one
        o.units = o.units
    if below:
        c = CONTAINERS[BELOW[k]]
        setattr(o, c[1], [make(i) for i in below])
    return o


def form(o, how):
    if how == "object":
        return o
    if how == "JSON":
        return json.loads(o.to_json())
    return o.to_dict(single=how == "single", nested=how == "nested")


def listed(x):
    return list(x.values()) if hasattr(x, "values") else list(x)


def compare(got, want, kind, what):
    """the objects of a container and those that were given"""
    key = CONTAINERS[kind][3]
    check_eq([mg.flat_value(o, key) for o in got], [mg.flat_value(o, key) for o in want], f"{what}: names")
    for a, b in zip(got, want):
        check(type(a) is type(b), f"{what}: a {type(b).__name__} became a {type(a).__name__}")
        k = type(b)
        skip = () if k not in BELOW else (CONTAINERS[BELOW[k]][1], "filters")
        x, y = ({n: v for n, v in mg.leaves(o).items() if n not in skip} for o in (a, b))
        if kind == "remotes":
            check_eq(a.remote, True, f"{what}: remote")
            x.pop("remote"), y.pop("remote")
        if y.get("mth5_path") == "":
            # no path reads back as the current one
            x.pop("mth5_path"), y.pop("mth5_path")
        check_eq(mg.diff(x, y), [], f"{what}: {k.__name__} {mg.flat_value(b, key)}")
        if k in BELOW:
            attr = CONTAINERS[BELOW[k]][1]
            compare(listed(getattr(a, attr)), listed(getattr(b, attr)), BELOW[k], f"{what}, {mg.flat_value(b, key)}")


cases = st.sampled_from(sorted(CONTAINERS)).flatmap(lambda kind: st.tuples(
    st.just(kind), items_of(kind), st.lists(st.sampled_from(FORMS), min_size=3, max_size=3),
    st.sampled_from(["list"] if kind in LISTS else ["list", "tuple", "dict", "OrderedDict", "ListDict"])))


@C.given(cases, st.sampled_from(["set", "constructor", "attribute", "from_dict"]), quick=500, thorough=8000)
def given(ctx, case, how):
    """what is given as objects or dictionaries in a list, a tuple or a mapping is there, in order, with all attributes and items, and found by its name"""
    kind, items, forms, shape = case
    cls, attr, _, key = CONTAINERS[kind]
    if how == "from_dict" and (kind == "experiment" or shape not in ("list", "tuple")):
        # dictionaries of dictionaries are flattened
        how = "set"
    # dictionaries of the time series do not have items
    if kind not in LISTS:
        items = [i if f == "object" else (*i[:3], []) for i, f in zip(items, forms)]
    objects = [make(i) for i in items]
    want = copy.deepcopy(objects)
    names = [i[1] for i in items]
    values = [form(o, f) for o, f in zip(objects, forms)]
    if shape in ("dict", "OrderedDict"):
        values = (dict if shape == "dict" else OrderedDict)(zip(map(str, names), values))
    elif shape == "tuple":
        values = tuple(values)
    elif shape == "ListDict":
        d = ListDict()
        for n, v in zip(names, values):
            d[str(n)] = v
        values = d
    if how == "constructor":
        c = cls(**{attr: values})
    else:
        c = cls()
        if how == "set":
            setattr(c, attr, values)
        elif how == "attribute":
            c.update_attribute(attr, values)
        else:
            c.from_dict({attr: values, "id": "x"} if kind in ("survey", "station", "run") else {attr: values})
    what = f"{kind} from {shape} of {forms[: len(items)]}"
    got = getattr(c, attr)
    compare(listed(got), want, kind, what)
    if kind not in LISTS:
        for n in names:
            check(mg.flat_value(got[n], key) == n, f"{what}: {n} is not found")
    # what was given can be used for something else
    if isinstance(values, list):
        values.clear()
    elif isinstance(values, dict):
        values.clear()
    check_eq(len(listed(getattr(c, attr))), len(items), f"{what}: after the list given was emptied")
    if len([i for i in items if i[2]]) < 2 and not any(i[3] for i in items):
        ctx.trivial()
    ctx.tag(kind, shape)


WRONG = {"number": 5, "none": None, "items that are numbers": [1, 2], "objects of another class": "other", "one wrong": "one"}


@C.given(st.sampled_from(sorted(set(CONTAINERS) - {"decimation"})).flatmap(lambda k: st.tuples(st.just(k), items_of(k, 1).filter(len))), st.sampled_from(sorted(WRONG)), st.booleans(), quick=120, thorough=2000)
def refused(ctx, case, wrong, fresh):
    """what is no container of such items is refused, also when only one item is wrong, and changes nothing"""
    kind, items = case
    cls, attr, classes, key = CONTAINERS[kind]
    other = Survey(id="a") if kind != "experiment" else Run(id="a")
    bad = WRONG[wrong]
    if bad == "other":
        bad = [other]
    elif bad == "one":
        bad = [make(items[0]), 3.5]
    if kind == "coefficients" and bad is None:
        ctx.trivial()
        return
    if fresh:
        raises((TypeError, ValueError), lambda: cls(**{attr: bad}), f"{kind}: {wrong}")
        return
    c = cls(**{attr: [make(i) for i in items]})
    raises((TypeError, ValueError), lambda: setattr(c, attr, bad), f"{kind}: {wrong}")
    compare(listed(getattr(c, attr)), [make(i) for i in items], kind, f"{kind} after {wrong} was refused")


#: class, attribute, names, what has them as items
TEXTS = {
    "country": (Survey, ["USA", "New Zealand", "Canada", "Australia"], None),
    "state": (Survey, ["CO", "New Mexico", "Alaska", "AZ"], None),
    "run_list": (Station, ["b", "a", "mt01_c", "003"], "runs"),
    "channels_estimated": (FC, ["ex", "hy", "rrhx", "hz"], None),
    "channels_of_a_level": (Decimation, ["ex", "hy", "rrhx", "hz"], "channels"),
    "decimation_levels": (FC, ["0", "1", "2", "3"], None),
    "processed_runs": (Site, ["mt01a", "mt01b", "b"], None),
    "channels_recorded_electric": (Run, ["ey", "ex", "e1"], "channels"),
    "channels_recorded_magnetic": (Run, ["hz", "hx", "bx"], "channels"),
    "channels_recorded_auxiliary": (Run, ["temperature", "battery", "wind"], "channels"),
}
GIVEN = {"text": ", ".join, "close": ",".join, "wide": " , ".join, "list": list, "tuple": tuple, "array": np.array}


@C.given(st.sampled_from(sorted(TEXTS)).flatmap(lambda k: st.tuples(st.just(k), st.lists(st.sampled_from(TEXTS[k][1]), min_size=1, max_size=4, unique=True))), st.sampled_from(sorted(GIVEN)), st.sampled_from(["new", "set", "dict"]), quick=80, thorough=1000)
def lists_of_names(ctx, kn, form, how):
    """a list of names given as one text, a list, a tuple or an array, to a new object, one that is there, or in a dictionary, is those names, in order, and there are items of these names"""
    k, names = kn
    cls, _, items = TEXTS[k]
    if form == "array" and items is None and cls is not FC:
        form = "list"
    if k == "processed_runs":
        k = "run_list"
        form, how = ("list" if form == "tuple" else form), ("set" if how == "dict" else how)
    if cls is Decimation:
        k, form = "channels_estimated", "list"
    v = GIVEN[form](names)
    if how == "new":
        o = cls(**{k: v})
    else:
        o = cls()
        if how == "set":
            setattr(o, k, v)
        else:
            o.from_dict({cls.__name__.lower(): {k: v}})
    what = f"{k} = {v!r} ({how})"
    got = getattr(o, k)
    if items is None:
        check_eq(got, names, what)
    else:
        check_eq(sorted(got), sorted(names), what)
        check_eq(sorted(getattr(o, items).keys()), sorted(names), f"{items} of {what}")
        if cls is Decimation:
            check_eq(list(o.channels.keys()), names, f"order of the channels of {what}")
        if items == "runs" or cls is Decimation:
            check_eq(got, names, f"order of {what}")
    d = o.to_dict(single=True)
    if k in d:
        check_eq(list(d[k]), list(got), f"dictionary of {what}")
    if len(names) < 2:
        ctx.trivial()
    ctx.tag(k, form)
