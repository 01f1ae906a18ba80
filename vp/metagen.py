"""
Generic generators for metadata objects.

Every MetadataBase subclass of the package is discovered by walking the package.
``fields_of(cls)`` lists its leaf fields (dotted names) with a value strategy derived from the declared
annotation; ``leaves(obj)`` reads the observable value of every leaf, independent of the library's own
``==``.
"""
import datetime as dt
import enum
import importlib
import pkgutil
import re
import string
import types
import typing
from pathlib import Path
from typing import Annotated, get_args, get_origin

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pydantic import BaseModel

import mt_metadata
from mt_metadata.base import MetadataBase
from mt_metadata.common import ListDict
from mt_metadata.common.mttime import MDate, MTime

from vp.strat import ALNUM, pretty_floats

_loaded = False


def load_all():
    global _loaded
    if not _loaded:
        for m in pkgutil.walk_packages(mt_metadata.__path__, "mt_metadata."):
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
        _loaded = True


def all_classes():
    load_all()

    def subs(c):
        out = set()
        for s in c.__subclasses__():
            out.add(s)
            out |= subs(s)
        return out

    return sorted(
        {c for c in subs(MetadataBase) if c.__module__.startswith("mt_metadata")},
        key=lambda c: (c.__module__, c.__qualname__),
    )


def cname(cls):
    return f"{cls.__module__.replace('mt_metadata.', '')}.{cls.__name__}"


# --------------------------------------------------------------------------- values
_text = st.text(string.ascii_letters + string.digits + " _-.:/()+#é", min_size=1, max_size=16).map(
    lambda s: s.strip()
).filter(lambda s: s and s.lower() not in ("none", "null", "nan"))
# also texts that look like something else: a year, numbers, truth, a date
TEXT = st.integers(0, 9).flatmap(lambda i: _text if i else st.sampled_from(["1980", "0", "1.50", "007", "1e5", "true", "False", "2020-01-01", "-", "a=b"]))
WORD = st.text(ALNUM + "_", min_size=1, max_size=8).filter(lambda s: s.lower() not in ("none", "null", "nan", "na"))
ISO = st.datetimes(dt.datetime(1981, 1, 1), dt.datetime(2100, 1, 1)).map(
    lambda d: d.replace(microsecond=d.microsecond // 1000 * 1000).isoformat() + "+00:00"
)
DATE = st.dates(dt.date(1981, 1, 1), dt.date(2100, 1, 1)).map(lambda d: d.isoformat())
URL = WORD.map(lambda w: f"https://example.org/{w}")
EMAIL = WORD.map(lambda w: f"a{w.lower()}@example.org")
UNITS = st.sampled_from(["millivolt", "nanotesla", "volt", "counts", "mV/km", "millivolt per kilometer", "hertz", "meter", ""])


_SPECIAL = {
    "url": URL,
    "datum": st.sampled_from(["WGS 84", "EPSG:4326", "NAD83", "EPSG:4269"]),
    "doi": st.integers(1, 99999).map(lambda i: f"https://doi.org/10.{1000 + i % 9000}/a{i}"),
    "survey_d_o_i": st.integers(1, 99999).map(lambda i: f"https://doi.org/10.{1000 + i % 9000}/a{i}"),
    "year": st.integers(1981, 2100).map(str),
    "network": st.text(ALNUM, min_size=2, max_size=2),
    "channel_code": st.text(string.ascii_uppercase, min_size=3, max_size=3),
    "release_license": st.sampled_from(["CC0-1.0", "CC-BY-4.0", "CC-BY-SA-4.0", "CC-BY-3.0", "MIT", "Apache-2.0"]),
}


def strategy_for(name, ann, meta=()):
    """value strategy for a leaf annotation or None when the type is out of reach of the generic generator"""
    origin = get_origin(ann)
    if get_origin(ann) is not Annotated or not meta:
        sp = _SPECIAL.get(name.rsplit(".", 1)[-1])
        if sp is not None and not (isinstance(ann, type) and issubclass(ann, (float, int))) and "list" not in str(ann):
            return sp
    if origin is Annotated:
        a = get_args(ann)
        return strategy_for(name, a[0], tuple(meta) + a[1:])
    if origin in (typing.Union, types.UnionType):
        opts = [strategy_for(name, a, meta) for a in get_args(ann) if a is not type(None)]
        if any(a in (MTime, MDate) for a in get_args(ann)):
            return ISO
        opts = [o for o in opts if o is not None]
        if not opts:
            return None
        return st.one_of(opts) if len(opts) > 1 else opts[0]
    if origin is typing.Literal:
        return st.sampled_from(get_args(ann))
    if origin in (list,):
        inner = get_args(ann)
        s = strategy_for(name, inner[0]) if inner else WORD
        return None if s is None else st.lists(s, min_size=1, max_size=3)
    if origin in (tuple, dict) or ann is dict:
        return None
    if isinstance(ann, type):
        leaf = name.rsplit(".", 1)[-1]
        if issubclass(ann, enum.Enum):
            vals = [m.value for m in ann]
            return st.sampled_from(vals) if vals else None
        if ann is bool:
            return st.booleans()
        if ann is int:
            return st.integers(1, 1000)
        if ann is float:
            if "latitude" in leaf or leaf in ("reflat", "lat"):
                return pretty_floats(-89, 89, 5)
            if "longitude" in leaf or leaf in ("reflong", "reflon", "lon", "long"):
                return pretty_floats(-179, 179, 5)
            return st.one_of(pretty_floats(0, 1000, 3), pretty_floats(0, 1, 5), pretty_floats(-200, 0, 2))
        if ann is str:
            pats = [getattr(m, "pattern", None) for m in meta]
            pats = [p for p in pats if p]
            if pats:
                return WORD if all(re.search(p, "a_1") for p in pats) else WORD.map(lambda w: w.replace("_", "0"))
            if leaf == "units" or leaf.startswith("units_"):
                return UNITS
            return TEXT
        if issubclass(ann, MDate):
            return DATE
        if issubclass(ann, MTime):
            return ISO
        n = ann.__name__
        if "Url" in n:
            return URL
        if "Email" in n:
            return EMAIL
    if getattr(ann, "__name__", "") in ("HttpUrl", "AnyUrl"):
        return URL
    if getattr(ann, "__name__", "") == "EmailStr":
        return EMAIL
    return None


#: names that drive other parts of the object (containers); they have properties of their own
SKIP_LEAF = {
    "run_list", "channels_recorded", "channels_recorded_electric", "channels_recorded_magnetic",
    "channels_recorded_auxiliary", "station_names", "input_channels", "output_channels", "channels_estimated",
    "decimation_levels", "survey_list", "filter_names", "keyword",
}

_FIELDS = {}


def fields_of(cls):
    """{dotted leaf name: strategy}"""
    if cls in _FIELDS:
        return _FIELDS[cls]
    o = cls()
    out = {}
    for name in o.get_attribute_list():
        parts = name.split(".")
        parent = o
        try:
            for p in parts[:-1]:
                parent = getattr(parent, p)
        except AttributeError:
            continue
        pc = type(parent)
        fi = getattr(pc, "model_fields", {}).get(parts[-1])
        if fi is None:
            continue
        s = strategy_for(name, fi.annotation, tuple(fi.metadata))
        if parts[-1] == "component":
            n = pc.__name__.lower()
            if "electric" in n:
                s = WORD.map(lambda w: "e" + w.lower())
            elif "magnetic" in n:
                s = WORD.map(lambda w: "h" + w.lower())
        if parts[-1] in SKIP_LEAF:
            continue
        if parts[-1] == "value" and pc.__name__ == "Rating":
            s = st.integers(0, 5)
        if pc.__name__.endswith("Measurement") and parts[-1] in ("id", "acqchan"):
            s = st.integers(1, 99999).map(lambda i: f"{i / 1000:.3f}")
        if pc.__name__ == "Unit" and "zonge" in pc.__module__ and s is TEXT:
            s = UNITS
        if parts[-1] == "chtype":
            s = WORD.map(lambda w: "h" + w) if pc.__name__.startswith("H") else WORD.map(lambda w: "e" + w)
        if s is not None:
            out[name] = s
    _FIELDS[cls] = out
    return out


def norm(v):
    """plain comparable value of whatever an attribute holds"""
    if isinstance(v, enum.Enum):
        return norm(v.value)
    if isinstance(v, MTime):
        return v.isoformat()
    if isinstance(v, pd.Timestamp):
        return v.isoformat()
    if isinstance(v, MetadataBase):
        return (type(v).__name__, leaves(v))
    if isinstance(v, ListDict):
        return [norm(x) for x in v.values()]
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return norm(v.item())
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, Path):
        return str(v)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, complex):
        return v
    if hasattr(v, "unicode_string"):
        return v.unicode_string()
    if isinstance(v, BaseModel):
        return (type(v).__name__, str(v))
    return repr(v)


def getattr_path(o, name):
    for p in name.split("."):
        o = getattr(o, p)
    return o


def leaves(o):
    out = {}
    for name in type(o).model_fields:
        v = getattr(o, name, None)
        if isinstance(v, MetadataBase):
            for k, x in leaves(v).items():
                out[f"{name}.{k}"] = x
        else:
            out[name] = norm(v)
    return out


def same_value(a, b, rel=1e-12):
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (np.isnan(a) and np.isnan(b)):
            return True
        return abs(a - b) <= rel * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_value(a[k], b[k], rel) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y, rel) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def diff(a, b, rel=1e-12):
    """names of the leaves in which two leaf dictionaries differ"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b or not same_value(a[k], b[k], rel):
            out.append((k, a.get(k, "<missing>"), b.get(k, "<missing>")))
    return out


# --------------------------------------------------------------------------- objects
#: fields without which a default object is not complete
ALWAYS = {
    "timeseries.filtered.AppliedFilter": ["name"],
    "common.band.Band": ["decimation_level"],
    "transfer_functions.io.emtfxml.metadata.data_type.DataType": ["external_url", "input", "output", "intention"],
    "transfer_functions.io.emtfxml.metadata.estimate.Estimate": ["external_url", "intention", "type"],
    "transfer_functions.io.edi.metadata.emeasurement.EMeasurement": ["chtype"],
    "transfer_functions.io.edi.metadata.hmeasurement.HMeasurement": ["chtype"],
    "features.weights.feature_weight_spec.FeatureWeightSpec": ["feature_name"],
    "common.funding_source.FundingSource": ["url"],
    "timeseries.station.Station": ["id"],
    "transfer_functions.tf.station.Station": ["id"],
}
#: values the object computes itself
COMPUTED = {
    ("Provenance", "create_time"),
    ("Provenance", "creating_application"),
    ("Coherence", "name"),
    ("Coherence", "domain"),
    ("Coherence", "description"),
    ("EMeasurement", "azm"),
}
_BY_NAME = {}


def class_named(n):
    if not _BY_NAME:
        for c in all_classes():
            _BY_NAME[cname(c)] = c
    return _BY_NAME[n]


def usable_fields(cls):
    out = {}
    for f, s in fields_of(cls).items():
        leaf = f.rsplit(".", 1)[-1]
        if any(leaf == x and n in {k.__name__ for k in cls.__mro__} for n, x in COMPUTED):
            continue
        if "emtfxml" in cls.__module__ and (leaf in ("create_time", "creating_application")):
            continue
        if "Nomenclature" in cls.__name__ or "channel_nomenclature" in f:
            continue  # follow the keyword
        if cls.__module__.startswith("mt_metadata.features.") and leaf in ("name", "domain", "description"):
            continue
        out[f] = s
    return out


_ALWAYS = {}


def always_of(cls):
    """required attributes whose default value is not acceptable"""
    if cls not in _ALWAYS:
        o = cls()
        fs = usable_fields(cls)
        out = [a for a in ALWAYS.get(cname(cls), []) if a in fs]
        for f in fs:
            v = getattr_path(o, f)
            if v is None or (isinstance(v, str) and v == ""):
                parent = getattr_path(o, f.rsplit(".", 1)[0]) if "." in f else o
                fi = type(parent).model_fields[f.rsplit(".", 1)[-1]]
                args = get_args(fi.annotation)
                if v is None and type(None) not in args:
                    out.append(f)
        _ALWAYS[cls] = list(dict.fromkeys(out))
    return _ALWAYS[cls]


def object_specs(classes, max_fields=8):
    """strategy of (class name, {field: value})"""
    classes = [c for c in classes if usable_fields(c)]

    def one(cls):
        fs = usable_fields(cls)
        names = sorted(fs)
        always = always_of(cls)
        opt = st.lists(st.sampled_from(names), min_size=1, max_size=max_fields, unique=True)
        return opt.flatmap(
            lambda sel: st.fixed_dictionaries({n: fs[n] for n in dict.fromkeys(always + sel)})
        ).map(lambda d: (cname(cls), d))

    return st.sampled_from(classes).flatmap(one)


def build(spec):
    n, fields = spec
    o = class_named(n)()
    for k, v in fields.items():
        o.update_attribute(k, v)
    return o


def flat_value(o, name):
    return norm(getattr_path(o, name))
