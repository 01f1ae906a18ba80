"""C01: dictionary / JSON / pandas Series round trip of every metadata object."""
import copy
import json
import os
from pathlib import Path

from hypothesis import strategies as st

from mt_metadata.utils.exceptions import MTSchemaError
from vp import filtgen as fg
from vp import metagen as mg
from vp.core import Check, check, check_eq, raises

C = Check(
    "C01",
    "a case is non-trivial when at least one attribute was set to a value different from the default",
    ["attributes that the object computes itself (creation stamps, names fixed by the class, lists that mirror "
     "contained objects) are left out; objects whose required attributes have no default get one"],
)

ALL = [c for c in mg.all_classes() if c.__name__ not in ("TaperWeightKernel", "FieldNotes")]
ALL = [c for c in ALL if "Experiment" != c.__name__ and mg.usable_fields(c)]
TS = [c for c in ALL if ".timeseries" in c.__module__ or ".common" in c.__module__ or ".features" in c.__module__
      or ".tf." in c.__module__ or ".processing" in c.__module__]


def compare(spec, o, n, ctx, how):
    d0 = type(o)()
    changed = 0
    for f in spec[1]:
        want = mg.flat_value(o, f)
        got = mg.flat_value(n, f)
        if want in ("", None):
            continue
        if not mg.same_value(want, mg.flat_value(d0, f)):
            changed += 1
        if not mg.same_value(want, got):
            check(False, f"{spec[0]}.{f} was {want!r}, is {got!r} after {how}")
    if not changed:
        ctx.trivial()
    ctx.tag(spec[0].split(".")[0], how.split(" ")[0])


STAMPS = ("create_time", "creating_application", "creation_time")


def squash(t):
    return "".join(c for c in t.lower() if c.isalnum())


def untouched(spec, o, n, how):
    """attributes nobody set keep what the default object gets from the same trip"""
    d0 = type(o)()
    lo, ln, ld = mg.leaves(o), mg.leaves(n), mg.leaves(d0)
    for k, want, got in mg.diff(lo, ln):
        if k in spec[1] or any(f.startswith(k + ".") or k.startswith(f + ".") for f in spec[1]):
            continue
        empty = (None, "", 0.0, [], "1980-01-01T00:00:00+00:00", "None")
        if want in empty and got in empty:
            continue
        if not isinstance(ld.get(k), (str, float, bool, type(None))):
            continue
        leaf = k.rsplit(".", 1)[-1]
        if isinstance(want, str) and isinstance(got, str):
            # default texts may be spelled in their normalised form after the trip
            if "unit" in f"{spec[0]}.{k}".lower():
                continue
            if squash(want) == squash(got) or leaf.startswith("units") or leaf in STAMPS:
                continue
        if leaf in ("mth5_path", "azm"):
            continue
        check(False, f"{spec[0]}.{k} was not set, was {want!r} and is {got!r} after {how}")


REFUSED = (OSError, ValueError, TypeError, KeyError, AttributeError, MTSchemaError)
MODES = [(nested, single, required) for nested in (True, False) for single in (True, False) for required in (True, False)]


@C.given(mg.object_specs(ALL), st.sampled_from(MODES), quick=1500, thorough=25000)
def dict_round_trip(ctx, spec, mode):
    """to_dict -> from_dict into a fresh object"""
    nested, single, required = mode
    o = mg.build(spec)
    before = mg.leaves(o)
    d = o.to_dict(nested=nested, single=single, required=required)
    check(not mg.diff(before, mg.leaves(o)), "to_dict changed the object")
    if spec[0] in ("common.comment.Comment",) and single:
        single = False
        d = o.to_dict(nested=nested, single=False, required=required)
    if not single:
        check_eq(len(d), 1, "one key, the class name")
    n = type(o)()
    d1 = copy.deepcopy(d)
    n.from_dict(d, skip_none=not required)
    check(mg.norm(d) == mg.norm(d1), f"from_dict changed the dictionary it was given: {d1!r} -> {d!r}")
    compare(spec, o, n, ctx, f"dict nested={nested} single={single} required={required}")
    if required:
        untouched(spec, o, n, "dict")


@C.given(mg.object_specs(ALL), st.booleans(), st.sampled_from(["str", "path", "pathlib"]), quick=1200, thorough=20000)
def json_round_trip(ctx, spec, nested, how):
    """to_json -> from_json (text, path as text, pathlib path); the JSON text is valid JSON"""
    o = mg.build(spec)
    before = mg.leaves(o)
    txt = o.to_json(nested=nested)
    json.loads(txt)
    check(not mg.diff(before, mg.leaves(o)), "to_json changed the object")
    n = type(o)()
    if how == "str":
        n.from_json(txt)
    else:
        fn = Path(os.getcwd()) / "c01.json"
        fn.write_text(txt)
        n.from_json(str(fn) if how == "path" else fn)
        fn.unlink()
    compare(spec, o, n, ctx, f"json nested={nested} {how}")
    untouched(spec, o, n, "json")


@C.given(mg.object_specs(TS), quick=1000, thorough=15000)
def series_round_trip(ctx, spec):
    """to_series -> from_series"""
    o = mg.build(spec)
    if spec[0] == "common.comment.Comment":
        ctx.trivial()
        return
    before = mg.leaves(o)
    s = o.to_series()
    check(not mg.diff(before, mg.leaves(o)), "to_series changed the object")
    n = type(o)()
    n.from_series(s)
    compare(spec, o, n, ctx, "series")


@C.given(mg.object_specs(ALL), quick=800, thorough=12000)
def forms_agree(ctx, spec):
    """the flat dictionary holds, under its dotted name, the value of the attribute; nested dictionary and JSON hold
    the same values"""
    o = mg.build(spec)
    flat = o.to_dict(single=True)
    nested = o.to_dict(single=True, nested=True)
    js = json.loads(o.to_json(nested=True))
    js = js[list(js)[0]]
    for f in spec[1]:
        want = mg.flat_value(o, f)
        key = f
        if key not in flat:
            # a comment with only a text is written as that text
            base = f.rsplit(".", 1)[0]
            leaf = f.rsplit(".", 1)[-1]
            if leaf in ("value", "author", "time_stamp") and type(mg.getattr_path(o, base) if "." in f else o).__name__ == "Comment":
                if leaf == "value":
                    check_eq(flat.get(base), want, f"flat {base}")
                continue
            if want in (None, "", [], "1980-01-01T00:00:00+00:00"):
                continue
            check(False, f"{spec[0]}.{f} = {want!r} is not in the flat dictionary")
        got = mg.norm(flat[key])
        check(mg.same_value(got, want) or str(got) == str(want), f"flat {key}: {got!r} instead of {want!r}")
        for what, tree in (("nested", nested), ("json", js)):
            v = tree
            for p in f.split("."):
                check(isinstance(v, dict) and p in v, f"{spec[0]}.{f} is not in the {what} form: {v!r}")
                v = v[p]
            v = mg.norm(v)
            check(mg.same_value(v, want) or str(v) == str(want), f"{what} {f}: {v!r} instead of {want!r}")


@C.given(fg.filters(), st.booleans(), st.sampled_from(["dict", "json", "series", "copy"]), quick=400, thorough=8000)
def arrays_of_filters(ctx, spec, nested, how):
    """filters with arrays of real and complex numbers: every number comes back"""
    o = fg.make(spec)
    n = spec[0]()
    if how == "dict":
        n.from_dict(o.to_dict(nested=nested))
    elif how == "json":
        n.from_json(o.to_json(nested=nested))
    elif how == "series":
        n.from_series(o.to_series())
    else:
        n = o.copy()
        for k, v in spec[1].items():
            if isinstance(v, list) and v:
                getattr(n, k)[0] = 7.5
                check(not fg.differs(o, spec), f"the copy shares {k}")
                setattr(n, k, v)
    bad = fg.differs(n, spec)
    check(not bad, f"{bad} after {how}")
    check_eq(n.name, "f0", "name")
    if not any(isinstance(v, list) and v for v in spec[1].values()):
        ctx.trivial()


NOTHING = {
    "missing file": lambda: ("from_json", Path(os.getcwd()) / "c01_none" / "missing.json"),
    "missing file as text": lambda: ("from_json", os.path.join(os.getcwd(), "c01_missing.json")),
    "a folder": lambda: ("from_json", Path(os.getcwd())),
    "half a dictionary": lambda: ("from_json", '{"a": 1, "b"'),
    "no text": lambda: ("from_json", ""),
    "JSON list": lambda: ("from_json", "[1, 2]"),
    "JSON number": lambda: ("from_json", "3"),
    "JSON null": lambda: ("from_json", "null"),
    "a number": lambda: ("from_json", 3),
    "None": lambda: ("from_json", None),
    "list for a dictionary": lambda: ("from_dict", [1]),
    "None for a dictionary": lambda: ("from_dict", None),
    "number for a dictionary": lambda: ("from_dict", 4.0),
    "dictionary for a series": lambda: ("from_series", {"a": 1}),
    "None for a series": lambda: ("from_series", None),
    "load a number": lambda: ("load", 5),
    "load a list": lambda: ("load", [1]),
    "load text": lambda: ("load", "abc"),
}


@C.given(mg.object_specs(ALL), st.sampled_from(sorted(NOTHING)), quick=500, thorough=6000)
def what_cannot_be_read(ctx, spec, what):
    """what is no form of an object (missing files, text that is no JSON, other types) is refused and changes nothing"""
    o = mg.build(spec)
    before = mg.leaves(o)
    how, given = NOTHING[what]()
    ctx.tag(what)
    raises(REFUSED, lambda: getattr(o, how)(given), f"{spec[0]}: {what}")
    check(not mg.diff(before, mg.leaves(o)), f"{spec[0]}: {what} changed the object")
