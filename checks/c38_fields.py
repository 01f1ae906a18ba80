"""C38: what is said about the attributes of a class."""
import copy
import enum
import importlib
import os
import pathlib
import shutil
from typing import Optional

import pandas as pd
from hypothesis import assume
from hypothesis import strategies as st
from pydantic import Field, create_model, field_validator
from pydantic.fields import FieldInfo

from mt_metadata.base import MetadataBase, pydantic_helpers
from mt_metadata.utils import summarize
from mt_metadata.utils.exceptions import MTSchemaError
from mt_metadata.utils.validators import validate_name

from vp.core import Check, check, check_eq, raises

C = Check("C38", rule="non-trivial: a class within a class, or a class that changed since it was stored")

NAMES = ["name", "rate", "count", "active", "style", "place", "owner", "tags", "old", "depth"]
LEAVES = {"str": (str, "abc"), "float": (float, 2.5), "int": (int, 7), "bool": (bool, True), "str?": (Optional[str], "xyz"), "float?": (float | None, -1.5), "list": (list[str], ["a", "b"])}
DEFAULTS = {"str": ["", "none given"], "float": [0.0, 1.25], "int": [0, 3], "bool": [False, True], "str?": [None, "x"], "float?": [None, 4.5], "list": [[]]}

LIMITS = {"float": [{"ge": -10, "le": 100}, {"gt": -10.5}], "int": [{"ge": 0}, {"lt": 50}], "float?": [{"ge": -10}, {"le": 99}], "str": [{"pattern": "^[a-z ]*$"}, {"max_length": 20}], "str?": [{"pattern": "^[a-z]*$"}]}


@st.composite
def field(draw, depth):
    kind = draw(st.sampled_from(list(LEAVES) + ["enum"] + (["class", "class?"] * 3 if depth else [])))
    f = dict(
        kind=kind,
        required=draw(st.booleans()),
        units=draw(st.sampled_from([None, "meter", "degrees"])),
        description=draw(st.sampled_from(["a thing", "how fast, in all", "the place"])),
        examples=draw(st.sampled_from([None, ["one", "two"], [3]])),
        deprecated=draw(st.sampled_from([False] * 7 + [True])),
    )
    f["limits"] = draw(st.sampled_from([{}] + LIMITS.get(kind, [])))
    f["checked"] = draw(st.sampled_from([False, False, True])) and not kind.startswith("class")
    if kind == "enum":
        f["members"] = draw(st.lists(st.sampled_from(["north", "east", "up", "other", "left"]), min_size=1, max_size=4, unique=True))
    elif kind.startswith("class"):
        f["fields"] = draw(fields(depth - 1))
        f["class"] = draw(st.sampled_from(["Place", "Owner"]))
    else:
        f["default"] = draw(st.sampled_from(DEFAULTS[kind]))
    return f


def fields(depth):
    return st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True).flatmap(lambda ns: st.fixed_dictionaries({n: field(depth) for n in ns}))


def build(spec, name="Thing"):
    """the class"""
    d, v = {}, {}
    for n, f in spec.items():
        kw = dict(description=f["description"], alias=None, json_schema_extra={"units": f["units"], "required": f["required"], "examples": f["examples"]})
        kw.update(f["limits"])
        if f["deprecated"]:
            kw["deprecated"] = True
        if f["checked"]:
            v[f"looks_at_{len(v)}"] = field_validator(n)(lambda x: x)
        if f["kind"] == "enum":
            t = enum.Enum("StyleEnum", {m: m for m in f["members"]}, type=str, module="generated")
            d[n] = (t, Field(default=t[f["members"][0]], **kw))
        elif f["kind"].startswith("class"):
            t = build(f["fields"], name + f["class"])
            if f["kind"] == "class":
                d[n] = (t, Field(default_factory=t, **kw))
            else:
                d[n] = (t | None, Field(default=None, **kw))
        else:
            t = LEAVES[f["kind"]][0]
            if f["kind"] == "list":
                d[n] = (t, Field(default_factory=list, **kw))
            else:
                d[n] = (t, Field(default=f["default"], **kw))
    return create_model(name, __base__=MetadataBase, __module__="generated", __validators__=v, **d)


def leaves(spec, prefix=""):
    out = {}
    for n, f in spec.items():
        if f["deprecated"]:
            continue
        if f["kind"].startswith("class"):
            out.update(leaves(f["fields"], f"{prefix}{n}."))
        else:
            out[prefix + n] = f
    return out


def described(o, spec, how):
    """the attributes of the object are those of the class"""
    want = leaves(spec)
    check_eq(o.get_attribute_list(), sorted(want), f"attributes {how}")
    got = o.get_all_fields()
    check_eq(sorted(got), sorted(want), f"fields {how}")
    for n, f in want.items():
        for k in ("description", "required", "units", "examples"):
            check_eq(got[n].get(k), f[k], f"{k} of {n} {how}")
        if f["kind"] == "enum":
            check_eq(got[n].get("enum"), f["members"], f"choices of {n} {how}")
            check_eq(got[n].get("enum_names"), f["members"], f"names of the choices of {n} {how}")
        elif f["kind"] != "list":
            check_eq(got[n].get("default"), None if f["default"] is None else repr(f["default"]), f"default of {n} {how}")
        check_eq(got[n].get("has_validators"), f["checked"], f"whether {n} is checked {how}")
        limits = got[n].get("constraints") or {}
        check_eq(limits.get("nullable"), f["kind"].endswith("?"), f"whether {n} may be empty {how}")
        if f["kind"] != "enum":
            check_eq({k: v for k, v in limits.items() if k != "nullable"}, f["limits"], f"limits of {n} {how}")


def fill(o, spec):
    for n, f in spec.items():
        if f["deprecated"]:
            continue
        if f["kind"] == "class":
            fill(getattr(o, n), f["fields"])
        elif f["kind"] == "class?":
            continue
        elif f["kind"] == "enum":
            setattr(o, n, f["members"][-1])
        else:
            setattr(o, n, copy.copy(LEAVES[f["kind"]][1]))


def values(spec, prefix=""):
    out = {}
    for n, f in spec.items():
        if f["deprecated"] or f["kind"] == "class?":
            continue
        if f["kind"] == "class":
            out.update(values(f["fields"], f"{prefix}{n}."))
        else:
            out[prefix + n] = f["members"][-1] if f["kind"] == "enum" else LEAVES[f["kind"]][1]
    return out


def kept(cls, spec, how):
    """what is set is in the dictionary"""
    o = cls()
    fill(o, spec)
    d = o.to_dict(single=True, required=False)
    for n, v in values(spec).items():
        g = d.get(n, "nothing")
        check(getattr(g, "value", g) == v, f"{n} = {v!r} in the dictionary {how}: {g!r}")


def nested(spec):
    return any(f["kind"].startswith("class") and not f["deprecated"] for f in spec.values())


@C.given(fields(2), st.sampled_from(["altitude", "owner_id"]), quick=60, thorough=2500)
def classes(ctx, spec, new):
    """the attributes listed for any class, with classes within classes, are exactly those that are not deprecated, with description, units, choices, limits, examples, default, whether they are required, may be empty and are checked as declared, and all of them are in its dictionary; a class with a new field has that too, and its base has not"""
    cls = build(spec)
    o = cls()
    described(o, spec, "of the class")
    kept(cls, spec, "of the class")
    info = FieldInfo(annotation=float, default=1.5, description="new one", json_schema_extra={"units": "meter", "required": True, "examples": ["2"]})
    more = o.add_new_field(new, info)
    f = dict(kind="float", required=True, units="meter", description="new one", examples=["2"], deprecated=False, default=1.5, limits={}, checked=False)
    described(more(), {**spec, new: f}, "with a new field")
    kept(more, {**spec, new: f}, "with a new field")
    described(cls(), spec, "of the class that got no new field")
    raises(MTSchemaError, lambda: o.attribute_information("not_there"), "an attribute that is not there")
    if not nested(spec):
        ctx.trivial()


def change(draw, spec):
    """one change somewhere within"""
    s = copy.deepcopy(spec)
    here = s
    while True:
        inner = [f for f in here.values() if f["kind"].startswith("class") and not f["deprecated"]]
        if inner and draw(st.sampled_from([True, True, False])):
            here = draw(st.sampled_from(inner))["fields"]
        else:
            break
    how = draw(st.sampled_from(["add", "add", "remove", "units", "description", "required", "members", "limits", "checked"]))
    n = draw(st.sampled_from(list(here)))
    if how == "members":
        enums = [k for k in here if here[k]["kind"] == "enum"]
        if enums:
            n = enums[0]
            here[n]["members"] = here[n]["members"] + ["newest"]
        else:
            how = "add"
    if how == "add":
        here["newest"] = dict(kind="str", required=True, units=None, description="added", examples=None, deprecated=False, default="", limits={}, checked=False)
    elif how == "remove" and len(here) > 1:
        del here[n]
    elif how == "limits" and LIMITS.get(here[n]["kind"]):
        here[n]["limits"] = {} if here[n]["limits"] else LIMITS[here[n]["kind"]][0]
    elif how == "checked" and not here[n]["kind"].startswith("class"):
        here[n]["checked"] = not here[n]["checked"]
    elif how == "units":
        here[n]["units"] = "kilometer"
    elif how == "description":
        here[n]["description"] = "another thing"
    else:
        here[n]["required"] = not here[n]["required"]
    return s


@st.composite
def changed(draw):
    a = draw(fields(2))
    return a, change(draw, a) if draw(st.sampled_from([True, True, True, False])) else copy.deepcopy(a)


DAMAGE = {"kept": None, "cut": lambda t: t[: len(t) // 2], "empty": lambda t: "", "list": lambda t: "[1, 2]", "null": lambda t: "null", "other": lambda t: "}{"}


@C.given(changed(), st.lists(st.sampled_from(list(DAMAGE)), min_size=1, max_size=4), st.sampled_from(["dir", "dir", "dir", "none"]), quick=40, thorough=1500)
def stored(ctx, ab, damage, where):
    """what is stored on disk about a class never shows in another one: the attributes are those of the class as it is now, also when it, or a class within it, has changed, when a stored file is damaged, or when nothing can be stored"""
    a, b = ab
    root = pathlib.Path("stored_fields").absolute()
    old = {k: os.environ.get(k) for k in ("MT_METADATA_CACHE_DIR", "MT_METADATA_DISABLE_DISK_CACHE")}

    def fresh():
        """as in a new process"""
        importlib.reload(pydantic_helpers)

    try:
        if root.is_dir():
            shutil.rmtree(root)
        elif root.exists():
            root.unlink()
        if where == "dir":
            root.mkdir()
            os.environ["MT_METADATA_CACHE_DIR"] = str(root)
        else:
            root.write_text("not a directory")
            os.environ["MT_METADATA_CACHE_DIR"] = str(root / "below")
        os.environ["MT_METADATA_DISABLE_DISK_CACHE"] = "0"
        fresh()
        A = build(a)
        described(A(), a, "when first stored")
        if where == "dir":
            there = sorted(root.rglob("*"))
            for f, d in zip([f for f in there if f.is_file()], damage * 20):
                if DAMAGE[d]:
                    f.write_text(DAMAGE[d](f.read_text()))
        fresh()
        described(build(a)(), a, f"as stored, {damage}")
        fresh()
        B = build(b)
        described(B(), b, "after a change")
        kept(B, b, "after a change")
        fresh()
        described(build(b)(), b, "after a change, stored again")
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        fresh()
        if root.is_dir():
            shutil.rmtree(root)
        else:
            root.unlink(missing_ok=True)
    if a == b:
        ctx.trivial()


TYPES = {"str": "string", "float": "float", "int": "integer", "bool": "boolean", "str?": "string", "float?": "float", "enum": "string", "list": None, "class": "object", "class?": None}


@C.given(fields(1), quick=60, thorough=2000)
def summary(ctx, spec):
    """the summary of a class has one entry for each field, with its type, units, description, choices, example, default and whether it is required"""
    got = summarize.extract_metadata_fields_from_pydantic(build(spec))
    check_eq(list(got), list(spec), "fields")
    for n, f in spec.items():
        g = got[n]
        for k in ("required", "units", "description"):
            check_eq(g[k], f[k], f"{k} of {n}")
        if TYPES[f["kind"]]:
            check_eq(g["type"], TYPES[f["kind"]], f"type of {n} ({f['kind']})")
        check_eq(list(g["options"]), f.get("members", []), f"choices of {n}")
        check_eq(g["example"] or "", str(f["examples"][0]) if f["examples"] else "", f"example of {n}")
        if "default" in f and f["kind"] != "list":
            check_eq(g["default"], "" if f["default"] is None else str(f["default"]), f"default of {n}")
    # one row for each, after that of the version
    table = summarize.summary_to_array({f"c.{n}": g for n, g in got.items()})
    check_eq([str(v) for v in table["attribute"][1:]], [f"c.{n}"[:72] for n in got], "attributes of the table")
    for r, (n, g) in zip(table[1:], got.items()):
        check_eq(bool(r["required"]), bool(g["required"]), f"required of {n} in the table")
        for k, width in (("type", 15), ("units", 32), ("description", 300), ("options", 150), ("example", 72), ("default", 72)):
            v = g[k]
            text = ",".join(str(i) for i in v) if isinstance(v, list) else "" if v is None else str(v)
            check_eq(str(r[k]), text[:width].rstrip("\0"), f"{k} of {n} in the table")
    raises(TypeError, lambda: summarize.extract_metadata_fields_from_pydantic(build(spec)()), "an object")
    raises(TypeError, lambda: summarize.extract_metadata_fields_from_pydantic(dict), "another class")
    if not nested(spec) and not any(f["kind"] == "enum" for f in spec.values()):
        ctx.trivial()


MODULES = ["timeseries", "common", "transfer_functions.tf", "processing.aurora", "timeseries.filters", "features", "transfer_functions.io.edi.metadata", "transfer_functions.io.emtfxml.metadata", "transfer_functions.io.zonge.metadata"]


@C.given(st.sampled_from(MODULES), st.sampled_from(["dataframe", "array", "csv"]), quick=14, thorough=60)
def standards(ctx, module, how):
    """the standards of a module have one row for each field of each of its classes, under the name of the class, also in the file written"""
    mod = importlib.import_module(f"mt_metadata.{module}")
    cls = {c for c in vars(mod).values() if isinstance(c, type) and issubclass(c, MetadataBase) and c is not MetadataBase}
    names = {c: sorted(n for n, v in vars(mod).items() if v is c) for c in cls}
    assume(all(len(v) == 1 for v in names.values()))
    want = {"mt_metadata.standards.version": None}
    for c in cls:
        for n, f in c.model_fields.items():
            want[f"{validate_name(names[c][0])}.{n}"] = f
    if how == "array":
        rows = summarize.summarize_standards(module, output_type="array")
        rows = [{k: r[k] for k in rows.dtype.names} for r in rows]
    else:
        df = summarize.summarize_standards(module, csv_fn="standards.csv" if how == "csv" else None)
        if how == "csv":
            back = pd.read_csv("standards.csv", keep_default_na=False)
            check_eq(list(back.columns), list(df.columns), "columns")
            check_eq([str(x) for x in back.attribute], [str(x) for x in df.attribute], "attributes in the file")
            check_eq([str(x).split() for x in back.description], [str(x).split() for x in df.description], "descriptions in the file")
            check_eq(list(back.required), list(df.required), "required in the file")
        rows = df.to_dict("records")
    check_eq(sorted(str(r["attribute"]) for r in rows), sorted(want), f"attributes of {module}")
    for r in rows:
        f = want[str(r["attribute"])]
        if f is None:
            continue
        extra = f.json_schema_extra or {}
        if "required" in extra:
            check_eq(bool(r["required"]), bool(extra["required"]), f"required of {r['attribute']}")
        check((f.description or "").startswith(str(r["description"])[:290].rstrip()) or not f.description, f"description of {r['attribute']}: {r['description']!r}, expected {f.description!r}")
