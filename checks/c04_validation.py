"""C04: validated assignment and dotted attribute access."""
import enum
import types
import typing

from hypothesis import strategies as st

from vp import metagen as mg
from vp.core import Check, check, check_eq

C = Check("C04", "a case is non-trivial when the attribute addressed is nested, or the value is refused or converted", [])

ALL = [
    c for c in mg.all_classes()
    if c.__name__ not in ("TaperWeightKernel", "FieldNotes", "Experiment", "Comment")
    and ".zonge.metadata" not in c.__module__ and ".emtfxml." not in c.__module__ and mg.usable_fields(c)
]


def kinds(ann):
    o = typing.get_origin(ann)
    if o is typing.Annotated:
        return kinds(typing.get_args(ann)[0])
    if o in (typing.Union, types.UnionType):
        s = set()
        for a in typing.get_args(ann):
            s |= kinds(a)
        return s
    return {o if o is not None else ann}


_K = {}


def kind_of(cls, f):
    k = (cls, f)
    if k not in _K:
        o = cls()
        parent = mg.getattr_path(o, f.rsplit(".", 1)[0]) if "." in f else o
        ks = kinds(type(parent).model_fields[f.rsplit(".", 1)[-1]].annotation) - {type(None)}
        if ks and ks <= {float, int}:
            out = "float" if float in ks else "int"
        elif ks == {bool}:
            out = "bool"
        elif ks and all(isinstance(x, type) and issubclass(x, enum.Enum) for x in ks):
            out = "enum"
        elif ks and all(getattr(x, "__name__", "") in ("MTime", "datetime64", "Timestamp", "str", "float", "int") for x in ks) and any(
            getattr(x, "__name__", "") == "MTime" for x in ks
        ):
            out = "time"
        else:
            out = None
        if parent.__class__.__name__ == "TransferFunction" and f.endswith("coordinate_system"):
            out = None  # any value means geographic, documented
        _K[k] = out
    return _K[k]


def one_field(kind=None):
    pool = []
    for c in ALL:
        for f in mg.usable_fields(c):
            if kind is None or kind_of(c, f) in kind:
                pool.append((mg.cname(c), f))
    pool.sort()
    return st.sampled_from(pool)


@st.composite
def field_value(draw, kind=None):
    n, f = draw(one_field(kind))
    return n, f, draw(mg.usable_fields(mg.class_named(n))[f])


@C.given(field_value(), st.sampled_from(["update_attribute", "setattr", "dict", "ctor"]), quick=1500, thorough=20000)
def set_then_get_by_dotted_name(ctx, case, how):
    """a valid value is accepted however it is assigned, is read back the same through the dotted name and through
    chained attributes, and no other attribute changes"""
    n, f, v = case
    cls = mg.class_named(n)
    ref = cls()
    ref.update_attribute(f, v)
    o = cls()
    before = mg.leaves(o)
    parts = f.split(".")
    if how == "update_attribute":
        o.update_attribute(f, v)
    elif how == "setattr":
        p = o
        for x in parts[:-1]:
            p = getattr(p, x)
        setattr(p, parts[-1], v)
    elif how == "dict":
        o.from_dict({cls.__name__.lower(): {f: v}})
        if "comments" in parts or parts == ["fdsn", "id"]:
            ctx.trivial()
            return
    else:
        if len(parts) > 1:
            ctx.trivial()
            return
        o = cls(**{f: v})
    got = mg.norm(o.get_attr_from_name(f))
    check(mg.same_value(got, mg.flat_value(o, f)), f"{n}: get_attr_from_name({f!r}) is {got!r}, the attribute is {mg.flat_value(o, f)!r}")
    check(mg.same_value(got, mg.flat_value(ref, f)), f"{n}.{f} = {v!r}: {how} stored {got!r}, update_attribute {mg.flat_value(ref, f)!r}")
    k = kind_of(cls, f)
    if k == "float":
        check_eq(got, float(v), f"{n}.{f}")
    elif k == "int":
        check_eq(got, float(v), f"{n}.{f}")
    elif k == "bool":
        check_eq(got, v, f"{n}.{f}")
    elif k == "enum":
        check_eq(str(got).lower(), str(v).lower(), f"{n}.{f}")
    elif k == "time":
        m = min(19, len(got))
        check_eq(got[:m], v[:m], f"{n}.{f}")
    if how != "ctor" and not f.endswith(("Measurement",)) and "edi.metadata" not in n:
        for name, a, b in mg.diff(before, mg.leaves(o)):
            if name == f or f.startswith(name + ".") or name.startswith(f + "."):
                continue
            check(False, f"{n}: setting {f} = {v!r} changed {name} from {a!r} to {b!r}")
    if len(parts) == 1 and how in ("update_attribute", "setattr"):
        ctx.trivial()
    ctx.tag(how, str(k))


BAD = {
    "float": [lambda s: s, lambda s: {"a": s}, lambda s: [1.0, 2.0], lambda s: "1.2.3", lambda s: "12 deg e"],
    "int": [lambda s: s, lambda s: {"a": s}, lambda s: [1, 2], lambda s: "1.5", lambda s: 1.5],
    "bool": [lambda s: s, lambda s: 7, lambda s: [True, False]],
    "enum": [lambda s: s + "?!", lambda s: {"a": s}, lambda s: [s, s]],
}
WORDS = st.text("abcdxyz", min_size=4, max_size=8).filter(
    lambda t: t not in ("none", "null") and t[0] in "xyz")


@C.given(one_field(("float", "int", "bool", "enum")), st.integers(0, 4), WORDS,
         st.sampled_from(["update_attribute", "setattr", "ctor", "dict"]), quick=1200, thorough=15000)
def invalid_values_are_refused(ctx, where, i, word, how):
    """a value that is not of the attribute's type or vocabulary is refused with an error and the object stays as it was"""
    n, f = where
    cls = mg.class_named(n)
    k = kind_of(cls, f)
    bad = BAD[k][i % len(BAD[k])](word)
    o = cls()
    before = mg.leaves(o)
    parts = f.split(".")
    try:
        if how == "update_attribute":
            o.update_attribute(f, bad)
        elif how == "dict":
            o.from_dict({cls.__name__.lower(): {f: bad, "zzz_not_there": 1} if False else {f: bad}})
        elif how == "ctor" and len(parts) == 1:
            cls(**{f: bad})
        else:
            p = o
            for x in parts[:-1]:
                p = getattr(p, x)
            setattr(p, parts[-1], bad)
    except (ValueError, TypeError, KeyError, AttributeError, NameError):
        check(not mg.diff(before, mg.leaves(o)), f"{n}: the refused {f} = {bad!r} changed {mg.diff(before, mg.leaves(o))!r}")
        ctx.tag(k, how)
        return
    if isinstance(bad, dict) and how == "dict":
        ctx.trivial()
        return
    if cls.__name__ == "ShortTimeFourierTransform" or f.endswith("harmonic_indices"):
        ctx.trivial()
        return
    check(False, f"{n}.{f} accepted {bad!r} ({how}), now {mg.flat_value(o, f)!r}")


NUM = st.one_of(st.integers(1, 80), st.integers(1, 8000).map(lambda i: i / 100))


@C.given(one_field(("float",)), NUM, st.sampled_from(["text", "int", "float", "numpy"]), quick=600, thorough=8000)
def numbers_are_converted(ctx, where, x, form):
    """a number may be given as text, int, float or numpy scalar and is stored as the same real number"""
    import numpy as np

    n, f = where
    o = mg.class_named(n)()
    v = {"text": str(x), "int": x, "float": float(x), "numpy": np.float64(x)}[form]
    o.update_attribute(f, v)
    got = mg.getattr_path(o, f)
    check(isinstance(got, float), f"{n}.{f} = {v!r} is stored as {type(got).__name__}")
    check_eq(float(got), float(x), f"{n}.{f} = {v!r}")
    ctx.tag(form)


@C.given(st.sampled_from(sorted(mg.cname(c) for c in ALL)), quick=130, thorough=400)
def introspection(ctx, n):
    """get_attribute_list names every attribute once, sorted, each is readable, and attribute information knows it"""
    cls = mg.class_named(n)
    o = cls()
    names = o.get_attribute_list()
    check_eq(len(names), len(set(names)), "no attribute twice")
    check_eq(sorted(names), list(names), "sorted")
    for f in mg.fields_of(cls):
        check(f in names, f"{n}.{f} is not listed")
    for name in names:
        o.get_attr_from_name(name)
    check_eq(len(o), len(names), "len(object)")


@C.given(st.sampled_from(sorted(mg.cname(c) for c in ALL if mg.cname(c).startswith(("timeseries", "common")))),
         st.text("abcdefgh_", min_size=3, max_size=8).map(lambda s: "zq" + s.strip("_")), st.one_of(st.integers(), mg.TEXT), quick=200, thorough=2000)
def unknown_names(ctx, n, name, v):
    """setting or reading below an attribute that is not there raises AttributeError and changes nothing"""
    o = mg.class_named(n)()
    before = mg.leaves(o)
    for call in (lambda: o.get_attr_from_name(f"{name}.value"), lambda: o.update_attribute(f"{name}.value", v)):
        try:
            call()
        except AttributeError:
            check(not mg.diff(before, mg.leaves(o)), "a failed access changed the object")
        else:
            check(False, f"{n}: {name}.value is accessible")
