"""C03: equality, copy, update and load."""
import json

from hypothesis import assume
from hypothesis import strategies as st

from vp import metagen as mg
from vp.core import Check, check, check_eq

C = Check("C03", "a case is non-trivial when at least one attribute differs from the default object", [
    "time stamps of creation/processing take no part in equality (documented), real numbers are compared with a tolerance",
])

ALL = [
    c for c in mg.all_classes()
    if c.__name__ not in ("TaperWeightKernel", "Experiment", "Comment", "ChannelNomenclature", "ChannelResponse")
    and any(x in c.__module__ for x in (".common.", ".timeseries.", ".tf.", ".processing."))
    and mg.usable_fields(c)
]
SKIP = ("processed_date", "creation_time", "create_time")
NULLS = (None, "", 0.0, False, [], "none", "null", "1980-01-01T00:00:00+00:00")


def is_null(v):
    return v is None or (isinstance(v, (str, float, bool, list)) and (v in ("", [], "1980-01-01T00:00:00+00:00") or
            (isinstance(v, str) and v.lower() in ("none", "null")) or (isinstance(v, (float, bool)) and v == 0)))


@C.given(mg.object_specs(ALL), st.sampled_from(["copy", "same", "dict", "nested", "json", "series", "xml"]), quick=900, thorough=15000)
def equal_to_itself_in_every_form(ctx, spec, form):
    """an object equals a second object built the same way, its copy, and its own dictionary, JSON, series and XML"""
    o = mg.build(spec)
    if form == "xml" and spec[0].startswith("processing."):
        form = "json"
    if form in ("dict", "nested", "json", "series", "xml") and any(
        f.split(".")[-1] in ("author", "time_stamp") and "comment" in f for f in spec[1]
    ):
        ctx.trivial()
        return
    if form == "copy":
        p = o.copy()
        check(type(p) is type(o), "the copy has another type")
        check(not mg.diff(mg.leaves(o), mg.leaves(p)), "the copy differs")
    elif form == "same":
        p = mg.build(spec)
    elif form == "dict":
        p = o.to_dict()
    elif form == "nested":
        p = o.to_dict(nested=True, single=True)
    elif form == "json":
        p = o.to_json()
    elif form == "series":
        p = o.to_series()
    else:
        if any(isinstance(mg.flat_value(o, f), list) for f in spec[1]):
            ctx.trivial()
            return
        p = o.to_xml()
    if form in ("dict", "nested", "json", "series", "xml"):
        # defaults may be normalised by the trip: compare what was set
        ref = type(o)()
        ref.from_dict(o.to_dict())
        if not (ref == o):
            ctx.trivial()
            return
    check(o == p, f"{spec[0]} differs from its {form}")
    check(not (o != p), f"{spec[0]}: == and != disagree on its {form}")
    ctx.tag(form)


@st.composite
def pairs(draw):
    n, fields = draw(mg.object_specs(ALL))
    names = [f for f in fields if not any(s in f for s in SKIP)]
    assume(names)
    f = draw(st.sampled_from(names))
    how = draw(st.integers(0, 3))
    if how == 0 and len(fields) > 1 and f not in mg.always_of(mg.class_named(n)):
        # only the second object has the attribute
        return (n, {k: v for k, v in fields.items() if k != f}, f, fields[f])
    v = draw(mg.usable_fields(mg.class_named(n))[f])
    if how == 1:
        # numbers which are near each other, but not nearer than the tolerance
        reals = [k for k in names if isinstance(fields[k], float) and 1e-3 < abs(fields[k]) < 1e6]
        if reals:
            f = draw(st.sampled_from(reals))
            step = draw(st.floats(2e-4, 0.1)) * draw(st.sampled_from([1, -1]))
            v = fields[f] * (1 + (step if abs(fields[f]) < 80 else -abs(step)))
    return (n, fields, f, v)


@C.given(pairs(), st.booleans(), quick=900, thorough=15000)
def one_different_attribute_makes_unequal(ctx, case, as_dict):
    """two objects that differ in one attribute are not equal, in either direction, also when one is a dictionary"""
    n, fields, f, v = case
    a = mg.build((n, fields))
    b = mg.build((n, {**fields, f: v}))
    va, vb = mg.flat_value(a, f), mg.flat_value(b, f)
    if isinstance(va, list) != isinstance(vb, list):
        ctx.trivial()  # one value and a list with that value
        return
    if mg.same_value(va, vb) or (is_null(va) and is_null(vb)):
        ctx.trivial()
        return
    if isinstance(va, float) and isinstance(vb, float) and abs(va - vb) <= 1e-4 * max(abs(va), abs(vb)) + 1e-7:
        ctx.trivial()
        return
    if f.split(".")[-1] in ("x", "y", "z", "x2", "y2", "z2") and not (va or 0.0) and not (vb or 0.0):
        ctx.trivial()
        return
    check(not (a == b), f"{n}: {f} is {va!r} and {vb!r} but the objects are equal")
    check(not (b == a), f"{n}: {f} is {vb!r} and {va!r} but the objects are equal")
    check(a != b, f"{n}: {f} is {va!r} and {vb!r} but != is False")
    if as_dict and not is_null(va) and not is_null(vb):
        check(not (a == b.to_dict()), f"{n}: {f} is {va!r} and {vb!r} but the object equals the dictionary")
    ctx.tag(n.split(".")[0], type(va).__name__)


@C.given(mg.object_specs(ALL), pairs(), quick=10, thorough=100)
def other_kinds(ctx, spec, case):
    """an object never equals None"""
    o = mg.build(spec)
    check(not (o == None) and o != None, "equal to None")  # noqa: E711


def change_lists(o):
    """change every list and dictionary of an object and its parts in place"""
    changed = 0
    for k in type(o).model_fields:
        x = getattr(o, k)
        if isinstance(x, list):
            x.append(x[0] if x else "added")
            changed += 1
        elif isinstance(x, dict):
            x["added"] = 1
            changed += 1
        elif hasattr(type(x), "model_fields"):
            changed += change_lists(x)
    return changed


@C.given(pairs(), quick=700, thorough=10000)
def copy_is_independent(ctx, case):
    """changing the copy leaves the original alone and the reverse"""
    n, fields, f, v = case
    a = mg.build((n, fields))
    before = mg.leaves(a)
    c = a.copy()
    if change_lists(c):
        ctx.tag("list")
        check(not mg.diff(before, mg.leaves(a)), f"changing a list of the copy changed the original {n}")
        c = a.copy()
        check(not mg.diff(before, mg.leaves(c)), f"a second copy differs")
    c.update_attribute(f, v)
    check(not mg.diff(before, mg.leaves(a)), f"changing {f} of the copy changed the original {n}")
    c2 = a.copy()
    keep = mg.leaves(c2)
    a.update_attribute(f, v)
    check(not mg.diff(keep, mg.leaves(c2)), f"changing {f} of the original changed the copy of {n}")
    if not mg.diff(before, mg.leaves(a)):
        ctx.trivial()


@st.composite
def two(draw):
    n, a = draw(mg.object_specs(ALL))
    cls = mg.class_named(n)
    fs = mg.usable_fields(cls)
    sel = draw(st.lists(st.sampled_from(sorted(fs)), min_size=1, max_size=5, unique=True))
    # overlap with the first object on purpose
    sel = list(dict.fromkeys(sel + draw(st.lists(st.sampled_from(sorted(a)), max_size=2)) + mg.always_of(cls)))
    b = {k: draw(fs[k]) for k in sel}
    return n, a, b


def comment_like(o, k):
    if "." not in k:
        return False
    try:
        return type(mg.getattr_path(o, k.rsplit(".", 1)[0])).__name__ == "Comment"
    except AttributeError:
        return False


@C.given(two(), st.sampled_from(["update", "load", "load_dict", "load_json"]), quick=900, thorough=15000)
def update_overwrites_with_what_is_set(ctx, case, how):
    """after a.update(b) every attribute that is set in b has b's value, every attribute empty in b keeps a's value,
    and b is unchanged"""
    n, fa, fb = case
    a, b = mg.build((n, fa)), mg.build((n, fb))
    la, lb = mg.leaves(a), mg.leaves(b)
    if how in ("load_dict", "load_json") and any(comment_like(b, k) for k in fb):
        how = "update"
    if how == "update":
        a.update(b)
    elif how == "load":
        a.load(b)
    elif how == "load_dict":
        a.load({type(b).__name__.lower(): {k: v for k, v in b.to_dict(single=True).items() if k in fb}})
    else:
        a.load(b.to_json())
    check(not mg.diff(lb, mg.leaves(b)), "the source of the update changed")
    ln = mg.leaves(a)
    changed = 0
    for k in fb:
        want = mg.flat_value(b, k)
        if is_null(want) or comment_like(b, k):
            continue
        got = mg.flat_value(a, k)
        check(mg.same_value(want, got), f"{n}.{k}: {got!r} instead of {want!r} after {how}")
        changed += 1
    if how in ("update", "load", "load_dict"):
        for k in fa:
            if k in fb or comment_like(a, k):
                continue
            if how == "load_dict" or is_null(lb.get(k, mg.flat_value(b, k))):
                want, got = mg.flat_value(mg.build((n, fa)), k), mg.flat_value(a, k)
                if (n.endswith("station.Station") and k == "id") or ".id" in k or k == "id":
                    continue
                check(mg.same_value(want, got), f"{n}.{k} was {want!r}, became {got!r} by {how} of {fb!r}")
    if not changed:
        ctx.trivial()
    ctx.tag(how)


@C.given(pairs(), quick=300, thorough=4000)
def update_with_match(ctx, case):
    """update(match=[name]) is refused, before anything is changed, exactly when the named attribute differs"""
    n, fields, f, v = case
    a = mg.build((n, fields))
    b = mg.build((n, {**fields, f: v}))
    same = mg.same_value(mg.flat_value(a, f), mg.flat_value(b, f))
    if isinstance(mg.flat_value(a, f), list) or isinstance(mg.flat_value(b, f), list):
        ctx.trivial()
        return
    before = mg.leaves(a)
    try:
        a.update(b, match=[f])
        ok = True
    except ValueError:
        ok = False
    check_eq(ok, same, f"{n} update with match on {f}: {mg.flat_value(a, f)!r} and {mg.flat_value(b, f)!r}")
    if not ok:
        check(not mg.diff(before, mg.leaves(a)), "a refused update changed the object")
    else:
        ctx.trivial()
