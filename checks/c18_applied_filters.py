"""C18: list of filters applied to a channel."""
import json

import numpy as np
from hypothesis import strategies as st

from mt_metadata.common.mttime import MTime  # noqa: F401
from mt_metadata.timeseries import AppliedFilter, Auxiliary, Electric, Magnetic
from mt_metadata.utils.exceptions import MTSchemaError

from vp.core import Check, check, check_eq, raises

C = Check("C18", rule="non-trivial: at least two filters were in the list at some time")

NAMES = ["low pass", "A", "b", "volt/meter", "Coil_2244", "x.1", "delay 0.25", "Ünit", "9"]


def key(name):
    return name.replace("/", " per ").lower()


name = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.text("aBc /_-9", min_size=1, max_size=6).filter(lambda s: s.strip()))
stage = st.one_of(st.none(), st.none(), st.integers(0, 6))
note = st.sampled_from([None, None, "checked", "not calibrated; yet"])
item = st.tuples(name, st.booleans(), stage, note)
op = st.one_of(
    st.tuples(st.just("add name"), item),
    st.tuples(st.just("add name"), item),
    st.tuples(st.just("add object"), item),
    st.tuples(st.just("remove"), name, st.booleans()),
    st.tuples(st.just("get"), name),
    st.tuples(st.just("assign"), st.lists(item, max_size=4, unique_by=lambda i: key(i[0])), st.sampled_from(["objects", "dictionaries", "json", "python", "json nested"])),
    st.tuples(st.just("copy"), st.sampled_from(["dict", "json", "series"])),
    st.tuples(st.just("bad"), st.sampled_from(["empty", "blank", "number", "nothing", "dict"])),
    st.tuples(st.just("from_dict"), st.lists(item, min_size=1, max_size=3)),
)


def obj(i):
    kw = dict(name=i[0], applied=i[1], stage=i[2])
    if i[3]:
        kw["comments"] = i[3]
    return AppliedFilter(**kw)


def add(model, i):
    n, applied, stage_, note_ = i
    if any(m[0] == key(n) for m in model):
        return model
    model = model + [[key(n), applied, len(model) + 1 if stage_ is None else stage_, note_]]
    return sorted(model, key=lambda m: m[2] or 0)


def state(ch):
    return [[f.name, f.applied, f.stage, f.comments.value] for f in ch.filters]


@C.given(st.sampled_from([Electric, Magnetic, Auxiliary]), st.lists(op, min_size=1, max_size=9), quick=600, thorough=15000)
def history(ctx, cls, ops):
    """after any history the list is that of an ordered, duplicate-free reference list"""
    ch = cls(component={"Electric": "ex", "Magnetic": "hy", "Auxiliary": "temperature"}[cls.__name__])
    model, most = [], 0
    for o in ops:
        if o[0] == "add name":
            n, applied, stage_, note_ = o[1]
            ch.add_filter(name=n, applied=applied, stage=stage_, comments=note_)
            model = add(model, o[1])
        elif o[0] == "add object":
            ch.add_filter(obj(o[1]))
            model = add(model, o[1])
        elif o[0] == "remove":
            ch.remove_filter(o[1], reset_stages=o[2])
            model = [m for m in model if m[0] != key(o[1])]
            if o[2]:
                model = [[m[0], m[1], k, m[3]] for k, m in enumerate(model, 1)]
        elif o[0] == "get":
            got = ch.get_filter(o[1])
            want = [m for m in model if m[0] == key(o[1])]
            if not want:
                check(got is None, f"get_filter({o[1]!r}) of a filter that is not there: {got!r}")
            else:
                check_eq([got.name, got.applied, got.stage, got.comments.value], want[0], f"get_filter({o[1]!r})")
                check(any(got is f for f in ch.filters), "get_filter gives the object in the list")
        elif o[0] == "assign":
            dicts = [dict(name=i[0], applied=i[1], stage=i[2]) for i in o[1]]
            notes = o[2] == "objects"
            if o[2] == "objects":
                ch.filters = [obj(i) for i in o[1]]
            elif o[2] == "dictionaries":
                ch.filters = dicts
            elif o[2] == "json":
                ch.filters = json.dumps(dicts)
            elif o[2] == "json nested":
                ch.filters = json.dumps([{"applied_filter": d} for d in dicts])
            else:
                ch.filters = str(dicts)
            model = sorted([[key(i[0]), i[1], i[2], i[3] if notes else None] for i in o[1]], key=lambda m: m[2] or 0)
        elif o[0] == "copy":
            other = cls()
            if any(m[2] is None for m in model):
                continue  # a stage is given when filters are read
            if o[1] == "dict":
                other.from_dict(ch.to_dict())
            elif o[1] == "json":
                other.from_json(ch.to_json())
            else:
                other.from_dict(ch.to_dict(single=True, required=False))
            ch = other
        elif o[0] == "bad":
            if o[1] == "empty":
                raises((ValueError,), lambda: ch.add_filter(name=""), "empty name")
            elif o[1] == "blank":
                raises((ValueError,), lambda: ch.add_filter(name="  "), "blank name")
            elif o[1] == "number":
                raises((TypeError, ValueError), lambda: ch.add_filter(name=4), "number as name")
            elif o[1] == "nothing":
                raises((TypeError, ValueError), lambda: ch.add_filter(), "no name")
            else:
                raises((TypeError, ValueError), lambda: ch.add_filter({"name": "q"}), "dictionary instead of a filter")
        else:
            d = {"filters": [obj(i) if k % 2 else {"applied_filter": {"name": i[0], "applied": i[1], "stage": i[2], **({"comments": i[3]} if i[3] else {})}} for k, i in enumerate(o[1])], "component": ch.component}
            ch.from_dict({cls.__name__.lower(): d})
            for i in o[1]:
                model = add(model, i)
        most = max(most, len(model))
        check_eq(state(ch), model, f"filters after {o!r}")
        check_eq(ch.filter_names, [m[0] for m in model], "filter names")
    if most < 2:
        ctx.trivial()


def variants(flags):
    txt = [("true" if f else "false") for f in flags]
    one = [("1" if f else "0") for f in flags]
    out = [list(flags), [int(f) for f in flags], tuple(flags), np.array(flags), txt, one, ", ".join(txt), " ".join(txt), "[" + ", ".join(txt) + "]", ",".join(one), " ".join(one), " ".join(str(f) for f in flags), json.dumps(list(flags)), str(list(flags))]
    return out


@C.given(st.lists(st.tuples(st.sampled_from(NAMES), st.booleans()), min_size=1, max_size=4, unique_by=lambda t: key(t[0])), st.sampled_from(["filter", "filtered"]), st.integers(0, 13), st.sampled_from(["list", "text", "array"]), st.booleans(), st.sampled_from([0, 0, 0, 1, -1]), quick=500, thorough=6000)
def old_formats(ctx, pairs, prefix, how, names_as, nested, extra):
    """the older keys filter.name/applied and filtered.name/applied, in every form they were written, give the same filters; lists of different length are refused"""
    names = [n for n, _ in pairs]
    flags = [a for _, a in pairs]
    if extra == 1 and len(flags) > 1:
        flags = flags + [True]
    elif extra == -1 and len(flags) > 2:
        flags = flags[:-1]
    else:
        extra = 0
    given = variants(flags)[how]
    n = names if names_as == "list" else ", ".join(names) if names_as == "text" else np.array(names)
    d = {"component": "ex", f"{prefix}.applied": given, f"{prefix}.name": n}
    if nested:
        d = {"component": "ex", prefix: {"applied": given, "name": n}}
    ch = Electric()
    if extra:
        raises((MTSchemaError,), lambda: ch.from_dict({"electric": d}), "names and flags of different length")
        return
    ch.from_dict({"electric": d})
    check_eq(state(ch), [[key(x), a, k, None] for k, (x, a) in enumerate(pairs, 1)], f"filters from {given!r}")
    check_eq(ch.component, "ex", "component")
    if len(pairs) < 2:
        ctx.trivial()
    ctx.tag(prefix, str(type(given).__name__))


@C.given(st.lists(st.tuples(st.sampled_from(NAMES), st.booleans()), min_size=3, max_size=6, unique_by=lambda t: key(t[0])), st.data(), quick=100, thorough=1500)
def all_formats_together(ctx, pairs, data):
    """filters given in the old and the present format at once are all kept, in that order"""
    i = data.draw(st.integers(0, len(pairs)))
    j = data.draw(st.integers(i, len(pairs)))
    d = {"component": "ex"}
    if i:
        d.update({"filter.name": [p[0] for p in pairs[:i]], "filter.applied": [p[1] for p in pairs[:i]]})
    if j > i:
        d.update({"filtered.name": [p[0] for p in pairs[i:j]], "filtered.applied": [p[1] for p in pairs[i:j]]})
    d["filters"] = [{"name": p[0], "applied": p[1]} for p in pairs[j:]]
    ch = Electric()
    ch.from_dict({"electric": d})
    check_eq(state(ch), [[key(x), a, k, None] for k, (x, a) in enumerate(pairs, 1)], f"filters from {d!r}")
