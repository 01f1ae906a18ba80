"""C06: unit text names the unit it says, in every notation."""
from hypothesis import assume
from hypothesis import strategies as st

from mt_metadata.common.units import Unit, get_unit_object
from mt_metadata.timeseries import Auxiliary, Electric, Magnetic
from mt_metadata.timeseries.filters import (
    CoefficientFilter,
    FIRFilter,
    FrequencyResponseTableFilter,
    PoleZeroFilter,
    TimeDelayFilter,
)
from mt_metadata.transfer_functions.tf.statistical_estimate import StatisticalEstimate

from vp.core import Check, check, check_eq
from vp.strat import names

C = Check("C06", rule="non-trivial: the unit has a prefix, is compound, or must be refused")

# the SI: prefix -> symbol, unit -> symbol
PREFIX = {
    "": "", "yotta": "Y", "zetta": "Z", "exa": "E", "peta": "P", "tera": "T", "giga": "G", "mega": "M", "kilo": "k",
    "hecto": "h", "deca": "da", "deci": "d", "centi": "c", "milli": "m", "micro": "μ", "nano": "n", "pico": "p",
    "femto": "f", "atto": "a", "zepto": "z", "yocto": "y",
}
BASE = {
    "meter": "m", "kilogram": "kg", "second": "s", "ampere": "A", "kelvin": "K", "mole": "mol", "candela": "cd",
    "radian": "rad", "hertz": "Hz", "newton": "N", "joule": "J", "watt": "W", "pascal": "Pa", "coulomb": "C",
    "volt": "V", "ohm": "Ω", "siemens": "S", "weber": "Wb", "tesla": "T", "henry": "H",
}
SIMPLE = [(p + u, PREFIX[p] + BASE[u]) for p in PREFIX for u in BASE]
COUNTS = {"digital counts": ["digital counts", "counts", "count", "Digital Counts", "digital count", "COUNTS"], "samples": ["samples", "Samples"]}
# symbols that more than one unit has, or that are also a name
AMBIGUOUS = {"C"}

cased = st.sampled_from([str.lower, str.upper, str.capitalize, str.title, lambda s: s])
simple = st.one_of(
    st.tuples(st.sampled_from(SIMPLE), st.booleans(), cased).map(
        lambda t: (t[0][0], t[0][1], t[0][1] if t[1] and t[0][1] not in AMBIGUOUS else t[2](t[0][0]))
    ),
    st.tuples(st.sampled_from([("millivolt", "mV"), ("nanotesla", "nT"), ("kilometer", "km"), ("volt", "V"), ("meter", "m"), ("second", "s"), ("hertz", "Hz"), ("megavolt", "MV"), ("picotesla", "pT"), ("petatesla", "PT")]), st.booleans(), cased).map(
        lambda t: (t[0][0], t[0][1], t[0][1] if t[1] else t[2](t[0][0]))
    ),
)
counts = st.sampled_from([("digital counts", None, t) for t in COUNTS["digital counts"]] + [("samples", "samples", t) for t in COUNTS["samples"]])
FILTERS = [CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter]


def lname(u):
    return u.name.lower()


@C.given(st.one_of(simple, simple, counts), quick=800, thorough=15000)
def simple_units(ctx, u):
    """a unit given by name in any case or by its exact symbol is that unit; its name and symbol name it again"""
    name, symbol, text = u
    for allow in (True, False):
        got = get_unit_object(text, allow_none=allow)
        check(isinstance(got, Unit) and lname(got) == name, f"{text!r} is {got.name!r}, expected {name!r}")
        if symbol is not None:
            check(got.symbol == symbol, f"{text!r} has symbol {got.symbol!r}, expected {symbol!r}")
        again = get_unit_object(got.name, allow_none=allow)
        check(again == got or name == "digital counts" and again.name == got.name, f"{got.name!r} read again gives {again!r}")
    if name in BASE:
        ctx.trivial()


seps = st.sampled_from(["/", "/", " per ", " ", " / ", "  per  ", "/ ", " /", "  "])
part_counts = counts.filter(lambda c: c[2] != "COUNTS")
compound = st.tuples(st.lists(st.one_of(simple, simple, simple, part_counts), min_size=2, max_size=4), st.lists(seps, min_size=3, max_size=3), st.booleans())


def spell(parts, ss, brackets):
    text = ""
    for i, (name, symbol, t) in enumerate(parts):
        text += (ss[i - 1] if i else "") + (f"[{t}]" if brackets and i % 2 == 0 else t)
    return text


def denotes(parts, ss):
    """('name', 'symbol') of the compound in normal form"""
    name, symbol = parts[0][0], parts[0][1]
    for (n, s, t), sep in zip(parts[1:], ss):
        per = "/" in sep or "per" in sep
        name += (" per " if per else " ") + n
        if symbol is not None:
            symbol = None if s is None else symbol + ("/" if per else " ") + s
    return name, symbol


@C.given(compound, quick=800, thorough=15000)
def compound_units(ctx, c):
    """a compound joined by '/', 'per' or blanks, brackets and extra blanks ignored, is the compound of its parts in order; its name and symbol name it again"""
    parts, ss, brackets = c
    text = spell(parts, ss, brackets)
    name, symbol = denotes(parts, ss)
    got = get_unit_object(text, allow_none=False)
    check(lname(got) == name, f"{text!r} is {got.name!r}, expected {name!r}")
    if symbol is not None:
        check(got.symbol == symbol, f"{text!r} has symbol {got.symbol!r}, expected {symbol!r}")
        if all(p[1] not in AMBIGUOUS for p in parts):
            check(get_unit_object(got.symbol, allow_none=False).name == got.name, f"the symbol {got.symbol!r} of {text!r} reads back")
    again = get_unit_object(got.name, allow_none=False)
    check(again.name == got.name, f"the name {got.name!r} of {text!r} reads back as {again.name!r}")


known = {n for n, _ in SIMPLE} | {s for _, s in SIMPLE} | {"unknown", "samples", "count", "counts", "celsius", "degrees"}


@C.given(st.one_of(names(8, min_size=2, alphabet="abcdefghijklmnopqrstuvwxyzVTAHK"), st.sampled_from(["Mv", "mv", "kM", "NT", "ft", "dimensionless", "degree", "mvolt", "milli"])), st.one_of(st.none(), simple), st.sampled_from(["/", " "]), quick=300, thorough=5000)
def unknown_units(ctx, text, other, sep):
    """text that names no unit is 'unknown', or refused with KeyError when unknowns are not allowed; the known parts of a compound are kept"""
    assume(text.lower() not in {k.lower() for k in known if k in dict(SIMPLE) or len(k) > 1 and k in known and k.islower()})
    assume(text not in known and text.lower() not in {n for n, _ in SIMPLE} | {"unknown", "samples", "celsius", "counts", "count", "per"})
    whole, want = text, "unknown"
    if other is not None:
        whole, want = f"{other[2]}{sep}{text}", other[0] + (" per " if sep == "/" else " ") + "unknown"
    got = get_unit_object(whole)
    check(lname(got) == want, f"{whole!r} is {got.name!r}, expected {want!r}")
    try:
        r = get_unit_object(whole, allow_none=False)
    except KeyError:
        return
    check(False, f"{whole!r} accepted as {r.name!r} although unknown units are not allowed")


@C.given(st.sampled_from([Electric, Magnetic, Auxiliary, StatisticalEstimate] + FILTERS), st.one_of(simple, counts, compound), st.one_of(simple, compound), names(6, min_size=4, alphabet="bcdfgqwxz"), quick=500, thorough=8000)
def units_of_metadata(ctx, cls, u, u2, bad):
    """channels and filters store the name of the unit they are given, in whatever notation; the unit object is that unit; filters refuse unknown units, channels keep 'unknown'"""
    def parts(v):
        if isinstance(v[0], list):
            return spell(*v), denotes(v[0], v[1])[0]
        return v[2], v[0]

    text, name = parts(u)
    o = cls()
    if cls in FILTERS:
        text2, name2 = parts(u2)
        o.units_in, o.units_out = text, text2
        check_eq((o.units_in.lower(), o.units_out.lower()), (name, name2), f"units_in={text!r}, units_out={text2!r}")
        check_eq((lname(o.units_in_object), lname(o.units_out_object)), (name, name2), "unit objects")
        before = o.units_in
        try:
            o.units_in = bad
        except (KeyError, ValueError):
            check_eq(o.units_in, before, "a refused unit changes nothing")
        else:
            check(False, f"units_in = {bad!r} accepted as {o.units_in!r}")
    else:
        o.units = text
        check_eq(o.units.lower(), name, f"units = {text!r}")
        check_eq(cls(units=text).units, o.units, "constructor and assignment agree")
        if hasattr(o, "unit_object"):
            check_eq(lname(o.unit_object), name, "unit object")
        o.units = bad
        check_eq(o.units, "unknown", f"units = {bad!r}")


@C.given(simple, simple, st.sampled_from(["/", "per", " per ", " "]), quick=200, thorough=3000)
def combining(ctx, a, b, sep):
    """combining two units joins all their texts, as quotient or product, and leaves both alone"""
    ua, ub = get_unit_object(a[2]), get_unit_object(b[2])
    da, db = ua.to_dict(), ub.to_dict()
    c = ua.combine(ub, separator=sep)
    n, s = (" per ", "/") if sep != " " else (" ", " ")
    check_eq(c.to_dict(), {
        "name": da["name"] + n + db["name"], "description": da["description"] + n + db["description"],
        "symbol": da["symbol"] + s + db["symbol"], "plot_label": da["plot_label"] + s + db["plot_label"]}, "combine")
    check_eq((ua.to_dict(), ub.to_dict()), (da, db), "the units combined are left alone")
    d = Unit(name="", symbol="", description="", plot_label="")
    d.from_dict(c.to_dict())
    check_eq(d.to_dict(), c.to_dict(), "dictionary round trip")
