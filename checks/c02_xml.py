"""C02: XML round trip of every metadata object."""
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from vp import filtgen as fg
from vp import metagen as mg
from vp.core import Check, check, check_eq

C = Check(
    "C02",
    "a case is non-trivial when at least one attribute was set to a value different from the default",
    ["text attributes hold no leading or trailing blanks"],
)

ALL = [
    c for c in mg.all_classes()
    if c.__name__ not in ("TaperWeightKernel", "Experiment", "Comment", "ChannelResponse")
    and any(x in c.__module__ for x in (".common.", ".timeseries.", ".tf."))
    and mg.usable_fields(c)
]

XTEXT = st.text(
    st.characters(codec="utf-8", exclude_categories=("Cc", "Cs", "Zs", "Zl", "Zp", "Cn", "Co"), max_codepoint=0x2FFF) | st.sampled_from(" <>&'\""),
    min_size=1, max_size=12,
).map(str.strip).filter(lambda t: t and t.lower() not in ("none", "null", "nan"))


def same(a, b):
    if isinstance(a, float) and isinstance(b, str):
        try:
            b = float(b)
        except ValueError:
            return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return mg.same_value(a, b)


@C.given(mg.object_specs(ALL), st.sampled_from(["element", "text", "reparsed"]), st.booleans(), quick=1200, thorough=20000)
def xml_round_trip(ctx, spec, how, required):
    """to_xml (element or text) -> from_xml restores every attribute that was set; to_xml does not change the object"""
    o = mg.build(spec)
    before = mg.leaves(o)
    if how == "element":
        x = o.to_xml(required=required)
    elif how == "reparsed":
        x = ET.fromstring(ET.tostring(o.to_xml(required=required)))
    else:
        x = ET.fromstring(o.to_xml(string=True, required=required))
    check(not mg.diff(before, mg.leaves(o)), "to_xml changed the object")
    n = type(o)()
    d0 = type(o)()
    n.from_xml(x)
    changed = 0
    for f in spec[1]:
        want, got = mg.flat_value(o, f), mg.flat_value(n, f)
        if want in ("", None) or (isinstance(want, str) and want != want.strip()):
            continue
        changed += not mg.same_value(want, mg.flat_value(d0, f))
        check(same(want, got), f"{spec[0]}.{f} was {want!r}, is {got!r} after XML {how} required={required}")
    if not changed:
        ctx.trivial()
    ctx.tag(how, spec[0].split(".")[0])


@C.given(st.sampled_from(["timeseries.survey.Survey:summary", "timeseries.survey.Survey:name",
                          "timeseries.station.Station:geographic_name",
                          "timeseries.run.Run:data_logger.model", "timeseries.electric.Electric:type",
                          "common.person.Person:organization", "common.citation.Citation:title",
                          "common.software.Software:name"]), XTEXT, st.booleans(), quick=400, thorough=8000)
def xml_text_is_escaped(ctx, where, text, string):
    """any text, markup characters included, survives the XML"""
    n, f = where.split(":")
    o = mg.class_named(n)()
    try:
        o.update_attribute(f, text)
    except ValueError:
        ctx.trivial()
        return
    want = mg.flat_value(o, f)
    x = ET.fromstring(o.to_xml(string=True)) if string else ET.fromstring(ET.tostring(o.to_xml()))
    r = mg.class_named(n)()
    r.from_xml(x)
    check_eq(mg.flat_value(r, f), want, f"{n}.{f}")
    if not any(c in text for c in "<>&'\"") and text.isascii():
        ctx.trivial()


@C.given(mg.object_specs(ALL), quick=500, thorough=8000)
def xml_structure(ctx, spec):
    """every attribute that was set is an element at its dotted path, holding its value as text"""
    o = mg.build(spec)
    x = o.to_xml()
    for f in spec[1]:
        want = mg.flat_value(o, f)
        if want in ("", None, []):
            continue
        e = x.find("/".join(f.split(".")))
        if e is None:
            if f.rsplit(".", 1)[-1] in ("value", "author", "time_stamp") or want == "1980-01-01T00:00:00+00:00":
                continue
            check(False, f"{spec[0]}.{f} = {want!r} has no element: {ET.tostring(x)!r}")
        if isinstance(want, list):
            got = [i.text for i in e.findall("item")]
            check_eq(len(got), len(want), f"items of {f}")
            continue
        got = e.text or ""
        if isinstance(want, bool):
            check_eq(got.strip().lower(), str(want).lower(), f)
        elif isinstance(want, float):
            check_eq(float(got), want, f)
        else:
            check_eq(got, want, f)


@C.given(fg.filters(), st.booleans(), st.booleans(), quick=300, thorough=6000)
def arrays_of_filters(ctx, spec, string, required):
    """filters with arrays of real and complex numbers: every number comes back"""
    o = fg.make(spec)
    x = ET.fromstring(o.to_xml(string=True, required=required)) if string else o.to_xml(required=required)
    n = spec[0]()
    n.from_xml(x)
    bad = fg.differs(n, spec)
    check(not bad, f"{bad} after XML")
    if not any(isinstance(v, list) and v for v in spec[1].values()):
        ctx.trivial()
