"""C05: controlled vocabularies and the small descriptive objects (licences, DOI, comments, ratings, names)."""
import json
import os
import typing
from enum import Enum

import mt_metadata
from hypothesis import assume
from hypothesis import strategies as st

from mt_metadata.common import Citation, Comment, Copyright, Declination, FundingSource, Person, AuthorPerson, Rating
from mt_metadata.common import enumerations as en
from mt_metadata.common.mttime import MTime
from mt_metadata.utils.exceptions import MTValidatorError
from mt_metadata.utils.validators import validate_name, validate_station_name

from vp import metagen as mg
from vp.core import Check, check, check_eq
from vp.strat import names, plain_text, utc_datetimes

C = Check("C05", rule="non-trivial: the value is not the canonical spelling of the default, or must be refused")


def enums(a):
    if isinstance(a, type) and issubclass(a, Enum):
        return [a]
    return [e for x in typing.get_args(a) for e in enums(x)]


SPECIAL = {"LicenseEnum", "GeomagneticModelEnum"}
FIELDS = []
for cls in mg.all_classes():
    if cls.__name__ in ("ChannelNomenclature", "TaperWeightKernel"):
        continue
    for f, info in cls.model_fields.items():
        es = enums(info.annotation)
        if len(es) != 1 or es[0].__name__ in SPECIAL:
            continue
        try:
            cls()
        except Exception:
            continue
        FIELDS.append((cls, f, es[0]))
# the published vocabularies of the metadata standard
PINNED = {
    "DataTypeEnum": "RMT AMT BBMT LPMT ULPMT MT LP BB WB MT_TF BBMT_TF WBMT_TF LPMT_TF CSAMT NSAMT".split(),
    "ChannelLayoutEnum": ["L", "X", "+"],
    "OrientationMethodEnum": ["compass", "GPS", "theodolite"],
    "GeographicReferenceFrameEnum": ["geographic", "geomagnetic", "station", "sitelayout"],
    "ChannelOrientationEnum": ["orthogonal", "station", "sitelayout"],
    "ReleaseStatusEnum": ["Unrestricted Release", "Restricted Release", "Paper Citation Required", "Academic Use Only", "Conditions Apply", "Data Citation Required"],
    "FilterTypeEnum": ["fap", "zpk", "time_delay", "coefficient", "fir"],
    "SymmetryEnum": ["NONE", "ODD", "EVEN"],
    "YesNoEnum": ["yes", "no"],
    "SignConventionEnum": ["+", "-", "exp(+iwt)", "exp(-iwt)"],
}


# reads whatever other programs write, anything it does not know is geographic
LENIENT = {("TransferFunction", "coordinate_system")}


def members(e):
    return sorted({m.value for m in e} | set(PINNED.get(e.__name__, [])))


def insensitive(e):
    return issubclass(e, en.StrEnumerationBase)


@st.composite
def vocab_case(draw):
    cls, f, e = draw(st.sampled_from(FIELDS))
    value = draw(st.sampled_from(members(e)))
    flips = draw(st.integers(0, 2 ** min(len(value), 12) - 1))
    text = "".join(c.swapcase() if flips >> (i % 12) & 1 else c for i, c in enumerate(value)) if insensitive(e) else value
    if text.lower() != value.lower():
        text = value
    bad = draw(names(9, min_size=4))
    return cls, f, e, value, text, bad


def refused(fn):
    try:
        fn()
    except (ValueError, TypeError, NameError, KeyError):
        return True
    return False


@C.given(vocab_case(), quick=900, thorough=20000)
def vocabulary_attributes(ctx, case):
    """an attribute with a vocabulary takes every word of it, in any case where the vocabulary is case-insensitive, and stores the word; any other word is refused and changes nothing"""
    cls, f, e, value, text, bad = case
    o = cls()
    if (cls.__name__, f) in LENIENT:
        text = value
    setattr(o, f, text)
    got = getattr(o, f)
    got = got.value if isinstance(got, Enum) else got
    # some attributes interpret their words further (EDI versions, FC domains)
    if e.__name__ in PINNED or insensitive(e):
        if not (cls.__name__, f) in (("Coherence", "domain"), ("StridingWindowCoherence", "domain"), ("FCCoherence", "domain")):
            check(got is not None and str(got).lower() == value.lower() and (e.__name__ != "SymmetryEnum" or got == value), f"{cls.__name__}.{f} = {text!r} gives {got!r}")
            if e.__name__ in PINNED:
                check_eq(got, value, f"{cls.__name__}.{f} = {text!r}")
            check(got in members(e), f"{cls.__name__}.{f} = {text!r} gives {got!r}, not a word of the vocabulary")
    if (cls.__name__, f) in LENIENT:
        return
    assume(bad.lower() not in {m.lower() for m in members(e)})
    before = o.to_dict(single=True)
    check(refused(lambda: setattr(o, f, bad)), f"{cls.__name__}.{f} = {bad!r} accepted as {getattr(o, f)!r}")
    check(o.to_dict(single=True) == before, f"{cls.__name__}.{f} = {bad!r} refused but changed the object")
    if text == value:
        ctx.tag("canonical")


with open(os.path.join(os.path.dirname(mt_metadata.__file__), "data", "licenses.json")) as fid:
    SPDX = sorted(x["licenseId"] for x in json.load(fid)["licenses"])
CC = ["CC0", "CC BY", "CC BY-SA", "CC BY-NC", "CC BY-NC-SA", "CC BY-ND", "CC BY-NC-ND"]
COMMON = ["CC0-1.0", "CC-BY-4.0", "CC-BY-3.0", "CC-BY-SA-4.0", "CC-BY-NC-4.0", "MIT", "Apache-2.0", "GPL-3.0", "BSD-3-Clause"]


@C.given(st.one_of(st.sampled_from(SPDX), st.sampled_from(CC + COMMON)), st.sampled_from("- _."), names(8, min_size=5, alphabet="xyzqw"), quick=400, thorough=5000)
def licences(ctx, lid, sep, bad):
    """every SPDX licence and Creative Commons name is accepted, with any separators, and stored as its identifier, which is accepted again; anything else is refused"""
    c = Copyright()
    text = lid
    for ch in "- _.":
        text = text.replace(ch, sep)
    c.release_license = lid
    got = c.release_license
    check_eq(got, lid, f"release_license = {lid!r}")
    c.release_license = text
    check_eq(c.release_license, lid, f"release_license = {text!r}")
    check_eq(Copyright(release_license=text).release_license, lid, "constructor")
    check(refused(lambda: setattr(c, "release_license", bad)) and c.release_license == lid, f"release_license = {bad!r}")
    d = Copyright()
    d.from_dict(c.to_dict())
    check_eq(d.release_license, lid, "dictionary round trip")


MODELS = ["EMAG2", "EMM", "HDGM", "IGRF", "WMM", "unknown"]


@C.given(st.sampled_from(MODELS), st.booleans(), st.sampled_from(["", "-13", "-2020"]), names(7, min_size=4, alphabet="bcdfjklp"), quick=100, thorough=1000)
def geomagnetic_models(ctx, model, lower, year, bad):
    """a geomagnetic model is accepted in any case, with or without its edition, and kept as given; others are refused"""
    text = (model.lower() if lower else model) + year
    d = Declination(model=text)
    check_eq(d.model, text, "model")
    check(refused(lambda: setattr(d, "model", bad)) and d.model == text, f"model = {bad!r}")


@C.given(st.integers(1000, 99999), names(12, alphabet="abcdefghijklmnopqrstuvwxyz0123456789."), st.sampled_from(["{}", "doi:{}", "https://doi.org/{}", "https://dx.doi.org/{}"]),
         st.sampled_from(["https://example.org/{}", "http://doi.org.example/{}", "ftp://doi.org/{}", "{}x y", "https://doi.com/{}"]), quick=200, thorough=3000)
def digital_object_identifiers(ctx, prefix, suffix, form, wrong):
    """a DOI given bare, with doi:, or as a doi.org address is stored as that address; other addresses are refused"""
    doi = f"10.{prefix}/{suffix.strip('.') or 'a'}"
    c = Citation()
    c.doi = form.format(doi)
    host = "dx.doi.org" if "dx." in form else "doi.org"
    check_eq(str(c.doi), f"https://{host}/{doi}", f"doi = {form.format(doi)!r}")
    before = c.doi
    c.doi = str(c.doi)
    check_eq(c.doi, before, "the stored address is accepted again")
    d = Citation()
    d.from_dict(c.to_dict())
    check_eq(str(d.doi), str(c.doi), "dictionary round trip")
    bad = wrong.format("x" + doi)
    check(refused(lambda: setattr(c, "doi", bad)) and c.doi == before, f"doi = {bad!r} accepted as {c.doi!r}")
    c.doi = ""
    check(c.doi is None, "an empty DOI is None")


AUTHOR = st.text("abcdefghij KLM.-',;:()&@_é0", min_size=1, max_size=12).map(str.strip).filter(lambda s: s and s.lower() not in ("none", "null", "a", "nan", "na"))
VALUE = st.text("abcdefghij KLM.,;:-/()0123456789'\"<>&=", min_size=1, max_size=30).map(str.strip).filter(bool)


def isotime(d):
    return d.isoformat()


@C.given(st.one_of(st.none(), AUTHOR), st.one_of(st.none(), utc_datetimes(1981, 2190)), VALUE, AUTHOR, VALUE, quick=600, thorough=10000)
def comments(ctx, author, when, value, author2, value2):
    """a comment is its time, author and value; its text gives them back, 'time | author | value' sets them, it equals its own text and dictionary and another exactly when all three agree"""
    kw = dict(value=value)
    if author is not None:
        kw["author"] = author
    if when is not None:
        kw["time_stamp"] = isotime(when)
    c = Comment(**kw)
    assume(author is None or not _timelike(author))
    text = c.as_string()
    back = Comment(value=text)
    check_eq((back.value, back.author or None, back.time_stamp), (value, author, c.time_stamp), f"the text {text!r} reads back")
    check(c == back and back == c and c == text, "a comment equals its text")
    check(c == c.to_dict(single=True), "a comment equals its dictionary")
    if when is not None:
        t = MTime(time_stamp=isotime(when))
        check_eq(c.time_stamp, t, "time")
        if author is not None:
            d = Comment(value=f"{isotime(when)} | {author} | {value}")
            check_eq((d.time_stamp, d.author, d.value), (t, author, value), "time | author | value")
        d = Comment(value=f"{isotime(when)}|{value}")
        check_eq((d.time_stamp, d.author or None, d.value), (t, None, value), "time|value")
    d = Comment(value=f"{author2} | {value}")
    if not _timelike(author2):
        check_eq((d.author, d.value), (author2, value), "author | value")
        e = Comment(**{**kw, "author": author2})
        check((c == e) == (author == author2) and (e == c) == (author == author2), "comments with different authors differ")
    e = Comment(**{**kw, "value": value2})
    check((c == e) == (value == value2), "comments with different values differ")
    e = Comment(**{**kw, "time_stamp": "1999-01-01T00:00:00"})
    check(not (c == e) or c.time_stamp == e.time_stamp, "comments with different times differ")
    check(not (c == None), "a comment with text is not None")  # noqa: E711
    e = Comment()
    e.from_dict(c.to_dict())
    check(e == c and e.value == value and (e.author or None) == author and e.time_stamp == c.time_stamp, "dictionary round trip")
    e = Comment(value=[value, " " + value2 + " "])
    if "|" not in value + value2:
        check_eq(e.value, f"{value},{value2}", "a list of comments is joined")


def _timelike(s):
    try:
        t = MTime(time_stamp=s)
        return True
    except Exception:
        return False


@C.given(st.one_of(st.integers(-3, 9), st.integers(-3, 9).map(str), st.floats(0, 5.99), st.sampled_from([None, "", "none", "None", "null", "good", "4 of 5"])), st.integers(0, 5), quick=200, thorough=1000)
def ratings(ctx, v, start):
    """a rating is an integer 0..5 or None; anything else is refused and changes nothing"""
    r = Rating(value=start)
    if v in (None, "", "none", "None", "null"):
        r.value = v
        check(r.value is None, f"value = {v!r} gives {r.value!r}")
        return
    try:
        n = int(v)
    except ValueError:
        n = -1
    if 0 <= n <= 5:
        r.value = v
        check(r.value == n and isinstance(r.value, int), f"value = {v!r} gives {r.value!r}")
        check_eq(Rating(value=v).value, n, "constructor")
    else:
        check(refused(lambda: setattr(r, "value", v)), f"value = {v!r} accepted as {r.value!r}")
        check_eq(r.value, start, "a refused rating changes nothing")


@C.given(st.one_of(names(8, alphabet="abcXYZ0189_ -."), st.integers(0, 99999), names(5, alphabet="ab_ !@#/é")), quick=300, thorough=3000)
def station_names(ctx, name):
    """a station name is letters, digits and underscores: blanks, hyphens and dots become underscores, other characters are refused"""
    text = str(name).strip()
    want = text.replace(" ", "_").replace("-", "_").replace(".", "_")
    ok = want != "" and all(c.isascii() and (c.isalnum() or c == "_") for c in want)
    try:
        got = validate_station_name(name)
    except MTValidatorError:
        check(not ok, f"{name!r} refused")
    else:
        check(ok, f"{name!r} accepted as {got!r}")
        check_eq(got, want, f"station name {name!r}")
        check_eq(validate_station_name(got), got, "a valid name stays")


@C.given(st.lists(names(5, alphabet="abcdefgh0123"), min_size=1, max_size=4).filter(lambda w: w[0][0].isalpha() and all(x[0].isalpha() for x in w)), st.sampled_from(["Camel", "snake", "slash"]), quick=200, thorough=2000)
def attribute_names(ctx, words, style):
    """class and attribute names become lower case words joined by underscores, categories joined by dots; the result stays"""
    if style == "Camel":
        text, want = "".join(w.capitalize() for w in words), "_".join(words)
    elif style == "snake":
        text = want = "_".join(words)
    else:
        text, want = "/".join(words), ".".join(words)
    check_eq(validate_name(text), want, f"name {text!r}")
    check_eq(validate_name(want), want, "a valid name stays")
    check(_raises(lambda: validate_name("1" + text)), "a name that starts with a digit is refused")
    check(_raises(lambda: validate_name(3)), "a number is no name")


def _raises(fn):
    try:
        fn()
    except MTValidatorError:
        return True
    return False


word = names(6, alphabet="abcdefghij")


@C.given(st.lists(word, min_size=1, max_size=4), st.sampled_from(["name", "organization", "email", "url", "grant_id"]), st.sampled_from(["list", "tuple", "text", "text with blanks"]), quick=200, thorough=3000)
def funding_lists(ctx, items, field, how):
    """names, organisations, e-mails, addresses and grants of a funding source are lists, given as list, tuple or comma separated text"""
    if field == "email":
        items = [f"{w}@example.org" for w in items]
    elif field == "url":
        items = [f"https://example.org/{w}" for w in items]
    given = {"list": list(items), "tuple": tuple(items), "text": ",".join(items), "text with blanks": " , ".join(items)}[how]
    f = FundingSource()
    setattr(f, field, given)
    check_eq([str(x) for x in getattr(f, field)], items, f"{field} = {given!r}")
    check_eq([str(x) for x in getattr(FundingSource(**{field: given}), field)], items, "constructor")
    setattr(f, field, None)
    check(getattr(f, field) is None, "None stays None")


@C.given(word, st.sampled_from([Person, AuthorPerson]), plain_text(20), st.sampled_from([None, "", "None", "null", "none"]), quick=150, thorough=2000)
def persons(ctx, w, cls, comment, null):
    """a person has an e-mail and an address that must be valid, null addresses are None, name and author are the same thing, a comment may be given as text"""
    p = cls(email=f"{w}@example.org", url=f"https://example.org/{w}", **{"author" if cls is Person else "name": w})
    check_eq(getattr(p, "name" if cls is Person else "author"), w, "name given under its other name")
    check_eq((str(p.email), str(p.url)), (f"{w}@example.org", f"https://example.org/{w}"), "e-mail and address")
    check(refused(lambda: setattr(p, "email", f"{w} at example")) and str(p.email) == f"{w}@example.org", "bad e-mail")
    check(refused(lambda: setattr(p, "url", f"{w} no address")) and str(p.url) == f"https://example.org/{w}", "bad address")
    p.url = null
    check(p.url is None, f"url = {null!r}")
    if "|" not in comment:
        p.comments = comment
        check(isinstance(p.comments, Comment) and p.comments.value == comment, "comment given as text")
