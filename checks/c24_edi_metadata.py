"""C24: EDI files keep the metadata of a transfer function."""
import pathlib
import string
import tempfile

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Electric, Magnetic, Run
from mt_metadata.transfer_functions.core import TF

from vp import strat
from vp.core import Check, check, check_eq

C = Check("C24", rule="non-trivial: at least one channel and at least three texts given")

# words without the characters that have a meaning in EDI files
word = st.text(string.ascii_letters + string.digits + "-_.,:;()/#+&%", min_size=1, max_size=8).filter(lambda s: s[0].isalpha() and s.lower() not in ("none", "null", "nan", "n"))
plain = strat.names(8).map(lambda s: "c" + s)
words = st.lists(word, min_size=1, max_size=4).map(" ".join)
maybe = lambda s: st.one_of(st.none(), s, s)
# names of processing programs in an id would make its lines processing parameters
ids = strat.names(6).map(lambda s: "m" + s).filter(lambda s: not any(k in s.lower() for k in ("mtft", "emtf", "mtedit")))
decimals = lambda lo, hi, d: st.integers(int(lo * 10**d), int(hi * 10**d)).map(lambda i: i / 10**d)
seconds = strat.utc_datetimes(1981, 2100, micro=False)

channel = st.fixed_dictionaries(
    {
        "azimuth": st.one_of(decimals(0, 359, 2), st.sampled_from([0.0, 90.0])),
        "length": decimals(1, 500, 1),
        "x": decimals(-500, 500, 2),
        "y": decimals(-500, 500, 2),
        "sensor": maybe(st.one_of(word, st.integers(1, 99999).map(str))),
        "number": st.integers(1, 99),
        "comments": maybe(words),
        "resistance": decimals(1, 5000, 1),
    }
)
station = st.fixed_dictionaries(
    {
        "id": ids,
        "lat": decimals(-89, 89, 5),
        "lon": decimals(-179, 179, 5),
        "elev": decimals(-400, 8000, 3),
        "declination": decimals(-90, 90, 3),
        "model": st.sampled_from(["IGRF", "WMM"]),
        "frame": st.sampled_from(["geographic", "geomagnetic"]),
        "geographic": maybe(words),
        "author": maybe(words),
        "submitter": maybe(words),
        "start": seconds,
        "days": st.integers(0, 900),
        "processed_by": maybe(words),
        "software": maybe(words),
        "sign": st.sampled_from(["+", "-", "exp(+ i\\omega t)", "exp(- i\\omega t)"]),
        "remotes": st.lists(ids, max_size=3, unique=True),
        "runs": st.lists(ids, max_size=3, unique=True),
        "parameters": st.lists(st.tuples(st.text(string.ascii_lowercase + "_", min_size=3, max_size=8).map(lambda s: "p" + s), st.one_of(word, word, st.none(), st.tuples(word, word).map("=".join))), max_size=3, unique_by=lambda t: t[0]),
        "channels": st.dictionaries(st.sampled_from(["ex", "ey", "hx", "hy", "hz"]), channel, max_size=5),
    }
)
survey = st.fixed_dictionaries({"id": ids, "project": maybe(words), "country": maybe(st.lists(plain, min_size=1, max_size=2)), "summary": maybe(words)})


def written(parameters):
    """parameters with a value (that may have = in it) or without"""
    return [k if v is None else f"{k}={v}" for k, v in parameters]


def make(sv, s):
    t = TF(period=np.array([1.0, 10.0]))
    t.impedance = np.arange(1, 9).reshape(2, 2, 2) * (1 + 1j)
    t.impedance_error = np.ones((2, 2, 2))
    t.station, t.survey = s["id"], sv["id"]
    t.latitude, t.longitude, t.elevation = s["lat"], s["lon"], s["elev"]
    m, f = t.station_metadata, t.station_metadata.transfer_function
    m.location.declination.value, m.location.declination.model = s["declination"], s["model"]
    m.orientation.reference_frame = s["frame"]
    m.time_period.start = s["start"].isoformat()
    m.time_period.end = (s["start"] + __import__("datetime").timedelta(days=s["days"])).isoformat()
    f.sign_convention = s["sign"]
    f.remote_references = list(s["remotes"])
    f.runs_processed = list(s["runs"])
    f.processing_parameters = written(s["parameters"])
    for obj, attr, key in ((m, "geographic_name", "geographic"), (m.acquired_by, "author", "author"), (m.provenance.submitter, "author", "submitter"), (f.processed_by, "author", "processed_by"), (f.software, "name", "software")):
        if s[key] is not None:
            setattr(obj, attr, s[key])
    for key in ("project", "country", "summary"):
        if sv[key] is not None:
            setattr(t.survey_metadata, key, sv[key])
    r = Run(id=s["id"] + "a")
    for i, (c, p) in enumerate(s["channels"].items()):
        ch = Electric(component=c) if c[0] == "e" else Magnetic(component=c)
        ch.channel_number = p["number"]
        ch.channel_id = f"{i + 1}.0"
        ch.measurement_azimuth = ch.translated_azimuth = p["azimuth"]
        if c[0] == "e":
            a = np.deg2rad(p["azimuth"])
            ch.negative.x, ch.negative.y = p["x"], p["y"]
            ch.positive.x2, ch.positive.y2 = p["x"] + p["length"] * np.cos(a), p["y"] + p["length"] * np.sin(a)
            ch.dipole_length = p["length"]
            ch.contact_resistance.start = p["resistance"]
        else:
            ch.location.x, ch.location.y = p["x"], p["y"]
            if p["sensor"] is not None:
                ch.sensor.id = p["sensor"]
        if p["comments"] is not None:
            ch.comments = p["comments"]
        r.add_channel(ch)
    m.runs = [r]
    return t


def compare(t, sv, s, what):
    m, f = t.station_metadata, t.station_metadata.transfer_function
    check_eq((t.station, m.id, t.survey), (s["id"], s["id"], sv["id"]), f"{what}: station, survey")
    loc = (m.location.latitude, m.location.longitude, m.location.elevation)
    check(np.allclose(loc, (s["lat"], s["lon"], s["elev"]), rtol=0, atol=(1e-6)), f"{what}: location {loc}, expected {s['lat'], s['lon'], s['elev']}")
    check_eq(m.location.declination.value, s["declination"], f"{what}: declination")
    if s["declination"]:
        check_eq(m.location.declination.model, s["model"], f"{what}: model of the declination")
    check_eq(m.orientation.reference_frame, s["frame"], f"{what}: reference frame")
    check_eq(m.time_period.start.time_stamp.isoformat(), s["start"].replace(tzinfo=m.time_period.start.time_stamp.tzinfo).isoformat(), f"{what}: start")
    check_eq((m.time_period.end.time_stamp - m.time_period.start.time_stamp).days, s["days"], f"{what}: days recorded")
    for key, got in (("geographic", m.geographic_name), ("author", m.acquired_by.author), ("submitter", m.provenance.submitter.author), ("processed_by", f.processed_by.author), ("software", f.software.name)):
        if s[key] is not None:
            check_eq(got, s[key], f"{what}: {key}")
    check_eq(f.sign_convention, s["sign"], f"{what}: sign convention")
    check_eq(list(f.remote_references), s["remotes"], f"{what}: remote references")
    if s["runs"]:
        check_eq(list(f.runs_processed), s["runs"], f"{what}: runs processed")
    check_eq(sorted(f.processing_parameters), sorted(written(s["parameters"])), f"{what}: processing parameters")
    for key in ("project", "country", "summary"):
        if sv[key] is not None:
            check_eq(getattr(t.survey_metadata, key), sv[key], f"{what}: {key} of the survey")
    check_eq(sorted(c for r in m.runs for c in r.channels_recorded_all), sorted(s["channels"]), f"{what}: channels")
    for c, p in s["channels"].items():
        ch = m.runs[0].channels[c]
        w = f"{what}: {c}"
        check_eq(ch.channel_number, p["number"], f"{w}: number")
        check(abs(ch.measurement_azimuth - p["azimuth"]) < 0.006, f"{w}: azimuth {ch.measurement_azimuth}, expected {p['azimuth']}")
        if c[0] == "e":
            a = np.deg2rad(p["azimuth"])
            got = (ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2)
            want = (p["x"], p["y"], p["x"] + p["length"] * np.cos(a), p["y"] + p["length"] * np.sin(a))
            check(np.allclose(got, want, rtol=0, atol=0.0051), f"{w}: electrodes {got}, expected {want}")
            check(abs(ch.dipole_length - p["length"]) < 0.02, f"{w}: dipole length {ch.dipole_length}, expected {p['length']}")
            check_eq(ch.contact_resistance.start, p["resistance"], f"{w}: contact resistance")
            if p["comments"] is not None:
                check_eq(ch.comments.value, p["comments"], f"{w}: comments")
        else:
            check(np.allclose((ch.location.x, ch.location.y), (p["x"], p["y"]), rtol=0, atol=0.0051), f"{w}: location {ch.location.x, ch.location.y}, expected {p['x'], p['y']}")
            if p["sensor"] is not None:
                check_eq(ch.sensor.id, p["sensor"], f"{w}: sensor")


@C.given(survey, station, st.sampled_from(["dms", "dd"]), st.sampled_from(["LON", "LONG"]), quick=60, thorough=3000)
def metadata(ctx, sv, s, latlon, lon):
    """survey, station, processing and channel metadata of a TF come back from the EDI file written, and from a file written from what was read"""
    t = make(sv, s)
    with tempfile.TemporaryDirectory() as d:
        for k, what in enumerate(("written", "written twice")):
            fn = pathlib.Path(d) / f"{k}.edi"
            t.write(fn, latlon_format=latlon, longitude_format=lon)
            t = TF()
            t.read(fn)
            compare(t, sv, s, what)
    if not s["channels"] or sum(v is not None for v in list(sv.values()) + [s[k] for k in ("geographic", "author", "submitter", "processed_by", "software")]) < 4:
        ctx.trivial()
    ctx.tag(f"{len(s['channels'])} channels")
