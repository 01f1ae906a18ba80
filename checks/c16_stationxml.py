"""C16: an experiment survives StationXML."""
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from obspy import read_inventory
from obspy.io.stationxml.core import validate_stationxml

from mt_metadata.common.mttime import MTime
from mt_metadata.timeseries import Electric, Experiment, Magnetic, Run, Station, Survey
from mt_metadata.timeseries.filters import CoefficientFilter, PoleZeroFilter, TimeDelayFilter
from mt_metadata.timeseries.stationxml import XMLChannelMTChannel, XMLInventoryMTExperiment

from vp.core import Check, check, check_eq
from vp.strat import pretty_floats

C = Check("C16", rule="non-trivial: at least two runs with a channel in common, or a survey with several stations")

WORDS = ["A", "north of town", "Z-9 (old)", "x, y", "a: b, c", "Smith", "K. O'Neil", "é ü", "100 % <new> & more"]
text = st.sampled_from(WORDS)
plain = st.sampled_from([w for w in WORDS if ":" not in w])


def some(**kw):
    """any subset of the attributes"""
    return st.fixed_dictionaries({}, optional={k.replace("__", "."): v for k, v in kw.items()})


SURVEY = some(
    summary=text, country=st.lists(st.sampled_from(["USA", "Peru", "Chile"]), min_size=1, max_size=2, unique=True), geographic_name=text, project=text,
    project_lead__organization=text, project_lead__author=text, project_lead__email=st.sampled_from(["a@example.org", "k.o@example.org"]), comments__value=text, acquired_by__author=text, citation_dataset__doi=st.sampled_from(["https://doi.org/10.1/abc", "https://doi.org/10.7914/SN/ZU_2020"]),
    citation_journal__doi=st.sampled_from(["https://doi.org/10.666/test.doi"]),
    fdsn__network=st.sampled_from(["ZU", "EM", "8P"]), release_license=st.sampled_from(["CC0-1.0", "CC-BY-4.0", "CC-BY-NC-ND-4.0", "CC-BY-SA-4.0", "MIT"]),
)
STATION = some(
    location__latitude=pretty_floats(-89, 89), location__longitude=pretty_floats(-179, 179), location__elevation=pretty_floats(-400, 8000, 1),
    geographic_name=text, acquired_by__author=text, location__declination__value=pretty_floats(-90, 90, 2), location__declination__model=st.sampled_from(["WMM", "IGRF-13", "EMM"]),
    location__declination__comments__value=text, orientation__method=st.sampled_from(["compass", "GPS", "theodolite"]), orientation__reference_frame=st.sampled_from(["geographic", "geomagnetic"]),
    provenance__software__author=text, provenance__software__name=text, provenance__software__version=st.sampled_from(["1", "2.3.0"]), comments__value=text, data_type=st.sampled_from(["BBMT", "LPMT", "AMT"]),
)
RUN = some(
    data_logger__id=plain, data_logger__manufacturer=text, data_logger__model=text, data_logger__type=text, data_logger__firmware__author=text, data_logger__firmware__name=text,
    data_logger__firmware__version=st.sampled_from(["1", "4.0b"]), data_logger__power_source__id=text, data_logger__power_source__type=text, data_logger__power_source__voltage__start=pretty_floats(1, 20, 2),
    data_logger__power_source__voltage__end=pretty_floats(1, 20, 2), data_logger__timing_system__drift=pretty_floats(-3, 3, 3), data_logger__timing_system__type=text,
    data_logger__timing_system__uncertainty=pretty_floats(0, 3, 3), acquired_by__author=plain, metadata_by__author=plain, comments__value=plain, data_type=st.sampled_from(["BBMT", "LPMT"]),
)
FILTERS = {
    "dip": dict(units_in="mV/km", units_out="mV"), "dip2": dict(units_in="mV/km", units_out="mV"), "coil": dict(units_in="nT", units_out="mV"), "coil b": dict(units_in="nT", units_out="mV"),
    "gain": dict(units_in="mV", units_out="digital counts"), "delay": dict(units_in="digital counts", units_out="digital counts"),
}
CHAIN = {"e": [["dip", "gain"], ["dip2", "gain"], ["dip", "gain", "delay"]], "h": [["coil", "gain"], ["coil b", "gain"], ["coil", "gain", "delay"]]}
NOTES = st.sampled_from([None, None, "noisy", "a", "gap at 12:30:05", "noise: high", "Noise: high", "a: b, c: d", "x, y", "é: <x>", "see http://example.org/a?b=1"])
PLACES = [(10.5, 20.25), (10.51, 20.25), (-45.125, -120.5)]


def channel(comp):
    k = "e" if comp[0] == "e" else "h"
    common = dict(place=st.sampled_from(PLACES), azimuth=st.sampled_from([0.0, 10.25, 190.25, 90.0, 100.25, 359.0, -12.5, 180.0]), tilt=st.sampled_from([0.0, 0.0, 90.0, -90.0, 12.5, -3.25]), chain=st.sampled_from(CHAIN[k]))
    if k == "e":
        common |= dict(dipole=st.sampled_from([92.5, 100.0, 88.25]), ids=st.sampled_from([("p1", "n1"), ("4", "17"), ("p2", "n1")]), manufacturer=text, model=text, known=st.sampled_from(["both", "both", "positive", "negative", "model of both"]))
    else:
        common |= dict(id=st.sampled_from(["2284", "A-1", "0007"]), manufacturer=text, model=st.sampled_from(["ANT-4", "LEMI", "LEMI 420 B", None]), type=st.sampled_from(["induction coil", "magnetometer", "Coil", "fluxgate", "fluxgate magnetometer", None]), name=st.one_of(text, st.none()))
    return st.fixed_dictionaries(common).map(lambda d: {"comp": comp, **d})


COMPS = ["ex", "ey", "hx", "hy", "hz"]


@st.composite
def variants(draw, comp):
    """one or two ways to set up a channel, the second one often differs in a single thing"""
    one, other = draw(channel(comp)), draw(channel(comp))
    how = draw(st.integers(0, 3))
    if how == 0:
        return [one]
    if how == 1:
        return [one, other]
    k = draw(st.sampled_from(sorted(set(one) - {"comp"})))
    if k == "azimuth" and how == 3:
        return [one, {**one, k: one[k] + draw(st.sampled_from([90.0, 180.0, 0.5]))}]
    return [one, {**one, k: other[k]}]


@st.composite
def experiments(draw):
    surveys = []
    for i in range(draw(st.sampled_from([1, 1, 1, 2]))):
        stations = []
        for j in range(draw(st.sampled_from([1, 1, 2]))):
            rates = draw(st.lists(st.sampled_from([1.0, 4.0, 8.0, 256.0, 4096.0, 0.1]), min_size=1, max_size=2))
            start = draw(st.integers(0, 10**9))
            pool = {c: draw(variants(c)) for c in COMPS}
            elev = {c: draw(pretty_floats(0, 3000, 1)) for c in COMPS}
            notes = {c: draw(NOTES) for c in COMPS}
            runs = []
            names = draw(st.sampled_from([["a", "mt01B", "sr8_003"], ["ab", "a", "b"], ["001", "0011", "01"]]))
            for k in range(draw(st.integers(1, 3))):
                start += draw(st.integers(1, 10**6))
                stop = start + draw(st.integers(1, 10**6))
                comps = draw(st.lists(st.sampled_from(COMPS), min_size=1, max_size=5, unique=True))
                chans = []
                for c in comps:
                    ch = dict(draw(st.sampled_from(pool[c])))
                    ch["elev"], ch["note"] = elev[c], notes[c]
                    chans.append(ch)
                runs.append(dict(id=names[k], start=start, stop=stop, rate=draw(st.sampled_from(rates)), values=draw(RUN), channels=chans))
                start = stop
            if draw(st.integers(0, 2)) == 0:
                runs = draw(st.permutations(runs))
            stations.append(dict(id=["MT01", "rr2"][j], values=draw(STATION), runs=runs))
        surveys.append(dict(id=["sv 1", "SV2"][i], values=draw(SURVEY), stations=stations, network=["ZU", "8P"][i]))
    return surveys


def when(s):
    return MTime(time_stamp=float(s))


def fill(o, values):
    for k, v in values.items():
        o.update_attribute(k, v)
    return o


def make_channel(c, rate, start, stop):
    lat, lon = c["place"]
    if c["comp"][0] == "e":
        ch = Electric(component=c["comp"], dipole_length=c["dipole"])
        for o, i, n in ((ch.positive, c["ids"][0], "positive"), (ch.negative, c["ids"][1], "negative")):
            o.id = i
            if c["known"] in ("both", n):
                o.manufacturer = c["manufacturer"]
            if c["known"] in ("both", "model of both", n):
                o.model = c["model"]
            o.latitude, o.longitude, o.elevation = lat, lon, c["elev"]
        # of one electrode the maker, of both the model
        if c["known"] == "model of both":
            ch.negative.manufacturer = c["manufacturer"]
    else:
        ch = Magnetic(component=c["comp"])
        for k in ("id", "manufacturer", "model", "type", "name"):
            setattr(ch.sensor, k, c[k])
        ch.location.latitude, ch.location.longitude, ch.location.elevation = lat, lon, c["elev"]
    ch.units = "digital counts"
    if c.get("note"):
        ch.comments.value = c["note"]
    ch.measurement_azimuth, ch.measurement_tilt, ch.sample_rate = c["azimuth"], c["tilt"], rate
    ch.time_period.start, ch.time_period.end = when(start), when(stop)
    for name in c["chain"]:
        ch.add_filter(name=name)
    return ch


def compare_channel(ch, c, rate, start, stop, w):
    check_eq(ch.type, "electric" if c["comp"][0] == "e" else "magnetic", f"{w} type")
    check(ch.time_period.start == when(start) and ch.time_period.end == when(stop), f"{w}: {ch.time_period}")
    same(ch.sample_rate, float(rate), f"{w} sample rate")
    same(float(ch.measurement_azimuth) % 360, c["azimuth"] % 360, f"{w} azimuth")
    same(float(ch.measurement_tilt), c["tilt"], f"{w} tilt")
    note = ch.comments.value.partition("run_ids:")[0].strip(", ")
    check_eq(note, c.get("note") or "", f"{w} comments")
    place = ch.positive if c["comp"][0] == "e" else ch.location
    for k, want in zip(("latitude", "longitude", "elevation"), (*c["place"], c["elev"])):
        same(getattr(place, k), want, f"{w} {k}")
    if c["comp"][0] == "e":
        same(ch.dipole_length, c["dipole"], f"{w} dipole length")
        for o, i in ((ch.positive, c["ids"][0]), (ch.negative, c["ids"][1])):
            check_eq((o.id, o.manufacturer, o.model), (i, c["manufacturer"], c["model"]), f"{w} electrode")
    else:
        check_eq((ch.sensor.id, ch.sensor.manufacturer, ch.sensor.type, ch.sensor.name), (c["id"], c["manufacturer"], c["type"], c["name"]), f"{w} sensor")
        want = f"{c['model']} {c['name']}" if c["model"] and c["name"] else c["model"]
        check_eq(ch.sensor.model, want, f"{w} sensor model and name")


def build(spec):
    ex = Experiment()
    for s in spec:
        v = fill(Survey(id=s["id"]), {k: x for k, x in s["values"].items()})
        if len(spec) > 1:
            v.fdsn.network = s["network"]
        ex.add_survey(v)
        v.filters["dip"] = CoefficientFilter(name="dip", gain=0.1, **FILTERS["dip"])
        v.filters["dip2"] = CoefficientFilter(name="dip2", gain=0.25, **FILTERS["dip2"])
        v.filters["coil"] = PoleZeroFilter(name="coil", gain=2.0, poles=[-1 + 1j, -1 - 1j], zeros=[0], normalization_factor=3.0, **FILTERS["coil"])
        v.filters["coil b"] = PoleZeroFilter(name="coil b", gain=2.0, poles=[-5], zeros=[], normalization_factor=1.0, **FILTERS["coil b"])
        v.filters["gain"] = CoefficientFilter(name="gain", gain=4.0, **FILTERS["gain"])
        v.filters["delay"] = TimeDelayFilter(name="delay", delay=-0.25, **FILTERS["delay"])
        for t in s["stations"]:
            stn = fill(Station(id=t["id"]), t["values"])
            v.add_station(stn)
            for r in t["runs"]:
                run = fill(Run(id=r["id"], sample_rate=r["rate"]), r["values"])
                run.time_period.start, run.time_period.end = when(r["start"]), when(r["stop"])
                for c in r["channels"]:
                    ch = make_channel(c, r["rate"], r["start"], r["stop"])
                    run.add_channel(ch)
                stn.add_run(run)
    return ex


def same(got, want, what):
    got = getattr(got, "value", got)
    want = getattr(want, "value", want)
    if isinstance(want, float):
        check(got is not None and abs(got - want) <= 1e-9 * max(1, abs(want)), f"{what} was {want!r}, is {got!r}")
    else:
        check_eq(str(got), str(want), what)


def compare(got, ex, spec):
    check_eq(sorted(s.id for s in got.surveys), sorted(s["id"] for s in spec), "surveys")
    for s in spec:
        v, ref = got.get_survey(s["id"]), ex.get_survey(s["id"])
        for k in s["values"]:
            if k == "release_license":
                continue
            if k == "fdsn.network" and len(spec) > 1:
                continue
            same(v.get_attr_from_name(k), ref.get_attr_from_name(k), f"survey {k}")
        check_eq(v.fdsn.network, ref.fdsn.network or "ZU", "network code")
        check_eq(sorted(x.id for x in v.stations), sorted(t["id"].upper() for t in s["stations"]), f"stations of {s['id']}")
        used = {n for t in s["stations"] for r in t["runs"] for c in r["channels"] for n in c["chain"]}
        check_eq(set(v.filters.keys()), used, "filters of the survey")
        starts = [when(r["start"]) for t in s["stations"] for r in t["runs"]]
        check_eq(str(v.time_period.start_date)[:10], str(min(starts))[:10], "start date of the survey")
        for t in s["stations"]:
            stn, ref_t = v.get_station(t["id"].upper()), ref.get_station(t["id"])
            for k in t["values"]:
                same(stn.get_attr_from_name(k), ref_t.get_attr_from_name(k), f"station {k}")
            check_eq([r.id for r in stn.runs], [r["id"] for r in t["runs"]], "runs, in order")
            check(stn.time_period.start == when(min(r["start"] for r in t["runs"])) and stn.time_period.end == when(max(r["stop"] for r in t["runs"])), f"time period of the station {stn.time_period}")
            for r in t["runs"]:
                run, ref_r = stn.get_run(r["id"]), ref_t.get_run(r["id"])
                for k in r["values"]:
                    same(run.get_attr_from_name(k), ref_r.get_attr_from_name(k), f"run {k}")
                same(run.sample_rate, float(r["rate"]), "sample rate of the run")
                check(run.time_period.start == when(r["start"]) and run.time_period.end == when(r["stop"]), f"time period of run {r['id']}: {run.time_period}")
                check_eq(sorted(run.channels_recorded_all), sorted(c["comp"] for c in r["channels"]), f"channels of run {r['id']}")
                for c in r["channels"]:
                    ch = run.get_channel(c["comp"])
                    w = f"{t['id']} {r['id']} {c['comp']}"
                    compare_channel(ch, c, r["rate"], r["start"], r["stop"], w)
                    check_eq(str(ch.units), str(ref_r.get_channel(c["comp"]).units), f"{w} units")
                    check_eq([f.name for f in ch.filters], c["chain"], f"{w} filters")
                    f = np.array([0.001, 0.1, 0.4, 3.0])
                    a = ch.channel_response(v.filters).complex_response(f, include_delay=True)
                    b = ref_r.get_channel(c["comp"]).channel_response(ref.filters).complex_response(f, include_delay=True)
                    check(np.allclose(a, b, rtol=1e-6, atol=0), f"{w} response was {b}, is {a}")


def weight(ctx, spec):
    if len(spec) < 2 and all(len(s["stations"]) < 2 for s in spec) and not any(
        set(x["comp"] for x in a["channels"]) & set(x["comp"] for x in b["channels"]) for s in spec for t in s["stations"] for a, b in zip(t["runs"], t["runs"][1:])):
        ctx.trivial()


@C.given(st.sampled_from(COMPS).flatmap(channel), st.sampled_from([1.0, 4.0, 256.0, 4096.0, 0.1]), st.integers(0, 10**9), st.integers(1, 10**6), pretty_floats(0, 3000, 1), NOTES, st.sampled_from(["", "known", "known before"]), quick=250, thorough=6000)
def channels(ctx, c, rate, start, length, elev, note, how):
    """a channel translated to one of StationXML and back is the same, also when filters of its names are known"""
    c = {**c, "elev": elev, "note": note}
    filters = build([dict(id="sv", values={}, stations=[])]).surveys[0].filters
    ch = make_channel(c, rate, start, start + length)
    x = XMLChannelMTChannel()
    xml = x.mt_to_xml(ch, filters)
    check_eq([p.stage_sequence_number for p in xml.response.response_stages], list(range(1, len(c["chain"]) + 1)), "stages")
    known = {n: filters[n] for n in (c["chain"][:1] if how else [])}
    if how == "known before":
        known = {n: filters[n] for n in filters.keys()}
    got, fs = (x if how else XMLChannelMTChannel()).xml_to_mt(xml, known)
    w = c["comp"]
    check_eq(got.component, w, "component")
    compare_channel(got, c, rate, start, start + length, w)
    check_eq(str(got.units), str(ch.units), f"{w} units")
    check_eq([f.name for f in got.filters], c["chain"], f"{w} filters")
    f = np.array([0.001, 0.1, 0.4, 3.0])
    a = got.channel_response({**known, **fs}).complex_response(f, include_delay=True)
    b = ch.channel_response(filters).complex_response(f, include_delay=True)
    check(np.allclose(a, b, rtol=1e-6, atol=0), f"{w} response was {b}, is {a}")


@C.given(experiments(), st.sampled_from(["memory", "file", "path"]), quick=60, thorough=1200)
def round_trip(ctx, spec, how):
    """an experiment written as StationXML and read back has the same surveys, stations, runs and channels with their attributes, times and responses"""
    ex = build(spec)
    x = XMLInventoryMTExperiment()
    if how == "memory":
        got = XMLInventoryMTExperiment().xml_to_mt(x.mt_to_xml(ex))
    else:
        with tempfile.TemporaryDirectory() as d:
            fn = Path(d) / "a.xml"
            fn = fn if how == "path" else str(fn)
            x.mt_to_xml(ex, stationxml_fn=fn)
            ok, errors = validate_stationxml(str(fn))
            check(ok, f"not valid StationXML: {[str(e) for e in errors][:5]}")
            got = XMLInventoryMTExperiment().xml_to_mt(stationxml_fn=fn)
    compare(got, ex, spec)
    weight(ctx, spec)
    ctx.tag(how, f"{len(spec)} surveys")


@C.given(experiments(), quick=40, thorough=800)
def epochs(ctx, spec):
    """in the inventory a channel has one epoch for the runs that follow each other with the same sensor, place, orientation, sample rate and filters, which spans them and names them; other runs have their own"""
    ex = build(spec)
    inv = XMLInventoryMTExperiment().mt_to_xml(ex)
    several = False
    for s, net in zip(spec, inv.networks):
        check_eq([x.code for x in net.stations], [t["id"].upper() for t in s["stations"]], "station codes")
        for t, stn in zip(s["stations"], net.stations):
            for comp in COMPS:
                want = []
                last = {}
                seen = []
                for r in t["runs"]:
                    for c in r["channels"]:
                        if c["comp"] != comp:
                            continue
                        key = [r["rate"], c["place"], c["azimuth"] % 360, c["tilt"], tuple(c["chain"]), c["manufacturer"], c["model"]] + ([c["dipole"], c["ids"]] if comp[0] == "e" else [c["id"], c["type"], c["name"]])
                        band = [k for k, (a, b) in {"L": (0.95, 1.05), "M": (1.051, 9.9), "B": (10, 80), "C": (250, 1000), "F": (1000, 5000), "V": (0.095, 0.105)}.items() if a <= r["rate"] <= b][0]
                        seen.append((r["id"], key, r["start"], r["stop"]))
                        if band in last and last[band]["key"] == key:
                            last[band]["runs"].append(r["id"])
                            last[band]["start"] = min(r["start"], last[band]["start"])
                            last[band]["stop"] = max(r["stop"], last[band]["stop"])
                            several = True
                        else:
                            last[band] = dict(key=key, runs=[r["id"]], start=r["start"], stop=r["stop"])
                            want.append(last[band])
                code = {"e": "Q", "h": "F"}[comp[0]] + {"x": "N", "y": "E", "z": "Z"}[comp[1]]
                got = [c for c in stn.channels if c.code[1:] == code]
                if [r["start"] for r in t["runs"]] != sorted(r["start"] for r in t["runs"]) and any(k[1] != seen[0][1] for k in seen):
                    # runs added in another order, of several kinds: which of them are together is open
                    names = [sorted(k.value for k in c.comments if k.subject == "mt.run.id") for c in got]
                    check_eq(sorted(x for n in names for x in n), sorted(k[0] for k in seen), f"runs in the epochs of {comp}")
                    for c, n in zip(got, names):
                        mine = [k for k in seen if k[0] in n]
                        check(all(k[1] == mine[0][1] for k in mine), f"runs {n} of different kinds are together")
                        check(MTime(time_stamp=str(c.start_date)) == when(min(k[2] for k in mine)) and MTime(time_stamp=str(c.end_date)) == when(max(k[3] for k in mine)), f"epoch {c.start_date} to {c.end_date} of {comp}, runs {n}")
                    continue
                check_eq([(sorted(k.value for k in c.comments if k.subject == "mt.run.id"), c.sample_rate) for c in got], [(sorted(w["runs"]), w["key"][0]) for w in want], f"epochs of {comp} at {t['id']}")
                for c, w in zip(got, want):
                    check(MTime(time_stamp=str(c.start_date)) == when(w["start"]) and MTime(time_stamp=str(c.end_date)) == when(w["stop"]), f"epoch {c.start_date} to {c.end_date} of {comp}, runs {w['runs']}")
                    check_eq((c.latitude, c.longitude), w["key"][1], "place")
            status = {"CC0-1.0": "open", "CC-BY-4.0": "open", "CC-BY-NC-ND-4.0": "closed", "CC-BY-SA-4.0": "partial", "MIT": "partial"}
            if "release_license" in s["values"]:
                check_eq(net.restricted_status, status[s["values"]["release_license"]], "restricted status of the network")
    if not several:
        ctx.trivial()


@C.given(experiments(), quick=14, thorough=400)
def stable(ctx, spec):
    """a second trip through StationXML changes nothing, and writing changes neither structure nor values of the experiment"""
    ex = build(spec)
    x = XMLInventoryMTExperiment()
    one = x.xml_to_mt(x.mt_to_xml(ex))
    two = x.xml_to_mt(x.mt_to_xml(one))
    upper = [dict(s, stations=[dict(t, id=t["id"].upper()) for t in s["stations"]]) for s in spec]
    compare(two, one, upper)
    compare(x.xml_to_mt(x.mt_to_xml(ex)), build(spec), spec)
    weight(ctx, spec)
