"""C40: StationXML inventories that were made elsewhere."""
import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime
from obspy.core import inventory as inv

from mt_metadata.common.mttime import MTime
from mt_metadata.timeseries.filters.obspy_stages import create_filter_from_stage
from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment

from vp.core import Check, check, check_eq

C = Check("C40", rule="non-trivial: a station with channels of several rates, times or epochs, or stages which share a name or have none", assumptions=[
    "the response of a single stage is what create_filter_from_stage reads (C15 decides that one)",
])

F = np.array([0.003, 0.0777, 0.31, 1.17])
BAND = {1.0: "L", 8.0: "M", 40.0: "B", 0.1: "V"}
gain = st.sampled_from([0.1, 0.2, 0.3, 0.4, 1.0, 2.0, -2.0, 1.0001, 1e-9, 409600.0])
DAY = 86400


@st.composite
def stages(draw, first):
    """stages as others write them: mostly without names"""
    names = st.sampled_from([None, None, None, "a", "A", "lowpass 4", "x/y", "b"])
    out = []
    unit = first
    for i in range(draw(st.integers(0, 4))):
        to = draw(st.sampled_from(["V", "V", "COUNTS", unit]))
        name = draw(names)
        kw = dict(name=name)
        kind = draw(st.sampled_from(["gain", "gain", "pz", "pz", "digital", "delay", "fir", "list"]))
        g = draw(gain)
        if kind == "gain":
            s = inv.ResponseStage(i + 1, g, 1.0, unit, to, **kw)
        elif kind == "pz":
            poles = [complex(-draw(st.sampled_from([1.0, 2.0, 6.283185])), 0)]
            zeros = draw(st.sampled_from([[], [0j]]))
            s = inv.PolesZerosResponseStage(i + 1, g, 1.0, unit, to, draw(st.sampled_from(["LAPLACE (RADIANS/SECOND)", "LAPLACE (HERTZ)"])), 1.0, zeros, poles, normalization_factor=draw(st.sampled_from([1.0, 3.5])), **kw)
        elif kind in ("digital", "delay"):
            d = draw(st.sampled_from([-0.25, 0.5, 0.2501]))
            s = inv.CoefficientsTypeResponseStage(i + 1, 1.0 if kind == "delay" else g, 1.0, unit, to, "DIGITAL", numerator=[1.0], denominator=[], decimation_input_sample_rate=8.0, decimation_factor=1, decimation_offset=0, decimation_delay=d if kind == "delay" else 0.0, decimation_correction=0.0, **kw)
        elif kind == "fir":
            taps = draw(st.sampled_from([[0.25, 0.5, 0.25], [0.5, 0.5], [0.1, 0.8, 0.1]]))
            s = inv.FIRResponseStage(i + 1, g, 0.0, unit, to, symmetry="NONE", coefficients=taps, decimation_input_sample_rate=draw(st.sampled_from([64.0, 256.0])), decimation_factor=draw(st.sampled_from([1, 2, 4])), decimation_offset=0, decimation_delay=0.0, decimation_correction=0.0, **kw)
        else:
            k = draw(st.sampled_from([1.0, 2.0]))
            s = inv.ResponseListResponseStage(i + 1, g, 1.0, unit, to, response_list_elements=[inv.response.ResponseListElement(f, k * a, p) for f, a, p in ((0.001, 1.0, 10.0), (0.1, 2.0, 20.0), (10.0, 3.0, -40.0))], **kw)
        out.append(s)
        unit = to
    return out


COMPS = {"hx": "FN", "hy": "FE", "hz": "FZ", "ex": "QN", "ey": "QE"}


# serial numbers of the two electrodes as they are written
IDS = {"p, n": ("p", "n"), "p,n": ("p", "n"), "positive: 4, negative: 17": ("4", "17"), "positive:a b,negative:c": ("a b", "c"), "2004": ("2004", "2004")}
NOTES = st.lists(st.tuples(st.sampled_from([None, "Noise", "Gap", "noise level"]), st.sampled_from(["none", "at 12:30:05", "a: b, c: d", "x, y", "author: A B, comments: c"])), max_size=2, unique=True)
PEOPLE = st.lists(st.tuples(st.sampled_from(["USGS", "OSU", " "]), st.lists(st.tuples(st.lists(st.sampled_from(["A Bee", "C. Dee", "E"]), max_size=2, unique=True), st.lists(st.sampled_from(["a@example.org", "b@example.org"]), max_size=2, unique=True)), max_size=2)), max_size=2)
EQUIPMENT = st.lists(st.fixed_dictionaries({"type": st.sampled_from(["logger", "GPS"])}, optional=dict(resource_id=st.sampled_from(["smi:local/abc", "17"]), serial_number=st.just("4"), description=st.sampled_from(["a thing", "type: box, id: 4"]))), max_size=2)


@st.composite
def channels(draw, comp, span, rate, run):
    how = draw(st.sampled_from(["none", "no stages", "stages", "stages", "stages"]))
    return dict(
        comp=comp, rate=rate, span=span, run=run, azimuth=draw(st.sampled_from([0.0, 12.5, 90.0, 271.0])), dip=draw(st.sampled_from([0.0, -90.0, 3.0])),
        place=draw(st.sampled_from([(10.5, 20.25, 30.0), (-45.125, -120.5, 1200.0)])), sensor=draw(st.sampled_from(["none", "type", "full", "untyped", "no type", "other type"])),
        ids=draw(st.sampled_from(sorted(IDS))), length=draw(st.sampled_from(["92.5 meters", "92.5", "92.5 m long"])), notes=draw(NOTES),
        stages=None if how == "none" else [] if how == "no stages" else draw(stages("nT" if comp[0] == "h" else "mV/km")),
    )


@st.composite
def stations(draw, code):
    chans = []
    # who made the file knows runs or does not
    ids = draw(st.booleans())
    spans = draw(st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True))
    for i, start in enumerate(spans):
        for rate in draw(st.lists(st.sampled_from(sorted(BAND)), min_size=1, max_size=2, unique=True)):
            span = (start * 100 * DAY, (start * 100 + draw(st.integers(1, 90))) * DAY + draw(st.sampled_from([0, 3600])))
            for comp in draw(st.lists(st.sampled_from(sorted(COMPS)), min_size=1, max_size=4, unique=True)):
                chans.append(draw(channels(comp, span, rate, f"{code.lower()}{i}_{int(rate * 10)}" if ids else None)))
    return dict(code=code, channels=chans, notes=draw(NOTES), people=draw(PEOPLE), equipment=draw(EQUIPMENT), site=draw(st.sampled_from(["", "north of town"])))


networks = st.lists(
    st.tuples(st.sampled_from(["ZU", "ZU", "EM"]), st.lists(st.sampled_from(["A01", "A01", "B02"]).flatmap(stations), min_size=1, max_size=2)),
    min_size=1, max_size=2)
about = st.tuples(NOTES, PEOPLE)


def comments(notes):
    return [inv.Comment(text, subject=subject) for subject, text in notes]


def operators(people):
    return [inv.Operator(agency, contacts=[inv.Person(names=n, emails=e) for n, e in persons]) for agency, persons in people]


def unique(spec):
    """no two epochs of a channel at the same time, no run twice (a station which comes again is later)"""
    seen, used = {}, set()
    for net, stns in spec:
        for s in stns:
            k = seen[net, s["code"]] = seen.get((net, s["code"]), 0) + 1
            if k > 1:
                for c in s["channels"]:
                    c["span"] = tuple(t + (k - 1) * 2000 * DAY for t in c["span"])
                    if c["run"]:
                        c["run"] += "b" * (k - 1)
    return spec


def utc(s):
    return UTCDateTime("2000-01-01") + s


def build(spec, notes=(), people=()):
    nets = []
    for code, stns in spec:
        out = []
        for s in stns:
            chans = []
            for c in s["channels"]:
                lat, lon, elev = c["place"]
                x = inv.Channel(BAND[c["rate"]] + COMPS[c["comp"]], "", lat, lon, elev, 0.0, azimuth=c["azimuth"], dip=c["dip"], sample_rate=c["rate"], start_date=utc(c["span"][0]), end_date=utc(c["span"][1]))
                kind = "dipole" if c["comp"][0] == "e" else "magnetometer"
                if c["sensor"] == "type":
                    x.sensor = inv.Equipment(type=kind)
                elif c["sensor"] == "full":
                    x.sensor = inv.Equipment(type=kind, description=c["length"] if kind == "dipole" else "coil 4", serial_number=c["ids"] if kind == "dipole" else "17", manufacturer="m", model="o")
                elif c["sensor"] in ("no type", "other type"):
                    x.sensor = inv.Equipment(type=None if c["sensor"] == "no type" else "MT Sensor", description=c["length"] if kind == "dipole" else None, serial_number=c["ids"] if kind == "dipole" else "17", manufacturer="m")
                elif c["sensor"] == "untyped":
                    x.sensor = inv.Equipment(description="Electric Dipole" if kind == "dipole" else "Bartington 3-Axis Fluxgate Sensor", serial_number="p, n" if kind == "dipole" else "17")
                if c["sensor"] == "untyped" and kind == "dipole":
                    x.sensor.type = "electrode"
                x.comments += comments(c["notes"])
                if c["run"]:
                    x.comments.append(inv.Comment(c["run"], subject="mt.run.id"))
                if c["stages"] is not None:
                    x.response = inv.Response(response_stages=copy.deepcopy(c["stages"]))
                chans.append(x)
            lo = min(c["span"][0] for c in s["channels"])
            hi = max(c["span"][1] for c in s["channels"])
            out.append(inv.Station(s["code"], 10.5, 20.25, 30.0, channels=chans, creation_date=utc(0), start_date=utc(lo), end_date=utc(hi),
                comments=comments(s["notes"]), operators=operators(s["people"]), equipments=[inv.Equipment(**e) for e in s["equipment"]], site=inv.Site(s["site"])))
        nets.append(inv.Network(code, stations=out, comments=comments(notes), operators=operators(people), start_date=utc(0), end_date=utc(9000 * DAY)))
    return inv.Inventory(nets, source="elsewhere")


def when(s):
    return MTime(time_stamp=str(utc(s)))


def describes(text, notes, w):
    """what others say is somewhere in the comments"""
    for _, note in notes:
        for part in (["A B", "c"] if note.startswith("author") else [note]):
            check(part in (text or ""), f"{w}: {note!r} is not in the comments {text!r}")


def covers(outer, inner):
    return outer.start <= inner.start and outer.end >= inner.end


@C.given(networks.map(unique), about, st.booleans(), quick=100, thorough=4000)
def every_channel(ctx, spec, about, file):
    """each epoch of each channel is in a run of its station with its sample rate, times, orientation, place and the response of its stages"""
    inventory = build(spec, *about)
    if file:
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "a.xml")
            inventory.write(fn, "STATIONXML")
            got = XMLInventoryMTExperiment().xml_to_mt(stationxml_fn=fn)
    else:
        got = XMLInventoryMTExperiment().xml_to_mt(inventory)
    want = {}
    for net, stns in spec:
        for s in stns:
            want.setdefault(net, {}).setdefault(s["code"], []).extend(s["channels"])
    check_eq(sorted(s.fdsn.network for s in got.surveys), sorted(want), "networks")
    names = []
    for survey in got.surveys:
        mine = want[survey.fdsn.network]
        describes(survey.comments.value, about[0], "survey")
        lead = survey.project_lead
        check_eq(str(lead.organization or ""), ", ".join(a for a, _ in about[1] if a.strip()), "organization of the lead")
        check_eq(lead.author or "", ", ".join(", ".join(n) for _, persons in about[1] for n, _ in persons if n), "names of the lead")
        emails = [e for _, persons in about[1] for _, es in persons for e in es]
        check_eq(str(lead.email or ""), (emails or [""])[0], "email of the lead")
        check_eq(sorted(t.id for t in survey.stations), sorted(mine), f"stations of {survey.fdsn.network}")
        days = [str(when(f(c["span"][i] for t in mine.values() for c in t)))[:10] for i, f in ((0, min), (1, max))]
        check(str(survey.time_period.start_date)[:10] <= days[0] and str(survey.time_period.end_date)[:10] >= days[1], f"the survey is {survey.time_period}, the channels {days}")
        for code, chans in mine.items():
            stn = survey.get_station(code)
            check(stn.time_period.start == when(min(c["span"][0] for c in chans)) and stn.time_period.end == when(max(c["span"][1] for c in chans)), f"time period of {code}: {stn.time_period}")
            first = [s for net, stns in spec if net == survey.fdsn.network for s in stns if s["code"] == code][0]
            describes(stn.comments.value, first["notes"], f"station {code}")
            check_eq(stn.geographic_name or "", first["site"], f"site of {code}")
            who = first["people"][:1]
            check_eq(stn.acquired_by.organization or "", "".join(a for a, _ in who).strip(), f"organization at {code}")
            check_eq(stn.acquired_by.author or "", ", ".join(x for _, persons in who for n, _ in persons for x in n), f"people at {code}")
            found = [(r, ch) for r in stn.runs for ch in r.channels]
            left = set(range(len(found)))
            for c in chans:
                w = f"{code} {c['comp']} {c['rate']} {c['span']}"
                hits = [i for i, (r, ch) in enumerate(found) if ch.component == c["comp"] and ch.sample_rate == c["rate"] and ch.time_period.start == when(c["span"][0]) and ch.time_period.end == when(c["span"][1])]
                check(hits, f"{w} is in no run: there are {[(r.id, ch.component, ch.sample_rate, str(ch.time_period.start), str(ch.time_period.end)) for r, ch in found]}")
                if c["run"]:
                    check_eq([found[i][0].id for i in hits], [c["run"]], f"runs of {w}")
                left -= set(hits)
                for i in hits:
                    r, ch = found[i]
                    check_eq(r.sample_rate, c["rate"], f"{w}: sample rate of run {r.id}")
                    check(covers(ch.time_period, r.time_period), f"{w}: run {r.id} is {r.time_period}")
                    check_eq((ch.measurement_azimuth, ch.measurement_tilt), (c["azimuth"], c["dip"]), f"{w}: orientation")
                    place = ch.positive if ch.type == "electric" else ch.location
                    check_eq((place.latitude, place.longitude, place.elevation), c["place"], f"{w}: place")
                    describes(ch.comments.value, c["notes"], w)
                    whole = c["sensor"] in ("full", "no type", "other type")
                    if whole and ch.type == "electric":
                        check_eq((ch.dipole_length, ch.positive.id, ch.negative.id, ch.positive.manufacturer, ch.negative.manufacturer), (92.5, *IDS[c["ids"]], "m", "m"), f"{w}: dipole")
                    if whole and ch.type == "magnetic":
                        check_eq((ch.sensor.id, ch.sensor.manufacturer), ("17", "m"), f"{w}: sensor")
                    stages_ = c["stages"] or []
                    check_eq(len(ch.filters), len(stages_), f"{w}: number of filters {[f.name for f in ch.filters]}")
                    check_eq([f.stage for f in ch.filters], [s.stage_sequence_number for s in stages_], f"{w}: numbers of the stages")
                    for s, f in zip(stages_, ch.filters):
                        check(f.name in survey.filters.keys(), f"{w}: filter {f.name} is not in the survey")
                        flt = survey.filters[f.name]
                        ref = create_filter_from_stage(copy.deepcopy(s))
                        check_eq(type(flt), type(ref), f"{w}: kind of filter {f.name}")
                        a, b = flt.complex_response(F), ref.complex_response(F)
                        check(np.allclose(a, b, rtol=1e-9, atol=0), f"{w}: filter {f.name} of stage {s.name!r} is {a}, the stage {b}")
                        if s.name and "/" not in s.name and not file:
                            check(f.name.startswith(s.name.lower()), f"{w}: stage {s.name!r} is {f.name!r}")
                    names += [(s.name or "").lower() for s in stages_]
            check(not left, f"channels that were not in the file: {[(found[i][0].id, found[i][1].component) for i in left]}")
            for r in stn.runs:
                comps = [ch.component for ch in r.channels]
                check(len(comps) == len(set(comps)), f"run {r.id} has {comps}")
    several = any(len({(c["rate"], c["span"]) for c in t}) > 1 for n in want.values() for t in n.values())
    if not several and len(names) == len(set(names)):
        ctx.trivial()
    ctx.tag("several" if several else "one run", "names shared" if len(names) > len(set(names)) else "names")


@C.given(networks.map(unique), about, quick=40, thorough=1500)
def written_again(ctx, spec, about):
    """such an experiment written as StationXML and read again has the same runs with the same channels and responses"""
    x = XMLInventoryMTExperiment()
    notes = {}
    for net, stns in spec:
        for s in stns:
            for c in s["channels"]:
                # stages which can be written in one chain
                c["stages"] = [k for k in c["stages"] or [] if type(k) is not inv.FIRResponseStage]
                c["sensor"] = "full"
                # epochs that differ in nothing else are one
                c["notes"] = notes.setdefault((net, s["code"], c["comp"]), c["notes"])
                unit = "nT" if c["comp"][0] == "h" else "mV/km"
                for i, k in enumerate(c["stages"]):
                    k.stage_sequence_number = i + 1
                    k.input_units, unit = unit, k.output_units
    one = x.xml_to_mt(build(spec, *about))
    two = x.xml_to_mt(x.mt_to_xml(one))

    def content(e, texts):
        out = {}
        for s in e.surveys:
            texts[s.fdsn.network] = (s.comments.value, str(s.project_lead.organization or ""), s.project_lead.author or "", s.project_lead.email)
            for t in s.stations:
                texts[s.fdsn.network, t.id] = (t.comments.value, t.acquired_by.author or "", t.geographic_name if t.geographic_name else t.id)
                for r in t.runs:
                    for ch in r.channels:
                        if ch.component in r.channels.keys():
                            texts[s.fdsn.network, t.id, r.id, ch.component] = (ch.comments.value or "").partition("run_ids:")[0]
                        resp = ch.channel_response(s.filters).complex_response(F, include_delay=True, include_decimation=True) if ch.filters else np.ones(len(F))
                        out[s.fdsn.network, t.id, r.id, ch.component] = (r.sample_rate, str(r.time_period.start), str(r.time_period.end), ch.measurement_azimuth, resp)
        return out

    said, says = {}, {}
    a, b = content(one, said), content(two, says)
    for k in said:
        check_eq(says.get(k), said[k], f"{k}: texts")
    check_eq(sorted(b), sorted(a), "channels")
    for k in a:
        check_eq(b[k][:4], a[k][:4], f"{k}: sample rate, times, azimuth")
        check(np.allclose(a[k][4], b[k][4], rtol=1e-6, atol=0), f"{k}: response {b[k][4]}, was {a[k][4]}")
    if len(a) < 2:
        ctx.trivial()
