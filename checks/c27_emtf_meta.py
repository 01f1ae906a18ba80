"""C27: metadata in EMTF XML files."""
import datetime
import pathlib
from xml.sax.saxutils import escape, quoteattr

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Electric, Magnetic, Run
from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.emtfxml import EMTFXML

from vp.core import Check, check, check_eq

C = Check("C27", rule="non-trivial: several runs, dipoles, magnetometers or attachments, or a remote site, or missing elements")

decimals = lambda lo, hi, d: st.integers(int(lo * 10**d), int(hi * 10**d)).map(lambda i: i / 10**d)
PHRASES = ["sandy soil", "Great basin, NV", "fence (new) 20 m east", "U.S. survey", "windy, north-east", "2012 field season", "Müller and son", "rock & roll", "x < y", "5% of #3", "a.b/c", "'quoted' \"twice\"", "key: value", "one = two", "e-lines 50m."]
text = st.sampled_from(PHRASES)
word = st.integers(0, 36**5).map(lambda k: "m" + np.base_repr(k, 36)[: 1 + k % 5])
number = st.sampled_from(["1", "40201038", "P-12", "7b", "2612-01"])
time = st.integers(0, 6 * 10**9).map(lambda s: (datetime.datetime(1981, 1, 2) + datetime.timedelta(seconds=s)).isoformat() + "+00:00")


def some(s):
    return st.integers(0, 3).flatmap(lambda k: s if k else st.none())


MAKER = st.sampled_from(["Barry Narod", "Zonge International", "Phoenix", "LEMI"])
POT = st.sampled_from(["Pb-PbCl2 kaolin gel", "Ag-AgCl", "copper", "steel"])


def device(**more):
    return st.fixed_dictionaries(dict(manufacturer=some(MAKER), name=some(st.sampled_from(["NIMS", "MT-24", "ZEN"])), id=some(number), **more))


def dipole(comp):
    ends = ("N", "S") if comp == "Ex" else ("E", "W")
    return st.fixed_dictionaries(
        dict(
            name=st.just(comp),
            type=st.just("wire"),
            manufacturer=some(MAKER),
            length=decimals(1, 500, 3),
            azimuth=decimals(-180, 180, 3),
            electrode=st.tuples(*[st.fixed_dictionaries(dict(location=st.just(e), number=number, value=POT)) for e in ends]).map(list),
        )
    )


mags = st.one_of(
    st.just([]),
    device(type=st.just("fluxgate"), settings=st.none()).map(lambda m: [m]),
    st.permutations(["hx", "hy", "hz"]).flatmap(
        lambda p: st.integers(2, 3).flatmap(
            lambda n: st.tuples(*[device(type=st.sampled_from(["induction coil", "fluxgate"]), settings=st.none()).map(lambda d, c=c: {**d, "name": c}) for c in p[:n]]).map(list)
        )
    ),
)
run = st.fixed_dictionaries(
    dict(
        instrument=device(settings=some(text)),
        magnetometer=mags,
        dipole=st.sampled_from([["Ex", "Ey"], ["Ex"], ["Ey"], [], ["Ey", "Ex"]]).flatmap(lambda d: st.tuples(*[dipole(c) for c in d]).map(list)),
        comments=some(st.fixed_dictionaries(dict(author=some(text), value=text))),
        errors=some(text),
        sampling_rate=st.sampled_from([1.0, 8.0, 256.0, 0.25, 4096.0]),
        start=time,
        end=time,
    )
)


def runs(s, n):
    def named(rs):
        out = []
        for k, r in enumerate(rs):
            a, b = sorted([r["start"], r["end"]])
            out.append({**r, "run": s + "abcd"[k], "start": a, "end": b})
        return out

    return st.lists(run, min_size=0, max_size=n).map(named)


place = dict(latitude=decimals(-89, 89, 6), longitude=decimals(-179, 179, 6), elevation=decimals(-400, 8000, 3), declination=decimals(-40, 40, 3), epoch=st.sampled_from(["1995", "2020", "2015"]))


def site(remote=False):
    d = dict(
        project=some(word),
        survey=some(text),
        country=some(st.sampled_from(["USA", "New Zealand", "Canada", "USA,Canada", "New Zealand,Australia,Fiji"])),
        id=word,
        name=some(text),
        **place,
        layout=st.just("orthogonal"),
        angle=decimals(-180, 180, 3),
        acquired_by=some(text),
        start=time,
        end=time,
    )
    if not remote:
        d.update(rating=some(st.integers(1, 5)), good_from=some(decimals(0.001, 1, 3)), good_to=some(decimals(2, 10000, 1)), notes=some(st.fixed_dictionaries(dict(author=some(text), value=text))), flag=some(st.integers(0, 3)), warning=some(st.fixed_dictionaries(dict(author=some(text), value=text))))

    def order(x):
        a, b = sorted([x["start"], x["end"]])
        return {**x, "start": a, "end": b}

    return st.fixed_dictionaries(d).map(order)


person = st.fixed_dictionaries(dict(name=some(text), email=some(st.sampled_from(["me@place.org", "a.b@usgs.gov"])), organization=some(text), url=some(st.sampled_from(["https://www.usgs.gov/", "http://place.org/mt"]))))
channel = lambda n: st.fixed_dictionaries(dict(name=st.just(n), orientation=decimals(-180, 180, 3), **{k: decimals(-200, 200, 3) for k in (["x", "y", "z", "x2", "y2", "z2"] if n[0] == "E" else ["x", "y", "z"])}))


@st.composite
def spec(draw):
    s = draw(site())
    kind = draw(st.sampled_from(["both", "both", "z", "t"]))
    outs = {"both": ["Ex", "Ey", "Hz"], "z": ["Ex", "Ey"], "t": ["Hz"]}[kind]
    x = dict(
        site=s,
        kind=kind,
        empty=draw(st.booleans()),
        runs=draw(runs(s["id"], 3)),
        description=draw(some(text)),
        product_id=draw(st.just(f"USGS.{s['id']}.2012")),
        sub_type=draw(st.sampled_from(["MT_TF", "MT_TF", "BBMT_TF", "LPMT_TF"])),
        notes=draw(some(text)),
        tags=draw(st.sampled_from(["impedance, tipper", "impedance"])),
        url=draw(some(st.tuples(text, st.sampled_from(["http://www.iris.edu/mda/EM/ORF08", "https://doi.org/10.17611/DP/14013656"])))),
        primary=draw(some(st.sampled_from(["ORF08.png", "a b.png"]))),
        attachments=draw(st.lists(st.fixed_dictionaries(dict(filename=st.sampled_from(["x.zmm", "y.edi", "z.j"]), description=text)), min_size=0, max_size=2)),
        create_time=draw(time),
        application=draw(some(text)),
        creator=draw(person),
        submitter=draw(person),
        title=draw(some(text)),
        authors=draw(some(text)),
        year=draw(st.sampled_from(["2012", "2006-2011", "2020-2023"])),
        doi=draw(some(st.sampled_from(["10.17611/DP/EMTF/TEST", "10.5066/P9.abc-1"]))),
        publications=draw(some(text)),
        acknowledgement=draw(some(text)),
        release=draw(st.sampled_from(["Unrestricted Release", "Academic Use Only", "Paper Citation Required"])),
        conditions=draw(some(text)),
        info=draw(some(text)),
        sign=draw(st.sampled_from(["exp(+ i\\omega t)", "exp(- i\\omega t)"])),
        ref=draw(some(st.sampled_from(["Robust Remote Reference", "Robust Multi-Station Reference"]))),
        processed_by=draw(some(text)),
        process_date=draw(some(time.map(lambda t: t[:10]))),
        software=draw(st.fixed_dictionaries(dict(name=some(st.sampled_from(["EMTF", "aurora"])), author=some(text), last_mod=some(time.map(lambda t: t[:10]))))),
        tag=draw(some(st.sampled_from(["a", "a_rr1", "a_rr1_rr2"]).map(lambda t: s["id"] + t))),
        remote=draw(st.one_of(st.none(), site(True))),
        inputs=[draw(channel(c)) for c in ("Hx", "Hy")],
        outputs=[draw(channel(c)) for c in outs],
    )
    for r in x["runs"]:  # the station is there as long as its runs
        s["start"] = min(s["start"], r["start"])
        s["end"] = max(s["end"], r["end"])
    x["remote_runs"] = draw(runs(x["remote"]["id"], 1)) if x["remote"] else []
    return x


# ------------------------------------------------------------------ the file
EMPTY = [False]


def el(tag, value, **attrs):
    """an element, unless there is nothing in it"""
    if value is None:
        return f"<{tag}/>" if EMPTY[0] else ""
    a = "".join(f" {k}={quoteattr(str(v))}" for k, v in attrs.items() if v is not None)
    return f"<{tag}{a}>{escape(str(value))}</{tag}>"


def group(tag, *inner, **attrs):
    a = "".join(f" {k}={quoteattr(str(v))}" for k, v in attrs.items() if v is not None)
    return f"<{tag}{a}>{''.join(inner)}</{tag}>"


def comment(c):
    return "" if c is None else el("Comments", c["value"], author=c["author"])


def write_device(tag, d, **attrs):
    return group(tag, el("Manufacturer", d["manufacturer"]), el("Name", d["name"]), el("Id", d["id"]), el("Settings", d["settings"]), **attrs)


def write_run(r):
    return group(
        "FieldNotes",
        write_device("Instrument", r["instrument"]),
        *[write_device("Magnetometer", m, type=m["type"]) for m in r["magnetometer"]],
        *[
            group("Dipole", el("Manufacturer", d["manufacturer"]), el("Length", f"{d['length']:.3f}", units="meters"), el("Azimuth", f"{d['azimuth']:.3f}", units="degrees"), *[el("Electrode", e["value"], location=e["location"], number=e["number"]) for e in d["electrode"]], name=d["name"], type=d["type"])
            for d in r["dipole"]
        ],
        comment(r["comments"]),
        el("Errors", r["errors"]),
        el("SamplingRate", r["sampling_rate"], units="Hz"),
        el("Start", r["start"]),
        el("End", r["end"]),
        run=r["run"],
    )


def write_site(s, runs=()):
    notes = ""
    if "rating" in s:
        notes = group("DataQualityNotes", el("Rating", s["rating"]), el("GoodFromPeriod", s["good_from"]), el("GoodToPeriod", s["good_to"]), comment(s["notes"])) + group("DataQualityWarnings", el("Flag", s["flag"]), comment(s["warning"]))
    return group(
        "Site",
        el("Project", s["project"]),
        el("Survey", s["survey"]),
        el("YearCollected", s["start"][:4]),
        el("Country", s["country"]),
        el("Id", s["id"]),
        el("Name", s["name"]),
        group("Location", el("Latitude", f"{s['latitude']:.6f}"), el("Longitude", f"{s['longitude']:.6f}"), el("Elevation", f"{s['elevation']:.3f}", units="meters"), el("Declination", f"{s['declination']:.3f}", epoch=s["epoch"]), datum="WGS84"),
        el("Orientation", s["layout"], angle_to_geographic_north=f"{s['angle']:.3f}"),
        el("AcquiredBy", s["acquired_by"]),
        el("Start", s["start"]),
        el("End", s["end"]),
        el("RunList", " ".join(r["run"] for r in runs) or None),
        notes,
    )


def write_person(tag, p):
    return group(tag, el("Name", p["name"]), el("Email", p["email"]), el("Organization", p["organization"]), el("Url", p["url"]))


def write_channel(c):
    return f"<{'Electric' if c['name'][0] == 'E' else 'Magnetic'} " + " ".join(f'{k}="{v if k == "name" else format(v, ".3f")}"' for k, v in c.items()) + "/>"


def write_file(fn, x):
    EMPTY[0] = x["empty"]
    y = ['<?xml version="1.0" encoding="UTF-8"?>', "<EM_TF>", el("Description", x["description"]), el("ProductId", x["product_id"]), el("SubType", x["sub_type"]), el("Notes", x["notes"]), el("Tags", x["tags"])]
    if x["url"]:
        y.append(group("ExternalUrl", el("Description", x["url"][0]), el("Url", x["url"][1])))
    if x["primary"]:
        y.append(group("PrimaryData", el("Filename", x["primary"])))
    y += [group("Attachment", el("Filename", a["filename"]), el("Description", a["description"])) for a in x["attachments"]]
    y.append(group("Provenance", el("CreateTime", x["create_time"]), el("CreatingApplication", x["application"]), write_person("Creator", x["creator"]), write_person("Submitter", x["submitter"])))
    y.append(group("Copyright", group("Citation", el("Title", x["title"]), el("Authors", x["authors"]), el("Year", x["year"]), el("SurveyDOI", None if x["doi"] is None else "doi:" + x["doi"])), el("SelectedPublications", x["publications"]), el("Acknowledgement", x["acknowledgement"]), el("ReleaseStatus", x["release"]), el("ConditionsOfUse", x["conditions"]), el("AdditionalInfo", x["info"])))
    y.append(write_site(x["site"], x["runs"]))
    y += [write_run(r) for r in x["runs"]]
    rem = "" if x["remote"] is None else group("RemoteInfo", write_site(x["remote"], x["remote_runs"]), *[write_run(r) for r in x["remote_runs"]])
    y.append(group("ProcessingInfo", el("SignConvention", x["sign"]), "" if x["ref"] is None else f'<RemoteRef type="{x["ref"]}"/>', rem, el("ProcessedBy", x["processed_by"]), el("ProcessDate", x["process_date"]), group("ProcessingSoftware", el("Name", x["software"]["name"]), el("LastMod", x["software"]["last_mod"]), el("Author", x["software"]["author"])), el("ProcessingTag", x["tag"])))
    y.append(group("SiteLayout", group("InputChannels", *[write_channel(c) for c in x["inputs"]], ref="site", units="m"), group("OutputChannels", *[write_channel(c) for c in x["outputs"]], ref="site", units="m")))
    y.append('<Data count="1"><Period value="1.0E+01" units="secs">')
    for tag, outs in (("Z", [c["name"] for c in x["outputs"] if c["name"] != "Hz"]), ("T", [c["name"] for c in x["outputs"] if c["name"] == "Hz"])):
        if outs:
            y.append(f'<{tag} type="complex" size="{len(outs)} 2">' + "".join(f'<value name="a" output="{o}" input="{i}">1.5 -2.5</value>' for o in outs for i in ("Hx", "Hy")) + f"</{tag}>")
    y.append("</Period></Data></EM_TF>")
    fn.write_text("\n".join(y), encoding="utf-8")


# ------------------------------------------------------------------ what is expected
def val(v):
    v = getattr(v, "value", v)
    return None if v in ("", [], None) else v


def same(got, want, what):
    g, w = val(got), val(want)
    if isinstance(w, float) or isinstance(g, float):
        check(g is not None and w is not None and abs(float(g) - float(w)) < 1e-9, f"{what}: {g!r}, expected {w!r}")
        return
    if g is not None and w is not None:
        g, w = str(g), str(w)
    check(g == w, f"{what}: {g!r}, expected {w!r}")


def date(got, want, what):
    if want is None:
        return
    check(str(got)[: len(want)] == want, f"{what}: {got}, expected {want}")


def runs_same(got, want, what):
    check_eq([r.run for r in got], [r["run"] for r in want], f"{what}: runs")
    for g, w in zip(got, want):
        n = f"{what}: run {w['run']}"
        for k in ("manufacturer", "name", "id", "settings"):
            same(getattr(g.instrument, k), w["instrument"][k], f"{n}: instrument {k}")
        check_eq(len(g.magnetometer), len(w["magnetometer"]), f"{n}: number of magnetometers")
        for a, b in zip(g.magnetometer, w["magnetometer"]):
            for k in ("manufacturer", "name", "id", "type"):
                same(getattr(a, k), b[k], f"{n}: magnetometer {k}")
        check_eq([val(d.name) for d in g.dipole], [d["name"] for d in w["dipole"]], f"{n}: dipoles")
        for a, b in zip(g.dipole, w["dipole"]):
            for k in ("manufacturer", "type", "length", "azimuth"):
                same(getattr(a, k), b[k], f"{n}: dipole {b['name']} {k}")
            check_eq([(val(e.location).upper(), e.number) for e in a.electrode], [(e["location"], e["number"]) for e in b["electrode"]], f"{n}: electrodes of {b['name']}")
            for e, f in zip(a.electrode, b["electrode"]):
                same(e.value, f["value"], f"{n}: type of electrode {f['location']} of {b['name']}")
        same(g.comments.value, (w["comments"] or {}).get("value"), f"{n}: comments")
        same(g.comments.author, (w["comments"] or {}).get("author"), f"{n}: author of comments")
        same(g.errors, w["errors"], f"{n}: errors")
        same(g.sampling_rate, w["sampling_rate"], f"{n}: sampling rate")
        date(g.start, w["start"], f"{n}: start")
        date(g.end, w["end"], f"{n}: end")


def site_same(g, s, runs, what):
    for k in ("project", "survey", "country", "id", "name", "acquired_by"):
        same(getattr(g, k), s[k], f"{what}: {k}")
    same(g.year_collected, s["start"][:4], f"{what}: year")
    for k in ("latitude", "longitude", "elevation"):
        same(getattr(g.location, k), s[k], f"{what}: {k}")
    same(g.location.declination.value, s["declination"], f"{what}: declination")
    same(g.location.declination.epoch, s["epoch"], f"{what}: epoch")
    same(g.orientation.angle_to_geographic_north, s["angle"], f"{what}: angle to north")
    same(g.orientation.layout, s["layout"], f"{what}: layout")
    date(g.start, s["start"], f"{what}: start")
    date(g.end, s["end"], f"{what}: end")
    check_eq(list(g.run_list or []), [r["run"] for r in runs], f"{what}: run list")
    if "rating" in s:
        for k, v in (("rating", "rating"), ("good_from_period", "good_from"), ("good_to_period", "good_to")):
            if s[v] is not None:
                same(getattr(g.data_quality_notes, k), s[v], f"{what}: {k}")
        for o, c, n in ((g.data_quality_notes, s["notes"], "notes"), (g.data_quality_warnings, s["warning"], "warnings")):
            same(o.comments.value, (c or {}).get("value"), f"{what}: comments of {n}")
            same(o.comments.author, (c or {}).get("author"), f"{what}: author of {n}")
        if s["flag"] is not None:
            same(g.data_quality_warnings.flag, s["flag"], f"{what}: flag")


def person_same(g, p, what):
    for k in ("name", "email", "organization"):
        same(getattr(g, k), p[k], f"{what}: {k}")
    same(g.url, p["url"], f"{what}: url")


def file_same(o, x, what):
    same(o.description, x["description"], f"{what}: description")
    same(o.product_id, x["product_id"], f"{what}: product")
    same(o.sub_type, x["sub_type"], f"{what}: sub type")
    same(o.notes, x["notes"], f"{what}: notes")
    same(o.tags, x["tags"], f"{what}: tags")
    if x["url"]:
        same(o.external_url.description, x["url"][0], f"{what}: description of link")
        same(o.external_url.url, x["url"][1], f"{what}: link")
    if x["primary"]:
        same(o.primary_data.filename, x["primary"], f"{what}: primary data")
    if what == "read":  # those of the file written are its own
        date(o.provenance.create_time, x["create_time"], f"{what}: creation time")
        if x["application"]:
            same(o.provenance.creating_application, x["application"], f"{what}: application")
    person_same(o.provenance.creator, x["creator"], f"{what}: creator")
    person_same(o.provenance.submitter, x["submitter"], f"{what}: submitter")
    same(o.copyright.citation.title, x["title"], f"{what}: title")
    same(o.copyright.citation.authors, x["authors"], f"{what}: authors")
    same(o.copyright.citation.year, x["year"], f"{what}: year")
    if x["doi"]:
        check(str(o.copyright.citation.survey_d_o_i).endswith(x["doi"]), f"{what}: doi {o.copyright.citation.survey_d_o_i}, expected {x['doi']}")
    for k, v in (("selected_publications", "publications"), ("acknowledgement", "acknowledgement"), ("conditions_of_use", "conditions"), ("additional_info", "info")):
        if x[v] is not None:
            same(getattr(o.copyright, k), x[v], f"{what}: {k}")
    check_eq(str(val(o.copyright.release_status)).lower(), x["release"].lower(), f"{what}: release status")
    site_same(o.site, x["site"], x.get("run_list", x["runs"]), f"{what}: site")
    runs_same(o.field_notes._run_list, x["runs"], what)
    p = o.processing_info
    same(p.sign_convention, x["sign"], f"{what}: sign convention")
    same(p.remote_ref.type, x["ref"], f"{what}: remote reference")
    same(p.processed_by, x["processed_by"], f"{what}: processed by")
    date(p.process_date, x["process_date"], f"{what}: process date")
    same(p.processing_software.name, x["software"]["name"], f"{what}: software")
    same(p.processing_software.author, x["software"]["author"], f"{what}: author of software")
    date(p.processing_software.last_mod, x["software"]["last_mod"], f"{what}: date of software")
    same(p.processing_tag, x["tag"], f"{what}: processing tag")
    if x["remote"]:
        site_same(p.remote_info.site, x["remote"], x.get("remote_list", x["remote_runs"]), f"{what}: remote site")
        runs_same(p.remote_info.field_notes._run_list, x["remote_runs"], f"{what}: remote")
    for got, want, n in ((o.site_layout.input_channels, x["inputs"], "inputs"), (o.site_layout.output_channels, x["outputs"], "outputs")):
        check_eq(sorted(c.name.capitalize() for c in got), sorted(c["name"] for c in want), f"{what}: {n}")
        for c in want:
            g = [d for d in got if d.name.capitalize() == c["name"]][0]
            for k in c:
                if k != "name":
                    same(getattr(g, k), c[k], f"{what}: {k} of {c['name']}")


def attachments_same(o, x, what):
    a = o.attachment._attachments or ([o.attachment] if val(o.attachment.filename) else [])
    check_eq([(str(i.filename), i.description) for i in a], [(i["filename"], i["description"]) for i in x["attachments"]], f"{what}: attachments")


@C.known_finding("emtf-org")
def org():
    fn = pathlib.Path("meta_org.xml")
    fn.write_text('<EM_TF><ProductId>P.m1.2012</ProductId><SubType>MT_TF</SubType><Provenance><Creator><Name>me</Name><Org>here</Org></Creator></Provenance><Site><Id>m1</Id></Site><Data count="1"><Period value="1.0E+01" units="secs"><T type="complex" size="1 2"><value output="Hz" input="Hx">1.5 -2.5</value></T></Period></Data></EM_TF>')
    got = EMTFXML(fn=fn).provenance.creator.organization
    return None if got == "here" else f"organization of the creator of a file, given as Org, is {got!r} and not 'here'"


@C.given(spec(), st.booleans(), quick=50, thorough=2500)
def read(ctx, x, without):
    """what is in the file is in the object read, and in the file written from it; a file written without field notes has all else, and the object keeps them"""
    fn = pathlib.Path("meta_read.xml")
    write_file(fn, x)
    o = EMTFXML(fn=fn)
    file_same(o, x, "read")
    attachments_same(o, x, "read")
    if without:
        out = pathlib.Path("meta_read_without.xml")
        o.write(out, skip_field_notes=True)
        file_same(EMTFXML(fn=out), {**x, "runs": [], "remote_runs": [], "run_list": x["runs"], "remote_list": x["remote_runs"]}, "written without field notes")
    out = pathlib.Path("meta_read_again.xml")
    o.write(out)
    file_same(o, x, "after it was written")
    p = EMTFXML(fn=out)
    file_same(p, x, "written and read")
    attachments_same(p, x, "written and read")
    if not (x["remote"] or len(x["runs"]) > 1 or len(x["attachments"]) > 1):
        ctx.trivial()


def tf_same(tf, x, what):
    """the metadata of the transfer function are those of the file"""
    s, v, m = x["site"], tf.survey_metadata, tf.station_metadata
    if s["survey"]:
        same(v.geographic_name, s["survey"], f"{what}: survey")
    same(v.project, s["project"], f"{what}: project")
    same(",".join(v.country or []), s["country"], f"{what}: country")
    same(v.summary, x["description"], f"{what}: summary")
    same(v.citation_dataset.title, x["title"], f"{what}: title")
    same(v.citation_dataset.authors, x["authors"], f"{what}: authors")
    same(v.citation_dataset.year, x["year"], f"{what}: year")
    if x["doi"]:
        check(str(v.citation_dataset.doi).endswith(x["doi"]), f"{what}: doi: {v.citation_dataset.doi}, expected {x['doi']}")
    date(v.time_period.start_date, s["start"][:10], f"{what}: start of survey")
    date(v.time_period.end_date, s["end"][:10], f"{what}: end of survey")
    same(m.acquired_by.author, s["acquired_by"], f"{what}: acquired by")
    same(m.id, s["id"], f"{what}: id")
    same(m.geographic_name, s["name"], f"{what}: name")
    same(m.fdsn.id, x["product_id"], f"{what}: product")
    check_eq(str(val(m.data_type)).upper(), x["sub_type"].split("_")[0], f"{what}: data type")
    for k in ("latitude", "longitude", "elevation"):
        same(getattr(m.location, k), s[k], f"{what}: {k}")
    same(m.location.declination.value, s["declination"], f"{what}: declination")
    same(m.location.declination.epoch, s["epoch"], f"{what}: epoch")
    same(m.orientation.angle_to_geographic_north, s["angle"], f"{what}: angle to north")
    date(m.time_period.start, s["start"], f"{what}: start")
    date(m.time_period.end, s["end"], f"{what}: end")
    for k in ("creator", "submitter"):
        p = getattr(m.provenance, k)
        same(p.author, x[k]["name"], f"{what}: {k}")
        for i in ("email", "organization", "url"):
            same(getattr(p, i), x[k][i], f"{what}: {i} of {k}")
    if x["url"]:
        same(m.provenance.archive.url, x["url"][1], f"{what}: archive")
        same(m.provenance.archive.comments, x["url"][0], f"{what}: description of archive")
    t = m.transfer_function
    same(t.id, s["id"], f"{what}: id of transfer function")
    same(t.sign_convention, x["sign"], f"{what}: sign convention")
    same(t.processed_by.author, x["processed_by"], f"{what}: processed by")
    date(t.processed_date, x["process_date"], f"{what}: process date")
    same(t.software.name, x["software"]["name"], f"{what}: software")
    same(t.software.author, x["software"]["author"], f"{what}: author of software")
    date(t.software.last_updated, x["software"]["last_mod"], f"{what}: date of software")
    same(t.processing_type, x["ref"], f"{what}: processing type")
    check_eq(list(t.runs_processed or []), [r["run"] for r in x["runs"]], f"{what}: runs processed")
    if x["remote"]:
        check_eq(list(t.remote_references or []), [x["remote"]["id"]], f"{what}: remotes")
    elif x["tag"] and (what == "read" or x["runs"]):
        check_eq(list(t.remote_references or []), [k for k in x["tag"].split("_")[1:]], f"{what}: remotes of the tag")
    if x["remote"] and what == "read":
        told = {k: v for k, _, v in (i.partition(" = ") for i in t.processing_parameters)}
        notes = {f"site.{k}": x["remote"][k] for k in ("id", "name", "project", "survey", "acquired_by", "start", "end")}
        notes["site.orientation.angle_to_geographic_north"] = x["remote"]["angle"]
        for r in x["remote_runs"]:
            n = {"run": r["run"], "sampling_rate": r["sampling_rate"], "errors": r["errors"]}
            n |= {f"instrument.{k}": v for k, v in r["instrument"].items()}
            for i, d in enumerate(r["dipole"]):
                n |= {f"dipole_{i}.{k}": d[k] for k in ("name", "length", "azimuth", "type", "manufacturer")}
            for i, d in enumerate(r["magnetometer"]):
                n |= {f"magnetometer_{i}.{k}": d[k] for k in ("name", "id", "type", "manufacturer")}
            notes |= {f"field_notes.{k}": v for k, v in n.items()}
        for k, v in notes.items():
            if v is not None and str(v) not in ("", "0", "1980", "None"):
                check_eq(told.get(f"remote_info.{k}"), str(v), f"{what}: {k} of the remote site")
    for k, n in (("good_from_period", "good_from"), ("good_to_period", "good_to")):
        if s[n] is not None:
            same(getattr(t.data_quality, k), s[n], f"{what}: {k}")
    if s["rating"]:
        same(t.data_quality.rating.value, s["rating"], f"{what}: rating")
    layout = {c["name"].lower(): c for c in x["inputs"] + x["outputs"]}
    if not x["runs"]:
        check_eq(len(m.runs), 1, f"{what}: number of runs")
        runs = [(m.runs[0], None)]
    else:
        check_eq(sorted(r.id for r in m.runs), sorted(r["run"] for r in x["runs"]), f"{what}: runs")
        runs = [(m.get_run(r["run"]), r) for r in x["runs"]]
    for g, r in runs:
        n = f"{what}: run"
        chans = set(layout) if r else set(layout) | {"ex", "ey"}
        if r:
            n += f" {r['run']}"
            same(g.data_logger.manufacturer, r["instrument"]["manufacturer"], f"{n}: maker of logger")
            same(g.data_logger.type, r["instrument"]["name"], f"{n}: type of logger")
            same(g.data_logger.id, r["instrument"]["id"], f"{n}: id of logger")
            same(g.sample_rate, r["sampling_rate"], f"{n}: sample rate")
            date(g.time_period.start, r["start"], f"{n}: start")
            date(g.time_period.end, r["end"], f"{n}: end")
            mg = r["magnetometer"]
            mag = {c: mg[0] for c in ("hx", "hy", "hz")} if len(mg) == 1 else {i["name"]: i for i in mg}
            chans |= set(mag) | {d["name"].lower() for d in r["dipole"]}
            for c, i in mag.items():
                h = g.get_channel(c)
                check(h is not None, f"{n}: no channel {c}")
                if h is None:
                    continue
                for k in ("manufacturer", "id", "type"):
                    same(getattr(h.sensor, k), i[k], f"{n}: sensor {k} of {c}")
            for d in r["dipole"]:
                e = g.get_channel(d["name"].lower())
                check(e is not None, f"{n}: no channel {d['name']}")
                if e is None:
                    continue
                same(e.dipole_length, d["length"], f"{n}: length of {d['name']}")
                for pot, want in ((e.positive, d["electrode"][0]), (e.negative, d["electrode"][1])):
                    same(pot.id, want["number"], f"{n}: number of electrode of {d['name']}")
                    same(pot.type, want["value"], f"{n}: type of electrode of {d['name']}")
                    same(pot.manufacturer, d["manufacturer"], f"{n}: maker of electrode of {d['name']}")
        check_eq(sorted(c.component for c in g.channels), sorted(chans), f"{n}: channels")
        for c, l in layout.items():
            h = g.get_channel(c)
            if h is None:
                continue
            same(h.measurement_azimuth, l["orientation"], f"{n}: azimuth of {c}")
            same(h.translated_azimuth, l["orientation"], f"{n}: translated azimuth of {c}")
            for k in ("x", "y", "z"):
                same(getattr(h.location if c[0] == "h" else h.negative, k), l[k], f"{n}: {k} of {c}")
                # ends at the same place are not known, they are written as the length tells
                if c[0] == "e" and (what == "read" or any(l[i] for i in ("x", "y", "x2", "y2"))):
                    same(getattr(h.positive, k + "2"), l[k + "2"], f"{n}: {k}2 of {c}")


@C.given(spec(), quick=50, thorough=2500)
def transfer_function(ctx, x):
    """the metadata of a transfer function read from a file are those of the file, also after it is written and read again"""
    fn = pathlib.Path("meta_tf.xml")
    write_file(fn, x)
    tf = TF(fn=fn)
    tf.read()
    tf_same(tf, x, "read")
    out = pathlib.Path("meta_tf_again.xml")
    tf.write(out)
    again = TF(fn=out)
    again.read()
    tf_same(again, x, "written and read")
    if not (x["remote"] or len(x["runs"]) > 1 or len(x["attachments"]) > 1):
        ctx.trivial()


HUMAN = st.sampled_from([
    "north of town", "gap at 12:30:05", "see fieldnotes: page 3", "fieldnotes: page 3", "datalogger: LEMI 417", "datalogger CR: 2", "dataquality: fine", "electrode_ex: dry", "processing: by hand", "see p. 3: noisy",
    "noise e.g. trains: yes", "x = 3", "fieldnotes.dataquality.rating: good", "100 % <new> & more", "http://example.org/a.b", "magnetometer_hx: buried", "Dr. No: left", "é: ü",
])
NUMBER = st.integers(1, 30).map(float)
NAME = st.sampled_from(["Zonge", "LEMI 417", "a-b", "17"])


def run0(x):
    return x.field_notes._run_list[0]


def by_name(items, comp):
    return [i for i in items if (i.name or "").lower() == comp][0]


def layout(x, comp):
    return by_name(x.site_layout.input_channels + x.site_layout.output_channels, comp)


#: key -> (values, where it is)
KEYS = {
    "fieldnotes.datalogger.id": (NAME, lambda x: run0(x).instrument.id),
    "fieldnotes.datalogger.manufacturer": (NAME, lambda x: run0(x).instrument.manufacturer),
    "fieldnotes.dataquality.rating": (st.integers(0, 5), lambda x: x.site.data_quality_notes.rating),
    "fieldnotes.dataquality.comments": (NAME, lambda x: x.site.data_quality_notes.comments.value),
    "fieldnotes.dataquality.author": (NAME, lambda x: x.site.data_quality_notes.comments.author),
    "site.acquired_by": (NAME, lambda x: x.site.acquired_by),
    "description": (NAME, lambda x: x.description),
    "processing.software.name": (NAME, lambda x: x.processing_info.processing_software.name),
    "processing.software.author.name": (NAME, lambda x: x.processing_info.processing_software.author),
    "processing.processed_by": (NAME, lambda x: x.processing_info.processed_by),
}
for _c in ("ex", "ey"):
    KEYS[f"fieldnotes.electrode_{_c}.manufacturer"] = (NAME, lambda x, c=_c: by_name(run0(x).dipole, c).manufacturer)
    KEYS[f"fieldnotes.electrode_{_c}.azm"] = (NUMBER, lambda x, c=_c: by_name(run0(x).dipole, c).azimuth)
    for _k in ("x", "y", "z", "x2", "y2", "z2"):
        KEYS[f"fieldnotes.electrode_{_c}.{_k}"] = (NUMBER, lambda x, c=_c, k=_k: getattr(layout(x, c), k))
for _c in ("hx", "hy", "hz"):
    for _k, _n in (("manufacturer", "manufacturer"), ("type", "type"), ("acqchan", "id")):
        KEYS[f"fieldnotes.magnetometer_{_c}.{_k}"] = (NAME, lambda x, c=_c, n=_n: getattr(by_name(run0(x).magnetometer, c), n))
    for _k in ("x", "y", "z"):
        KEYS[f"fieldnotes.magnetometer_{_c}.{_k}"] = (NUMBER, lambda x, c=_c, k=_k: getattr(layout(x, c), k))
ITEM = st.one_of(HUMAN, HUMAN, st.sampled_from(sorted(KEYS)).flatmap(lambda k: KEYS[k][0].map(lambda v: (k, v))))


def key_of(item):
    return item if isinstance(item, str) else item[0]


@C.given(st.lists(ITEM, min_size=1, max_size=5, unique_by=key_of), st.integers(0, 2), st.booleans(), quick=120, thorough=4000)
def comments(ctx, items, n_runs, tip):
    """comments of a station that name attributes of the file are there, also in the file, all others stay comments"""
    tf = TF(station="mt01")
    tf.period = np.array([1.0, 10.0])
    tf.impedance = np.ones((2, 2, 2)) + 1j
    if tip:
        tf.tipper = np.ones((2, 1, 2)) + 1j
    for i in range(n_runs):
        r = Run(id=f"mt01{'ab'[i]}", sample_rate=8.0)
        for c in ("ex", "ey"):
            r.add_channel(Electric(component=c))
        for c in ("hx", "hy", "hz"):
            r.add_channel(Magnetic(component=c))
        tf.station_metadata.add_run(r)
    items = [i for i in items if tip or "_hz" not in i[0]] or ["a"]
    # of the values of one channel the runs have to be there
    if not n_runs:
        items = [i for i in items if isinstance(i, str) or not i[0].startswith(("fieldnotes.electrode", "fieldnotes.magnetometer"))] or ["a"]
    human = [i for i in items if isinstance(i, str)]
    tf.station_metadata.comments.value = "; ".join(i if isinstance(i, str) else f"{i[0]}: {i[1]}" for i in items)
    x = tf.to_emtfxml()
    check_eq(x.site.comments.value or "", "; ".join(human), "comments of the site")
    for i in items:
        if not isinstance(i, str):
            same(KEYS[i[0]][1](x), i[1], i[0])
    fn = pathlib.Path("meta_comments.xml")
    x.write(fn)
    again = EMTFXML(fn=fn)
    for i in items:
        if not isinstance(i, str) and not (n_runs == 0 and "datalogger" in i[0]):
            same(KEYS[i[0]][1](again), i[1], f"{i[0]} in the file")
    if len(items) < 2:
        ctx.trivial()
    ctx.tag(f"{n_runs} runs", "human" if human else "keys")
