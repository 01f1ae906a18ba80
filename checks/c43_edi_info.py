"""C43: the INFO section of EDI files of other programs becomes metadata."""
import pathlib
import string
import tempfile

import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries import Electric, Magnetic, Run
from mt_metadata.transfer_functions.core import TF

from vp.core import Check, check, check_eq

C = Check("C43", rule="non-trivial: at least three items that are known, or a text with spaces or a number with units")

COMPS = ["ex", "ey", "hx", "hy", "hz"]
# what stands for nothing, marks the program or starts another section
RESERVED = ("none", "null", "nan", "n", "1e32", "run information", "empower", "electrics", "magnetics", "stations", "reference", "editing workbench", *COMPS, "rx", "ry", "e1", "e2", "h1", "h2", "h3")
word = st.text(string.ascii_letters + string.digits + "-_./()%", min_size=1, max_size=8).filter(lambda s: s[0].isalpha() and s.lower() not in RESERVED)
words = st.lists(st.one_of(word, word, st.sampled_from(["m", "V", "mountain", "Valley", "of", "van"])), min_size=1, max_size=4).map(" ".join).filter(lambda s: s[0].isalpha() and s.lower() not in RESERVED and not any(k in s.lower() for k in ("empower", "electrics", "magnetics")))
plain = st.text(string.ascii_letters + string.digits, min_size=1, max_size=6).map(lambda s: "c" + s)
serial = st.one_of(plain, st.integers(1, 99999).map(str))
number = st.one_of(st.integers(1, 9).map(str), st.integers(1, 5000).map(str), st.integers(1, 50000).map(lambda i: f"{i / 100:.2f}"), st.sampled_from(["5.6e-5", "1.5E2"]))
signed = st.tuples(st.sampled_from(["", "+", "-"]), number).map("".join)
date = st.dates(__import__("datetime").date(1990, 1, 1), __import__("datetime").date(2030, 12, 31))
clock = st.tuples(date, st.times()).map(lambda d: (d[0].strftime("%Y/%m/%d") + d[1].strftime(" - %H:%M:%S"), d[0].strftime("%Y-%m-%d") + d[1].strftime("T%H:%M:%S+00:00")))

_text = {}


def edi_text():
    if not _text:
        t = TF(period=np.array([1.0, 10.0]))
        t.impedance = np.arange(1, 9).reshape(2, 2, 2) * (1 + 1j)
        t.station, t.survey = "s1", "q"
        r = Run(id="s1a")
        for i, c in enumerate(COMPS):
            ch = Electric(component=c) if c[0] == "e" else Magnetic(component=c)
            ch.channel_id, ch.channel_number = f"{i + 1}.0", i + 1
            r.add_channel(ch)
        t.station_metadata.runs = [r]
        with tempfile.TemporaryDirectory() as d:
            fn = pathlib.Path(d) / "a.edi"
            t.write(fn)
            s = fn.read_text()
        i = s.index(">INFO")
        _text["head"], _text["tail"] = s[:i], s[s.index(">", i + 1) :]
    return _text["head"], _text["tail"]


def read(lines, marker=">INFO"):
    head, tail = edi_text()
    with tempfile.TemporaryDirectory() as d:
        fn = pathlib.Path(d) / "a.edi"
        fn.write_text(f"{head}{marker}\n" + "".join(x + "\n" for x in lines) + f"\n{tail}", encoding="utf-8")
        t = TF(fn=fn)
        t.read()
    return t


def leaves(t):
    o = {}

    def add(p, x):
        for k, v in x.to_dict(single=True).items():
            if k not in ("channels", "runs", "stations", "filters") and "creation_time" not in k and not k.startswith("channels_recorded"):
                o[p + k] = v

    add("survey.", t.survey_metadata)
    m = t.station_metadata
    add("", m)
    r = m.runs[0]
    add("run.", r)
    for c in r.channels:
        add(f"{c.component}.", c)
    return o


def same(got, want):
    if isinstance(want, float):
        return isinstance(got, (int, float)) and abs(got - want) <= 1e-9 * max(1, abs(want))
    if isinstance(got, list):
        return sorted(map(str, got)) == sorted(want)
    return str(got) == str(want)


def compare(t, base, want, free=("comments",)):
    got = leaves(t)
    for k, v in want.items():
        check(k in got and same(got[k], v), f"{k} is {got.get(k)!r}, expected {v!r}")
    for k, v in got.items():
        if k not in want and not any(k == f or (f.endswith(".") and k.startswith(f)) for f in free):
            check(k in base and base[k] == v, f"{k} changed to {v!r} from {base.get(k)!r}, it was not told")
    check(set(base) - set(free) <= set(got), f"lost {set(base) - set(got)}")


_base = {}


def base(*lines):
    if lines not in _base:
        _base[lines] = leaves(read(lines))
    return _base[lines]


# ---------------------------------------------------------------- programs that write KEY=VALUE
# key, value as (written, expected), where it is
pair = lambda s: s.map(lambda v: (v, v))
num = lambda s: s.map(lambda v: (v, float(v)))
listed = lambda s: st.tuples(st.lists(s, min_size=1, max_size=3, unique=True), st.sampled_from([",", ",", ", ", " , ", " "])).map(lambda v: (v[1].join(v[0]), v[0]))
STANDARD = {
    "operator": (pair(words), "run.acquired_by.author"),
    "adu_serial": (pair(serial), "run.data_logger.id"),
    "ex_len": (num(number), "ex.dipole_length"),
    "ey_len": (num(number), "ey.dipole_length"),
    "ex_resistance": (num(number), "ex.contact_resistance.start"),
    "ey_resistance": (num(number), "ey.contact_resistance.start"),
    "e_azimuth": (num(st.integers(1, 89).map(str)), "ex.measurement_azimuth"),
    "hx": (pair(serial), "hx.sensor.id"),
    "hy": (pair(serial), "hy.sensor.id"),
    "hz": (pair(serial), "hz.sensor.id"),
    "algorithmname": (pair(words), "transfer_function.software.name"),
    "processingsoftware": (pair(words), "transfer_function.software.name"),
    "project": (pair(plain), "survey.project"),
    "survey": (pair(plain), "survey.id"),
    "processedby": (pair(words), "transfer_function.processed_by.author"),
    "processingtag": (pair(plain), "transfer_function.id"),
    "signconvention": (pair(st.sampled_from(["+", "-", r"exp(+ i\omega t)", r"exp(- i\omega t)"])), "transfer_function.sign_convention"),
    "sitename": (pair(words), "geographic_name"),
    "year": (st.integers(1990, 2030).map(lambda y: (str(y), f"{y}-01-01")), "survey.time_period.start_date"),
    "runlist": (listed(plain), "transfer_function.runs_processed"),
    "run_list": (listed(plain), "transfer_function.runs_processed"),
    "processing.tag": (listed(plain), "transfer_function.remote_references"),
    "processing.software": (pair(words), "transfer_function.software.name"),
    "remotesite": (listed(plain), "transfer_function.remote_references"),
}
PARAMETERS = ("ndec", "nfft", "ntype", "rrtype", "removelargelines", "rotmaxe")
style = st.tuples(st.sampled_from([str.upper, str.lower, str.title]), st.sampled_from(["=", ":", " = ", ": ", "=  "]), st.sampled_from(["", " ", "    ", "\t"]))
item = st.sampled_from(sorted(STANDARD)).flatmap(lambda k: st.tuples(st.just(k), STANDARD[k][0]))
other = st.tuples(st.text(string.ascii_lowercase, min_size=4, max_size=8).map(lambda s: "zq" + s).filter(lambda s: not any(k in s for k in ("mtft", "emtf", "mtedit", "runlist"))), words)


@C.given(
    st.lists(st.tuples(item, style), max_size=8, unique_by=lambda i: STANDARD[i[0][0]][1]),
    st.lists(st.tuples(st.sampled_from(PARAMETERS), st.one_of(plain, plain, st.tuples(plain, plain).map("=".join)), style), max_size=3, unique_by=lambda i: i[0]),
    st.lists(st.tuples(other, style), max_size=3, unique_by=lambda i: i[0][0]),
    st.randoms(use_true_random=False),
    st.sampled_from([">INFO", " >INFO", ">info", ">INFO MAXINFO=999"]),
    quick=80,
    thorough=3000,
)
def key_value(ctx, items, parameters, others, rnd, marker):
    """each known key, in any order, case and spacing, gives the attribute it stands for; parameters of the processing are listed; unknown lines are kept in the comments; nothing else changes"""
    lines, want = [], {}
    for (k, (written, expected)), (case, sep, indent) in items:
        lines.append(f"{indent}{case(k)}{sep}{written}")
        want[STANDARD[k][1]] = expected
    for k, v, (case, sep, indent) in parameters:
        lines.append(f"{indent}{case(k)}{sep}{v}")
    if parameters:
        want["transfer_function.processing_parameters"] = [f"{k}={v}" for k, v, _ in parameters]
    for (k, v), (case, sep, indent) in others:
        lines.append(f"{indent}{case(k)}{sep}{v}")
    rnd.shuffle(lines)
    t = read(lines, marker)
    named = next((e for (k, (_, e)), _ in items if k == "run_list"), [])
    compare(t, base(), want, ("comments", "run_list") if named else ("comments",))
    check(set(named) <= set(t.station_metadata.run_list), f"runs {t.station_metadata.run_list}, told {named}")
    said = str(t.station_metadata.comments.value)
    for (k, v), _ in others:
        check(f"{k}={v}" in said, f"{k}={v} is not in the comments {said!r}")
    if len(want) < 3:
        ctx.trivial()
    ctx.tag(*[k for (k, _), _ in items])


# ---------------------------------------------------------------- Phoenix: two columns of KEY: VALUE
volts = st.tuples(number, signed)
PHOENIX = {
    "SURVEY": (pair(plain), ["survey.id"]),
    "COMPANY": (pair(words), ["acquired_by.organization"]),
    "JOB": (pair(plain), ["survey.project"]),
    "HARDWARE": (pair(words), ["run.data_logger.model"]),
    "MTUPROG VERSION": (pair(plain), ["run.data_logger.firmware.version"]),
    "START-UP": (clock, ["time_period.start", "run.time_period.start"]),
    "END-TIME": (clock, ["time_period.end", "run.time_period.end"]),
    "STN Number": (pair(plain), ["id"]),
    "MTU-Box Serial Number": (pair(serial), ["run.data_logger.id"]),
    **{f"{c.title()} Sen": (pair(serial), [f"{c}.sensor.id"]) for c in ("hx", "hy", "hz")},
    **{f"{c.title()} Pot Resist": (number.map(lambda v: (f"{v} Kohms", float(v))), [f"{c}.contact_resistance.start"]) for c in ("ex", "ey")},
    **{f"{c.title()} Voltage": (volts.map(lambda v: (f"AC={v[0]}mV, DC={v[1]}mV", v)), [f"{c}.ac.start", f"{c}.dc.start"]) for c in ("ex", "ey")},
}
UNKNOWN = ["Site Permitted by:", "MTU-Box Gains:E`s x 4 H`s x 4", "RBS: 7  COH: 0.85", "Notch Filters set for 50 Hz.", "PROCESSED FROM DFT TIME SERIES", "Hz1   5    COIL2320", "Comp Chan#   Sensor     Azimuth"]
p_item = st.sampled_from(sorted(PHOENIX)).flatmap(lambda k: st.tuples(st.just(k), PHOENIX[k][0]))


@C.given(
    st.lists(st.one_of(p_item, p_item, p_item, st.sampled_from(UNKNOWN)), max_size=12, unique_by=lambda i: i if isinstance(i, str) else i[0]),
    st.lists(st.booleans(), min_size=12, max_size=12),
    st.integers(0, 4),
    quick=80,
    thorough=3000,
)
def phoenix(ctx, items, columns, indent):
    """what a Phoenix file tells, in one or two columns, gives the attributes it stands for, voltages and resistances without their units, and nothing else changes"""
    lines, want, cells = ["             RUN INFORMATION                     STATION 1             "], {}, []
    for i in items:
        if isinstance(i, str):
            cells.append(i)
            continue
        k, (written, expected) = i
        cells.append(f"{k}: {written}" if "Voltage" not in k else f"{k}:{written}")
        where = PHOENIX[k][1]
        if "Voltage" in k:
            want |= dict(zip(where, map(float, expected)))
        else:
            want |= {w: expected for w in where}
            if k.endswith(" Sen"):
                want |= {where[0].replace(".id", ".manufacturer"): "Phoenix Geophysics", where[0].replace(".id", ".type"): "Induction Coil"}
    while cells:
        # two columns only of what has a key
        two = len(cells) > 1 and columns[len(cells) % 12] and all(":" in c and "  " not in c for c in cells[:2])
        if two:
            lines.append(" " * indent + cells[0].ljust(max(38, len(cells[0]) + 5)) + cells[1])
        else:
            lines.append(" " * indent + cells[0])
        cells = cells[2:] if two else cells[1:]
    t = read(lines)
    b = base(lines[0])
    free = ["comments"]
    if "time_period.start" in want:
        want["survey.time_period.start_date"] = want["time_period.start"][:10]
    if "time_period.end" in want:
        want["survey.time_period.end_date"] = want["time_period.end"][:10]
    compare(t, b, want, free)
    if len(want) < 3:
        ctx.trivial()
    ctx.tag("two columns" if any(x.count(":") > 1 for x in lines) else "one column")


# ---------------------------------------------------------------- EMpower: sections
unit = lambda u: number.flatmap(lambda v: st.sampled_from([f"{v} [{u}]", f"{v} {u}", v, f"{v}  [{u}]"]).map(lambda w: (w, float(v))))
E_ITEMS = {
    "LENGTH": (unit("m"), "dipole_length"),
    "AC": (unit("V"), "ac.end"),
    "DC": (unit("V"), "dc.end"),
    "NEGATIVE RES": (unit("\u2126"), "contact_resistance.start"),
    "POSITIVE_RES": (unit("\u2126"), "contact_resistance.end"),
}
M_ITEMS = {"SENSOR TYPE": (pair(plain), "sensor.model"), "DETECTED SENSOR TYPE": (pair(plain), "sensor.model"), "SENSOR SERIAL": (pair(serial), "sensor.id"), "SENSOR_SERIAL": (pair(serial), "sensor.id")}
SAID = ["CAL NAME", "SATURATION", "MIN VALUE", "MAX VALUE"]
G_ITEMS = {
    "PROCESSINGSOFTWARE": (pair(words), "transfer_function.software.name"),
    "SITENAME": (pair(words), "geographic_name"),
    "YEAR": (st.integers(1990, 2030).map(lambda y: (str(y), f"{y}-01-01")), "survey.time_period.start_date"),
    "DECLINATION": (st.integers(1, 89).map(lambda i: (f"{i}\u00b0", float(i))), "location.declination.value"),
}
S_ITEMS = {"INSTRUMENT TYPE": (pair(words), "run.data_logger.model"), "STATION NAME": (pair(words), "geographic_name"), "OPERATOR": (pair(words), "run.acquired_by.author")}


def some(table, n):
    one = st.sampled_from(sorted(table)).flatmap(lambda k: st.tuples(st.just(k), table[k][0]))
    return st.lists(one, max_size=n, unique_by=lambda i: table[i[0]][1])


electric = st.fixed_dictionaries({"items": some(E_ITEMS, 5), "said": st.lists(st.tuples(st.sampled_from(SAID), plain), max_size=3, unique_by=lambda i: i[0]), "tag": st.booleans(), "name": st.integers(0, 1)})
magnetic = st.fixed_dictionaries({"items": some(M_ITEMS, 2), "tag": st.booleans(), "name": st.integers(0, 1)})
NAMES = {"ex": ("EX", "E1"), "ey": ("EY", "E2"), "hx": ("HX", "H1"), "hy": ("HY", "H2"), "hz": ("HZ", "H3")}


@C.given(
    some(G_ITEMS, 4),
    st.lists(st.one_of(st.tuples(st.sampled_from(["ex", "ey"]), electric), st.tuples(st.sampled_from(["hx", "hy", "hz"]), magnetic)), max_size=5, unique_by=lambda i: i[0]),
    some(S_ITEMS, 3),
    st.one_of(st.none(), words),
    st.booleans(),
    quick=80,
    thorough=3000,
)
def empower(ctx, general, channels, section, remote, blank):
    """what an EMpower file tells of the site, of the recording and of each channel, under any name of the channel, gives the attributes it stands for: numbers without their units, texts with all their words; nothing else changes"""
    lines, want = [" MAXINFO=999"], {}
    for k, (w, v) in general:
        lines.append(f"  {k}={w}")
        want[G_ITEMS[k][1]] = v
    lines += ["", "     UNIQUE ID: {88290cfe}", "     COMB FILTER: 60 HZ", "     STATIONS"]
    first = True
    for kind, head in (("e", "ELECTRICS"), ("h", "MAGNETICS")):
        lines.append(f"       {head}")
        mine = [c for c in channels if c[0][0] == kind]
        if first:
            for k, (w, v) in section:
                lines.append(f"          {k}: {w}")
                want[S_ITEMS[k][1]] = v
        first = False
        for c, p in mine:
            lines.append(f"          {NAMES[c][p['name']]}")
            if p["tag"]:
                lines.append(f"            TAG: {NAMES[c][1]}")
            for k, (w, v) in p["items"]:
                lines.append(f"            {k}: {w}")
                want[f"{c}.{(E_ITEMS | M_ITEMS)[k][1]}"] = v
            for k, v in p.get("said", []):
                lines.append(f"            {k}: {v}")
            if p.get("said"):
                want[f"{c}.comments"] = ",".join(f"{k.lower()}={v}" for k, v in p["said"])
            if blank:
                lines.append("")
    if remote is not None:
        lines += ["       REFERENCE", f"          STATION NAME: {remote}"]
        want["transfer_function.remote_references"] = [x.strip() for x in remote.split(",")]
    t = read(lines)
    # electric channels in the file are told their component, so they have no number
    free = ["comments"] + [f"{c}.channel_number" for c in ("ex", "ey")]
    if section and not channels:
        ctx.trivial()
    compare(t, base("     STATIONS", "       ELECTRICS"), want, free)
    if len(want) < 3:
        ctx.trivial()
    ctx.tag(*[k for k, _ in general], *[c for c, _ in channels])


@C.known_finding("remote-sensors")
def _remote_sensors():
    got = read(["   RUN INFORMATION  ", "   Hx Sen: COIL1", "   Rx Sen: COIL2"]).station_metadata.runs[0].channels["hx"].sensor.id
    return None if got == "COIL1" else f"the sensor of the remote reference in the INFO of a Phoenix or EMpower file is taken for that of the station: sensor of hx is {got}, expected COIL1"


@C.known_finding("magnetic-comments")
def _magnetic_comments():
    got = read(["  STATIONS", "    MAGNETICS", "      HX", "        CAL NAME: a1"]).station_metadata.runs[0].channels["hx"].comments.value
    return None if got == "cal name=a1" else f"what the INFO of an EMpower file tells of a magnetic channel besides its sensor is lost: comments of hx are {got!r}, expected 'cal name=a1'"
