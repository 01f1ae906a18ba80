"""C31: processing configurations and the stations they process."""
import copy
import datetime as dt
import json

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from mt_metadata.common import TimePeriod
from mt_metadata.processing.aurora.channel import Channel
from mt_metadata.processing.aurora.decimation_level import DecimationLevel
from mt_metadata.processing.aurora.processing import Processing
from mt_metadata.processing.aurora.run import Run
from mt_metadata.processing.aurora.station import Station
from mt_metadata.processing.aurora.stations import Stations
from mt_metadata.transfer_functions import CHANNEL_MAPS

from vp.core import Check, check, check_eq, raises
from vp.strat import names, utc_datetimes

C = Check("C31", rule="non-trivial: several levels, remote stations, runs of several time periods, scale factors other than one")

# --------------------------------------------------------------------------- configurations
WINDOWS = ["boxcar", "hann", "hamming", "blackman", "triang"]
CH = ["ex", "ey", "hx", "hy", "hz", "e1", "h2", "bx", "rx", "ry"]
channels = st.lists(st.sampled_from(CH), max_size=4, unique=True)

level = st.fixed_dictionaries(
    {
        "sample_rate": st.sampled_from([0.25, 0.5, 1.0, 8.0, 150.0]),
        "factor": st.sampled_from([1, 2, 4, 5]),
        "window": st.fixed_dictionaries({"type": st.sampled_from(WINDOWS), "num_samples": st.sampled_from([16, 32, 100, 128]), "overlap": st.integers(0, 15)}),
        "stft": st.fixed_dictionaries(
            {
                "method": st.sampled_from(["fft", "wavelet", "other"]),
                "min_num_stft_windows": st.integers(0, 5),
                "pre_fft_detrend_type": st.sampled_from(["linear", "other", ""]),
                "per_window_detrend_type": st.sampled_from(["linear", "constant", ""]),
                "prewhitening_type": st.sampled_from(["first difference", "other"]),
                "recoloring": st.booleans(),
            }
        ),
        "input_channels": channels,
        "output_channels": channels,
        "reference_channels": channels,
        "engine": st.sampled_from(["RME_RR", "RME", "other"]),
        "regression": st.fixed_dictionaries({"minimum_cycles": st.integers(1, 9), "max_iterations": st.integers(1, 20), "r0": st.sampled_from([1.4, 1.5, 2.0]), "u0": st.sampled_from([2.8, 3.0]), "tolerance": st.sampled_from([0.005, 0.1])}),
        "bands": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 12)).map(lambda t: (t[0], t[0] + t[1])), max_size=4, unique_by=lambda t: t[0]),
        "save_fcs": st.booleans(),
    }
)


def build_level(d, n):
    o = DecimationLevel()
    o.decimation.level = n
    o.decimation.factor = d["factor"]
    o.decimation.sample_rate = d["sample_rate"]
    for k, v in d["window"].items():
        setattr(o.stft.window, k, v)
    for k, v in d["stft"].items():
        setattr(o.stft, k, v)
    for k in ("input_channels", "output_channels", "reference_channels", "save_fcs"):
        setattr(o, k, copy.copy(d[k]))
    o.estimator.engine = d["engine"]
    for k, v in d["regression"].items():
        setattr(o.regression, k, v)
    df = d["sample_rate"] / d["window"]["num_samples"]
    for a, b in d["bands"]:
        o.add_band(dict(frequency_min=(a - 0.25) * df if a else 0.0, frequency_max=(b + 0.25) * df, index_min=a, index_max=b, decimation_level=n))
    return o


def look(o):
    """what is read back from a level"""
    return {
        "level": o.decimation.level,
        "factor": o.decimation.factor,
        "sample_rate": o.decimation.sample_rate,
        "window": {"type": str(getattr(o.stft.window.type, "value", o.stft.window.type)), "num_samples": o.stft.window.num_samples, "overlap": o.stft.window.overlap},
        "stft": {k: getattr(getattr(o.stft, k), "value", getattr(o.stft, k)) for k in ("method", "min_num_stft_windows", "pre_fft_detrend_type", "per_window_detrend_type", "prewhitening_type", "recoloring")},
        "channels": (list(o.input_channels), list(o.output_channels), list(o.reference_channels)),
        "engine": getattr(o.estimator.engine, "value", o.estimator.engine),
        "regression": {k: getattr(o.regression, k) for k in ("minimum_cycles", "max_iterations", "r0", "u0", "tolerance")},
        "bands": [(b.index_min, b.index_max, b.frequency_min, b.frequency_max, b.decimation_level) for b in o.bands],
        "save_fcs": o.save_fcs,
    }


def expect(d, n):
    df = d["sample_rate"] / d["window"]["num_samples"]
    return {
        "level": n,
        "factor": d["factor"],
        "sample_rate": d["sample_rate"],
        "window": d["window"],
        "stft": d["stft"],
        "channels": (d["input_channels"], d["output_channels"], d["reference_channels"]),
        "engine": d["engine"],
        "regression": d["regression"],
        "bands": [(a, b, (a - 0.25) * df if a else 0.0, (b + 0.25) * df, n) for a, b in d["bands"]],
        "save_fcs": d["save_fcs"],
    }


# --------------------------------------------------------------------------- stations
whole = utc_datetimes(1980, 2100, micro=False)
period = st.tuples(whole, st.integers(1, 10**6)).map(lambda t: (t[0], t[0] + dt.timedelta(seconds=t[1])))
scales = st.dictionaries(st.sampled_from(CH), st.sampled_from([1.0, 2.0, -1.0, 0.5, 0.001]), max_size=4)
run = st.fixed_dictionaries(
    {
        "sample_rate": st.sampled_from([0.5, 1.0, 8.0, 256.0]),
        "inputs": st.lists(st.sampled_from(["hx", "hy", "bx", "h2"]), max_size=3, unique=True),
        "outputs": st.lists(st.sampled_from(["ex", "ey", "hz", "e1"]), max_size=3, unique=True),
        "periods": st.lists(period, min_size=1, max_size=3),
        "scales": scales,
    }
)
station = st.fixed_dictionaries({"path": names(6).map(lambda s: f"/data/{s}.h5"), "runs": st.lists(run, min_size=1, max_size=3)})
stations = st.tuples(st.lists(names(5), min_size=1, max_size=3, unique=True), st.lists(station, min_size=3, max_size=3), st.lists(names(4), min_size=3, max_size=3, unique=True))


def build_run(r, rid):
    return Run(
        id=rid,
        sample_rate=r["sample_rate"],
        input_channels=[Channel(id=c, scale_factor=r["scales"].get(c, 1.0)) for c in r["inputs"]],
        output_channels=[Channel(id=c, scale_factor=r["scales"].get(c, 1.0)) for c in r["outputs"]],
        time_periods=[TimePeriod(start=a.isoformat(), end=b.isoformat()) for a, b in r["periods"]],
    )


def turn(rids, n):
    """the runs of each station have other names"""
    return rids[n % 3 :] + rids[: n % 3]


def build_stations(s, how="add"):
    ids, specs, rids = s
    if how != "add":
        rr = [Station(id=i, mth5_path=d["path"], runs=[build_run(r, k) for k, r in zip(turn(rids, n), d["runs"])]) for n, (i, d) in enumerate(zip(ids[1:], specs[1:]), 1)]
        rr = [r.to_dict() for r in rr] if how == "dicts" else rr
        o = Stations(local=Station(id=ids[0], mth5_path=specs[0]["path"], runs=[build_run(r, i) for i, r in zip(rids, specs[0]["runs"])]))
        o.remote = rr[0] if len(rr) == 1 else rr
        return o
    o = Stations(local=Station(id=ids[0], mth5_path=specs[0]["path"], runs=[build_run(r, i) for i, r in zip(rids, specs[0]["runs"])]))
    for n, (i, d) in enumerate(zip(ids[1:], specs[1:]), 1):
        o.add_remote(Station(id=i, mth5_path=d["path"], runs=[build_run(r, k) for k, r in zip(turn(rids, n), d["runs"])]))
    return o


def see_station(o):
    return {
        "id": o.id,
        "path": str(o.mth5_path),
        "remote": bool(o.remote),
        "runs": [
            {
                "id": r.id,
                "sample_rate": float(r.sample_rate),
                "inputs": [(c.id, c.scale_factor) for c in r.input_channels],
                "outputs": [(c.id, c.scale_factor) for c in r.output_channels],
                "periods": [(str(t.start), str(t.end)) for t in r.time_periods],
            }
            for r in o.runs
        ],
    }


iso = lambda t: t.isoformat() + "+00:00"


def expect_station(i, d, rids, remote):
    return {
        "id": i,
        "path": d["path"],
        "remote": remote,
        "runs": [
            {
                "id": k,
                "sample_rate": r["sample_rate"],
                "inputs": [(c, r["scales"].get(c, 1.0)) for c in r["inputs"]],
                "outputs": [(c, r["scales"].get(c, 1.0)) for c in r["outputs"]],
                "periods": [(iso(a), iso(b)) for a, b in r["periods"]],
            }
            for k, r in zip(rids, d["runs"])
        ],
    }


def see(o):
    return [see_station(x) for x in [o.local, *o.remote]]


def expect_all(s):
    ids, specs, rids = s
    return [expect_station(i, d, turn(rids, n), n > 0) for n, (i, d) in enumerate(zip(ids, specs))]


# --------------------------------------------------------------------------- checks
@C.given(st.lists(level, min_size=1, max_size=3), stations, st.sampled_from(sorted(CHANNEL_MAPS)), st.sampled_from(["dict", "nested dict", "json", "nested json", "series", "copy"]), names(6), st.sampled_from(["EMTF", "band_edges", None]), quick=60, thorough=2500)
def roundtrip(ctx, levels, s, keyword, how, pid, style):
    """a processing configuration written to a dictionary (flat or nested), JSON or series and read back has the same levels, windows, bands, channels, estimators and stations"""
    p = Processing(id=pid, stations=build_stations(s), decimations=[build_level(d, n) for n, d in enumerate(levels)], band_specification_style=style, band_setup_file="/a/b.cfg" if style else None)
    if keyword in ("default", "lemi12", "lemi34", "musgraves", "phoenix123"):
        p.channel_nomenclature.keyword = keyword
    q = Processing()
    if how == "dict":
        q.from_dict(p.to_dict())
    elif how == "nested dict":
        q.from_dict(p.to_dict(nested=True))
    elif how == "json":
        q.from_json(p.to_json())
    elif how == "nested json":
        q.from_json(p.to_json(nested=True))
    elif how == "series":
        q.from_series(p.to_series())
    else:
        q = p.copy()
    for o, name in ((p, "configuration"), (q, f"{how} read back")):
        check_eq([look(x) for x in o.decimations], [expect(d, n) for n, d in enumerate(levels)], f"levels of {name}")
        check_eq(see(o.stations), expect_all(s), f"stations of {name}")
        check_eq((o.id, getattr(o.band_specification_style, "value", o.band_specification_style), o.band_setup_file), (pid, style, "/a/b.cfg" if style else None), name)
    check_eq(q.channel_nomenclature.unpack(), p.channel_nomenclature.unpack(), "channel names")
    check(p == q, f"{how} read back is equal")
    # reading into a configuration that has levels replaces them
    if how == "dict":
        q.from_dict(p.to_dict())
        check_eq(len(q.decimations), len(levels), "levels after reading twice")
        check_eq(len(q.stations.remote), len(s[0]) - 1, "remote stations after reading twice")
    if len(levels) == 1 and len(s[0]) == 1:
        ctx.trivial()


@C.given(st.lists(level, min_size=1, max_size=3), st.sampled_from(["list", "dict", "objects", "single", "add", "add dict", "keyword"]), channels, channels, channels, st.sampled_from(["default", "lemi12", "lemi34", "musgraves", "phoenix123"]), st.booleans(), quick=80, thorough=3000)
def levels(ctx, ds, how, inputs, outputs, refs, keyword, remote):
    """decimation levels given in any form are the levels of the configuration, found by their number; channels set for the configuration are set in every level, the defaults are those of the nomenclature; without remote stations remote-reference estimators become single station"""
    if how == "single":
        ds = ds[:1]
    objs = [build_level(d, n) for n, d in enumerate(ds)]
    p = Processing()
    if how == "list":
        p.decimations = objs
    elif how == "keyword":
        p = Processing(decimations=objs)
    elif how == "dict":
        p.decimations = {str(n): o for n, o in enumerate(objs)}
    elif how == "objects":
        p.decimations = [o.to_dict() for o in objs]
    elif how == "single":
        p.decimations = objs[0]
    else:
        for o in objs:
            p.add_decimation_level(o if how == "add" else o.to_dict())
    want = [expect(d, n) for n, d in enumerate(ds)]
    check_eq([look(o) for o in p.decimations], want, f"levels set by {how}")
    check_eq(p.num_decimation_levels, len(ds), "number of levels")
    check_eq(sorted(p.decimations_dict), list(range(len(ds))), "numbers of levels")
    for n in range(len(ds)):
        check_eq(look(p.get_decimation_level(n)), want[n], f"level {n}")
        check_eq([tuple(r) for r in np.asarray(p.band_edges_dict[n]).tolist()], sorted((x[2], x[3]) for x in want[n]["bands"]), f"band edges of level {n}")
    raises(KeyError, lambda: p.get_decimation_level(len(ds)), "a level there is not")
    raises(TypeError, lambda: p.add_decimation_level("level"), "a level that is none")
    # the files the levels are read from
    cn = lambda: [(list(o.input_channels), list(o.output_channels), list(o.reference_channels)) for o in p.decimations]
    before = cn()
    p.set_input_channels(inputs)
    check_eq(cn(), [(inputs, b, c) for a, b, c in before], "input channels")
    p.set_output_channels(outputs)
    p.set_reference_channels(refs)
    check_eq(cn(), [(inputs, outputs, refs)] * len(ds), "channels")
    p.drop_reference_channels()
    check_eq(cn(), [(inputs, outputs, [])] * len(ds), "dropped reference channels")
    p.channel_nomenclature.keyword = keyword
    m = CHANNEL_MAPS[keyword]
    p.set_default_input_output_channels()
    check_eq(cn(), [([m["hx"], m["hy"]], [m["ex"], m["ey"], m["hz"]], [])] * len(ds), f"default channels of {keyword}")
    p.set_default_reference_channels()
    check_eq(cn(), [([m["hx"], m["hy"]], [m["ex"], m["ey"], m["hz"]], [m["hx"], m["hy"]])] * len(ds), f"default channels of {keyword}")
    check_eq(p.decimations[0].local_channels, [m["hx"], m["hy"], m["ex"], m["ey"], m["hz"]], "local channels")
    # estimators
    p.stations.local.id = "a"
    if remote:
        p.stations.add_remote(Station(id="b", mth5_path="/a.h5"))
    p.validate_processing(None)
    engines = [d["engine"] if remote or d["engine"] != "RME_RR" else "RME" for d in ds]
    check_eq([getattr(o.estimator.engine, "value", o.estimator.engine) for o in p.decimations], engines, "estimators")
    if len(ds) == 1:
        ctx.trivial()


@C.given(st.lists(st.sampled_from(["RME_RR", "RME", "other"]), min_size=1, max_size=5), st.integers(0, 2), quick=100, thorough=1500)
def estimators(ctx, engines, remotes):
    """without remote stations every remote reference estimator becomes a single station one, the others stay; with them all stay"""
    p = Processing()
    for n, e in enumerate(engines):
        o = DecimationLevel()
        o.decimation.level = n
        o.estimator.engine = e
        p.add_decimation_level(o)
    p.stations.local.id = "a"
    for n in range(remotes):
        p.stations.add_remote(Station(id=f"b{n}", mth5_path="/a.h5"))
    p.validate_processing(None)
    want = engines if remotes else ["RME" if e == "RME_RR" else e for e in engines]
    check_eq([getattr(o.estimator.engine, "value", o.estimator.engine) for o in p.decimations], want, f"estimators {engines} with {remotes} remote stations")
    if engines == want:
        ctx.trivial()


CHANGES = ["none", "channel", "channel", "channel", "sample_rate", "method", "prewhitening_type", "recoloring", "pre_fft_detrend_type", "min_num_stft_windows", "window type", "window num_samples", "window overlap", "channel", "harmonic", "filter", "more channels", "more harmonics", "all harmonics", "no filter"]


@C.given(level, st.integers(0, 3), st.booleans(), st.booleans(), st.sampled_from(CHANGES), st.integers(0, 7), quick=250, thorough=6000)
def archived(ctx, d, n, remote, some, change, at):
    """archived spectra are those of a level exactly when they were made with its parameters, hold its channels and its harmonics"""
    o = build_level(d, n)
    f = o.to_fc_decimation(remote=remote, ignore_harmonic_indices=not some)
    want_ch = list(d["reference_channels"]) if remote else d["input_channels"] + d["output_channels"]
    harmonics = sorted(i for a, b in d["bands"] for i in range(a, b + 1))
    check_eq(sorted(f.channels_estimated), sorted(set(want_ch)) if len(set(f.channels_estimated)) == len(f.channels_estimated) else sorted(want_ch), "channels")
    check_eq((f.time_series_decimation.level, f.time_series_decimation.factor, f.time_series_decimation.sample_rate, f.id), (n, d["factor"], d["sample_rate"], str(n)), "decimation")
    if some:
        check_eq(f.stft.harmonic_indices, harmonics, "harmonics")
    # spectra of the same parameters, in an object of their own
    g = build_level(d, n).to_fc_decimation(remote=remote, ignore_harmonic_indices=not some)
    other = {"method": ["fft", "wavelet", "other"], "prewhitening_type": ["first difference", "other"], "recoloring": [True, False], "pre_fft_detrend_type": ["linear", "other", ""], "min_num_stft_windows": list(range(7))}
    ok = True
    if change == "sample_rate":
        g.time_series_decimation.sample_rate = d["sample_rate"] * 2
        ok = False
    elif change in other:
        k = other[change]
        setattr(g.stft, change, k[(k.index(d["stft"][change]) + 1) % len(k)])
        ok = False
    elif change.startswith("window"):
        k = change.split()[1]
        v = d["window"][k]
        setattr(g.stft.window, k, WINDOWS[(WINDOWS.index(v) + 1) % len(WINDOWS)] if k == "type" else v + 1)
        ok = False
    elif change == "channel" and want_ch:
        gone = want_ch[at % len(want_ch)]
        less = build_level(d, n)
        for k in ("input_channels", "output_channels", "reference_channels"):
            setattr(less, k, [c for c in d[k] if c != gone])
        g = less.to_fc_decimation(remote=remote, ignore_harmonic_indices=not some)
        ok = False
    elif change == "more channels":
        g.channels_estimated = want_ch + ["zz"]
    elif change == "harmonic" and harmonics:
        g.stft.harmonic_indices = [i for i in harmonics if i != harmonics[-1]] or [harmonics[-1] + 1]
        ok = False
    elif change == "more harmonics":
        g.stft.harmonic_indices = harmonics + [99]
    elif change == "all harmonics":
        g.stft.harmonic_indices = [-1]
    elif change == "filter":
        g.time_series_decimation.anti_alias_filter = "butterworth"
        raises(NotImplementedError, lambda: o.is_consistent_with_archived_fc_parameters(g, remote), "another filter")
        return
    elif change == "no filter":
        o.decimation.anti_alias_filter = "default"
        g.time_series_decimation.anti_alias_filter = None
    check_eq(bool(o.is_consistent_with_archived_fc_parameters(g, remote)), ok, f"{change} changed")
    if change == "none":
        check_eq(bool(o.is_consistent_with_archived_fc_parameters(f, remote)), True, "its own")


@C.given(stations, st.booleans(), st.sampled_from(["add", "list", "dicts"]), quick=100, thorough=4000)
def dataset(ctx, s, twice, how):
    """stations give a row for every time period of every run, and stations read from the rows are the same; a station read replaces what there was; stations and runs are found by their names"""
    o = build_stations(s, how)
    ids, specs, rids = s
    check_eq(see(o), expect_all(s), f"stations ({how})")
    df = o.to_dataset_dataframe()
    rows = []
    for n, (i, d) in enumerate(zip(ids, specs)):
        for k, r in zip(turn(rids, n), d["runs"]):
            for a, b in r["periods"]:
                rows.append((i, k, a, b, d["path"], r["sample_rate"], r["inputs"], r["outputs"], n > 0, {c: r["scales"].get(c, 1.0) for c in r["inputs"] + r["outputs"]}))
    cols = ["station", "run", "start", "end", "mth5_path", "sample_rate", "input_channels", "output_channels", "remote", "channel_scale_factors"]
    got = [tuple(str(v) if c == "mth5_path" else (v.to_pydatetime().replace(tzinfo=None) if c in ("start", "end") else v) for c, v in zip(cols, r)) for r in df[cols].itertuples(index=False)]
    check_eq(got, rows, "rows")
    q = Stations()
    if twice:
        q.from_dataset_dataframe(build_stations((["old", "rold", "sold"][: max(1, len(ids) - 1)], specs[::-1], rids[::-1])).to_dataset_dataframe())
    q.from_dataset_dataframe(df)
    check_eq(see(q), expect_all(s), "stations read from the rows")
    check(df.equals(q.to_dataset_dataframe()), "rows of the stations read")
    for n, (i, d) in enumerate(zip(ids, specs)):
        check_eq(q.get_station(i).id, i, "station by name")
        for k, r in zip(turn(rids, n), d["runs"]):
            x = q.get_station(i).get_run(k)
            check_eq((x.id, x.sample_rate, x.input_channel_names, x.output_channel_names), (k, r["sample_rate"], r["inputs"], r["outputs"]), "run by name")
        check_eq(q.get_station(i).get_run("nope"), None, "run there is not")
        check_eq(q.get_station(i).run_list, turn(rids, n)[: len(d["runs"])], "runs")
    raises(KeyError, lambda: q.get_station("not there"), "station there is not")
    check_eq(sorted(q.remote_dict), sorted(ids[1:]), "remote stations")
    # a single station
    t = Station()
    t.from_dataset_dataframe(df[df.station == ids[-1]])
    check_eq(see_station(t), expect_all(s)[-1], "station read from its rows")
    # a processing configuration without a station takes them from the rows
    p = Processing()
    class K:
        pass
    K.df = df
    p.validate_processing(K)
    check_eq(see(p.stations), expect_all(s), "stations of a configuration")
    if len(rows) == 1:
        ctx.trivial()
