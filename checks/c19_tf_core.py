"""C19: the transfer function container gives back what was put into it."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF, TFError

from mt_metadata.timeseries import Run, Station as TSStation
from mt_metadata.transfer_functions.tf import Station as TFStation

from vp import metagen
from vp.core import Check, check, check_eq, raises

C = Check("C19", rule="non-trivial: at least two different quantities are set")

DEFAULT = {"ex": "ex", "ey": "ey", "hx": "hx", "hy": "hy", "hz": "hz"}
NAMES = [DEFAULT, {"ex": "e1", "ey": "e2", "hx": "bx", "hy": "by", "hz": "bz"}, {"ex": "e1", "ey": "e2", "hx": "h1", "hy": "h2", "hz": "h3"}]
# quantity -> (array, outputs, inputs)
Q = {
    "impedance": ("tf", ["ex", "ey"], ["hx", "hy"]), "tipper": ("tf", ["hz"], ["hx", "hy"]), "transfer_function": ("tf", ["ex", "ey", "hz"], ["hx", "hy"]),
    "impedance_error": ("err", ["ex", "ey"], ["hx", "hy"]), "tipper_error": ("err", ["hz"], ["hx", "hy"]), "transfer_function_error": ("err", ["ex", "ey", "hz"], ["hx", "hy"]),
    "impedance_model_error": ("model", ["ex", "ey"], ["hx", "hy"]), "tipper_model_error": ("model", ["hz"], ["hx", "hy"]), "transfer_function_model_error": ("model", ["ex", "ey", "hz"], ["hx", "hy"]),
    "inverse_signal_power": ("isp", ["hx", "hy"], ["hx", "hy"]), "residual_covariance": ("res", ["ex", "ey", "hz"], ["ex", "ey", "hz"]),
}
CH = ["ex", "ey", "hz", "hx", "hy"]
GATE = {"impedance": "impedance", "tipper": "tipper", "transfer": "transfer_function"}

periods = st.lists(st.floats(-4, 5).map(lambda e: float(f"{10**e:.6g}")), min_size=1, max_size=5, unique=True)
seeds = st.integers(0, 2**32 - 1)
hows = st.sampled_from(["array", "array", "list", "tuple", "dataarray", "shuffled", "turned"])


def values(name, n, seed, scale=0):
    """random values of a quantity; some of them zero"""
    r = np.random.default_rng(seed)
    arr, out, inp = Q[name]
    v = r.normal(size=(n, len(out), len(inp))) * 10.0 ** r.integers(-3, 4)
    if arr in ("err", "model"):
        return np.abs(v)
    v = v + 1j * r.normal(size=v.shape)
    if arr in ("isp", "res"):
        v = v @ np.conj(np.swapaxes(v, 1, 2))
    elif seed % 5 == 0:
        v[0] = 0
    if seed % 7 == 1 and arr == "tf":
        v = 1j * v.imag
    elif seed % 7 == 2 and arr == "tf":
        v = v.real + 0j
    elif seed % 7 == 3:
        v = v * 0
    elif seed % 7 == 4:
        # one element only
        k = (seed // 7) % v.size
        one = np.zeros(v.size, bool)
        one[k] = True
        v = np.where(one.reshape(v.shape), v, 0)
    return v


class Model:
    def __init__(self, period):
        self.period = np.array(period, dtype=float)
        n = len(period)
        self.a = {k: np.zeros((n, 5, 5), dtype=float if k in ("err", "model") else complex) for k in ("tf", "err", "model", "isp", "res")}

    def at(self, name):
        arr, out, inp = Q[name]
        return arr, np.ix_(range(len(self.period)), [CH.index(o) for o in out], [CH.index(i) for i in inp])

    def get(self, name):
        arr, ix = self.at(name)
        return self.a[arr][ix]

    def set(self, name, v):
        arr, ix = self.at(name)
        self.a[arr][ix] = v
        if arr in ("isp", "res") and self.get("inverse_signal_power").any() and self.get("residual_covariance").any():
            s = np.abs(np.diagonal(self.get("inverse_signal_power"), axis1=1, axis2=2))
            r = np.abs(np.diagonal(self.get("residual_covariance"), axis1=1, axis2=2))
            arr, ix = self.at("transfer_function_error")
            self.a[arr][ix] = np.sqrt(r[:, :, None] * s[:, None, :])


def as_given(name, v, how, period, names, seed):
    if how in ("dataarray", "shuffled", "turned"):
        arr, out, inp = Q[name]
        o, i = [names[x] for x in out], [names[x] for x in inp]
        da = xr.DataArray(v, dims=["period", "output", "input"], coords={"period": period, "output": o, "input": i})
        if how == "shuffled":
            r = np.random.default_rng(seed)
            da = da.isel(output=r.permutation(len(o)), input=r.permutation(len(i)))
        if how == "turned":
            da = da.transpose(*np.random.default_rng(seed).permutation(da.dims))
        return da
    return v if how == "array" else v.tolist() if how == "list" else tuple(v)


def compare(tf, m, names, what):
    check(np.array_equal(tf.period, m.period), f"{what}: periods {tf.period}, expected {m.period}")
    check(np.allclose(tf.frequency * m.period, 1), f"{what}: frequency {tf.frequency}")
    for name, (arr, out, inp) in Q.items():
        want = m.get(name)
        if arr in ("isp", "res"):
            there = bool(want.any())
            has = getattr(tf, f"has_{name}")()
            check_eq(bool(has), there, f"{what}: has_{name}")
        else:
            gate = GATE[name.split("_")[0]]
            there = bool(m.get(gate).any())
            check_eq(bool(getattr(tf, f"has_{gate}")()), there, f"{what}: has_{gate}")
        got = getattr(tf, name)
        if not there:
            check(got is None, f"{what}: {name} is {got!r}, nothing was set")
            continue
        check(got is not None, f"{what}: {name} is None")
        check_eq(got.dims, ("period", "output", "input"), f"{what}: dimensions of {name}")
        check_eq(sorted(got.coords["output"].data.tolist()), sorted(names[o] for o in out), f"{what}: outputs of {name}")
        check_eq(sorted(got.coords["input"].data.tolist()), sorted(names[i] for i in inp), f"{what}: inputs of {name}")
        check(np.array_equal(got.coords["period"].data, m.period), f"{what}: periods of {name}")
        check_eq(got.coords["output"].data.tolist(), [names[o] for o in out], f"{what}: order of the outputs of {name}")
        check_eq(got.coords["input"].data.tolist(), [names[i] for i in inp], f"{what}: order of the inputs of {name}")
        check(np.allclose(got.data, want, rtol=1e-12, atol=0), f"{what}: {name} is {got.data.tolist()}, expected {want.tolist()}")
    for o in ("ex", "ey", "hz"):
        for i in ("hx", "hy"):
            key = ("z" if o[0] == "e" else "t") + {"ex": "x", "ey": "y", "hz": "z"}[o] + i[1]
            check_eq(getattr(tf, f"index_{key}"), {"input": names[i], "output": names[o]}, f"{what}: index_{key}")


op = st.tuples(st.sampled_from(sorted(Q)), hows, seeds)


def make(period, names, how):
    kw = {} if names is DEFAULT else {"channel_nomenclature": names}
    p = np.array(period)
    if how == "period":
        return TF(period=p, **kw), p
    if how == "frequency":
        return TF(frequency=1 / p, **kw), 1 / (1 / p)
    tf = TF(**kw)
    if how == "set frequency":
        tf.frequency = 1 / p
        return tf, 1 / (1 / p)
    tf.period = p
    return tf, p


makes = st.sampled_from(["period", "frequency", "set", "set frequency"])


@C.given(periods, st.sampled_from(NAMES), makes, st.lists(op, max_size=7), quick=70, thorough=3000)
def histories(ctx, period, names, how, ops):
    """through any history of setting quantities, in any form and order of channels, every quantity reads back as last set, nothing else changes, and quantities that are all zero are absent"""
    tf, p = make(period, names, how)
    m = Model(p)
    compare(tf, m, names, "new")
    for k, (name, form, seed) in enumerate(ops):
        v = values(name, len(p), seed)
        given = as_given(name, v, form, p, names, seed)
        keep = v.copy()
        setattr(tf, name, given)
        m.set(name, v)
        check(np.array_equal(v, keep), f"setting {name} changed the values given")
        compare(tf, m, names, f"after {k + 1} ({name} as {form})")
        setattr(tf, name, None)
        compare(tf, m, names, f"{name} = None")
    if len({o[0] for o in ops}) < 2:
        ctx.trivial()
    ctx.tag(how, *[o[1] for o in ops])


@C.given(periods, st.sampled_from(NAMES), st.lists(st.tuples(st.sampled_from(sorted(Q)), hows, seeds), min_size=1, max_size=4), st.sampled_from(["dataarray", "shuffled", "turned"]), st.sampled_from([None, 1.0, 3.0]), quick=60, thorough=2500)
def first_of_all(ctx, period, names, ops, how, old):
    """an empty transfer function takes the periods of the first array with coordinates that is set, in their order, and is the same as one made with these periods; one that holds something refuses arrays of another number of periods, or of other periods, and does not change"""
    kw = {} if names is DEFAULT else {"channel_nomenclature": names}
    tf = TF(**kw) if old is None else TF(period=np.array([old]), **kw)
    p = np.array(period)
    m = Model(p)
    for k, (name, form, seed) in enumerate(ops):
        v = values(name, len(p), seed)
        if k == 0:
            form = how
        setattr(tf, name, as_given(name, v, form, p, names, seed))
        m.set(name, v)
        compare(tf, m, names, f"after {k + 1} ({name} as {form})")
    if not (m.get("impedance").any() or m.get("tipper").any()):
        if len(p) == 1:
            ctx.trivial()
            return
    name, form, seed = ops[-1]
    for q in (np.append(p, p.max() * 2), p * 1.5):
        da = as_given(name, values(name, len(q), seed), how, q, names, seed)
        try:
            setattr(tf, name, da)
        except (TFError, ValueError, IndexError, KeyError):
            pass
        else:
            check(False, f"{name} of other periods {q} accepted")
        compare(tf, m, names, f"{name} of other periods {q}")
    ctx.tag(how)


@C.given(st.lists(st.tuples(st.sampled_from(["transfer_function", "inverse_signal_power", "residual_covariance", "inverse_signal_power", "residual_covariance", "tipper_error"]), hows, st.one_of(st.sampled_from([3, 10, 17]), seeds)), min_size=3, max_size=8), quick=50, thorough=2000)
def covariances(ctx, ops):
    """through any history of setting, also to zeros, the covariances, the transfer function and its errors, each reads back as last set, and the errors are those of both covariances when there are both"""
    tf, p = make([1.0, 10.0], DEFAULT, "period")
    m = Model(p)
    for k, (name, form, seed) in enumerate(ops):
        v = values(name, len(p), seed)
        setattr(tf, name, as_given(name, v, form, p, DEFAULT, seed))
        m.set(name, v)
        compare(tf, m, DEFAULT, f"after {k + 1} ({name} as {form}{'' if v.any() else ', zeros'})")


@C.given(periods, st.lists(op, max_size=4), op, st.sampled_from(["periods", "outputs", "inputs", "flat", "type", "names"]), quick=120, thorough=4000)
def refused(ctx, period, ops, last, bad):
    """values of a wrong shape, type or channels are refused with TFError and change nothing"""
    tf, p = make(period, DEFAULT, "period")
    m = Model(p)
    for name, form, seed in ops:
        v = values(name, len(p), seed)
        setattr(tf, name, as_given(name, v, form, p, DEFAULT, seed))
        m.set(name, v)
    name, form, seed = last
    v = values(name, len(p), seed)
    if bad == "periods":
        x = np.concatenate([v, v])
        x = x if form != "list" else x.tolist()
    elif bad == "outputs":
        x = np.concatenate([v, v], axis=1)
    elif bad == "inputs":
        x = np.concatenate([v, v], axis=2)
    elif bad == "flat":
        x = v[0] if v[0].shape[1:] != (2, 2) else v[0, 0]
    elif bad == "type":
        x = "abc"
    else:
        x = as_given(name, v, "dataarray", p, {**DEFAULT, "ex": "q1", "ey": "q2", "hx": "q3", "hy": "q4", "hz": "q5"}, seed)
    try:
        setattr(tf, name, x)
    except TFError:
        pass
    else:
        check(False, f"{name}: {bad} of shape {np.shape(x)} accepted")
    compare(tf, m, DEFAULT, f"{name} with bad {bad}")
    ctx.tag(bad)


@C.given(periods, periods, st.lists(op, max_size=4), st.booleans(), quick=100, thorough=3000)
def new_periods(ctx, period, other, ops, frequency):
    """periods (or frequencies) of the same number replace the old ones and keep the data, another number is refused and changes nothing"""
    tf, p = make(period, DEFAULT, "period")
    m = Model(p)
    for name, form, seed in ops:
        v = values(name, len(p), seed)
        setattr(tf, name, as_given(name, v, form, p, DEFAULT, seed))
        m.set(name, v)
    q = np.array(other)
    if list(p) == [1.0] and not m.get("transfer_function").any():
        ctx.trivial()
        return
    def put():
        if frequency:
            tf.frequency = q
        else:
            tf.period = q
    if len(q) != len(p):
        raises(TFError, put, f"{len(q)} periods for {len(p)}")
    else:
        put()
        m.period = 1 / q if frequency else q
    compare(tf, m, DEFAULT, "new periods")
    ctx.tag("same number" if len(q) == len(p) else "other number")


@C.given(periods, st.lists(op, min_size=1, max_size=4), op, quick=40, thorough=1500)
def copies(ctx, period, ops, extra):
    """a copy is equal, holds the same and is independent; a difference in data or metadata makes unequal; other types are not equal"""
    tf, p = make(period, DEFAULT, "period")
    m = Model(p)
    for name, form, seed in ops:
        v = values(name, len(p), seed)
        setattr(tf, name, as_given(name, v, form, p, DEFAULT, seed))
        m.set(name, v)
    tf.station, tf.survey, tf.latitude, tf.longitude, tf.elevation = "mt01", "sv", 10.5, -20.25, 100.0
    c = tf.copy()
    check(c == tf and not (c != tf), "a copy is not equal")
    compare(c, m, DEFAULT, "copy")
    name, form, seed = extra
    name = name.replace("_model", "").replace("_error", "")
    v = values(name, len(p), seed + 1)
    before = m.get("transfer_function").copy()
    setattr(c, name, v)
    compare(tf, m, DEFAULT, "after a change of the copy")
    m.set(name, v)
    compare(c, m, DEFAULT, "the changed copy")
    changed = not np.array_equal(before, m.get("transfer_function"))
    check_eq(c == tf, not changed, "equality after a change of the copy")
    d = tf.copy()
    d.station = "other"
    check(d != tf and tf.station == "mt01" and d.station == "other", "station names")
    d = tf.copy()
    d.latitude = 11.0
    check(d != tf and tf.latitude == 10.5, "latitude")
    check_eq((c.station, c.survey, c.latitude, c.longitude, c.elevation), ("mt01", "sv", 10.5, -20.25, 100.0), "metadata of the copy")
    for o in (5, None, "a", [tf]):
        check(not (tf == o) and tf != o, f"equal to {o!r}")
    a = tf.dataset.attrs
    check_eq((a["survey"], a["id"], a["latitude"], a["longitude"], a["elevation"]), ("sv", "mt01", 10.5, -20.25, 100.0), "attributes of the dataset")


def common(o):
    return {k: v for k, v in metagen.leaves(o).items() if not k.startswith(("transfer_function", "runs", "channels_recorded", "run_list"))}


@C.given(metagen.object_specs([TFStation]), metagen.object_specs([TSStation]), st.lists(st.sampled_from(["a", "mt01b", "003", "x"]), max_size=3, unique=True), quick=100, thorough=4000)
def time_series_station(ctx, spec, other, runs):
    """the station of a transfer function given for time series has all attributes that both have and its runs; the attributes of a time series station given to a transfer function are those of its station"""
    specs = []
    for n, f in (spec, other):
        specs.append((n, {k: v for k, v in f.items() if not k.startswith(("runs", "channels_recorded", "run_list"))}))
    o, q = (metagen.build(x) for x in specs)
    for r in runs:
        o.add_run(Run(id=r))
    tf = TF()
    tf.station_metadata = o
    want = common(tf.station_metadata)
    got = tf.to_ts_station_metadata()
    check(type(got) is TSStation, f"a {type(got)}")
    see = common(got)
    d = [k for k in metagen.diff(want, see)]
    check(not d, f"for time series: {[(k, see.get(k), want.get(k)) for k in d[:3]]}")
    check_eq((got.run_list, list(got.runs.keys())), (runs or ["0"],) * 2, "runs for time series")
    # and the other way, onto what was there
    tf = TF()
    tf.from_ts_station_metadata(q)
    set_there = set(q.to_dict(single=True))
    want, see = common(q), common(tf.station_metadata)
    d = [k for k in metagen.diff(want, see) if k in set_there]
    check(not d, f"from time series: {[(k, see.get(k), want.get(k)) for k in d[:3]]}")
    if not runs:
        ctx.trivial()
