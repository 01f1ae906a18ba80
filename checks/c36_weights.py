"""C36: weights of processing."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from mt_metadata.common.band import Band
from mt_metadata.features.coherence import Coherence
from mt_metadata.features.fc_coherence import FCCoherence
from mt_metadata.features.striding_window_coherence import StridingWindowCoherence
from mt_metadata.features.weights import ActivationMonotonicWeightKernel, ChannelWeightSpec, FeatureWeightSpec, TaperMonotonicWeightKernel
from mt_metadata.features.weights.taper_weight_kernel import TaperWeightKernel

from vp.core import Check, check, check_eq, raises

C = Check("C36", rule="non-trivial: several kernels or specifications, values at or outside the bounds, kernels that are not active")

CUTS = ["low cut", "high cut"]
grid = st.integers(-20, 40).map(lambda i: i / 20)
bounds = st.tuples(grid, grid).filter(lambda t: t[0] < t[1])
values = st.lists(st.one_of(grid, st.floats(-3, 3, allow_nan=False)), min_size=1, max_size=12)
taper = st.tuples(st.just("taper"), st.sampled_from(["rectangle", "hann", "hamming", "blackman"]), st.sampled_from(CUTS), bounds, st.just(1.0), st.sampled_from([None, True, False]))
activation = st.tuples(st.just("activation"), st.sampled_from(["sigmoid", "hard_sigmoid", "tanh", "hard_tanh"]), st.sampled_from(CUTS), bounds, st.sampled_from([0.5, 1.0, 5.0, 10.0]), st.sampled_from([None, True, False]))
kernel = st.one_of(taper, activation)


def build(k):
    kind, style, cut, (lo, hi), steep, active = k
    d = dict(threshold=cut, transition_lower_bound=lo, transition_upper_bound=hi, style=kind, active=active)
    if kind == "taper":
        return TaperMonotonicWeightKernel(half_window_style=style, **d)
    return ActivationMonotonicWeightKernel(activation_style=style, steepness=steep, **d)


def scalar(k, v):
    """weight of one value"""
    kind, style, cut, (lo, hi), s, active = k
    if active is False:
        return 1.0
    x = min(max((v - lo) / (hi - lo), 0.0), 1.0)
    if cut == "high cut":
        x = 1 - x
    if style == "rectangle":
        return float(v >= lo) if cut == "low cut" else float(v <= hi)
    if style == "hann":
        return 0.5 - 0.5 * np.cos(np.pi * x)
    if style == "hamming":
        return 0.54 - 0.46 * np.cos(np.pi * x)
    if style == "blackman":
        return 0.42 - 0.5 * np.cos(np.pi * x) + 0.08 * np.cos(2 * np.pi * x)
    if style == "sigmoid":
        return 1 / (1 + np.exp(-s * (x - 0.5)))
    if style == "tanh":
        return 0.5 + 0.5 * np.tanh(s * (x - 0.5))
    if style == "hard_sigmoid":
        return min(max(0.2 * (x - 0.5) + 0.5, 0.0), 1.0)
    return x


near = lambda a, b: np.shape(a) == np.shape(b) and bool(np.allclose(a, b, rtol=1e-9, atol=1e-12))


@C.given(kernel, values, quick=250, thorough=8000)
def kernels(ctx, k, v):
    """the weight of a value is 1 for a kernel that is not active, else depends on that value alone, is the function of the style between the bounds and constant outside them, goes up with the value for a low cut and down for a high cut, and lies between 0 and 1"""
    v = np.array(v)
    w = build(k).evaluate(v)
    want = np.array([scalar(k, x) for x in v])
    check(near(w, want), f"{k} of {v}: {w}, expected {want}")
    o = np.argsort(v)
    d = np.diff(np.asarray(w)[o]) * (1 if k[2] == "low cut" else -1)
    check(bool(np.all(d >= -1e-12)) and bool(np.all((w >= -1e-12) & (w <= 1 + 1e-12))), f"{k} is not monotonic within 0 and 1: {w}")
    for x, y in zip(v, want):
        check(near(np.asarray(build(k).evaluate(x)), np.asarray(y)), f"{k} of {x}")
    lo, hi = k[3]
    if all(lo < x < hi for x in v):
        ctx.trivial()


@C.given(bounds, bounds, st.sampled_from(["hann", "hamming", "blackman"]), grid, st.sampled_from(CUTS), values, st.sampled_from([None, True, False]), quick=100, thorough=4000)
def compound(ctx, low, high, style, at, cut, v, active):
    """a taper of a low and a high cut is the product of the two; a transition without width is a step"""
    v = np.array(v)
    w = TaperWeightKernel(low_cut=low, high_cut=high, style=style, active=active).evaluate(v)
    want = [scalar(("taper", style, "low cut", low, 1, active), x) * scalar(("taper", style, "high cut", high, 1, active), x) for x in v]
    check(near(w, want), f"{low} {high} {style} of {v}: {w}, expected {want}")
    k = TaperMonotonicWeightKernel(threshold=cut, transition_lower_bound=at, transition_upper_bound=at, half_window_style=style)
    ends = {"hann": (0, 1), "hamming": (0.08, 1), "blackman": (0, 1)}[style]
    want = [ends[int(x >= at if cut == "low cut" else x <= at)] for x in v]
    check(near(k.evaluate(v), want), f"step at {at}, {cut}, {style}, of {v}: {k.evaluate(v)}, expected {want}")


INF = float("inf")


@C.given(kernel, st.lists(st.integers(-4, 4), min_size=1, max_size=8), st.sampled_from([None, (-INF, INF), (-INF, 1.0), (0.0, INF)]), st.sampled_from(["int64", "int8", "float64"]), st.booleans(), quick=100, thorough=3000)
def whole_numbers(ctx, k, v, endless, dtype, square):
    """whole numbers of any type, in arrays of any shape, weigh as the same real numbers; an activation without two finite bounds is half way for all of them, a rectangle is open on that side"""
    a = np.array(v, dtype=dtype)
    if square:
        a = np.stack([a, a[::-1]])
    if endless and (k[0] == "activation" or k[1] == "rectangle"):
        k = k[:3] + (endless,) + k[4:]
        ctx.tag("endless")
    if k[0] == "activation" and endless:
        half = k[:3] + ((-1.0, 1.0),) + k[4:]
        want = np.array([scalar(half, 0.0) for _ in a.flat])
    elif k[1] == "rectangle" and k[5] is not False:
        want = np.array([float(x >= k[3][0]) if k[2] == "low cut" else float(x <= k[3][1]) for x in a.flat])
    else:
        want = np.array([scalar(k, float(x)) for x in a.flat])
    got = build(k).evaluate(a)
    check(near(got, want.reshape(a.shape)), f"{k} of {dtype} {a.tolist()}: {got}, expected {want}")


FEATURES = {"coherence": Coherence, "fc_coherence": FCCoherence, "striding_window_coherence": StridingWindowCoherence}
feature = st.tuples(st.sampled_from(list(FEATURES)), st.sampled_from(["ex", "ey", "hz"]), st.sampled_from(["hx", "hy"]), st.integers(4, 512), st.one_of(st.none(), st.just("mt01")))
spec = st.tuples(feature, st.lists(kernel, max_size=3))


def build_feature(f):
    name, a, b, n, station = f
    o = FEATURES[name]()
    o.channel_1, o.channel_2 = a, b
    if name != "fc_coherence":
        o.window.num_samples = n
        o.station_1 = station
    return o


def feature_attrs(o):
    return (type(o).__name__, o.name, o.channel_1, o.channel_2, o.window.num_samples if hasattr(o, "window") else None, getattr(o, "station_1", None))


def kernel_attrs(k):
    g = lambda n: getattr(getattr(k, n, None), "value", getattr(k, n, None))
    return (type(k).__name__, g("threshold"), g("half_window_style"), g("activation_style"), g("transition_lower_bound"), g("transition_upper_bound"), g("steepness"), g("active"))


def attrs(c):
    g = lambda v: getattr(v, "value", v)
    return (g(c.combination_style), list(c.output_channels), [(g(s.feature_name), feature_attrs(s.feature), [kernel_attrs(k) for k in s.weight_kernels]) for s in c.feature_weight_specs])


@C.given(st.lists(spec, max_size=3), st.sampled_from(["multiplication", "minimum", "maximum", "mean"]), st.lists(st.sampled_from(["ex", "ey", "hz"]), unique=True, max_size=3), values, st.sampled_from(["flat", "nested", "json", "nested json", "copy"]), quick=120, thorough=4000)
def specifications(ctx, specs, style, outs, v, how):
    """the weights of a channel combine those of its features as asked for, each the product of the kernels that are active (1 when there are none); a copy has the same features and kernels, as have dictionaries or JSON when there are none"""
    v = np.array(v)
    fs = [FeatureWeightSpec(feature_name="coherence", feature=build_feature(f), weight_kernels=[build(k) for k in ks]) for f, ks in specs]
    c = ChannelWeightSpec(combination_style=style, output_channels=outs, feature_weight_specs=fs)
    data = {name: v * (i + 1) / 2 for i, name in enumerate(FEATURES)}
    single = []
    for (f, ks), s in zip(specs, fs):
        x = data[f[0]]
        p = np.ones(len(v))
        for k in ks:
            if k[5] is not False:
                p = p * [scalar(k, y) for y in x]
        got = s.evaluate(x)
        check(near(got * np.ones(len(v)), p), f"{f[0]} with {ks} of {x}: {got}, expected {p}")
        single.append((p, bool(ks)))
    # a mixture of features with and without kernels: see the known finding below
    if all(a for _, a in single) or not any(a for _, a in single):
        f = {"multiplication": np.prod, "minimum": np.min, "maximum": np.max, "mean": np.mean}[style]
        want = f([p for p, _ in single], axis=0) if single else np.ones(len(v))
        got = c.evaluate(data)
        check(near(got * np.ones(len(v)), want), f"{style} of {specs}: {got}, expected {want}")
        if specs:
            raises(KeyError, lambda: c.evaluate({k: v for k, v in data.items() if k != specs[0][0][0]}), "features that are missing")
    want = attrs(c)
    check_eq([x[1][2:4] for x in want[2]], [(f[1], f[2]) for f, _ in specs], "channels of features")
    n = ChannelWeightSpec()
    if specs:
        how = "copy"  # see the known finding below
    if how in ("flat", "nested"):
        n.from_dict(c.to_dict(nested=how == "nested"))
    elif how == "copy":
        n = c.copy()
    else:
        n.from_json(c.to_json(nested=how == "nested json"))
    check_eq(attrs(n), want, f"specification through {how}")
    check_eq(attrs(c), want, "the specification it came from")
    if len(specs) < 2 and not (specs and len(specs[0][1]) > 1):
        ctx.trivial()


@C.given(st.permutations(sorted(FEATURES)), st.lists(kernel, min_size=3, max_size=3), st.sampled_from(["multiplication", "minimum", "maximum", "mean"]), values, quick=80, thorough=3000)
def three_features(ctx, order, kernels, style, v):
    """three features of different classes are combined by their own values, in any order"""
    fs = [FeatureWeightSpec(feature=build_feature((name, "ex", "hy", 64, None)), weight_kernels=[build(k)]) for name, k in zip(order, kernels)]
    data = {name: np.roll(v, i) * (1 - i) for i, name in enumerate(order)}
    single = [[scalar(k, x) for x in data[name]] for name, k in zip(order, kernels)]
    want = {"multiplication": np.prod, "minimum": np.min, "maximum": np.max, "mean": np.mean}[style](single, axis=0)
    got = ChannelWeightSpec(combination_style=style, feature_weight_specs=fs).evaluate(data)
    check(near(got, want), f"{style} of {order} with {kernels} of {data}: {got}, expected {want}")


@C.known_finding("feature-without-kernels")
def feature_without_kernels():
    f = ("coherence", "ex", "hy", 64, None)
    k = build(("taper", "hann", "low cut", (0.0, 0.5), 1.0, None))
    c = ChannelWeightSpec(feature_weight_specs=[FeatureWeightSpec(feature=build_feature(f)), FeatureWeightSpec(feature=build_feature(f), weight_kernels=[k])])
    try:
        c.evaluate({"coherence": np.array([0.1, 0.6])})
    except ValueError as e:
        return f"a feature without kernels together with one that has some cannot be combined: {str(e)[:60]}"


@C.known_finding("features-in-dictionaries")
def features_in_dictionaries():
    c = ChannelWeightSpec(output_channels=["ex"], feature_weight_specs=[FeatureWeightSpec(feature=build_feature(("striding_window_coherence", "ex", "hy", 64, None)), weight_kernels=[build(("taper", "hann", "low cut", (0.0, 0.5), 1.0, None))])])
    lost = []
    for how in ("flat", "nested", "json"):
        n = ChannelWeightSpec()
        try:
            n.from_json(c.to_json()) if how == "json" else n.from_dict(c.to_dict(nested=how == "nested"))
            if attrs(n) == attrs(c):
                continue
        except (AttributeError, ValueError):
            pass
        lost.append(how)
    return f"features and kernels of a ChannelWeightSpec are lost through {', '.join(lost)}" if lost else None


@C.given(st.lists(st.integers(1, 400).map(lambda i: i / 8), min_size=1, max_size=10, unique=True).map(sorted), st.tuples(st.integers(1, 100), st.integers(1, 100)).filter(lambda t: t[0] < t[1]), st.integers(1, 3), st.booleans(), st.sampled_from(["frequency", "freq_bin"]), quick=80, thorough=3000)
def bands(ctx, freqs, e, n, time_first, dim):
    """the weights of a band are those at the frequency nearest to its centre"""
    c = ChannelWeightSpec()
    raises(ValueError, lambda: c.get_weights_for_band(Band(frequency_min=1, frequency_max=2)), "no weights")
    a = np.arange(n * len(freqs)).reshape(n, len(freqs)) / 100
    w = xr.DataArray(a, dims=("time", dim), coords={dim: freqs, "time": np.arange(n)})
    c.weights = w if time_first else w.T
    b = Band(frequency_min=e[0] / 4, frequency_max=e[1] / 4)
    d = np.abs(np.array(freqs) - np.sqrt(e[0] * e[1]) / 4)
    got = c.get_weights_for_band(b)
    check(any(np.array_equal(np.asarray(got), a[:, i]) for i in np.flatnonzero(d <= d.min() * (1 + 1e-9))), f"weights at {b.center_frequency} of {freqs}: {got.values}")
    if len(freqs) < 3:
        ctx.trivial()
