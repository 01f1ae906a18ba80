"""C30: bands, windows and decimation levels of a processing configuration."""
import numpy as np
import scipy.signal
from hypothesis import assume
from hypothesis import strategies as st

from mt_metadata.common.band import Band
from mt_metadata.processing.aurora.decimation_level import DecimationLevel
from mt_metadata.processing.aurora.frequency_bands import FrequencyBands
from mt_metadata.processing.aurora.processing import Processing
from mt_metadata.processing.fourier_coefficients.decimation import Decimation as FCDecimation
from mt_metadata.processing.fourier_coefficients.decimation import fc_decimations_creator, get_degenerate_fc_decimation
from mt_metadata.common import TimePeriod
from mt_metadata.processing.window import Window

from vp.core import Check, check, check_eq, raises

C = Check("C30", rule="non-trivial: bounds that are harmonics, bands that touch or overlap, levels of different factors, windows changed after use")

near = lambda a, b, r=1e-12: bool(np.allclose(a, b, rtol=r, atol=0))
CLOSED = ["left", "right", "both"]
grid = st.integers(0, 40).map(lambda i: i / 4)
edges = st.tuples(grid, grid).filter(lambda t: t[0] < t[1])


def inside(x, lo, hi, closed):
    return (lo <= x if closed in ("left", "both") else lo < x) and (x <= hi if closed in ("right", "both") else x < hi)


def make(e, closed, avg="geometric"):
    return Band(frequency_min=e[0], frequency_max=e[1], closed=closed, center_averaging_type=avg)


@C.given(edges, st.sampled_from(CLOSED), st.sampled_from(["geometric", "arithmetic"]), edges, st.sampled_from(CLOSED), st.integers(2, 60), st.sampled_from([0.25, 0.5, 0.3, 1.0]), quick=200, thorough=8000)
def band(ctx, e, closed, avg, e2, closed2, n, df):
    """a band holds the frequencies between its bounds (with or without either bound), as indices and values; its width, centre, fractional bandwidth and Q follow from its bounds; overlap and containment are of the intervals"""
    b = make(e, closed, avg)
    lo, hi = e
    f = np.arange(n) * df
    want = [i for i in range(n) if inside(f[i], lo, hi, closed)]
    check_eq(b.in_band_harmonics(f).tolist(), [f[i] for i in want], f"harmonics of {e} {closed}")
    mixed = np.concatenate([f[n // 2:][::-1], f[: n // 2]])
    check_eq(b.in_band_harmonics(mixed).tolist(), [x for x in mixed.tolist() if inside(x, lo, hi, closed)], f"harmonics of {e} {closed} in another order")
    if want:
        b.set_indices_from_frequencies(f)
        check_eq((b.index_min, b.index_max), (want[0], want[-1]), f"indices of {e} {closed} of {n} times {df}")
        check_eq(b.harmonic_indices.tolist(), want, "harmonic indices")
    check_eq((b.lower_bound, b.upper_bound, b.width), (lo, hi, hi - lo), "bounds and width")
    check_eq((b.lower_closed, b.upper_closed), (closed != "right", closed != "left"), "closed")
    center = np.sqrt(lo * hi) if avg == "geometric" else (lo + hi) / 2
    check(near(b.center_frequency, center), f"centre {b.center_frequency}, expected {center}")
    if lo > 0:
        check(near(b.center_period, 1 / center), f"period {b.center_period}")
        check(near(b.fractional_bandwidth, (hi - lo) / center), f"fractional bandwidth {b.fractional_bandwidth}")
        check(near(b.Q, center / (hi - lo)), f"Q {b.Q}")
    o = make(e2, closed2)
    points = sorted({*e, *e2})
    points += [(x + y) / 2 for x, y in zip(points, points[1:])]
    share = any(inside(p, *e, closed) and inside(p, *e2, closed2) for p in points)
    check_eq((b.overlaps(o), o.overlaps(b)), (share, share), f"overlap of {e} {closed} and {e2} {closed2}")
    check_eq(bool(b.contains(o)), inside(e2[0], *e, closed) and inside(e2[1], *e, closed), f"{e} {closed} contains the bounds of {e2}")
    if not (want and (f[want[0]] == lo or f[want[-1]] == hi)) and not set(e) & set(e2):
        ctx.trivial()


@C.given(st.lists(edges, min_size=0, max_size=6, unique=True), st.booleans(), st.sampled_from([None, "lower_bound", "upper_bound", "center_frequency"]), st.sampled_from(["increasing_frequency", "increasing_period"]), quick=150, thorough=5000)
def collection(ctx, es, frame, by, direction):
    """a collection of bands keeps its edges and gives its bands in the order asked for without changing its own; sorting and validation put them in order"""
    import pandas as pd

    a = np.array(es, float).reshape(-1, 2)
    cols = ["lower_bound", "upper_bound"] if len(es) % 2 else ["upper_bound", "lower_bound"]
    given = pd.DataFrame({"upper_bound": a[:, 1], "lower_bound": a[:, 0]}, index=np.arange(len(a))[::-1])[cols] if frame else a
    before = given.copy()
    fb = FrequencyBands(given)
    own = lambda: [tuple(x) for x in fb.array.tolist()]
    check_eq((fb.number_of_bands, own()), (len(es), es), "edges")
    key = {None: lambda t: np.sqrt(t[0] * t[1]), "center_frequency": lambda t: np.sqrt(t[0] * t[1]), "lower_bound": lambda t: t[0], "upper_bound": lambda t: t[1]}[by]
    for rtype in ("list", "generator"):
        got = [(b.frequency_min, b.frequency_max) for b in fb.bands(direction=direction, sortby=by, rtype=rtype)]
        if by is None and direction == "increasing_frequency":
            check_eq(got, es, "bands in their own order")
        else:
            check_eq(sorted(got), sorted(es), "bands in order")
            k = [key(t) for t in got]
            check_eq(k, sorted(k, reverse=direction == "increasing_period"), f"order by {by}, {direction}")
    check_eq(own(), es, "edges after iteration")
    check(near(fb.band_centers(), [np.sqrt(x * y) for x, y in es]), f"centres {fb.band_centers()}")
    if all(x > 0 for x, _ in es):
        check(near(fb.band_centers("period"), [1 / np.sqrt(x * y) for x, y in es]), "centres as periods")
    if by and es:
        fb.sort(by=by, ascending=direction == "increasing_frequency")
        k = [key(t) for t in own()]
        check_eq((sorted(own()), k), (sorted(es), sorted(k, reverse=direction == "increasing_period")), f"sorted by {by}")
        check_eq([(b.frequency_min, b.frequency_max) for b in fb.bands()], own(), "bands after sorting")
        check_eq([(fb.band(i).frequency_min, fb.band(i).frequency_max) for i in range(len(es))], own(), "each band after sorting")
    if es:
        fb.validate()
        c = fb.band_centers()
        check(bool(np.all(c[1:] >= c[:-1])) and sorted(own()) == sorted(es), f"centres after validation {c}")
        check(given.equals(before) if frame else bool((given == before).all()), "the edges given are changed")
        kept = own()
        if frame:
            given["lower_bound"] = -1.0
        else:
            given[:] = -1.0
        check_eq(own(), kept, "own edges after the given ones are changed")
    if len(es) < 2:
        ctx.trivial()


WINDOWS = {"boxcar": (), "triang": (), "blackman": (), "hamming": (), "hann": (), "bartlett": (), "flattop": (), "parzen": (), "bohman": (), "blackmanharris": (), "nuttall": (), "barthann": (), "kaiser": ("beta",), "gaussian": ("std",), "general_gaussian": ("p", "sig"), "chebwin": ("at",), "dpss": ("NW",)}
window = st.sampled_from(list(WINDOWS)).flatmap(lambda t: st.tuples(st.just(t), st.fixed_dictionaries({k: st.sampled_from([1.5, 2.5, 3.0] if k != "at" else [50.0, 70.0]) for k in WINDOWS[t]}), st.integers(8, 64), st.booleans()))


@C.given(st.lists(window, min_size=1, max_size=4), st.integers(1, 200), st.integers(0, 150), st.sampled_from([1.0, 0.25, 8.0, 150.0, 1e-3]), st.integers(0, 8), st.integers(-2, 2), quick=120, thorough=5000)
def windows(ctx, ws, n, overlap, rate, m, off):
    """the taper is the window function of the current type, arguments and length, of unit sum when normalized; windows advance by what they do not overlap; harmonics are the multiples of rate / length below the Nyquist frequency; a series is long enough when it holds the windows asked for"""
    w = Window(type=ws[0][0], num_samples=ws[0][2], additional_args=ws[0][1], normalized=ws[0][3])
    for i, (t, args, k, norm) in enumerate(ws):
        if i:
            w.type, w.num_samples, w.additional_args, w.normalized = t, k, args, norm
        want = scipy.signal.get_window((t, *args.values()) if args else t, k)
        if norm:
            want = want / want.sum()
        for _ in range(2):
            check(np.shape(w.taper()) == (k,) and bool(np.allclose(w.taper(), want, rtol=1e-12, atol=1e-15)), f"taper of {t} {args} {k} {norm}")
    w = Window(num_samples=n, overlap=overlap)
    check_eq(w.num_samples_advance, n - overlap, "advance")
    f = w.fft_harmonics(rate)
    check(f.shape == (n // 2,) and bool(np.allclose(f, np.arange(n // 2) * rate / n, rtol=1e-12)), f"harmonics of {n} at {rate}: {f}")
    dl = DecimationLevel()
    dl.decimation.sample_rate = rate
    dl.stft.window.num_samples = n
    check(bool(np.allclose(dl.fft_frequencies, f)) and near(dl.frequency_sample_interval, rate / n), "harmonics of a decimation level")
    fc = FCDecimation(id="0")
    fc.stft.window.num_samples, fc.stft.window.overlap, fc.stft.min_num_stft_windows = n, overlap, m
    fc.decimation.sample_rate = rate
    check(bool(np.allclose(fc.fft_frequencies, f)), "harmonics of a level of Fourier coefficients")
    if m > 0 and overlap < n:
        need = n + (m - 1) * (n - overlap)
        check_eq(fc.is_valid_for_time_series_length(need + off), off >= 0, f"{need + off} samples for {m} windows of {n} overlapping {overlap}")
    if len(ws) == 1:
        ctx.trivial()


levels = st.lists(st.tuples(st.sampled_from([2, 3, 4, 5]), st.sampled_from([64, 100, 128, 256]), st.lists(st.integers(1, 20).flatmap(lambda i: st.tuples(st.just(i), st.integers(i + 1, 30))), min_size=1, max_size=4)), min_size=1, max_size=4)


@C.given(levels, st.sampled_from([1.0, 8.0, 150.0, 0.5]), st.booleans(), st.booleans(), st.booleans(), st.integers(0, 5), quick=80, thorough=3000)
def assigned(ctx, ls, rate, same, single, on, how):
    """bands assigned to levels decimated from one another by their factors hold the harmonics between their edges; the levels list indices, edges and harmonics of all their bands"""
    k = len(ls)
    n = {i: ls[0][1] if same else ls[i][1] for i in range(k)}
    factors = {i: 1 if i == 0 else ls[0][0] if single else ls[i][0] for i in range(k)}
    rates, r = {}, rate
    for i in range(k):
        r /= factors[i]
        rates[i] = r
    # edges on the harmonics where those are exact numbers, else a little below
    exact = all(f in (1, 2, 4) for f in factors.values()) and 100 not in n.values()
    shift = 0.5 if not on else 0.0 if exact else 1e-6
    be = {i: [((a - shift) * rates[i] / n[i], (b - shift) * rates[i] / n[i]) for a, b in ls[i][2]] for i in range(k)}
    p = Processing()
    if how % 3:
        be = dict(sorted(be.items(), reverse=True)) if how % 3 == 1 else {i: be[i] for i in [*range(1, k), 0]}
    p.assign_bands(be, rate, factors, n[0] if same else list(n.values()) if how > 1 else n)
    be = dict(sorted(be.items()))
    check_eq((p.num_decimation_levels, sorted(p.decimations_dict)), (k, list(range(k))), "levels")
    for i in range(k):
        d = p.get_decimation_level(i)
        check_eq((d.decimation.level, d.decimation.factor, d.stft.window.num_samples), (i, factors[i], n[i]), f"level {i}")
        check(near(d.decimation.sample_rate, rates[i]), f"sample rate of level {i} of factors {factors}: {d.decimation.sample_rate}, expected {rates[i]}")
        check_eq(len(d.bands), len(be[i]), f"number of bands of level {i}")
        f = np.arange(n[i] // 2) * rates[i] / n[i]
        for b, (lo, hi) in zip(d.bands, be[i]):
            check(near([b.frequency_min, b.frequency_max], [lo, hi]) and b.decimation_level == i, f"band {b}, expected {lo, hi}")
            w = [j for j in range(len(f)) if lo <= d.fft_frequencies[j] < hi]
            check_eq((b.index_min, b.index_max), (w[0], w[-1]), f"indices of {lo, hi} at level {i}")
        if not on:
            check_eq([(b.index_min, b.index_max) for b in d.bands], [(a, b - 1) for a, b in ls[i][2]], f"indices of bands between harmonics, level {i}")
        check_eq(d.lower_bounds.tolist(), sorted(b.index_min for b in d.bands), "lower bounds")
        check_eq(d.upper_bounds.tolist(), sorted(b.index_max for b in d.bands), "upper bounds")
        df = d.bands_dataframe
        rows = sorted((b.decimation_level + 1, b.index_min, b.index_max, b.frequency_min, b.frequency_max) for b in d.bands)
        check_eq(sorted(df[["decimation_level", "lower_bound_index", "upper_bound_index", "frequency_min", "frequency_max"]].itertuples(index=False, name=None)), rows, "dataframe")
        check_eq(df.lower_bound_index.tolist(), sorted(df.lower_bound_index), "dataframe from low to high")
        check_eq(d.band_edges.tolist(), df[["frequency_min", "frequency_max"]].values.tolist(), "edges")
        check_eq(np.asarray(p.band_edges_dict[i]).tolist(), d.band_edges.tolist(), "edges of the configuration")
        check_eq(d.frequency_bands_obj().array.tolist(), d.band_edges.tolist(), "frequency bands")
        check_eq(d.harmonic_indices, sorted(j for b in d.bands for j in range(b.index_min, b.index_max + 1)), "harmonics")
    raises(KeyError, lambda: p.get_decimation_level(k), "a level that is not there")
    if single:
        p.assign_decimation_level_data_emtf(rate)
        for i in range(k):
            d = p.get_decimation_level(i).decimation
            check(d.factor == (4 if i else 1) and near(d.sample_rate, rate / 4**i), f"level {i} as in EMTF: {d.factor}, {d.sample_rate}")
    if k == 1 or single:
        ctx.trivial()


@C.given(st.one_of(st.none(), st.lists(st.integers(1, 6), min_size=1, max_size=6).map(lambda x: [1, *x]), st.lists(st.integers(1, 6), min_size=2, max_size=6)), st.integers(1, 7), st.sampled_from([1.0, 8.0, 4096.0, 0.3]), st.booleans(), quick=60, thorough=2000)
def cascade(ctx, factors, n, rate, times):
    """levels of Fourier coefficients made from decimation factors (by default 4 after the first) are numbered from 0, the first has the rate given, each other is decimated from the one before"""
    tp = TimePeriod(start="2020-01-01T00:00:00", end="2020-02-01T00:00:00") if times else None
    got = fc_decimations_creator(rate, factors, n, tp) if factors else fc_decimations_creator(rate, max_levels=n, time_period=tp)
    want = factors or [1] + [4] * (n - 1)
    check_eq(len(got), len(want), "levels")
    r = rate
    for i, (d, k) in enumerate(zip(got, want)):
        r /= k if i else 1
        check_eq((d.id, d.decimation.level, d.time_series_decimation.factor), (str(i), i, k), "level")
        check(near(d.decimation.sample_rate, r), f"sample rate of level {i} of {want}: {d.decimation.sample_rate}")
        if times:
            check_eq((str(d.time_period.start), str(d.time_period.end)), ("2020-01-01T00:00:00+00:00", "2020-02-01T00:00:00+00:00"), "times")
    one = get_degenerate_fc_decimation(rate)
    check_eq((len(one), one[0].decimation.factor, one[0].decimation.sample_rate, one[0].decimation.level), (1, 1, rate, 0), "one level")
    if len(want) < 3:
        ctx.trivial()
