"""C37: coherence features."""
import numpy as np
import scipy.signal
from hypothesis import assume
from hypothesis import strategies as st

from mt_metadata.features.coherence import Coherence
from mt_metadata.features.fc_coherence import FCCoherence
from mt_metadata.features.feature import Feature
from mt_metadata.features.striding_window_coherence import StridingWindowCoherence
from mt_metadata.processing.window import Window

from vp.core import Check, check, check_eq, raises
from vp.strat import names

C = Check("C37", rule="non-trivial: at least two segments, or stations left out, unknown or remote")

ARGS = {"kaiser": {"beta": 4.0}, "gaussian": {"std": 7.0}, "general_gaussian": {"p": 1.5, "sig": 7.0}, "chebwin": {"at": 60.0}, "dpss": {"NW": 2.5}}
TYPES = ["boxcar", "hann", "hamming", "blackman", "bartlett", "parzen", "triang", *ARGS]
MORE = {"kaiser": [{"beta": 0.0}, {"beta": 4.0}, {"beta": 14.0}], "gaussian": [{"std": 7.0}, {"std": 3.0}], "general_gaussian": [{"p": 1.5, "sig": 7.0}, {"p": 0.5, "sig": 4.0}], "chebwin": [{"at": 60.0}, {"at": 100.0}], "dpss": [{"NW": 2.5}]}
spec = lambda w: (w["type"], *w["args"].values()) if w["args"] else w["type"]
window = st.tuples(st.sampled_from([*TYPES, "kaiser"]).flatmap(lambda t: st.fixed_dictionaries({"type": st.just(t), "args": st.sampled_from(MORE.get(t, [{}]))})), st.fixed_dictionaries({"num_samples": st.sampled_from([8, 15, 16, 32, 64]), "overlap": st.integers(0, 7)})).map(lambda t: {**t[0], **t[1]})
noise = st.fixed_dictionaries({"seed": st.integers(0, 10**6), "n": st.integers(64, 400), "mix": st.sampled_from([0.0, 0.3, 1.0]), "trend": st.sampled_from([0.0, 1e-2, 3.0]), "offset": st.sampled_from([0.0, 5.0])})


def series(d):
    r = np.random.default_rng(d["seed"])
    x = r.normal(size=d["n"])
    y = d["mix"] * x + r.normal(size=d["n"]) + d["trend"] * np.arange(d["n"]) + d["offset"]
    return x, y


def welch(x, y, w, nperseg, noverlap, detrend):
    """coherence: |<X Y*>|^2 / (<|X|^2> <|Y|^2>) over the segments"""
    taper = scipy.signal.get_window(w, nperseg)
    sx, k = [], 0
    while k + nperseg <= len(x):
        a, b = (scipy.signal.detrend(v[k : k + nperseg], type=detrend) for v in (x, y))
        sx.append((np.fft.rfft(a * taper), np.fft.rfft(b * taper)))
        k += nperseg - noverlap
    X, Y = (np.array([s[i] for s in sx]) for i in (0, 1))
    return np.fft.rfftfreq(nperseg), np.abs((X.conj() * Y).mean(0)) ** 2 / ((np.abs(X) ** 2).mean(0) * (np.abs(Y) ** 2).mean(0)), len(sx)


def same(got, want, d, what):
    """the bin of frequency zero (and what is left there by a detrended segment) is rounding"""
    k = 1 if d else 0
    check_eq(np.shape(got), np.shape(want), f"shape of {what}")
    check(bool(np.allclose(np.asarray(got)[..., k:], np.asarray(want)[..., k:], rtol=1e-5, atol=1e-7)), f"{what}: got {np.asarray(got).ravel()[:6]}, expected {np.asarray(want).ravel()[:6]}")


def make(cls, w, detrend, **kw):
    return cls(channel_1="ex", channel_2="hy", detrend=detrend, window=Window(type=w["type"], num_samples=w["num_samples"], overlap=w["overlap"], additional_args=dict(w["args"])), **kw)


@C.given(window, st.sampled_from(["linear", "constant"]), noise, st.booleans(), quick=120, thorough=5000)
def coherence(ctx, w, detrend, d, later):
    """the coherence of two series is |<X Y*>|^2 / (<|X|^2> <|Y|^2>) over the segments of the window, detrended and tapered by it, whatever the window, its arguments and its overlap, and whether they were given at once or set later"""
    x, y = series(d)
    if later:
        c = Coherence()
        c.window.type, c.window.num_samples, c.window.overlap = w["type"], w["num_samples"], w["overlap"]
        c.window.additional_args = dict(w["args"])
        c.detrend = detrend
        check_eq((Coherence().window.num_samples, Coherence().window.overlap, str(getattr(Coherence().window.type, "value", Coherence().window.type))), (256, 128, "hamming"), "window of another feature")
    else:
        c = make(Coherence, w, detrend)
        check_eq(c.channel_pair_str, "ex, hy", "pair")
    a, b = x.copy(), y.copy()
    f, coh = c.compute(x, y)
    check(bool(np.array_equal(a, x) and np.array_equal(b, y)), "series are left as they are")
    wf, want, k = welch(x, y, spec(w), w["num_samples"], w["overlap"], detrend)
    check(bool(np.allclose(f, wf)), "frequencies")
    same(coh, want, True, "coherence")
    check(bool(np.allclose(c.compute(y, x)[1][1:], coh[1:])), "coherence of the series the other way round")
    if k < 2:
        ctx.trivial()


@C.given(window, st.integers(2, 5), st.integers(0, 40), st.sampled_from(["linear", "constant"]), noise, st.sampled_from(["own", 0.2, 0.25, 0.5]), st.lists(st.integers(0, 63), max_size=3), quick=80, thorough=3000)
def striding(ctx, w, times, overlap, detrend, d, how, gaps):
    """coherence by windows has a row for each window that fits, of the main length and advance, the coherence of that part of the series with the inner window (its own, or a fraction of the main one with half overlap); gaps count as zero"""
    length = w["num_samples"] * times
    assume(length <= d["n"] and overlap < length)
    c = make(StridingWindowCoherence, {**w, "num_samples": length, "overlap": overlap}, detrend)
    if how == "own":
        c.subwindow = Window(type=w["type"], num_samples=w["num_samples"], overlap=w["overlap"], additional_args=dict(w["args"]))
        nper, nov = w["num_samples"], w["overlap"]
    else:
        c.set_subwindow_from_window(how)
        nper = int(length * how)
        nov = nper // 2
        assume(nper >= 4)
        check_eq((c.subwindow.num_samples, c.subwindow.overlap, dict(c.subwindow.additional_args), str(getattr(c.subwindow.type, "value", c.subwindow.type))), (nper, nov, dict(w["args"]), w["type"]), "inner window")
    x, y = series(d)
    x0 = x.copy()
    x[gaps] = np.nan
    x0[gaps] = 0
    f, coh = c.compute(x, y)
    check_eq(int(np.isnan(x).sum()), len(set(gaps)), "gaps of the series")
    starts = list(range(0, d["n"] - length + 1, length - overlap))
    rows = [welch(x0[s : s + length], y[s : s + length], spec(w), nper, nov, detrend) for s in starts]
    check_eq(np.shape(coh), (len(starts), len(rows[0][0])), "windows and frequencies")
    check(bool(np.allclose(f, rows[0][0])), "frequencies")
    same(coh, [r[1] for r in rows], True, "coherence")
    if len(starts) < 2:
        ctx.trivial()


@C.given(st.integers(0, 10**6), st.sampled_from(["hann", "kaiser"]), st.sampled_from(["linear", "constant"]), quick=3, thorough=60)
def parallel(ctx, seed, t, detrend):
    """computed in parallel the coherence by windows is the same"""
    x, y = series(dict(seed=seed, n=300, mix=1.0, trend=0.01, offset=1.0))
    c = make(StridingWindowCoherence, dict(type=t, args=ARGS.get(t, {}), num_samples=100, overlap=30), detrend)
    c.set_subwindow_from_window(0.25)
    a, b = c.compute(x, y), c.compute(x, y, parallel=True)
    check(bool(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])), "in parallel")


@C.given(st.integers(0, 10**6), st.integers(1, 12), st.integers(1, 6), st.lists(st.integers(0, 5), max_size=2), st.sampled_from([1.0, 1e-6, 1e8]), quick=80, thorough=4000)
def coefficients(ctx, seed, nw, nf, dead, scale):
    """the coherence of Fourier coefficients is |<X Y*>|^2 / (<|X|^2> <|Y|^2>) over the windows, zero where a channel has no power, between 0 and 1, one for multiples of each other"""
    r = np.random.default_rng(seed)
    X, Y = (r.normal(size=(nw, nf)) + 1j * r.normal(size=(nw, nf)) for _ in (0, 1))
    X = X * scale
    off = [k for k in dead if k < nf]
    X[:, off] = 0
    c = FCCoherence(channel_1="ex", channel_2="hy")
    f, got = c.compute(X, Y)
    want = np.array([0.0 if k in off else abs(sum(X[:, k] * Y[:, k].conj())) ** 2 / (sum(abs(X[:, k]) ** 2) * sum(abs(Y[:, k]) ** 2)) for k in range(nf)])
    check_eq(f, None, "frequencies")
    check(got.shape == (nf,) and bool(np.allclose(got, want, rtol=1e-9, atol=0)), f"coherence {got}, expected {want}")
    check(bool(np.all(got <= 1 + 1e-9)), "at most one")
    same_ = c.compute(X, X * (2 - 3j))[1]
    check(bool(np.allclose(same_, [0.0 if k in off else 1.0 for k in range(nf)])), f"of multiples {same_}")
    check_eq(c.channel_pair_str, "ex, hy", "pair")
    if nw < 2:
        ctx.trivial()


sid = st.sampled_from([None, "", "a", "b", "x"])
chan = st.sampled_from(["ex", "hy", "rx", "ry", "RX", "bx", "rhx"])


@C.given(chan, chan, sid, sid, st.sampled_from(["a", "x"]), st.sampled_from([None, "b"]), st.sampled_from([Coherence, StridingWindowCoherence]), quick=150, thorough=3000)
def stations(ctx, c1, c2, s1, s2, local, remote, cls):
    """a channel whose station takes no part (or is not known) is taken from the local station, or from the remote one when it is a remote channel (r...); others keep their station"""
    c = cls(channel_1=c1, channel_2=c2, station_1=s1, station_2=s2)
    c.validate_station_ids(local, remote) if remote else c.validate_station_ids(local)
    active = {local, remote} - {None}
    want = [s if s in active else (remote if ch.lower().startswith("r") else local) for ch, s in ((c1, s1), (c2, s2))]
    check_eq((c.station_1, c.station_2), tuple(want), f"stations of {c1} of {s1!r} and {c2} of {s2!r} for {local} and {remote}")
    if s1 == s2 == local:
        ctx.trivial()
