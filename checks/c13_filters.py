"""C13: complex response of single filters."""
import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from mt_metadata.timeseries.filters import (
    CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter,
)

from vp.core import Check, check, check_eq

C = Check("C13", rule="non-trivial: the filter is not the identity and at least two frequencies were evaluated")

freqs = st.lists(st.one_of(st.floats(-4, 4).map(lambda e: 10.0**e), st.sampled_from([0.1, 1.0, 10.0, 0.5])), min_size=1, max_size=8, unique=True).map(lambda f: np.array(sorted(f)))
real = st.one_of(st.floats(-50, 50), st.sampled_from([0.0, 1.0, -1.0, 6.283185])).map(lambda v: 0.0 if abs(v) < 1e-6 else v)
roots = st.lists(st.tuples(real, real, st.booleans()), max_size=3)
gain = st.one_of(st.floats(1e-6, 1e6), st.floats(-1e3, -1e-3), st.sampled_from([1.0, 2.0, 0.5]))


def expand(rs):
    """real roots and conjugate pairs"""
    out = []
    for a, b, real_only in rs:
        out += [complex(a, 0)] if real_only or b == 0 else [complex(a, b), complex(a, -b)]
    return out


def close(got, want, scale=None, rel=1e-9, what=""):
    got = np.asarray(got)
    want = np.asarray(want)
    check_eq(got.shape, want.shape, f"{what}: shape")
    scale = np.abs(want) if scale is None else scale
    bad = np.abs(got - want) > rel * scale + 1e-300
    check(not bad.any(), f"{what}: got {got!r}, expected {want!r}")


@C.given(roots, roots, gain, gain, freqs, st.sampled_from(["array", "list", "text"]), quick=600, thorough=20000)
def poles_and_zeros(ctx, zeros, poles, g, norm, f, given_as):
    """the response is gain * factor * prod(s - zeros) / prod(s - poles) at s = 2 pi i f, conjugate at -f"""
    z, p = expand(zeros), expand(poles)
    s = 2j * np.pi * f
    assume(all(np.abs(s - x).min() > 1e-6 for x in p))
    if given_as == "array":
        flt = PoleZeroFilter(name="f", zeros=np.array(z, complex), poles=np.array(p, complex), gain=g, normalization_factor=norm)
    elif given_as == "list":
        flt = PoleZeroFilter(name="f", gain=g, normalization_factor=norm)
        flt.zeros, flt.poles = z, p
    else:
        flt = PoleZeroFilter(name="f", gain=g, normalization_factor=norm)
        if z:
            flt.zeros = (", " if len(z) % 2 else " ").join(str(x) for x in z)
        if p:
            flt.poles = [str(x) for x in p]
    check_eq((flt.n_zeros, flt.n_poles), (len(z), len(p)), "number of zeros and poles")
    num = np.ones(len(f), complex)
    scale = np.full(len(f), abs(g * norm))
    for x in z:
        num = num * (s - x)
        scale = scale * (np.abs(s) + abs(x))
    for x in p:
        num = num / (s - x)
        scale = scale / np.abs(s - x)
    want = g * norm * num
    close(flt.complex_response(f), want, scale, what="response")
    close(flt.complex_response(-f), np.conj(want), scale, what="response at -f")
    check(abs(flt.total_gain - g * norm) <= 1e-12 * abs(g * norm), "total gain")
    r = flt.zero_pole_gain_representation()
    check_eq((sorted(map(str, r.zeros)), sorted(map(str, r.poles))), (sorted(map(str, np.array(z, complex))), sorted(map(str, np.array(p, complex)))), "zero pole gain representation")
    check_eq(r.gain, norm, "gain of the zero pole gain representation")
    check(not flt.decimation_active, "decimation")
    if not (z or p) or len(f) < 2:
        ctx.trivial()


@C.given(gain, freqs, st.floats(-1e3, 1e3), quick=300, thorough=8000)
def gain_and_delay(ctx, g, f, delay):
    """a coefficient filter is its gain at every frequency, a time delay is exp(-2 pi i f delay)"""
    c = CoefficientFilter(name="f", gain=g)
    close(c.complex_response(f), np.full(len(f), g, complex), what="coefficient")
    check_eq(complex(c.complex_response(float(f[0]))[0]), complex(g), "coefficient at one frequency")
    check_eq(c.total_gain, g, "total gain")
    d = TimeDelayFilter(name="f", delay=delay)
    # the phase is large: compare with its own accuracy
    acc = 1e-14 * np.abs(2 * np.pi * f * delay) + 1e-12
    close(d.complex_response(f), np.exp(-2j * np.pi * f * delay), np.ones(len(f)), rel=acc, what="delay")
    close(d.complex_response(float(f[0])), np.exp(-2j * np.pi * f[:1] * delay), np.ones(1), rel=acc[:1], what="delay at one frequency")
    close(np.abs(d.complex_response(f)), np.ones(len(f)), what="modulus of the delay")
    check(not c.decimation_active and not d.decimation_active, "decimation")
    if g == 1 or delay == 0 or len(f) < 2:
        ctx.trivial()


taps = st.lists(st.floats(-1, 1).map(lambda v: round(v, 4)), min_size=1, max_size=6)


@C.given(taps, st.sampled_from(["NONE", "EVEN"]), gain, st.floats(0.01, 0.49), st.booleans(), st.sampled_from([1.0, 100.0, 0.25, 4096.0]), st.sampled_from([1.0, 2.0, 10.0]), st.lists(st.floats(0.0, 0.5), min_size=1, max_size=6, unique=True), quick=500, thorough=15000)
def fir(ctx, h, symmetry, g, at, dc, rate, decimation, rel_f):
    """the response is the transform of the (unfolded) taps at the input rate, scaled so that its size at the gain frequency is the gain"""
    full = h if symmetry == "NONE" else h + h[::-1]
    gf = 0.0 if dc else at * rate
    f = np.array(rel_f) * rate

    def raw(x):
        return np.array([sum(c * np.exp(-2j * np.pi * v * k / rate) for k, c in enumerate(full)) for v in np.atleast_1d(x)])

    ref = sum(full) if dc else abs(raw(gf)[0])
    assume(abs(ref) > 1e-3)
    flt = FIRFilter(name="f", coefficients=h, symmetry=symmetry, gain=g, gain_frequency=gf, decimation_factor=decimation, decimation_input_sample_rate=rate)
    close(np.asarray(flt.symmetry_corrected_coefficients, float), np.array(full, float), what="unfolded taps")
    close(np.atleast_1d(flt.coefficient_gain), np.array([ref]), rel=1e-8, what="gain of the taps")
    scale = np.full(len(f), abs(g / ref) * sum(map(abs, full)))
    close(flt.complex_response(f), raw(f) * g / ref, scale, rel=1e-8, what="response")
    close(flt.unscaled_complex_response(f), raw(f), scale * abs(ref / g), rel=1e-8, what="unscaled response")
    close(np.abs(flt.complex_response(np.array([gf]))), np.array([abs(g)]), rel=1e-8, what="size at the gain frequency")
    check_eq(flt.n_coefficients, len(h), "number of taps")
    check(abs(flt.output_sampling_rate - rate / decimation) < 1e-9 * rate, "output rate")
    check_eq(flt.decimation_active, decimation != 1.0, "decimation_active")
    if len(h) < 2 or len(f) < 2:
        ctx.trivial()
    ctx.tag(symmetry)


table = st.lists(st.tuples(st.floats(-3, 3).map(lambda e: round(10.0**e, 6)), st.floats(1e-3, 1e3), st.floats(-3.1, 3.1)), min_size=2, max_size=7, unique_by=lambda t: t[0])


@C.given(table, gain, st.lists(st.floats(0, 1), min_size=1, max_size=5), st.sampled_from(["up", "down", "as is"]), st.sampled_from(["rad", "deg", "mrad"]), quick=500, thorough=15000)
def response_table(ctx, rows, g, inside, order, unit):
    """a table gives its own values at its frequencies and linear interpolation of amplitude and phase in between, whatever the order of the rows; phases in degrees or milliradians are converted"""
    if order != "as is":
        rows = sorted(rows, reverse=order == "down")
    f, a, p = [np.array(x) for x in zip(*rows)]
    given = p
    if unit == "deg":
        given = np.rad2deg(p)
        assume(np.abs(given).max() > 6 * np.pi + 1e-6)
    elif unit == "mrad":
        given = p * 1000
        assume(given.max() > 500 * np.pi + 1e-6)
    t = FrequencyResponseTableFilter(name="t", frequencies=f, amplitudes=a, phases=given, gain=g)
    close(t.phases, p, np.ones(len(p)), rel=1e-12, what="phases")
    close(t.complex_response(f), g * a * np.exp(1j * p), what="response at the table frequencies")
    i = np.argsort(f)
    x = np.array(inside) * (f.max() - f.min()) + f.min()
    x = np.clip(x, f.min(), f.max())
    amp, ph = np.interp(x, f[i], a[i]), np.interp(x, f[i], p[i])
    close(t.complex_response(x), g * amp * np.exp(1j * ph), np.full(len(x), abs(g) * a.max()), rel=1e-8, what="response between")
    check_eq((t.min_frequency, t.max_frequency), (float(f.min()), float(f.max())), "frequency range")
    if len(set(a)) < 2:
        ctx.trivial()
    ctx.tag(order, unit)


@C.given(st.floats(-3, 2), st.floats(0.1, 4), st.one_of(st.integers(2, 60), st.integers(900, 5000)), st.sampled_from(["low", "high", "flat", "delay", "flat table", "table"]), st.floats(-2, 2), gain, st.integers(2, 7), quick=300, thorough=8000)
def pass_band(ctx, lo, width, n, kind, corner, g, window):
    """the pass band lies inside the frequencies asked for, a filter without corner passes all of them, and the normalization frequency is its mean, median, least or greatest"""
    f = np.logspace(lo, lo + width, n)
    w = 2 * np.pi * 10.0**corner
    if kind == "low":
        flt = PoleZeroFilter(name="f", poles=[-w], normalization_factor=w, gain=g)
    elif kind == "high":
        flt = PoleZeroFilter(name="f", poles=[-w], zeros=[0], gain=g)
    elif kind == "flat":
        flt = CoefficientFilter(name="f", gain=g)
    elif kind == "delay":
        flt = TimeDelayFilter(name="f", delay=corner)
    elif kind == "flat table":
        flt = FrequencyResponseTableFilter(name="f", frequencies=[1e-9, 1.0, 1e9], amplitudes=[3.0, 3.0, 3.0], phases=[0.1, 0.2, 0.3], gain=g)
    else:
        flt = FrequencyResponseTableFilter(name="f", frequencies=[1e-9, 1e-3, 1.0, 1e9], amplitudes=[1, 2, 3, 4], phases=[0, 0, 0, 0], gain=g)
    b = flt.pass_band(f, window)
    check(b is not None and b.shape == (2,), f"pass band {b!r}")
    check(f.min() <= b[0] <= b[1] <= f.max(), f"pass band {b!r} is outside {f.min()}..{f.max()}")
    check(set(b.tolist()) <= set(f.tolist()), "the limits are frequencies that were asked for")
    if "flat" in kind or kind == "delay":
        check(b[0] == f.min() and b[1] == f.max(), f"pass band {b!r} of a flat filter over {f.min()}..{f.max()}")
    if hasattr(flt, "normalization_frequency"):
        bb = flt.pass_band(f, window, 1e-4)
        for e, want in (("mean", bb.mean()), ("median", np.median(bb)), ("min", bb.min()), ("max", bb.max())):
            check_eq(float(flt.normalization_frequency(f, e, window, 1e-4)), float(want), f"normalization frequency ({e})")
        check(np.isnan(flt.normalization_frequency(np.array([]))), "no frequencies: nan")
    check(flt.pass_band(np.array([])) is None, "no frequencies: no pass band")
    if n < 10:
        ctx.trivial()
    ctx.tag(kind)


@C.given(st.sampled_from([0.1, 1.0, 8.0, 150.0]), st.integers(1, 33), quick=60, thorough=500)
def frequency_axis(ctx, rate, n):
    """the generated frequency axis is the sorted set of Fourier frequencies of n samples at the rate"""
    f = CoefficientFilter(name="f").generate_frequency_axis(rate, n)
    want = np.array([k * rate / n for k in range(-(n // 2), n - n // 2)])
    close(f, want, np.full(n, rate), what="axis")


@C.known_finding("fir-odd")
def fir_odd():
    f = FIRFilter(name="f", coefficients=[0.25, 0.5, 0.3], symmetry="ODD")
    got = np.asarray(f.symmetry_corrected_coefficients).tolist()
    if got != [0.25, 0.5, 0.3, 0.5, 0.25]:
        return f"FIR filter with symmetry ODD: taps [0.25, 0.5, 0.3] unfold to {got} (pinned by the existing tests)"
