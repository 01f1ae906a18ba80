"""C23: transfer functions from EDI spectra."""
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF
from mt_metadata.transfer_functions.io.edi import EDI

from vp.core import Check, check, check_eq
from vp.tfgen import seeds

C = Check("C23", rule="non-trivial: a remote reference or a vertical channel, or at least two frequencies")

# number of channels -> order of the channels in the matrices
CHANNELS = {
    4: ["hx", "hy", "ex", "ey"],
    5: ["hx", "hy", "hz", "ex", "ey"],
    6: ["hx", "hy", "ex", "ey", "rhx", "rhy"],
    7: ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"],
}
freqs = st.lists(st.integers(-400, 400), min_size=1, max_size=5, unique=True).map(lambda l: [float(f"{10 ** (e / 100):.6e}") for e in sorted(l, reverse=True)])


def recorded(nchan, seed, k):
    """Fourier coefficients of all channels at one frequency: coupled fields with noise"""
    r = np.random.default_rng([seed, k])
    n = int(r.integers(12, 40))
    g = lambda *s: r.normal(size=s) + 1j * r.normal(size=s)
    rem = g(2, n)
    h = rem + 0.2 * g(2, n)
    a = dict(hx=h[0], hy=h[1], rhx=rem[0], rhy=rem[1])
    z = g(3, 2)
    noise = 10.0 ** r.integers(-2, 1)
    for i, c in enumerate(["ex", "ey", "hz"]):
        a[c] = z[i] @ h + noise * g(n)
    return {c: a[c] * 10.0 ** r.integers(-1, 2) for c in CHANNELS[nchan]}, float(n)


def spectra(data, names):
    """real parts below the diagonal, imaginary parts above it, powers on it"""
    m = np.zeros((len(names), len(names)))
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            s = np.mean(data[a] * np.conj(data[b]))
            if i == j:
                m[i, i] = s.real
            elif i > j:
                m[i, j] = s.real
                m[j, i] = s.imag
    return m


def estimate(data, names, avgt):
    """remote reference (or least squares) estimate with its error, inverse signal power and residual covariance, from the coefficients themselves"""
    n = len(data["hx"])
    h = np.array([data["hx"], data["hy"]])
    ref = np.array([data["rhx"], data["rhy"]]) if "rhx" in names else h
    out = [c for c in ("ex", "ey", "hz") if c in names]
    e = np.array([data[c] for c in out])
    ref_h = np.linalg.inv(ref @ h.conj().T / n)
    tf = (e @ ref.conj().T / n) @ np.linalg.inv(h @ ref.conj().T / n)
    res = e - tf @ h
    cov = res @ res.conj().T / n / avgt
    isp = ref_h @ (ref @ ref.conj().T / n) @ ref_h.conj().T
    err = np.sqrt(np.abs(np.outer(np.diag(cov), np.diag(isp))))
    return out, tf, err, isp, cov


def write(fn, nchan, freq, mats, avgts, style, seed):
    r = np.random.default_rng(seed)
    names = CHANNELS[nchan]
    nl = "\n"
    x = [">HEAD", "  DATAID=sp01", "  LAT=40:30:00.0", "  LONG=-110:15:00.0", "  ELEV=12.0", "  STDVERS=SEG 1.0", "  EMPTY=1.0E32", "", ">INFO", "  none", ""]
    x += [">=DEFINEMEAS", "  MAXCHAN=7", "  UNITS=M", "  REFLAT=40:30:00.0", "  REFLONG=-110:15:00.0"]
    ids = {}
    for i, c in enumerate(names):
        ids[c] = f"{i + 1}.001"
        k = c.upper()[-2:]
        if c[0] in "hr":
            x.append(f">HMEAS ID={ids[c]} CHTYPE={k} X={10.0 * (c[0] == 'r'):.2f} Y=0.00 AZM={90 if k[1] == 'Y' else 0:.2f}")
        else:
            x.append(f">EMEAS ID={ids[c]} CHTYPE={k} X=-50.00 Y=0.00 X2=50.00 Y2=0.00")
    x += ["", ">=SPECTRASECT", "  SECTID=sp01", f"  NCHAN={nchan}", f"  NFREQ={len(freq)}", f"  MAXBLKS=7", f"  // {nchan}"]
    x += ["  " + " ".join(ids[c] for c in names), ""]
    order = list(range(len(freq)))
    if style["order"] == "up":
        order = order[::-1]
    elif style["order"] == "mixed":
        order = r.permutation(order).tolist()
    eq = style["eq"]
    for k in order:
        size = f"// {nchan * nchan}" if style["size"] else ""
        x.append(f">SPECTRA  FREQ{eq}{freq[k]:.6E}  ROTSPEC{eq}0  BW{eq}{freq[k] * 0.3:.4E}  AVGT{eq}{avgts[k]:.4E} {size}".rstrip())
        words = [f"{v:.{style['digits']}E}" for v in mats[k].ravel()]
        n = style["per_line"] or nchan
        x += ["  " + "  ".join(words[i : i + n]) for i in range(0, len(words), n)]
    x.append(">END")
    fn.write_text(nl.join(x) + nl)


def near(got, want, tol, what):
    """within tol of the size of the whole array (one frequency)"""
    got = np.asarray(got)
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    size = np.max(np.abs(want)) or 1.0
    check(bool(np.all(np.abs(got - want) <= tol * size)), f"{what}: {got.tolist()}, expected {want.tolist()}")


style = st.fixed_dictionaries({"order": st.sampled_from(["down", "up", "mixed"]), "eq": st.sampled_from(["=", "= "]), "size": st.booleans(), "digits": st.integers(8, 12), "per_line": st.sampled_from([0, 0, 3, 5])})


@C.given(st.sampled_from([4, 5, 6, 7]), freqs, seeds, style, quick=120, thorough=6000)
def estimates(ctx, nchan, freq, seed, s):
    """the impedance, tipper and errors of a spectra file are those of the (remote reference) least squares estimate, for files of 4 to 7 channels, frequencies in any order, from high to low; with a vertical channel, the inverse signal power, the residual covariance and the whole transfer function too, also when read as a TF"""
    names = CHANNELS[nchan]
    mats, avgts, want = [], [], []
    for k in range(len(freq)):
        data, avgt = recorded(nchan, seed, k)
        mats.append(spectra(data, names))
        avgts.append(avgt)
        want.append(estimate(data, names, avgt))
    tol = 1e-4
    with tempfile.TemporaryDirectory() as d:
        fn = pathlib.Path(d) / "a.edi"
        write(fn, nchan, freq, mats, avgts, s, seed)
        e = EDI(fn=fn)
        tf = TF()
        tf.read(fn)
    check_eq(e.frequency.shape, (len(freq),), "number of frequencies")
    check(np.allclose(e.frequency, freq, rtol=1e-6), f"frequencies {e.frequency}, expected {freq}")
    check(np.allclose(np.sort(tf.period), 1 / np.array(freq), rtol=1e-6), f"periods {tf.period}")
    at = {i: int(np.argmin(abs(tf.period * f - 1))) for i, f in enumerate(freq)}
    check(bool(tf.has_impedance()), "no impedance")
    check_eq(bool(tf.has_tipper()), "hz" in names, "has tipper")
    for k, (out, z, err, isp, cov) in enumerate(want):
        w = f"{nchan} channels, frequency {k}"
        near(e.z[k], z[:2], tol, f"{w}: z")
        near(tf.impedance.data[at[k]], z[:2], tol, f"{w}: impedance")
        near(e.z_err[k], err[:2], 1e-3, f"{w}: z_err")
        near(tf.impedance_error.data[at[k]], err[:2], 1e-3, f"{w}: impedance error")
        if "hz" in names:
            near(e.t[k], z[2:], tol, f"{w}: t")
            near(e.t_err[k], err[2:], 1e-3, f"{w}: t_err")
            near(tf.tipper.data[at[k]], z[2:], tol, f"{w}: tipper")
            near(tf.tipper_error.data[at[k]], err[2:], 1e-3, f"{w}: tipper error")
            near(tf.inverse_signal_power.data[at[k]], isp, tol, f"{w}: inverse signal power")
            near(tf.residual_covariance.data[at[k]], cov, 1e-3, f"{w}: residual covariance")
        near(e.signal_inverse_power[k], isp, tol, f"{w}: signal_inverse_power")
        near(e.residual_covariance[k], cov, 1e-3, f"{w}: residual_covariance")
    if nchan == 4 and len(freq) < 2:
        ctx.trivial()
    ctx.tag(f"{nchan} channels", s["order"])
