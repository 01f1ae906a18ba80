"""Random transfer functions, shared by the checks of the file formats."""
import numpy as np
from hypothesis import strategies as st

from vp.core import check

seeds = st.integers(0, 2**32 - 1)


def random_tf(n, seed, kind="both", nan=True):
    """impedance, its error, tipper, its error (None for what kind leaves out):
    values over several decades, of either sign, some of them zero or missing"""
    r = np.random.default_rng(seed)
    scale = 10.0 ** r.integers(-4, 6)
    z = t = ze = te = None
    if kind in ("both", "z"):
        z = scale * 10 ** r.uniform(-3, 0, (n, 2, 2)) * np.exp(1j * r.uniform(-np.pi, np.pi, (n, 2, 2)))
        ze = scale * 10 ** r.uniform(-4, -1, (n, 2, 2))
    if kind in ("both", "t"):
        t = 10 ** r.uniform(-3, 0.3, (n, 1, 2)) * np.exp(1j * r.uniform(-np.pi, np.pi, (n, 1, 2)))
        te = 10 ** r.uniform(-4, -0.5, (n, 1, 2))
    if seed % 4 == 0:
        k = int(r.integers(n))
        what = [0.0, np.nan][int(r.integers(2))] if nan else 0.0
        for a in (z, ze, t, te):
            if a is not None:
                a[k, int(r.integers(a.shape[1])), int(r.integers(2))] = what if a.dtype == float or what == 0 else complex(what, what)
    return z, ze, t, te


def close(got, want, rtol, what):
    """element by element, real and imaginary parts by themselves"""
    if want is None:
        check(got is None, f"{what}: {got!r}, expected None")
        return
    check(got is not None, f"{what}: None")
    got, want = np.asarray(got), np.asarray(want)
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    for part in ("real", "imag"):
        g, w = getattr(got, part), getattr(want, part)
        ok = np.abs(g - w) <= rtol * np.abs(w)
        check(bool(np.all(ok)), f"{what} ({part}): {got.tolist()}, expected {want.tolist()}"[:1500])
