"""C20: merging transfer functions."""
import numpy as np
from hypothesis import strategies as st

from mt_metadata.transfer_functions.core import TF

from vp.core import Check, check, check_eq, raises

C = Check("C20", rule="non-trivial: at least two transfer functions contribute periods")

ARRAYS = ["transfer_function", "transfer_function_error", "transfer_function_model_error", "inverse_signal_power", "residual_covariance"]


@st.composite
def pieces(draw):
    """neighbouring ranges of periods, each in some order, with bounds"""
    n = draw(st.integers(2, 4))
    sizes = [draw(st.integers(1, 4)) for _ in range(n)]
    exps = sorted(draw(st.lists(st.integers(-400, 500), min_size=sum(sizes), max_size=sum(sizes), unique=True)))
    ps = [float(f"{10 ** (e / 100):.6g}") for e in exps]
    out = []
    k = 0
    for s in sizes:
        mine = ps[k : k + s]
        k += s
        order = draw(st.sampled_from(["up", "up", "down", "mixed"]))
        mine = mine if order == "up" else mine[::-1] if order == "down" else draw(st.permutations(mine))
        # bounds between, on or outside of the periods
        lo = draw(st.sampled_from([None, None, min(mine), min(mine) * 0.9, sorted(mine)[len(mine) // 2]]))
        hi = draw(st.sampled_from([None, None, max(mine), max(mine) * 1.1, sorted(mine)[len(mine) // 2]]))
        out.append(dict(period=list(mine), lo=lo, hi=hi))
    return draw(st.permutations(out))


def make(piece, seed, impedance_only):
    n = len(piece["period"])
    r = np.random.default_rng(seed)
    t = TF(period=np.array(piece["period"]))
    out = 2 if impedance_only else 3
    v = np.zeros((n, 3, 2), dtype=complex)
    v[:, :out] = r.normal(size=(n, out, 2)) + 1j * r.normal(size=(n, out, 2))
    t.transfer_function = v
    t.inverse_signal_power = r.normal(size=(n, 2, 2)) + 0j
    t.residual_covariance = r.normal(size=(n, 3, 3)) + 0j
    t.transfer_function_error = abs(r.normal(size=(n, 3, 2)))
    t.transfer_function_model_error = abs(r.normal(size=(n, 3, 2)))
    t.station, t.survey, t.latitude = f"mt{seed % 100:02}", "sv", float(seed % 90)
    return t


def rows(t):
    data = {k: getattr(t, k).data for k in ARRAYS}
    return {float(p): {k: data[k][i].tobytes() for k in ARRAYS} for i, p in enumerate(t.period)}


def inside(p, lo, hi):
    return (lo is None or p >= lo) and (hi is None or p <= hi)


@C.given(pieces(), st.lists(st.booleans(), min_size=4, max_size=4), st.booleans(), st.booleans(), st.integers(0, 2**31), st.booleans(), quick=120, thorough=5000)
def merging(ctx, parts, as_dict, inplace, single, seed, impedance_only):
    """the merged transfer function has exactly the periods of all parts within their bounds (inclusive), in order, each with the values and errors of its part, and the metadata of the first; the parts keep theirs"""
    if single:
        parts = parts[:2]
    tfs = [make(p, seed + i, impedance_only) for i, p in enumerate(parts)]
    before = [rows(t) for t in tfs]
    order = [list(t.period) for t in tfs]
    names = [t.station for t in tfs]
    want = {p: r for p, r in before[0].items() if inside(p, parts[0]["lo"], parts[0]["hi"])}
    others = []
    for part, t, b, d in zip(parts[1:], tfs[1:], before[1:], as_dict):
        if d:
            others.append({"tf": t, "period_min": part["lo"], "period_max": part["hi"]})
            want |= {p: r for p, r in b.items() if inside(p, part["lo"], part["hi"])}
        else:
            others.append(t)
            want |= b
    arg = others[0] if single else others
    got = tfs[0].merge(arg, period_min=parts[0]["lo"], period_max=parts[0]["hi"], inplace=inplace)
    if inplace:
        check(got is None, f"merging in place returned {got!r}")
        got = tfs[0]
    else:
        check(got is not tfs[0], "merging returned the transfer function itself")
        check(rows(tfs[0]) == before[0] and list(tfs[0].period) == order[0], "merging changed the first transfer function")
    check_eq(list(got.period), sorted(want), "periods")
    have = rows(got)
    for p in want:
        for k in ARRAYS:
            check(have[p][k] == want[p][k], f"{k} at {p} s is not that of its part")
    check_eq((got.station, got.survey), (names[0], "sv"), "metadata")
    for t, b, n, o in zip(tfs[1:], before[1:], names[1:], order[1:]):
        check(rows(t) == b and t.station == n and list(t.period) == o, "merging changed another transfer function")
    if sum(any(p in want for p in b) for b in before) < 2:
        ctx.trivial()
    ctx.tag("inplace" if inplace else "new", "bounds" if any(p["lo"] or p["hi"] for p in parts) else "no bounds")


@C.given(st.sampled_from([5, "a", None, {"tf": None}, {"tf": None, "period_min": 1}, {"period_min": 1, "period_max": 2}, {"tf": 0, "min": 1, "max": 2}, [1.0]]), st.booleans(), quick=30, thorough=200)
def refused(ctx, bad, inplace):
    """other types and dictionaries with other keys are refused and change nothing"""
    t = make(dict(period=[1.0, 2.0]), 1, False)
    b = rows(t)
    raises((TypeError, KeyError), lambda: t.merge(bad, inplace=inplace), f"{bad!r}")
    check(rows(t) == b, "changed by a refused merge")
