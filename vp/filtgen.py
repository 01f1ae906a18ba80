"""Filters of every kind with parameters drawn at random."""
import numpy as np
from hypothesis import strategies as st

from mt_metadata.timeseries.filters import (
    CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter,
)

number = st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: 0.0 if abs(v) < 1e-9 else v)
positive = st.floats(1e-6, 1e6, allow_nan=False)
cplx = st.builds(complex, number, number)
KINDS = {
    PoleZeroFilter: st.fixed_dictionaries({"poles": st.lists(cplx, max_size=4), "zeros": st.lists(cplx, max_size=4), "normalization_factor": positive}),
    CoefficientFilter: st.just({}),
    TimeDelayFilter: st.fixed_dictionaries({"delay": number}),
    FIRFilter: st.fixed_dictionaries({"coefficients": st.lists(number, min_size=1, max_size=5), "decimation_factor": positive, "gain_frequency": positive}),
    FrequencyResponseTableFilter: st.integers(0, 5).flatmap(lambda n: st.fixed_dictionaries(
        {k: st.lists(positive, min_size=n, max_size=n) for k in ("frequencies", "amplitudes")} | {"phases": st.lists(st.floats(-3.1, 3.1), min_size=n, max_size=n)})),
}
COMMON = st.fixed_dictionaries({
    "comments": st.sampled_from(["a filter", "x <y> & z", "lab, 3:4"]),
    "units_in": st.sampled_from(["milliVolt", "digital counts", "nanoTesla"]),
    "units_out": st.sampled_from(["Volt", "digital counts", "milliVolt per kilometer"]),
    "gain": positive, "sequence_number": st.integers(0, 5),
})


def filters(kinds=tuple(KINDS)):
    """strategy of (class, {attribute: value})"""
    return st.sampled_from(list(kinds)).flatmap(lambda k: st.tuples(st.just(k), st.builds(lambda a, b: {**a, **b}, COMMON, KINDS[k])))


def make(spec, name="f0"):
    f = spec[0](name=name)
    for k, v in spec[1].items():
        setattr(f, k, np.array(v, dtype=complex if k in ("poles", "zeros") else float) if isinstance(v, list) else v)
    return f


def differs(f, spec, rtol=0.0):
    """text of the first parameter in which a filter is not that of the spec, or None"""
    for k, v in spec[1].items():
        got = getattr(f, k)
        if k == "comments":
            ok = (got.value if hasattr(got, "value") else got) == v
        elif isinstance(v, list):
            got = np.asarray(got)
            ok = got.shape == (len(v),) and np.allclose(got, np.array(v), rtol=rtol, atol=0)
        elif isinstance(v, str):
            ok = got == v
        else:
            ok = np.isclose(got, v, rtol=rtol, atol=0)
        if not ok:
            return f"{spec[0].__name__}.{k} was {v!r}, is {got!r}"
