"""C14: total response of a channel."""
import json

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from mt_metadata.common.units import get_unit_object
from mt_metadata.timeseries import AppliedFilter, Electric, Experiment, Survey
from mt_metadata.timeseries.filters import (
    ChannelResponse, CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter,
)

from vp.core import Check, check, check_eq, raises

C = Check("C14", rule="non-trivial: at least two filters of different kinds")

UNITS = [get_unit_object(u).name for u in ("nanotesla", "volt", "millivolt", "millivolt per kilometer", "digital counts")]
assert len(set(UNITS)) == 5
DIFFERENT = {u: [v for v in UNITS if v != u] for u in UNITS}

gain = st.one_of(st.floats(1e-4, 1e4), st.floats(-1e2, -1e-2), st.sampled_from([1.0, 2.0, 0.5]))
freqs = st.lists(st.floats(-2, 1).map(lambda e: 10.0**e), min_size=2, max_size=6, unique=True).map(lambda f: np.array(sorted(f)))
KINDS = ["zpk", "coefficient", "delay", "fir", "fir keeping the rate", "table"]
spec = st.tuples(st.sampled_from(KINDS), gain, st.floats(0.1, 30), st.floats(-2, 2).filter(lambda d: abs(d) > 1e-3))


def make(kind, g, w, d, name, uin, uout):
    kw = dict(name=name, gain=g, units_in=uin, units_out=uout)
    if kind == "zpk":
        return PoleZeroFilter(poles=[complex(-w, w), complex(-w, -w)], zeros=[0], normalization_factor=w, **kw)
    if kind == "coefficient":
        return CoefficientFilter(**kw)
    if kind == "delay":
        return TimeDelayFilter(delay=d, **kw)
    if kind.startswith("fir"):
        dec = 1.0 if "keeping" in kind else 2.0
        return FIRFilter(coefficients=[0.25, 0.5, 0.125], decimation_factor=dec, decimation_input_sample_rate=50.0, gain_frequency=0.0, **kw)
    return FrequencyResponseTableFilter(frequencies=[1e-3, 1.0, 100.0], amplitudes=[1.0, w, 2.0], phases=[0.1, 0.2, -0.3], **kw)


def one(kind, g, w, d, f):
    """reference response of one filter"""
    f = np.asarray(f, float)
    s = 2j * np.pi * f
    if kind == "zpk":
        return g * w * s / ((s - complex(-w, w)) * (s - complex(-w, -w)))
    if kind == "coefficient":
        return np.full(len(f), g, complex)
    if kind == "delay":
        return np.exp(-s * d)
    if kind.startswith("fir"):
        return g * sum(c * np.exp(-s * k / 50.0) for k, c in enumerate([0.25, 0.5, 0.125])) / 0.875
    return g * np.interp(f, [1e-3, 1, 100], [1, w, 2]) * np.exp(1j * np.interp(f, [1e-3, 1, 100], [0.1, 0.2, -0.3]))


def chain(specs, units):
    return [make(*s, name=f"f{i}", uin=units[i % len(units)], uout=units[(i + 1) % len(units)]) for i, s in enumerate(specs)]


def product(specs, f):
    out = np.ones(len(f), complex)
    for s in specs:
        out = out * one(*s, f)
    return out


def close(got, want, what, rel=1e-8):
    got, want = np.asarray(got), np.asarray(want)
    check_eq(got.shape, want.shape, f"{what}: shape")
    check(bool((np.abs(got - want) <= rel * np.abs(want)).all()), f"{what}: got {got!r}, expected {want!r}")


def kinds_trivial(ctx, specs):
    if len({s[0] for s in specs}) < 2:
        ctx.trivial()


unit_cycle = st.permutations(UNITS).flatmap(lambda u: st.integers(1, 5).map(lambda n: u[:n]))


@C.given(st.lists(spec, max_size=5), unit_cycle, freqs, st.booleans(), st.booleans(), st.booleans(), quick=500, thorough=15000)
def total(ctx, specs, units, f, dec, delay, normalize):
    """the total response is the product of those of the filters; delays and decimating filters only when asked for"""
    fl = chain(specs, units)
    cr = ChannelResponse(filters_list=fl, frequencies=f)
    check_eq(cr.names, [x.name for x in fl], "names")
    if specs:
        check_eq((cr.units_in, cr.units_out), (units[0], units[len(specs) % len(units)]), "units")
    used = [s for s in specs if (delay or s[0] != "delay") and (dec or s[0] != "fir")]
    want = product(used, f)
    if normalize and used:
        want = want / np.abs(want).max()
    got = cr.complex_response(f, include_decimation=dec, include_delay=delay, normalize=normalize)
    close(got, want, "response")
    if not dec and not delay:
        close(cr.complex_response(f, normalize=normalize), want, "response by default")
    close(cr.complex_response(f, include_decimation=dec, include_delay=delay, normalize=normalize), want, "response asked for a second time")
    close(cr.complex_response(include_decimation=dec, include_delay=delay, normalize=normalize), want, "response at the frequencies last used")
    check_eq(
        [x.name for x in cr.get_list_of_filters_to_remove(include_decimation=dec, include_delay=delay)],
        [f"f{i}" for i, s in enumerate(specs) if (delay or s[0] != "delay") and (dec or s[0] != "fir")],
        "filters to remove",
    )
    check_eq([x.name for x in cr.delay_filters], [f"f{i}" for i, s in enumerate(specs) if s[0] == "delay"], "delay filters")
    check_eq([x.name for x in cr.non_delay_filters], [f"f{i}" for i, s in enumerate(specs) if s[0] != "delay"], "other filters")
    check(abs(cr.total_delay - sum(s[3] for s in specs if s[0] == "delay")) < 1e-9, f"total delay {cr.total_delay}")
    kinds_trivial(ctx, specs)


@C.given(st.lists(spec, min_size=1, max_size=5), freqs, st.data(), quick=300, thorough=8000)
def given_list(ctx, specs, f, data):
    """a list of filters given is used as it is, in any order, delays and decimation included"""
    fl = chain(specs, ["volt"])
    cr = ChannelResponse(filters_list=fl)
    i = data.draw(st.lists(st.integers(0, len(fl) - 1), max_size=len(fl), unique=True))
    close(cr.complex_response(f, filters_list=[fl[k] for k in i]), product([specs[k] for k in i], f), "response of the filters given")
    order = data.draw(st.permutations(range(len(fl))))
    other = ChannelResponse(filters_list=[fl[k] for k in order])
    close(other.complex_response(f, include_delay=True, include_decimation=True), product(specs, f), "response in another order")
    kinds_trivial(ctx, specs)


@C.given(st.lists(spec, min_size=1, max_size=5), unit_cycle, st.floats(-1.5, 1).map(lambda e: 10.0**e), st.booleans(), quick=300, thorough=8000)
def sensitivity(ctx, specs, units, f0, as_argument):
    """the sensitivity is the size of the product of all filters at the normalization frequency, the total gain the product of the gains"""
    fl = chain(specs, units)
    want = abs(product(specs, np.array([f0]))[0])
    assume(want > 1e-12)
    if as_argument:
        cr = ChannelResponse(filters_list=fl)
        got = cr.compute_instrument_sensitivity(f0)
        check_eq(cr.normalization_frequency, f0, "normalization frequency")
    else:
        cr = ChannelResponse(filters_list=fl, normalization_frequency=f0)
        got = cr.compute_instrument_sensitivity()
    check(abs(got - want) <= 1e-6 * want, f"sensitivity {got}, expected {want} to seven digits")
    gains = np.prod([s[1] for s in specs])
    got = cr.compute_total_gain()
    check(abs(got - gains) <= 1e-12 * abs(gains), f"total gain {got}, expected {gains}")
    kinds_trivial(ctx, specs)


@C.given(st.lists(st.tuples(st.sampled_from(KINDS), st.one_of(gain, st.floats(-40, 40).map(lambda e: 10.0**e), st.floats(-20, 20).map(lambda e: -(10.0**e)))), min_size=1, max_size=4), quick=200, thorough=3000)
def total_gain(ctx, gains):
    """the total gain is the product of the gains to all its digits, however small or large"""
    fl = chain([(k, g, 1.0, 0.5) for k, g in gains], ["volt"])
    want = 1.0
    for _, g in gains:
        want *= g
    got = ChannelResponse(filters_list=fl).compute_total_gain()
    check(abs(got - want) <= 1e-12 * abs(want), f"total gain {got}, expected {want}")
    if 1e-8 < abs(want) < 1e8:
        ctx.trivial()


@C.given(st.lists(spec, min_size=2, max_size=5), st.permutations(UNITS), st.data(), quick=250, thorough=5000)
def units_chain(ctx, specs, units, data):
    """filters whose units do not follow on each other are refused, however the list is given"""
    fl = chain(specs, units)
    k = data.draw(st.integers(0, len(fl) - 1))
    side = "in" if k == len(fl) - 1 else ("out" if k == 0 else data.draw(st.sampled_from(["in", "out"])))
    bad = chain(specs, units)
    right = bad[k].units_in if side == "in" else bad[k].units_out
    setattr(bad[k], f"units_{side}", data.draw(st.sampled_from(DIFFERENT[right])))
    raises((ValueError,), lambda: ChannelResponse(filters_list=bad), f"units break at filter {k}")
    cr = ChannelResponse(filters_list=fl)

    def assign():
        cr.filters_list = bad

    raises((ValueError,), assign, "units break in an assigned list")
    check_eq(cr.names, [x.name for x in fl], "names after the refused list")
    # the ends are free
    fl[0].units_in = data.draw(st.sampled_from(UNITS))
    fl[-1].units_out = data.draw(st.sampled_from(UNITS))
    cr.filters_list = fl
    check_eq((cr.units_in, cr.units_out), (fl[0].units_in, fl[-1].units_out), "units follow the list")
    raises((TypeError, ValueError), lambda: ChannelResponse(filters_list=fl + ["f9"]), "a filter given by name")
    kinds_trivial(ctx, specs)


# names of filters, as people and instruments write them
NAMES = ["f0", "Butterworth LowPass", "V to Counts 24/7", "NIMS_E_5.0 (dipole)", "mfs06e-12", "ZEN_Gain"]


def as_dict(fl):
    return {x.name: x for x in fl}


def of_survey(fl, how):
    """the filters of a survey that was given them in one of the ways to do so"""
    if how == "list":
        return Survey(id="a", filters=fl).filters
    s = Survey(id="a")
    if how == "one by one":
        for x in fl:
            s.filters[x.name] = x
    elif how == "update":
        s.filters.update(as_dict(fl))
    elif how == "dictionaries":
        s.filters = [x.to_dict(single=True) for x in fl]
    elif how == "read from JSON":
        s.filters = fl
        a, b = Experiment(surveys=[s]), Experiment()
        b.from_dict(json.loads(a.to_json()))
        return b.surveys[0].filters
    elif how == "read from XML":
        s.filters = fl
        a, b = Experiment(surveys=[s]), Experiment()
        b.from_xml(element=a.to_xml())
        return b.surveys[0].filters
    else:
        s.filters = as_dict(fl)
    return s.filters


HOW = ["dictionary", "list", "one by one", "update", "by name", "dictionaries", "read from JSON", "read from XML"]


@C.given(st.lists(spec, min_size=1, max_size=5), st.lists(st.integers(0, 5), max_size=4, unique=True), freqs, st.permutations(NAMES), st.sampled_from(HOW), quick=250, thorough=6000)
def of_channel(ctx, specs, missing, f, names, how):
    """the response of a channel has the filters of its list in their order, however they are named and the survey was given them; those not in the dictionary are left out"""
    fl = chain(specs, ["volt"])
    ch = Electric(component="ex")
    for i, x in enumerate(fl):
        x.name = names[i]
        ch.add_filter(AppliedFilter(name=x.name, applied=bool(i % 2), stage=i + 1))
    known = [x for i, x in enumerate(fl) if i not in missing]
    fs = [CoefficientFilter(name="other", gain=7.0)] + known[::-1]
    cr = ch.channel_response(as_dict(fs) if how == "dictionary" else of_survey(fs, how))
    check_eq(cr.names, [x.name for x in known], "filters of the channel")
    close(cr.complex_response(f, include_delay=True, include_decimation=True), product([s for i, s in enumerate(specs) if i not in missing], f), "response")
    kinds_trivial(ctx, specs)
    ctx.tag(how)


@C.given(st.floats(-2, 2), st.floats(0.5, 3), gain, st.floats(-3, 3), st.floats(1.0, 8), quick=200, thorough=4000)
def pass_band(ctx, lo, width, g, f1, span):
    """the pass band is what the filters have in common, the normalization frequency its geometric mean unless given"""
    f = np.logspace(f1, f1 + span, 64)
    a = FrequencyResponseTableFilter(name="a", frequencies=[1e-12, 1.0, 1e12], amplitudes=[1, 1, 1], phases=[0, 0, 0], gain=g)
    w = 2 * np.pi * 10.0**lo
    b = PoleZeroFilter(name="b", zeros=[0], poles=[-w])
    c = PoleZeroFilter(name="c", poles=[-w * 10**width], normalization_factor=w * 10**width)
    fl = [a, b, c]
    cr = ChannelResponse(filters_list=fl, frequencies=f)
    each = np.array([x.pass_band(f) for x in fl])
    check_eq(np.asarray(cr.pass_band).tolist(), [each[:, 0].max(), each[:, 1].min()], "pass band")
    nf = 10 ** np.mean(np.log10([each[:, 0].max(), each[:, 1].min()]))
    if nf > 2e-3:
        check(abs(cr.normalization_frequency - nf) <= 0.00051, f"normalization frequency {cr.normalization_frequency}, expected {nf}")
    check_eq(ChannelResponse(filters_list=fl, frequencies=f, normalization_frequency=0.3).normalization_frequency, 0.3, "normalization frequency given")
    check(ChannelResponse(filters_list=fl).pass_band is None, "pass band without frequencies")
