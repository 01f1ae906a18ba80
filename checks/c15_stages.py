"""C15: filters as StationXML response stages."""
import io

import numpy as np
import obspy
from hypothesis import assume
from hypothesis import strategies as st
from obspy.core import inventory as inv

from mt_metadata.common.units import get_unit_object
from mt_metadata.timeseries.filters import (
    ChannelResponse, CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter,
)
from mt_metadata.timeseries.filters.obspy_stages import create_filter_from_stage

from vp.core import Check, check, check_eq

C = Check("C15", rule="non-trivial: the filter is not the identity")

UNITS = [get_unit_object(u).name for u in ("nanotesla", "volt", "millivolt", "millivolt per kilometer", "volt per meter", "digital counts")]
gain = st.one_of(st.floats(1e-5, 1e5), st.floats(-1e2, -1e-2), st.sampled_from([2.0, 0.5]))
pos = st.floats(0.05, 60)
root = st.tuples(pos, st.one_of(st.just(0.0), pos))
unit = st.sampled_from(UNITS)
name = st.text("abcdefghij_0123456789 ", min_size=1, max_size=12).map(str.strip).filter(bool)
comment = st.one_of(st.none(), st.text("abc XYZ;.", min_size=1, max_size=10).map(str.strip).filter(bool))
F = np.array([0.01, 0.1, 0.37, 1.0, 2.5, 9.0])


def expand(rs, sign=-1):
    out = []
    for a, b in rs:
        out += [complex(sign * a, 0)] if b == 0 else [complex(sign * a, b), complex(sign * a, -b)]
    return out


zpk = st.tuples(st.just("zpk"), gain, gain.map(abs), st.lists(root, max_size=2), st.lists(root, max_size=3), st.booleans())
coefficient = st.tuples(st.just("coefficient"), gain)
delay = st.tuples(st.just("delay"), st.floats(-5, 5).filter(lambda d: abs(d) > 1e-4))
tap = st.floats(-1, 1).map(lambda v: round(v, 4))
fir = st.tuples(st.just("fir"), gain, st.lists(tap, min_size=1, max_size=5).filter(lambda t: sum(t) > 0.05), st.sampled_from(["NONE", "EVEN", "ODD"]), st.sampled_from([1.0, 2.0, 4.0, 5.0]), st.sampled_from([64.0, 100.0, 4096.0]))
table = st.tuples(st.just("table"), gain, st.lists(st.tuples(st.floats(-3, 3).map(lambda e: 10.0**e), st.floats(1e-2, 1e2), st.floats(-3, 3)), min_size=2, max_size=5, unique_by=lambda r: r[0]).map(sorted))


def make(spec, **kw):
    kind = spec[0]
    if kind == "zpk":
        _, g, n, z, p, dc = spec
        return PoleZeroFilter(gain=g, normalization_factor=n, zeros=expand(z) + ([0j] if dc else []), poles=expand(p), **kw)
    if kind == "coefficient":
        return CoefficientFilter(gain=spec[1], **kw)
    if kind == "delay":
        return TimeDelayFilter(delay=spec[1], **kw)
    if kind == "fir":
        _, g, taps, sym, dec, rate = spec
        return FIRFilter(gain=g, coefficients=taps, symmetry=sym, decimation_factor=dec, decimation_input_sample_rate=rate, gain_frequency=0.0, **kw)
    f, a, p = zip(*spec[2])
    return FrequencyResponseTableFilter(gain=spec[1], frequencies=f, amplitudes=a, phases=p, **kw)


def expected(spec, f):
    s = 2j * np.pi * np.asarray(f)
    kind = spec[0]
    if kind == "zpk":
        _, g, n, z, p, dc = spec
        out = np.full(len(s), g * n, complex)
        for x in expand(z) + ([0j] if dc else []):
            out = out * (s - x)
        for x in expand(p):
            out = out / (s - x)
        return out
    if kind == "coefficient":
        return np.full(len(s), spec[1], complex)
    if kind == "delay":
        return np.exp(-s * spec[1])
    raise KeyError(kind)


def close(got, want, what, rel=1e-8):
    got, want = np.asarray(got), np.asarray(want)
    check_eq(got.shape, want.shape, f"{what}: shape")
    check(bool((np.abs(got - want) <= rel * np.abs(want) + 1e-300).all()), f"{what}: got {got!r}, expected {want!r}")


def through_xml(stages, sample_rate=1.0):
    """the stages after writing StationXML and reading it"""
    response = inv.Response(instrument_sensitivity=inv.InstrumentSensitivity(1.0, 1.0, stages[0].input_units, stages[-1].output_units), response_stages=stages)
    cha = inv.Channel("LFN", "", 1.0, 2.0, 3.0, 0.0, azimuth=0.0, dip=0.0, sample_rate=sample_rate, response=response)
    net = inv.Network("ZU", stations=[inv.Station("A01", 1.0, 2.0, 3.0, channels=[cha])])
    b = io.BytesIO()
    inv.Inventory([net], source="x").write(b, "STATIONXML", validate=True)
    b.seek(0)
    return obspy.read_inventory(b, "STATIONXML")[0][0][0].response.response_stages


def same(got, flt, spec, what, rel=1e-8):
    plain = spec[0] == "zpk" and not flt.poles.size and not flt.zeros.size
    if plain:  # nothing but a gain: read as a coefficient, unless counts are involved
        check(type(got).__name__ in ("CoefficientFilter", "PoleZeroFilter"), f"{what}: type {got.type}")
        check(abs(got.total_gain - flt.total_gain) <= 1e-12 * abs(flt.total_gain), f"{what}: total gain")
    else:
        check_eq(type(got).__name__, type(flt).__name__, f"{what}: type")
        check(abs(got.gain - flt.gain) <= 1e-12 * abs(flt.gain), f"{what}: gain")
    check_eq(got.name, flt.name, f"{what}: name")
    check_eq((got.units_in, got.units_out), (flt.units_in, flt.units_out), f"{what}: units")
    if flt.comments.value:
        check_eq(got.comments.value, flt.comments.value, f"{what}: comments")
    close(got.complex_response(F), flt.complex_response(F), f"{what}: response", rel)
    if spec[0] == "fir":
        check_eq((got.symmetry, got.decimation_factor, got.decimation_input_sample_rate, got.gain_frequency), (flt.symmetry, flt.decimation_factor, flt.decimation_input_sample_rate, 0.0), f"{what}: decimation")
        close(got.coefficients, flt.coefficients, f"{what}: coefficients", 1e-12)
        check_eq(got.decimation_active, flt.decimation_active, f"{what}: decimation active")
    if spec[0] == "table":
        for k in ("frequencies", "amplitudes", "phases"):
            close(getattr(got, k), getattr(flt, k), f"{what}: {k}", 1e-12)
    if spec[0] == "delay":
        check(abs(got.delay - flt.delay) < 1e-12, f"{what}: delay")
    if spec[0] == "zpk" and not plain:
        for k in ("poles", "zeros"):
            close(getattr(got, k), getattr(flt, k), f"{what}: {k}", 1e-12)
        check(abs(got.normalization_factor - flt.normalization_factor) <= 1e-12 * abs(flt.normalization_factor), f"{what}: normalization factor")


@C.given(st.one_of(zpk, coefficient, delay, fir, table), name, unit, unit, comment, st.integers(1, 40), st.booleans(), quick=500, thorough=12000)
def one_stage(ctx, spec, nm, uin, uout, note, number, xml):
    """a filter written as a stage, through StationXML or not, reads as the same filter"""
    kw = dict(name=nm, units_in=uin, units_out=uout)
    if note:
        kw["comments"] = note
    flt = make(spec, **kw)
    stage = flt.to_obspy(stage_number=number, normalization_frequency=0.0, sample_rate=8.0)
    check_eq(stage.stage_sequence_number, number, "number of the stage")
    check_eq((stage.input_units_description, stage.output_units_description), (uin, uout), "described units")
    check_eq((get_unit_object(stage.input_units).name, get_unit_object(stage.output_units).name), (uin, uout), "units of the stage")
    if xml:
        stage = through_xml([flt.to_obspy(stage_number=1, normalization_frequency=0.0, sample_rate=8.0)])[0]
        number = 1
    got = create_filter_from_stage(stage)
    same(got, flt, spec, "read stage")
    check_eq(got.sequence_number, number, "sequence number")
    again = create_filter_from_stage(got.to_obspy(stage_number=number, normalization_frequency=0.0, sample_rate=8.0))
    same(again, flt, spec, "read stage, written and read again")
    ctx.tag(spec[0], "xml" if xml else "stage")


@C.given(st.lists(st.one_of(zpk, coefficient, delay, table), min_size=1, max_size=4), st.permutations(UNITS), st.sampled_from([1.0, 8.0, 4096.0]), st.floats(0.05, 5), quick=200, thorough=5000)
def whole_channel(ctx, specs, units, rate, f0):
    """the stages of a channel keep order, units and response, its sensitivity is the total gain"""
    fl = [make(s, name=f"f{i}", units_in=units[i], units_out=units[i + 1]) for i, s in enumerate(specs)]
    cr = ChannelResponse(filters_list=fl, normalization_frequency=f0)
    want = cr.complex_response(F, include_delay=True, include_decimation=True)
    r = cr.to_obspy(sample_rate=rate)
    check_eq([s.stage_sequence_number for s in r.response_stages], list(range(1, len(fl) + 1)), "numbers of the stages")
    total = np.prod([x.gain for x in fl])
    s = r.instrument_sensitivity
    check(abs(s.value - total) <= 1e-10 * abs(total), f"sensitivity {s.value}, total gain {total}")
    check_eq((get_unit_object(s.input_units).name, get_unit_object(s.output_units).name, s.frequency), (units[0], units[len(fl)], f0), "units and frequency of the sensitivity")
    back = [create_filter_from_stage(x) for x in through_xml(r.response_stages, rate)]
    check_eq([x.name for x in back], [x.name for x in fl], "names in order")
    check_eq([x.sequence_number for x in back], list(range(1, len(fl) + 1)), "numbers in order")
    other = ChannelResponse(filters_list=back)
    close(other.complex_response(F, include_delay=True, include_decimation=True), want, "response after StationXML")
    check_eq((other.units_in, other.units_out), (units[0], units[len(fl)]), "units")
    for i, (b, x) in enumerate(zip(back, fl)):
        close(b.complex_response(F), x.complex_response(F), f"response of filter {i}")
    if len(fl) < 2:
        ctx.trivial()


@C.given(zpk, st.sampled_from(["LAPLACE (RADIANS/SECOND)", "LAPLACE (HERTZ)"]), quick=200, thorough=5000)
def stages_of_others(ctx, spec, kind):
    """a stage of poles and zeros in radians per second or in Hertz has the response StationXML defines"""
    _, g, n, z, p, dc = spec
    zeros, poles = expand(z) + ([0j] if dc else []), expand(p)
    assume(zeros or poles)
    stage = inv.PolesZerosResponseStage(1, g, 1.0, "V", "V", kind, 1.0, zeros, poles, normalization_factor=n, name="x")
    s = 2j * np.pi * F if "RAD" in kind else 1j * F
    want = np.full(len(F), g * n, complex)
    for x in zeros:
        want = want * (s - x)
    for x in poles:
        want = want / (s - x)
    close(create_filter_from_stage(stage).complex_response(F), want, f"response of a stage in {kind}")
    close(create_filter_from_stage(through_xml([stage])[0]).complex_response(F), want, f"response of a stage in {kind} from StationXML")


@C.given(gain, st.floats(-3, 3).filter(lambda d: abs(d) > 1e-3), st.sampled_from([1, 2, 4]), st.sampled_from([0.0, 0.25, -0.25, 1e-6, None]), quick=120, thorough=2000)
def delay_or_coefficient(ctx, g, d, factor, correction):
    """a coefficient stage is a time delay only with gain one, no decimation and a delay that was not corrected; a stage with a gain only is a coefficient"""
    if correction is None:
        correction = d
    for gg in (1.0, g):
        st_ = inv.CoefficientsTypeResponseStage(3, gg, 1.0, "V", "V", "DIGITAL", numerator=[1], denominator=[], name="x", decimation_input_sample_rate=8.0, decimation_factor=factor, decimation_offset=0, decimation_delay=d, decimation_correction=correction)
        got = create_filter_from_stage(st_)
        is_delay = gg == 1.0 and factor == 1 and correction == 0.0
        check_eq(type(got).__name__, "TimeDelayFilter" if is_delay else "CoefficientFilter", f"gain {gg}, factor {factor}, delay {d}, correction {correction}")
        check_eq(got.gain, gg, "gain")
        if is_delay:
            check_eq(got.delay, d, "delay")
        check_eq(got.sequence_number, 3, "number")
    got = create_filter_from_stage(inv.ResponseStage(2, g, 1.0, "V", "V"))
    check_eq((type(got).__name__, got.gain, got.sequence_number), ("CoefficientFilter", g, 2), "stage with a gain only")


@C.given(zpk, coefficient, st.sampled_from([0.01, 0.1, 1.0, 10.0]), quick=150, thorough=3000)
def evalresp(ctx, spec, coef, f0):
    """evalresp, reading the stages written here, computes the response of the channel"""
    assume(spec[3] or spec[4] or spec[5])
    fl = [make(spec, name="a", units_in="nanotesla", units_out="millivolt"), make(coef, name="b", units_in="millivolt", units_out="digital counts")]
    cr = ChannelResponse(filters_list=fl, normalization_frequency=f0)
    want = expected(spec, F) * expected(coef, F)
    close(cr.complex_response(F), want, "response")
    r = cr.to_obspy(sample_rate=64.0)
    # evalresp knows volts and metres: the kind of unit is not part of this comparison
    for s in r.response_stages:
        s.input_units = "V"
        s.output_units = "V"
    r.response_stages[-1].output_units = "COUNTS"
    r.instrument_sensitivity.input_units = "V"
    r.instrument_sensitivity.output_units = "COUNTS"
    got = r.get_evalresp_response_for_frequencies(F, output="DEF")
    k = got[3] / want[3]
    # evalresp may scale the stage so that the gain holds at the normalization frequency: compare the shape
    close(got / k, want, "shape of the response by evalresp", 1e-5)
