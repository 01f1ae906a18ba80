"""C35: containers of Fourier coefficients."""
import datetime as dt

from hypothesis import strategies as st

from mt_metadata.processing.fourier_coefficients.decimation import Decimation
from mt_metadata.processing.fourier_coefficients.fc import FC
from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel

from vp.core import Check, check, check_eq, raises

C = Check("C35", rule="non-trivial: at least three operations, of which one on what is there already")

T0 = "1980-01-01T00:00:00+00:00"
IDS = ["0", "1", "12", "2"]
COMP = ["ex", "ey", "hx", "hy", "hz"]
when = st.integers(1, 9)
iso = lambda i: f"2020-01-0{i}T00:00:00+00:00"
#: start and end, of which either may be unknown (None)
period = st.one_of(st.none(), st.tuples(when, when).map(sorted).map(tuple), st.tuples(when, st.none()), st.tuples(st.none(), when))
channel = st.fixed_dictionaries({"component": st.sampled_from(COMP), "period": period, "fmax": st.sampled_from([0.0, 1.5, 8.0]), "fmin": st.sampled_from([0.0, 0.25]), "units": st.sampled_from(["digital counts", "milliVolt"])})
chan_op = st.one_of(
    st.tuples(st.just("add"), channel),
    st.tuples(st.just("declare"), st.lists(st.sampled_from(COMP), max_size=3, unique=True)),
    st.tuples(st.just("remove"), st.sampled_from(COMP)),
    st.tuples(st.just("set"), st.lists(channel, max_size=3, unique_by=lambda c: c["component"])),
    st.tuples(st.just("wrong"), st.none()),
)
level = st.fixed_dictionaries({"id": st.sampled_from(IDS), "period": period, "factor": st.sampled_from([1.0, 4.0]), "rate": st.sampled_from([1.0, 8.0, 0.25]), "channels": st.lists(channel, max_size=2, unique_by=lambda c: c["component"])})
lev_op = st.one_of(
    st.tuples(st.just("add"), level),
    st.tuples(st.just("declare"), st.lists(st.sampled_from(IDS), max_size=3, unique=True)),
    st.tuples(st.just("remove"), st.sampled_from(IDS)),
    st.tuples(st.just("set"), st.lists(level, max_size=3, unique_by=lambda c: c["id"])),
    st.tuples(st.just("wrong"), st.none()),
)


def span(o, p):
    if p:
        if p[0]:
            o.time_period.start = iso(p[0])
        if p[1]:
            o.time_period.end = iso(p[1])


def make_channel(c):
    o = FCChannel(component=c["component"], frequency_max=c["fmax"], frequency_min=c["fmin"], units=c["units"])
    span(o, c["period"])
    return o


def make_level(d):
    o = Decimation(id=d["id"])
    o.time_series_decimation.factor = d["factor"]
    o.time_series_decimation.sample_rate = d["rate"]
    o.channels_estimated = [c["component"] for c in d["channels"]]
    for c in d["channels"]:
        o.add_channel(make_channel(c))
    span(o, d["period"])
    return o


# ---- the model: times are numbers, None is not known
class Times:
    def __init__(self, p=None):
        self.start, self.end = p or (None, None)

    def grow(self, others):
        s = [o.start for o in others if o.start]
        e = [o.end for o in others if o.end]
        if s:
            self.start = min(s + ([self.start] if self.start else []))
        if e:
            self.end = max(e + ([self.end] if self.end else []))

    def put(self, p):
        if p:
            self.start, self.end = p[0] or self.start, p[1] or self.end

    def look(self):
        return (iso(self.start) if self.start else T0, iso(self.end) if self.end else T0)


class MChannel(Times):
    def __init__(self, c=None):
        super().__init__(c and c["period"])
        self.d = {"fmax": 0.0, "fmin": 0.0, "units": "counts"}
        if c:
            self.d = {k: c[k] for k in self.d}

    def update(self, c):
        self.put(c["period"])
        for k in self.d:
            self.d[k] = c[k] or self.d[k]


class MLevel(Times):
    def __init__(self, d=None):
        super().__init__()
        self.d = {"factor": 1.0, "rate": 1.0}
        self.ch = {}
        if d:
            self.d = {k: d[k] for k in self.d}
            for c in d["channels"]:
                self.add(c)
            self.put(d["period"])

    def add(self, c):
        if c["component"] in self.ch:
            self.ch[c["component"]].update(c)
        else:
            self.ch[c["component"]] = MChannel(c)
        self.grow(self.ch.values())


times = lambda o: (str(o.time_period.start), str(o.time_period.end))


def look_channels(o):
    return {k: (o.channels[k].component, times(o.channels[k]), o.channels[k].frequency_max, o.channels[k].frequency_min, o.channels[k].units) for k in o.channels.keys()}


def want_channels(m):
    return {k: (k, c.look(), c.d["fmax"], c.d["fmin"], c.d["units"]) for k, c in m.items()}


@C.given(st.lists(chan_op, min_size=1, max_size=7), quick=120, thorough=6000)
def channels(ctx, ops):
    """through any history of declaring, adding and removing channels a decimation level holds exactly those, once each, one that is there is updated; it is found by its component, and the time period covers the channels"""
    o = Decimation(id="0")
    m = MLevel()
    again = False
    for op, v in ops:
        if op == "add":
            again |= v["component"] in m.ch
            # the channel is declared so that it is known before it is added
            o.channels_estimated = list(o.channels_estimated) + ([v["component"]] if v["component"] not in o.channels_estimated else [])
            m.ch.setdefault(v["component"], MChannel())
            o.add_channel(make_channel(v))
            m.add(v)
        elif op == "declare":
            o.channels_estimated = v
            for c in v:
                m.ch.setdefault(c, MChannel())
        elif op == "remove":
            again |= v in m.ch
            o.remove_channel(v)
            m.ch.pop(v, None)
            m.grow(m.ch.values())
        elif op == "set":
            # channels that were there before are declared still
            old = list(m.ch)
            o.channels = [make_channel(c) for c in v]
            m.ch = {c["component"]: MChannel(c) for c in v}
            for c in old:
                m.ch.setdefault(c, MChannel())
        else:
            raises((ValueError, TypeError), lambda: o.add_channel("ex"), "a channel that is none")
            raises(TypeError, lambda: o.add("ex"), "a level that is none")
        check_eq(look_channels(o), want_channels(m.ch), f"channels after {op} {v}")
        check_eq(sorted(o.channels_estimated), sorted(m.ch), f"channels estimated after {op}")
        check_eq((o.n_channels, times(o)), (len(m.ch), m.look()), f"number of channels and time period after {op} {v}")
        for c in COMP:
            check_eq(o.has_channel(c), c in m.ch, f"has {c}")
            got = o.get_channel(c)
            check_eq(got and got.component, c if c in m.ch else None, f"get {c}")
            check_eq(o.channel_index(c), o.channels_estimated.index(c) if c in m.ch else None, f"index of {c}")
    if len(ops) < 3 or not again:
        ctx.trivial()


@C.given(st.lists(lev_op, min_size=1, max_size=6), quick=120, thorough=6000)
def levels(ctx, ops):
    """through any history of declaring, adding and removing decimation levels the coefficients hold exactly those, once each with their channels, one that is there is updated; it is found by its number, and the time period covers the levels"""
    o = FC(id="fc")
    m, t = {}, Times()
    again = False
    for op, v in ops:
        if op == "add":
            again |= v["id"] in m
            o.add_decimation_level(make_level(v))
            if v["id"] in m:
                x, new = m[v["id"]], MLevel(v)
                x.d = {k: new.d[k] or x.d[k] for k in x.d}
                x.put((new.start, new.end))
                for c in new.ch:
                    x.ch.setdefault(c, MChannel())
                for c in v["channels"]:
                    x.add(c)
            else:
                m[v["id"]] = MLevel(v)
            t.grow(m.values())
        elif op == "declare":
            o.decimation_levels = v
            for k in v:
                m.setdefault(k, MLevel())
        elif op == "remove":
            again |= v in m
            o.remove_decimation_level(v)
            m.pop(v, None)
            t.grow(m.values())
        elif op == "set":
            old = list(m)
            o.levels = [make_level(d) for d in v]
            m = {d["id"]: MLevel(d) for d in v}
            for k in old:
                m.setdefault(k, MLevel())
        else:
            raises((ValueError, TypeError), lambda: o.add_decimation_level("0"), "a level that is none")
            raises((ValueError, TypeError), lambda: setattr(o, "levels", 10), "levels that are none")
        ids = list(o.levels.keys())
        check_eq(sorted(ids), sorted(m), f"levels after {op}")
        check_eq(sorted(o.decimation_levels), sorted(m), f"declared levels after {op}")
        check_eq((o.n_decimation_levels, times(o)), (len(m), t.look()), f"number of levels and time period after {op} {v}")
        for k in IDS:
            check_eq(o.has_decimation_level(k), k in m, f"has {k}")
            got = o.get_decimation_level(k)
            check_eq(got is not None, k in m, f"get {k}")
            check_eq(o.decimation_level_index(k), ids.index(k) if k in m else None, f"index of {k}")
            if got is not None:
                check_eq((got.id, got.time_series_decimation.factor, got.time_series_decimation.sample_rate, times(got)), (k, m[k].d["factor"], m[k].d["rate"], m[k].look()), f"level {k} after {op} {v}")
                check_eq(look_channels(got), want_channels(m[k].ch), f"channels of level {k} after {op} {v}")
    if len(ops) < 3 or not again:
        ctx.trivial()


@C.given(st.lists(level, min_size=2, max_size=2), quick=60, thorough=2000)
def join(ctx, ds):
    """joining two decimation levels gives the channels of both"""
    a, b = map(make_level, ds)
    names = {c["component"] for c in ds[0]["channels"]} | {c["component"] for c in ds[1]["channels"]}
    c = a.add(b)
    check_eq(sorted(c.channels.keys()), sorted(names), "channels")
    check_eq(sorted(b.channels.keys()), sorted(x["component"] for x in ds[1]["channels"]), "channels of the other")
    if not ds[1]["channels"]:
        ctx.trivial()
