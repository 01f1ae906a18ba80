"""C11: time periods and bounding boxes follow the children."""
import datetime as dt

from hypothesis import strategies as st

from mt_metadata.timeseries import Auxiliary, Electric, Experiment, Magnetic, Run, Station, Survey

from vp.core import Check, check, check_eq

C = Check("C11", rule="non-trivial: at least two children with different times (or positions) took part")

EPOCH = dt.datetime(1980, 1, 1)
instant = st.one_of(
    st.datetimes(dt.datetime(1990, 1, 1), dt.datetime(2030, 12, 31)),
    st.datetimes(dt.datetime(1965, 1, 1), dt.datetime(1979, 12, 30)),
    st.tuples(st.integers(0, 3), st.integers(0, 47)).map(lambda t: dt.datetime(2020, 2, 28) + dt.timedelta(days=t[0], hours=t[1] / 2)),
    st.tuples(st.integers(0, 5)).map(lambda t: dt.datetime(2020, 2, 29, 23, 59, 59, 999990 + t[0])),
)
maybe = st.one_of(instant, instant, instant, st.none())
period = st.tuples(maybe, maybe).map(lambda t: tuple(sorted(t)) if None not in t else t)
angle = st.one_of(st.integers(-90, 90).map(float), st.floats(-90, 90).filter(lambda v: v == 0 or abs(v) > 1e-6))
CH = ["ex", "ey", "hx", "hy", "temperature"]


def iso(t):
    return t.isoformat() + "+00:00"


def stamp(mt):
    """the instant of a time object, from its text"""
    s = str(mt)
    check(s.endswith("+00:00"), f"{s} is not in UTC")
    s = s[:-6]
    if "." in s:
        a, b = s.split(".")
        s = a + "." + (b + "000000")[:6]
    return dt.datetime.fromisoformat(s)


def set_period(o, p):
    if p[0] is not None:
        o.time_period.start = iso(p[0])
    if p[1] is not None:
        o.time_period.end = iso(p[1])


def channel(c, p):
    k = Electric if c[0] == "e" else Magnetic if c[0] == "h" else Auxiliary
    o = k(component=c)
    set_period(o, p)
    return o


class Extent:
    """start / end that only ever grow; None is not known yet"""

    def __init__(self, p=(None, None)):
        self.start, self.end = p

    def grow(self, *others):
        for s, e in others:
            if s is not None:
                self.start = s if self.start is None else min(self.start, s)
            if e is not None:
                self.end = e if self.end is None else max(self.end, e)
        return self

    @property
    def p(self):
        return (self.start, self.end)


def same_period(o, ext, what):
    check_eq(stamp(o.time_period.start), ext.start or EPOCH, f"{what}: start")
    check_eq(stamp(o.time_period.end), ext.end or EPOCH, f"{what}: end")


def same_dates(o, ext, what):
    check_eq(str(o.time_period.start_date), str((ext.start or EPOCH).date()), f"{what}: start date")
    check_eq(str(o.time_period.end_date), str((ext.end or EPOCH).date()), f"{what}: end date")


children = st.lists(period, min_size=1, max_size=5)


@C.given(period, children, st.lists(st.integers(0, 4), max_size=2), st.booleans(), st.booleans(), quick=250, thorough=8000)
def run_covers_its_channels(ctx, own, periods, remove, update, copy_in):
    """a run's time period is the smallest one that covers its own and every channel added; it never shrinks; nothing happens when update is off until it is asked for"""
    r = Run(id="a")
    set_period(r, own)
    ext = Extent(own)
    for i, p in enumerate(periods):
        r.add_channel(channel(CH[i], p), update=update)
        if update:
            ext.grow(p)
            same_period(r, ext, f"after channel {i}")
    if not update:
        same_period(r, ext, "before the update")
        r.update_time_period()
        ext.grow(*periods)
        same_period(r, ext, "after the update")
    for i in remove:
        r.remove_channel(CH[i])
        r.update_time_period()
    same_period(r, ext, "after removals")
    for i, p in enumerate(periods):
        if r.has_channel(CH[i]):
            c = r.get_channel(CH[i])
            check_eq((stamp(c.time_period.start), stamp(c.time_period.end)), (p[0] or EPOCH, p[1] or EPOCH), f"channel {i}")
    if copy_in:
        other = Run(id="b")
        set_period(other, own)
        other.merge(r, inplace=True)
        left = [p for i, p in enumerate(periods) if CH[i] in r.channels.keys()]
        same_period(other, Extent(own).grow(*left), "merged run")
    if len({p for p in periods if p != (None, None)}) < 2:
        ctx.trivial()


@C.given(period, children, st.lists(st.integers(0, 4), max_size=2), st.booleans(), quick=250, thorough=8000)
def station_covers_its_runs(ctx, own, periods, remove, update):
    """the same for a station and its runs"""
    s = Station(id="a")
    set_period(s, own)
    ext = Extent(own)
    for i, p in enumerate(periods):
        r = Run(id=f"r{i}")
        set_period(r, p)
        s.add_run(r, update=update)
        if update:
            ext.grow(p)
            same_period(s, ext, f"after run {i}")
    if not update:
        same_period(s, ext, "before the update")
        s.update_all()
        ext.grow(*periods)
        same_period(s, ext, "after the update")
    for i in remove:
        s.remove_run(f"r{i}")
    same_period(s, ext, "after removals")
    other = Station(id="b")
    other.merge(s, inplace=True)
    left = [p for i, p in enumerate(periods) if i not in remove]
    same_period(other, Extent().grow(*left), "merged station")
    if len({p for p in periods if p != (None, None)}) < 2:
        ctx.trivial()


@C.given(st.lists(period, min_size=1, max_size=5), st.booleans(), quick=200, thorough=6000)
def runs_sorted_by_start(ctx, periods, ascending):
    """sort_runs_by_time orders the runs by start time, up or down, in place or as a new list, keeping every run"""
    s = Station(id="a")
    for i, p in enumerate(periods):
        r = Run(id=f"r{i}")
        set_period(r, p)
        s.add_run(r)
    order = list(s.runs.keys())
    runs = {k: s.runs[k] for k in order}
    out = s.sort_runs_by_time(inplace=False, ascending=ascending)
    check_eq(list(s.runs.keys()), order, "sorting a copy changed the station")
    check_eq(sorted(out.keys()), sorted(order), "runs after sorting")
    starts = [p[0] or EPOCH for p in periods]
    got = [starts[int(k[1:])] for k in out.keys()]
    check_eq(got, sorted(starts, reverse=not ascending), "start times after sorting")
    check(all(out[k] is runs[k] for k in out.keys()), "a run changed its name")
    s.sort_runs_by_time(ascending=ascending)
    check_eq(list(s.runs.keys()), list(out.keys()), "sorting in place")
    check_eq(list(s.run_list), list(out.keys()), "run_list")
    if len(set(starts)) < 2:
        ctx.trivial()


place = st.tuples(angle, st.floats(-180, 180).map(lambda v: round(v, 5)), st.booleans())


@C.given(period, st.lists(st.tuples(period, place), min_size=1, max_size=5), st.lists(st.integers(0, 4), max_size=2), st.booleans(), quick=250, thorough=8000)
def survey_covers_its_stations(ctx, own, items, remove, update):
    """a survey's dates are the smallest ones that cover its own and every station added; its corners are the extremes over the stations it has now"""
    v = Survey(id="a")
    if own[0]:
        v.time_period.start_date = own[0].date().isoformat()
    if own[1]:
        v.time_period.end_date = own[1].date().isoformat()
    ext = Extent(own)
    here = {}

    def corners(what):
        if not here:
            return
        lat, lon = [p[0] for p in here.values()], [p[1] for p in here.values()]
        check_eq((v.southeast_corner.latitude, v.northwest_corner.latitude), (min(lat), max(lat)), f"{what}: latitudes")
        check_eq((v.northwest_corner.longitude, v.southeast_corner.longitude), (min(lon), max(lon)), f"{what}: longitudes")
        check_eq(v.survey_extent, {"latitude": {"min": min(lat), "max": max(lat)}, "longitude": {"min": min(lon), "max": max(lon)}}, f"{what}: extent")

    for i, (p, (lat, lon, dup)) in enumerate(items):
        s = Station(id=f"s{i}")
        set_period(s, p)
        s.location.latitude, s.location.longitude = lat, lon
        v.add_station(s, update=update)
        here[i] = (lat, lon)
        if update:
            ext.grow(p)
            same_dates(v, ext, f"after station {i}")
            corners(f"after station {i}")
    if not update:
        same_dates(v, ext, "before the update")
        v.update_all()
        ext.grow(*[p for p, _ in items])
        same_dates(v, ext, "after the update")
        corners("after the update")
    for i in remove:
        v.remove_station(f"s{i}")
        here.pop(i, None)
        corners(f"after removing {i}")
    same_dates(v, ext, "after removals")
    other = Survey(id="b")
    other.merge(v, inplace=True)
    same_dates(other, Extent().grow(*[items[i][0] for i in here]), "merged survey")
    v = other
    corners("merged survey")
    if len({x for _, x in items}) < 2:
        ctx.trivial()


@C.given(st.lists(st.lists(st.lists(period, min_size=1, max_size=2), min_size=1, max_size=2), min_size=1, max_size=2), quick=40, thorough=800)
def experiment_xml_updates_all_levels(ctx, tree):
    """writing an experiment as XML first lets runs, stations and surveys cover their children"""
    e = Experiment()
    v = Survey(id="v")
    for i, runs in enumerate(tree):
        s = Station(id=f"s{i}")
        s.location.latitude, s.location.longitude = 10.0 * i, -20.0 * i
        for j, chans in enumerate(runs):
            r = Run(id=f"r{j}")
            for k, p in enumerate(chans):
                r.add_channel(channel(CH[k], p), update=False)
            s.add_run(r, update=False)
        s.update_run_list()
        v.add_station(s, update=False)
    e.add_survey(v)
    f = Experiment()
    f.from_xml(element=e.to_xml())
    everything = Extent()
    for i, runs in enumerate(tree):
        st_ext = Extent()
        for j, chans in enumerate(runs):
            x = Extent().grow(*chans)
            st_ext.grow(x.p)
            same_period(f.surveys[0].stations[f"s{i}"].runs[f"r{j}"], x, f"run {i}.{j}")
        same_period(f.surveys[0].stations[f"s{i}"], st_ext, f"station {i}")
        everything.grow(st_ext.p)
    same_dates(f.surveys[0], everything, "survey")
    check_eq(f.surveys[0].northwest_corner.latitude, 10.0 * (len(tree) - 1), "northern edge")
    check_eq(f.surveys[0].northwest_corner.longitude, -20.0 * (len(tree) - 1), "western edge")
