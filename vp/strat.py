"""Strategies shared by the checks."""
import datetime as dt
import string

from hypothesis import strategies as st

ALNUM = string.ascii_letters + string.digits


def names(max_size=8, min_size=1, alphabet=ALNUM + "_"):
    return st.text(alphabet, min_size=min_size, max_size=max_size)


def plain_text(max_size=24):
    """Printable one-line text, no leading/trailing blanks."""
    return st.text(
        string.ascii_letters + string.digits + " _-.,;:/()+#@", max_size=max_size
    ).map(lambda s: s.strip())


UTC = dt.timezone.utc


def utc_datetimes(lo=1950, hi=2190, micro=True):
    base = st.datetimes(dt.datetime(lo, 1, 1), dt.datetime(hi, 12, 31))
    if not micro:
        base = base.map(lambda d: d.replace(microsecond=0))
    special = st.sampled_from(
        [
            dt.datetime(1970, 1, 1),
            dt.datetime(1980, 1, 1),
            dt.datetime(2000, 2, 29, 23, 59, 59),
            dt.datetime(2016, 12, 31, 23, 59, 59, 999999 if micro else 0),
            dt.datetime(2020, 1, 1),
            dt.datetime(1999, 12, 31, 12),
        ]
    ).filter(lambda d: lo <= d.year <= hi)
    return st.one_of(base, base, base, special)


def finite(lo=-1e6, hi=1e6, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, **kw)


def pretty_floats(lo, hi, decimals=4):
    k = 10**decimals
    return st.integers(int(lo * k), int(hi * k)).map(lambda i: i / k)
