"""Shared strategies. Every strategy yields JSON-serialisable values."""
import datetime as dt
import functools

import numpy as np
import pandas as pd
from hypothesis import strategies as st

EPOCH = dt.date(1970, 1, 1)


def iso(d):
    return d.isoformat()


def D(s):
    return dt.date.fromisoformat(s)


def T(s):
    return pd.Timestamp(s)


def DI(lst):
    return pd.DatetimeIndex([pd.Timestamp(x) for x in lst])


@functools.lru_cache(None)
def _special_days(lo, hi):
    out = []
    for y in range(lo, hi + 1):
        for m, d in ((1, 1), (1, 30), (1, 31), (2, 27), (2, 28), (2, 29), (3, 1), (3, 30), (3, 31), (4, 30), (8, 31),
                     (12, 30), (12, 31)):
            try:
                out.append(dt.date(y, m, d))
            except ValueError:
                pass
    return out


def dates(lo='1995-01-01', hi='2089-12-31', special=True):
    """ISO dates, biased towards month ends, leap days and year ends."""
    lo_d, hi_d = D(lo), D(hi)
    base = st.dates(lo_d, hi_d)
    if special:
        sp = [d for d in _special_days(lo_d.year, hi_d.year) if lo_d <= d <= hi_d]
        if sp:
            base = st.one_of(base, st.sampled_from(sp))
    return base.map(iso)


def sig(x, n=6):
    """Round to n significant digits: keeps cases short and readable."""
    return float(f'{x:.{n}g}')


def fl(lo, hi, n=6):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: min(max(sig(x, n) if abs(x) > 1e-9 else 0.0, lo), hi))


def logfl(lo, hi, n=5):
    import math
    return st.floats(math.log(lo), math.log(hi)).map(lambda x: min(max(sig(math.exp(x), n), lo), hi))


def add_days(s, n):
    return iso(D(s) + dt.timedelta(days=n))


CCYS = ['AED', 'AUD', 'CAD', 'CHF', 'CNY', 'EUR', 'GBP', 'HKD', 'ILS', 'INR', 'JPY', 'NZD', 'SAR', 'SGD', 'USD', 'ZAR']


@st.composite
def rnd_case(draw, s):
    """Random capitalisation of a string."""
    bits = draw(st.lists(st.booleans(), min_size=len(s), max_size=len(s)))
    return ''.join(c.upper() if b else c.lower() for c, b in zip(s, bits))


@st.composite
def calendar_spec(draw, lo, hi, max_hols=25):
    """A synthetic business-day calendar: weekmask + explicit holidays."""
    mask = draw(st.sampled_from(['1111100', '1111100', '1111100', '1111110', '1111001', '1111111']))
    span = (D(hi) - D(lo)).days
    n = draw(st.integers(0, max_hols))
    offs = draw(st.lists(st.integers(0, max(span, 0)), min_size=n, max_size=n, unique=True)) if span >= n else []
    return {'mask': mask, 'hols': [add_days(lo, o) for o in sorted(offs)]}


def mkcal(spec):
    return np.busdaycalendar(weekmask=spec['mask'], holidays=[np.datetime64(h) for h in spec['hols']])


class Cal:
    """Independent business-day arithmetic (no numpy busday functions)."""

    def __init__(self, spec):
        self.mask = spec['mask']
        self.h = {D(x) for x in spec['hols']}

    def is_bd(self, d):
        return self.mask[d.weekday()] == '1' and d not in self.h

    def following(self, d):
        while not self.is_bd(d):
            d += dt.timedelta(1)
        return d

    def preceding(self, d):
        while not self.is_bd(d):
            d -= dt.timedelta(1)
        return d

    def roll(self, d, conv):
        if conv == 'unadjusted':
            return d
        if conv == 'following':
            return self.following(d)
        if conv == 'preceding':
            return self.preceding(d)
        if conv == 'modifiedfollowing':
            f = self.following(d)
            return f if f.month == d.month else self.preceding(d)
        if conv == 'modifiedpreceding':
            f = self.preceding(d)
            return f if f.month == d.month else self.following(d)
        raise ValueError(conv)

    def shift(self, d, n):
        """d must be a business day; move n business days."""
        step = dt.timedelta(1 if n > 0 else -1)
        while n:
            d += step
            if self.is_bd(d):
                n += -1 if n > 0 else 1
        return d


def add_months(d, n):
    """Calendar month addition, clipped to the month end."""
    import calendar
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    m += 1
    return dt.date(y, m, min(d.day, calendar.monthrange(y, m)[1]))


def np_dates(a):
    """list of python dates from whatever datetime container."""
    out = []
    for x in pd.DatetimeIndex(pd.to_datetime(pd.Series(list(a)))):
        out.append(None if pd.isna(x) else x.date())
    return out


def reps():
    """how often a vector of inputs is repeated: mostly once, sometimes into a long vector with duplicates"""
    return st.sampled_from([1] * 12 + [2, 40])
