"""P01 day counts and year fractions."""
import calendar
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, fail, raises
from pbt.gen import dates, D, T, add_days, DI, reps

FACETS = []
BASES = ['30/360', '30e/360', '30e/360_isda', 'act/360', 'act/365', 'act/act', 'act/366']


def basis(b):
    from frm.enums import DayCountBasis
    return next(m for m in DayCountBasis if m.value == b)


def eom_feb(d):
    return d.month == 2 and d.day == calendar.monthrange(d.year, 2)[1]


def ref_days(d1, d2, b, term):
    if b.startswith('act'):
        return (d2 - d1).days
    a, z = d1.day, d2.day
    if b == '30/360':
        if a == 31:
            a = 30
        if z == 31 and a == 30:
            z = 30
    elif b == '30e/360':
        a = 30 if a == 31 else a
        z = 30 if z == 31 else z
    else:
        a = 30 if (a == 31 or eom_feb(d1)) else a
        z = 30 if (z == 31 or (eom_feb(d2) and not term)) else z
    return 360 * (d2.year - d1.year) + 30 * (d2.month - d1.month) + z - a


def ref_yf(d1, d2, b, term):
    if b == 'act/act':
        tot = 0.0
        for y in range(d1.year, d2.year + 1):
            lo = max(d1, dt.date(y, 1, 1))
            hi = min(d2, dt.date(y + 1, 1, 1))
            if hi > lo:
                tot += (hi - lo).days / (366 if calendar.isleap(y) else 365)
        return tot
    return ref_days(d1, d2, b, term) / {'act/365': 365.0, 'act/366': 366.0}.get(b, 360.0)


def pair():
    @st.composite
    def s(draw):
        a = draw(dates('1910-01-01', '2190-12-31'))  # pandas cannot subtract dates more than 292 years apart
        mode = draw(st.sampled_from(['near', 'near', 'any', 'same_year', 'zero']))
        if mode == 'near':
            b = add_days(a, draw(st.integers(0, 800)))
        elif mode == 'zero':
            b = a
        elif mode == 'same_year':
            b = draw(dates(a, f'{a[:4]}-12-31'))
        else:
            b = draw(dates(a, '2199-12-31'))
        return [a, b]
    return s()


def conv(s, kind):
    d = D(s)
    return {'timestamp': pd.Timestamp(s), 'date': d, 'datetime': dt.datetime(d.year, d.month, d.day),
            'datetime64': np.datetime64(s)}[kind]


@facet(FACETS, lambda: st.fixed_dictionaries(dict(
    pair=pair(), basis=st.sampled_from(BASES), term=st.sampled_from([None, True, False]),
    k1=st.sampled_from(['timestamp', 'date', 'datetime', 'datetime64']),
    k2=st.sampled_from(['timestamp', 'date', 'datetime', 'datetime64']))),
    'scalar dates in any supported type; non-trivial: the end date is after the start date', quick=2500)
def scalar_vs_definition(c, r):
    from frm.utils import day_count, year_frac
    a, b = c['pair']
    bas = basis(c['basis'])
    term = True if c['term'] is None else c['term']
    args = (conv(a, c['k1']), conv(b, c['k2']), bas)
    kw = {} if c['term'] is None else {'is_end_date_on_termination': c['term']}
    n = day_count(*args, **kw)
    y = year_frac(*args, **kw)
    check(np.ndim(n) == 0 and np.ndim(y) == 0, 'scalar dates must give scalar results')
    close(n, ref_days(D(a), D(b), c['basis'], term), 'day count differs from the convention definition', 0, 0)
    close(y, ref_yf(D(a), D(b), c['basis'], term), 'year fraction differs from the convention definition', 1e-12, 1e-12)
    r.label(c['basis'])
    r.nt(a != b)


@st.composite
def vec(draw):
    n = draw(st.integers(2, 8))
    shape = draw(st.sampled_from(['both', 'start_scalar', 'end_scalar']))
    ps = [draw(pair()) for _ in range(n)]
    if shape == 'start_scalar':
        s0 = min(p[0] for p in ps)
        ps = [[s0, p[1]] for p in ps]
    elif shape == 'end_scalar':
        e0 = max(p[1] for p in ps)
        ps = [[p[0], e0] for p in ps]
    rep = draw(reps())
    ps, n = ps * rep, n * rep
    return dict(pairs=ps, shape=shape, basis=draw(st.sampled_from(BASES)),
                cont=draw(st.sampled_from(['index', 'series', 'list', 'series_idx'])),
                flags=draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n // rep, max_size=n // rep).map(lambda x: x * rep))))


def mkcont(lst, kind):
    ts = [pd.Timestamp(x) for x in lst]
    if kind == 'index':
        return pd.DatetimeIndex(ts)
    if kind == 'series':
        return pd.Series(ts)
    if kind == 'series_idx':
        return pd.Series(ts, index=[10 + 3 * i for i in range(len(ts))][::-1])
    return ts


@facet(FACETS, vec, 'vectors of 2-8 dates (either side may be a scalar); non-trivial: at least two distinct pairs',
       quick=1200)
def vector_vs_definition(c, r):
    from frm.utils import day_count, year_frac
    ps = c['pairs']
    n = len(ps)
    st_ = pd.Timestamp(ps[0][0]) if c['shape'] == 'start_scalar' else mkcont([p[0] for p in ps], c['cont'])
    en_ = pd.Timestamp(ps[0][1]) if c['shape'] == 'end_scalar' else mkcont([p[1] for p in ps], c['cont'])
    flags = c['flags']
    # documented default: only the last end date is the termination date
    f = flags if flags is not None else [False] * (n - 1) + [True]
    kw = {} if flags is None else {'is_end_date_on_termination': flags}
    exp_n = [ref_days(D(a), D(b), c['basis'], t) for (a, b), t in zip(ps, f)]
    exp_y = [ref_yf(D(a), D(b), c['basis'], t) for (a, b), t in zip(ps, f)]
    close(day_count(st_, en_, basis(c['basis']), **kw), exp_n, 'vector day count differs from the definition', 0, 0)
    close(year_frac(st_, en_, basis(c['basis']), **kw), exp_y, 'vector year fraction differs from the definition',
          1e-12, 1e-12)
    r.label(c['basis'], c['shape'])
    r.nt(len({tuple(p) for p in ps}) > 1)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(
    ds=st.lists(dates('1950-01-01', '2150-12-31'), min_size=3, max_size=3).map(sorted),
    basis=st.sampled_from(BASES))), 'three ordered dates; non-trivial: all distinct', quick=800)
def additive_and_monotone(c, r):
    from frm.utils import day_count, year_frac
    a, b, z = map(pd.Timestamp, c['ds'])
    bas = basis(c['basis'])
    if c['basis'].startswith('act'):
        for f, tol in ((day_count, 0), (year_frac, 1e-11)):
            close(f(a, z, bas), f(a, b, bas) + f(b, z, bas), 'actual day counting is not additive over adjacent periods',
                  0, tol)
    check(year_frac(a, b, bas) <= year_frac(a, z, bas) + 1e-12 or c['basis'] == '30e/360_isda',
          'year fraction decreases when the end date moves later')
    check(abs(year_frac(a, a, bas)) < 1e-12 or c['basis'] == '30e/360_isda', 'the year fraction of an empty period is not zero', d=str(a))
    check(day_count(a, a, bas) <= 0 if c['basis'] == '30e/360_isda' else day_count(a, a, bas) == 0,
          'an empty period has a non-zero day count')
    r.label(c['basis'])
    r.nt(len(set(c['ds'])) == 3)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(pair=pair(), basis=st.sampled_from(BASES))),
       'reversed date pairs; non-trivial: start strictly after end', quick=300)
def reversed_dates_rejected(c, r):
    from frm.utils import day_count, year_frac
    a, b = c['pair']
    if a == b:
        r.discard()
    for f in (day_count, year_frac):
        check(raises(lambda: f(T(b), T(a), basis(c['basis']))), f'{f.__name__} accepted a start date after the end date')
        check(raises(lambda: f(DI([a, b]), DI([b, a]), basis(c['basis']))),
              f'{f.__name__} accepted a vector holding a start date after its end date')
    r.nt()
