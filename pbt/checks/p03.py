"""P03 tenors: normalisation, calendar arithmetic, business-day roll, rejection."""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, raises, fail
from pbt.gen import D, dates, add_months, calendar_spec, mkcal, Cal, rnd_case, add_days, np_dates

FACETS = []
UNIT = {'d': ['d', 'day', 'days'], 'w': ['w', 'week', 'weeks'], 'm': ['m', 'mon', 'month', 'months'],
        'y': ['y', 'yr', 'yrs', 'year', 'years']}
MISC = {'on': ['on', 'o/n', 'overnight'], 'tn': ['tn', 't/n', 'tom next', 'tomorrow next'],
        'sp': ['sp', 'spot'], 'sn': ['sn', 's/n', 'spot next', 'spot/next'], 'sw': ['sw', 's/w', 'spot week']}
MISC_DAYS = {'on': 1, 'tn': 2, 'sp': 0, 'sn': 1, 'sw': 5}


@st.composite
def spelled(draw):
    kind = draw(st.sampled_from(['d', 'w', 'm', 'm', 'y', 'y', 'ym', 'misc']))
    sp = st.sampled_from(['', '', ' ', '\u00a0', '  '])
    if kind == 'misc':
        k = draw(st.sampled_from(sorted(MISC)))
        txt, canon, spec = draw(st.sampled_from(MISC[k])), k, ['d', MISC_DAYS[k]]
    elif kind == 'ym':
        y, m = draw(st.integers(0, 50)), draw(st.integers(0, 30))
        txt = f'{y}{draw(sp)}{draw(st.sampled_from(UNIT["y"]))}{draw(sp)}{m}{draw(sp)}{draw(st.sampled_from(UNIT["m"]))}'
        canon, spec = f'{y}y{m}m', ['m', 12 * y + m]
    else:
        n = draw(st.integers(0, {'d': 1500, 'w': 300, 'm': 720, 'y': 80}[kind]))
        txt = f'{n}{draw(sp)}{draw(st.sampled_from(UNIT[kind]))}'
        canon = f'{n}{kind}'
        spec = {'d': ['d', n], 'w': ['d', 7 * n], 'm': ['m', n], 'y': ['m', 12 * n]}[kind]
    txt = draw(rnd_case(txt))
    txt = draw(st.sampled_from(['', '', ' ', '\n'])) + txt + draw(st.sampled_from(['', '', ' ', '\r\n']))
    return dict(text=txt, canon=canon, spec=spec)


def apply_spec(d, spec):
    return d + dt.timedelta(spec[1]) if spec[0] == 'd' else add_months(d, spec[1])


@facet(FACETS, lambda: st.fixed_dictionaries(dict(t=spelled(), d=dates('1950-01-01', '2100-12-31'))),
       'tenors spelled with words, case, blanks and slashes; non-trivial: spelling differs from the canonical code',
       quick=2500)
def spelled_tenor_to_date(c, r):
    from frm.utils import clean_tenor, tenor_to_date_offset
    t = c['t']
    got = clean_tenor(t['text'])
    check(got == t['canon'], f"{t['text']!r} normalises to {got!r} instead of {t['canon']!r}")
    check(clean_tenor(got) == got, 'normalisation is not idempotent', text=t['text'])
    d = D(c['d'])
    res = (pd.Timestamp(d) + tenor_to_date_offset(got)).date()
    exp = apply_spec(d, t['spec'])
    check(res == exp, f'{d} + {got} = {res}, calendar arithmetic gives {exp}')
    r.label(t['canon'].lstrip('0123456789'))
    r.nt(t['text'] != t['canon'] and t['spec'][1] > 0)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(y=st.integers(0, 60), m=st.integers(0, 11), w=st.integers(0, 200),
                                                  d=dates('1950-01-01', '2100-12-31'))),
       'equal tenors in different units; non-trivial: month-end start', quick=400)
def equivalent_tenors(c, r):
    from frm.utils import tenor_to_date_offset as off
    t = pd.Timestamp(c['d'])
    y, m, w = c['y'], c['m'], c['w']
    check(t + off(f'{y}y{m}m') == t + off(f'{12 * y + m}m'), 'XyYm differs from the same number of months')
    check(t + off(f'{y}y') == t + off(f'{12 * y}m'), 'Xy differs from 12X months')
    check(t + off(f'{w}w') == t + off(f'{7 * w}d'), 'Xw differs from 7X days')
    r.nt(t.day >= 28)


def bad():
    num = st.integers(0, 999).map(str)
    u = st.sampled_from('dwmy')
    return st.one_of(
        st.sampled_from(['', 'd', 'm', 'y', 'nn', 'os', 'spp', '1', '12', '1.5y', '-1m', '+1m', '1q', '1h', '1y2y', '1m2y',
                         '1d1w', '1w2d', '1y1d', '1y1w', '2m1m', 'y1', 'm3', '1ym', 'y1m', '1y-1m', 'on1', '1on', '1,2m']),
        st.tuples(num, st.sampled_from('abcefghijklnopqrstuvxz')).map(''.join),
        st.tuples(num, u, num).map(''.join),
        st.tuples(u, num).map(''.join),
        st.tuples(num, u, u).map(''.join),
        st.tuples(num, st.sampled_from(['md', 'wd', 'my', 'mm'])).map(lambda x: f'{x[0]}{x[1][0]}{x[0]}{x[1][1]}'),
        st.text('dwmy0123456789.-', min_size=1, max_size=6).filter(
            lambda s: __import__('re').fullmatch(r'\d+[dwmy]|\d+y\d+m', s) is None))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(t=bad())), 'strings outside the tenor grammar; non-trivial: all',
       quick=800)
def invalid_tenor_rejected(c, r):
    from frm.utils import clean_tenor, tenor_to_date_offset
    check(raises(lambda: tenor_to_date_offset(clean_tenor(c['t']))), f"invalid tenor {c['t']!r} was accepted")
    for v in (1, None, 2.5):
        check(raises(lambda: clean_tenor(v)) and raises(lambda: tenor_to_date_offset(v)), 'a non-string tenor was accepted')
    r.nt()


@st.composite
def wd(draw):
    n = draw(st.integers(1, 6))
    ds = [draw(dates('2015-01-01', '2035-12-31')) for _ in range(n)]
    near = draw(st.booleans())
    if near:
        ds = [ds[0]] + [add_days(ds[0], draw(st.integers(0, 14))) for _ in range(n - 1)]
    lo = add_days(min(ds), -5)
    cal = draw(calendar_spec(lo, add_days(lo, 45)))
    return dict(ds=ds, off=draw(st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(-12, -1))), cal=cal, scalar=draw(st.booleans()))


@facet(FACETS, wd, 'dates with a random calendar; non-trivial: some date is not a business day or the offset is positive',
       quick=800)
def workday_reference(c, r):
    from frm.utils import workday
    cal, np_cal = Cal(c['cal']), mkcal(c['cal'])
    if c['off'] < 0:
        # counting back is only specified from a business day
        c = dict(c, ds=[str(cal.following(D(x))) for x in c['ds']])
    exp = [cal.shift(cal.following(D(x)), c['off']) for x in c['ds']]
    if c['scalar']:
        got = [pd.Timestamp(workday(pd.Timestamp(c['ds'][0]), c['off'], np_cal)).date()]
        exp = exp[:1]
    else:
        got = np_dates(workday(pd.DatetimeIndex(c['ds']), c['off'], np_cal))
    check(got == exp, f'workday: got {got}, expected {exp}')
    r.label('holiday_hit' if any(not cal.is_bd(D(x)) for x in c['ds']) else 'all_business')
    r.nt(c['off'] != 0 or any(not cal.is_bd(D(x)) for x in c['ds']))
