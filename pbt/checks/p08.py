"""P08 convention codes: parsing, validation, defaults."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, raises, fail
from pbt.gen import rnd_case

FACETS = []
ENUMS = ['ZeroCurveInterpMethod', 'ZeroCurveExtrapMethod', 'PayRcv', 'BuySell', 'DayCountBasis', 'CompoundingFreq', 'PeriodFreq',
         'DayRoll', 'RollConv', 'TimingConvention', 'Stub', 'ExchangeNotionals']
DEFAULTS = {'ZeroCurveInterpMethod': 'linear_on_ln_discount', 'ZeroCurveExtrapMethod': 'none', 'DayCountBasis': 'act/act',
            'DayRoll': 'unadjusted', 'RollConv': 'modifiedfollowing', 'Stub': 'default', 'ExchangeNotionals': 'neither'}
ALIASES = {
    'daily': ['d', 'day', 'days', '1d', '1day', '1days', '1 day'],
    'weekly': ['w', 'week', 'weeks', 'wk', '1w', '1wk', '1week', '1weeks', '1 week', 'per week'],
    '28days': ['28d', '28day', '28 days'],
    'monthly': ['m', 'month', 'months', 'mon', '1m', '1mo', '1month', '1months', '1 month', 'per month'],
    'quarterly': ['q', 'quarter', 'quarters', 'quart', '3m', '3mo', '3month', '3months', '3 months', 'per quarter'],
    'semiannual': ['s', 'sa', 'semiannually', 'semi', '6m', '6mo', '6month', '6months', '6 months', 'SEMI_ANNUAL'],
    'annual': ['a', 'year', 'years', 'yrs', 'yr', 'annually', '12m', '1y', '1yr', '1year', '1years', '1 year', 'per/year'],
    'zerocoupon': ['z', 'zc', 'zero coupon', 'zero', 'ZERO_COUPON']}


def enum(n):
    import frm.enums.utils as u
    return getattr(u, n)


VALUES = {}


def warmup():
    for n in ENUMS:
        VALUES[n] = [m.value for m in enum(n)]


@st.composite
def spelled(draw):
    n = draw(st.sampled_from(ENUMS + ['PeriodFreq'] * 8 + ['DayCountBasis'] * 4))
    m = draw(st.sampled_from(VALUES[n]))
    if not isinstance(m, str):
        s = draw(st.sampled_from([m, str(m), f' {m} ']))
        return dict(enum=n, value=m, text=s)
    base, alias = m, False
    if n == 'PeriodFreq' and draw(st.booleans()):
        base, alias = draw(st.sampled_from(ALIASES[m])), True
    if n == 'DayCountBasis':
        k = draw(st.sampled_from(['plain', 'actual', 'noslash', 'fixed']))
        if k == 'actual':
            base, alias = m.replace('act', 'actual', 1), True
            if m == 'act/act' and draw(st.booleans()):
                base = 'actual/actual'
        elif k == 'noslash':
            base, alias = m.replace('/', ''), True
        elif k == 'fixed' and m == 'act/365':
            base, alias = 'act/365fixed', True
    s = draw(rnd_case(base))
    if draw(st.booleans()):
        s = s.replace('_', ' ')
    s = draw(st.sampled_from(['', ' ', '  '])) + s + draw(st.sampled_from(['', ' ']))
    return dict(enum=n, value=m, text=s, alias=alias)


@facet(FACETS, spelled, 'every code and alias in random case, blanks and padding; non-trivial: text differs from the code',
       quick=4000)
def spelled_code_parses(c, r):
    E = enum(c['enum'])
    got = E.from_value(c['text'])
    check(got.value == c['value'] and got in list(E), f"{c['enum']}.from_value({c['text']!r}) = {got}", expected=c['value'])
    if not c.get('alias') or c['enum'] == 'PeriodFreq':
        check(E.is_valid(c['text']), f"{c['enum']}.is_valid({c['text']!r}) is False")
    check(isinstance(got.display_name, str) and got.display_name, 'no display name')
    check(E.from_value(got.value) is got, 'parsing is not idempotent')
    r.label(c['enum'])
    r.nt(c['text'] != c['value'])


@st.composite
def junk(draw):
    n = draw(st.sampled_from(ENUMS))
    v = draw(st.sampled_from(VALUES[n]).map(str))
    k = draw(st.sampled_from(['text', 'mut', 'num', 'other']))
    if k == 'text':
        t = draw(st.text('abcdefgmnoqrstuwyz/_0123456789-. ', min_size=1, max_size=12))
    elif k == 'mut':
        i = draw(st.integers(0, len(v)))
        t = v[:i] + draw(st.sampled_from('xqz#9')) + v[i:]
    elif k == 'num':
        t = draw(st.one_of(st.integers(-40, 400), st.floats(-40, 40).map(lambda x: round(x, 2))))
    else:
        o = draw(st.sampled_from([x for x in ENUMS if x != n]))
        t = draw(st.sampled_from(VALUES[o]))
    return dict(enum=n, t=t)


@facet(FACETS, junk, 'random strings, mutated codes, numbers, codes of other conventions; non-trivial: rejected value', quick=2500)
def valid_iff_parsed(c, r):
    E, t = enum(c['enum']), c['t']
    try:
        got = E.from_value(t)
    except ValueError:
        got = None
    valid = bool(E.is_valid(t))
    check(not valid or got is not None, f"{c['enum']}.is_valid({t!r}) but from_value rejects it")
    if got is None:
        r.nt()
        return
    # whatever is accepted must be the code up to case, blanks, or a documented alias
    x = str(t).lower().strip().replace(' ', '_')
    al = {str(got.value), str(got.value).replace('/', '')}
    if c['enum'] == 'PeriodFreq':
        x = x.replace('_', '').replace('/', '').replace('per', '')
        al |= {a.lower().replace(' ', '').replace('_', '') for a in ALIASES[got.value]} | {
            '1days', '1weeks', '3month', '6month', '12m', '1months', '1years', '28day', '28days', '1wk', '1yr', '1month', '1year'}
    if c['enum'] == 'DayCountBasis':
        x = x.replace('actual', 'act')
        al |= {'act/365fixed'} if got.value == 'act/365' else set()
    if isinstance(got.value, int):
        check((isinstance(t, (int, float)) and t == got.value) or (str(t).strip().isdigit() and int(str(t).strip()) == got.value),
              f"{c['enum']}.from_value({t!r}) = {got}")
    else:
        check(x in al, f"{c['enum']}.from_value({t!r}) = {got}: not a spelling of it")


@facet(FACETS, lambda: st.fixed_dictionaries(dict(enum=st.sampled_from(ENUMS), v=st.sampled_from(['none', 'nan', 'nat', 'npnan']))),
       'missing values; non-trivial: the convention has a default', quick=120)
def missing_gives_default(c, r):
    E = enum(c['enum'])
    v = {'none': None, 'nan': float('nan'), 'nat': pd.NaT, 'npnan': np.nan}[c['v']]
    if c['enum'] in DEFAULTS:
        check(E.from_value(v).value == DEFAULTS[c['enum']], 'a missing value does not give the default', enum=c['enum'],
              got=E.from_value(v))
        check(E.default().value == DEFAULTS[c['enum']], 'default changed')
        r.nt()
    else:
        check(raises(lambda: E.from_value(v)), 'a missing value was accepted although the convention has no default', enum=c['enum'])
    check(not E.is_valid(v), 'a missing value is not a valid code')
    import frm.enums.utils as u
    check(u.PayRcv.PAY.multiplier == -1 and u.PayRcv.RCV.multiplier == 1 and u.BuySell.BUY.multiplier == 1
          and u.BuySell.SELL.multiplier == -1, 'sign multipliers')
    check({k.value: k.periods_per_year for k in u.CompoundingFreq} == dict(
        simple=None, continuous=None, daily=365, weekly=52, monthly=12, quarterly=4, semiannual=2, annual=1), 'periods per year')
    dpy = {k.value: k.days_per_year for k in u.DayCountBasis}
    check(math.isnan(dpy.pop('act/act')) and dpy == {'30/360': 360, '30e/360': 360, '30e/360_isda': 360, 'act/360': 360,
                                                   'act/365': 365, 'act/366': 366}, 'days per year')
    check(u.TimingConvention.fixing_default().value == 'in_advance' and u.TimingConvention.payment_default().value == 'in_arrears',
          'timing defaults')


@facet(FACETS, lambda: st.fixed_dictionaries(dict(f=st.sampled_from(sorted(ALIASES)), k=st.integers(-60, 60), d=st.dates(
    __import__('datetime').date(1990, 1, 1), __import__('datetime').date(2060, 12, 31)).map(str))),
    'k-fold frequency offsets; non-trivial: |k| > 1', quick=500)
def offset_multiples(c, r):
    import datetime as dt
    from frm.enums.utils import PeriodFreq
    from pbt.gen import add_months, D
    f = PeriodFreq(c['f'])
    if c['f'] == 'zerocoupon':
        check(f.date_offset is None and f.multiply_date_offset(c['k']) is None, 'zero coupon has no date offset')
        return
    u, n = {'daily': ('d', 1), 'weekly': ('d', 7), '28days': ('d', 28), 'monthly': ('m', 1), 'quarterly': ('m', 3),
            'semiannual': ('m', 6), 'annual': ('m', 12)}[c['f']]
    d = D(c['d'])
    exp = d + dt.timedelta(n * c['k']) if u == 'd' else add_months(d, n * c['k'])
    got = (pd.Timestamp(d) + f.multiply_date_offset(c['k'])).date() if c['k'] else d
    check(got == exp, f"{d} + {c['k']} x {c['f']} = {got}, expected {exp}")
    check((pd.Timestamp(d) + f.date_offset).date() == (d + dt.timedelta(n) if u == 'd' else add_months(d, n)), 'unit offset')
    r.nt(abs(c['k']) > 1)
