"""P04 FX spot-date resolution."""
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, raises
from pbt.gen import D, dates, calendar_spec, mkcal, Cal, add_days

FACETS = []
T1 = {'cad', 'php', 'rub', 'try'}
CC = ['aud', 'cad', 'chf', 'eur', 'gbp', 'jpy', 'nzd', 'php', 'rub', 'try', 'usd', 'zar', 'mxn', 'sek']


def conv(p):
    a, b = p[:3], p[3:]
    return 1 if (a == 'usd' and b in T1) or (b == 'usd' and a in T1) else 2


@st.composite
def pairs(draw):
    if draw(st.booleans()):
        x = draw(st.sampled_from(CC[:-1]))
        x = 'cad' if x == 'usd' else x
        p = ['usd', x]
        return ''.join(p if draw(st.booleans()) else p[::-1])
    a = draw(st.sampled_from(CC))
    b = draw(st.sampled_from([x for x in CC if x != a]))
    return a + b


@st.composite
def env(draw):
    d = draw(dates('2018-01-01', '2032-12-31'))
    lo = add_days(d, -20)
    return dict(pair=draw(pairs()), d=d, cal=draw(calendar_spec(lo, add_days(lo, 50), 20)),
                off=draw(st.integers(0, 6)))


def call(c, **kw):
    from frm.utils.tenor import resolve_fx_curve_dates
    return resolve_fx_curve_dates(ccy_pair=c['pair'], cal=mkcal(c['cal']), **kw)


def norm(t):
    return pd.Timestamp(t[0]).date(), int(t[1]), pd.Timestamp(t[2]).date()


@facet(FACETS, lambda: st.fixed_dictionaries(dict(p=pairs())), 'ordered currency pairs; non-trivial: one-day pairs',
       quick=200)
def convention_symmetric(c, r):
    from frm.utils.tenor import get_fx_spot_day_offset as f
    p = c['p']
    check(f(p) == f(p[3:] + p[:3]), 'the spot offset depends on the quotation direction', pair=p)
    check(f(p) == conv(p), 'spot offset is not the market convention', pair=p, got=f(p))
    r.nt(conv(p) == 1)


@facet(FACETS, env, 'curve date only; non-trivial: a holiday or weekend lies between curve and spot date', quick=500)
def spot_from_curve_date(c, r):
    cal = Cal(c['cal'])
    d = D(c['d'])
    n = conv(c['pair'])
    exp = cal.shift(cal.following(d), n)
    got = norm(call(c, curve_date=pd.Timestamp(c['d'])))
    check(got == (d, n, exp), f'got {got}, expected {(d, n, exp)}')
    # an explicitly requested spot lag wins over the market convention
    exp2 = cal.shift(cal.following(d), c['off'])
    got2 = norm(call(c, curve_date=pd.Timestamp(c['d']), spot_offset=c['off']))
    check(got2 == (d, c['off'], exp2), f'explicit spot_offset: got {got2}, expected {(d, c["off"], exp2)}')
    r.nt((exp - d).days > n)


@facet(FACETS, env, 'spot date only; non-trivial: a holiday or weekend lies between curve and spot date', quick=500)
def curve_date_from_spot(c, r):
    cal = Cal(c['cal'])
    s = D(c['d'])
    n = conv(c['pair'])
    exp = cal.shift(cal.preceding(s), -n)
    got = norm(call(c, spot_date=pd.Timestamp(c['d'])))
    check(got == (exp, n, s), f'got {got}, expected {(exp, n, s)}')
    if cal.is_bd(s):
        back = norm(call(c, curve_date=pd.Timestamp(exp)))
        check(back == (exp, n, s), f'curve date -> spot date does not invert spot date -> curve date: {back}')
    r.nt((s - exp).days > n)


@facet(FACETS, env, 'curve and spot date both given; non-trivial: offset at least one business day', quick=500)
def implied_offset(c, r):
    cal = Cal(c['cal'])
    d = D(c['d'])
    spot = cal.shift(cal.following(d), c['off'])
    if c['off'] == 0 and spot != d:
        r.discard()
    kw = dict(curve_date=pd.Timestamp(d), spot_date=pd.Timestamp(spot))
    got = norm(call(c, **kw))
    check(got == (d, c['off'], spot), f'got {got}, expected {(d, c["off"], spot)}')
    got = norm(call(c, spot_offset=c['off'], **kw))
    check(got == (d, c['off'], spot), f'consistent triple: got {got}, expected {(d, c["off"], spot)}')
    for wrong in (c['off'] + 1, c['off'] + 3, c['off'] - 1):
        check(raises(lambda: call(c, spot_offset=wrong, **kw), ValueError),
              f'spot offset {wrong} accepted although {d} -> {spot} is {c["off"]} business days')
    r.label(f'off{c["off"]}')
    r.nt(c['off'] > 0)
