"""P16 FX forward curves: term structure dates and interpolation."""
import datetime as dt
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, dates, fl, calendar_spec, mkcal, Cal, add_months, add_days, rnd_case, np_dates, reps

FACETS = []
ONE = dt.timedelta(1)
TEN = {'sp': 0, '1d': 1, '3d': 3, '1w': 7, '2w': 14, '3w': 21, '1m': (1,), '2m': (2,), '3m': (3,), '6m': (6,), '9m': (9,), '1y': (12,), '15m': (15,),
       '1y6m': (18,), '2y': (24,), '3y': (36,), '5y': (60,), '10y': (120,)}
LONG = {'sp': ['SP', 'Spot'], '1d': ['1 Day'], '1w': ['1 Week', '1W'], '2w': ['2 weeks'], '1m': ['1 Month', '1MON'], '3m': ['3 months'],
        '1y': ['1 Year', '1 yr'], '2y': ['2 Years', '2YRS']}


@st.composite
def table(draw, kinds=('tenor', 'fixing', 'delivery', 'mixed', 'both')):
    cd = draw(dates('2000-01-01', '2060-12-31'))
    cal = draw(calendar_spec(add_days(cd, -10), add_days(cd, 900), 40))
    cd = Cal(cal).following(D(cd)).isoformat()
    n = draw(st.integers(1, 8))
    tens = draw(st.lists(st.sampled_from(sorted(TEN)), min_size=n, max_size=n, unique=True))
    rows = []
    tiny, small = draw(st.integers(0, 4)) == 0, st.integers(10 ** 6, 3 * 10 ** 7).map(lambda x: x / 1e9)  # e.g. JPY/USD
    kind = draw(st.sampled_from(kinds))
    for t in tens:
        k = kind if kind != 'mixed' else draw(st.sampled_from(['tenor', 'fixing', 'delivery', 'both']))
        rows.append(dict(t=t, sp=draw(st.sampled_from(LONG.get(t, []) + [t, t.upper()])), k=k, f=draw(st.integers(0, 900)), d=draw(st.integers(0, 9)),
                         x=draw(small if tiny else fl(0.5, 160, 6))))
    return dict(cd=cd, cal=cal, off=draw(st.integers(0, 3)), rows=rows, kind=kind, idx=draw(st.sampled_from([0, 4])))


def expect(c):
    cal, cd = Cal(c['cal']), D(c['cd'])
    out = []
    for w in c['rows']:
        if w['k'] == 'tenor':
            x = TEN[w['t']]
            raw = cd + ONE * x if isinstance(x, int) else add_months(cd, x[0])
            f = cal.following(raw)
            out.append((f, cal.shift(f, c['off']), w['x']))
        elif w['k'] == 'fixing':
            f = cd + ONE * w['f']
            out.append((f, cal.shift(cal.following(f), c['off']), w['x']))
        elif w['k'] == 'delivery':
            d = cd + ONE * (w['f'] + 5)
            out.append((cal.shift(cal.preceding(d), -c['off']), d, w['x']))
        else:
            f = cd + ONE * w['f']
            out.append((f, f + ONE * w['d'], w['x']))
    return out


def frame(c, exp):
    cols = {}
    ks = {w['k'] for w in c['rows']}
    if 'tenor' in ks:
        cols['tenor'] = [w['sp'] if w['k'] == 'tenor' else np.nan for w in c['rows']]
    if ks & {'fixing', 'both'}:
        cols['fixing_date'] = [pd.Timestamp(e[0]) if w['k'] in ('fixing', 'both') else pd.NaT for w, e in zip(c['rows'], exp)]
    if ks & {'delivery', 'both'}:
        cols['delivery_date'] = [pd.Timestamp(e[1]) if w['k'] in ('delivery', 'both') else pd.NaT for w, e in zip(c['rows'], exp)]
    cols['fx_forward_rate'] = [w['x'] for w in c['rows']]
    df = pd.DataFrame(cols)
    df.index = range(c['idx'], c['idx'] + len(df))
    return df


def build(c, exp):
    from frm.term_structures.fx_helpers import fx_forward_curve_helper
    df = frame(c, exp)
    before = df.copy(deep=True)
    out = fx_forward_curve_helper(fx_forward_curve_df=df, curve_date=pd.Timestamp(c['cd']), spot_offset=c['off'], cal=mkcal(c['cal']))
    check(df.equals(before) and list(df.columns) == list(before.columns), 'the caller\'s quotes were modified', before=before.to_dict('list'), after=df.to_dict('list'))
    return out


@facet(FACETS, table, 'quotes by tenor, fixing date, delivery date or a mixture; non-trivial: a date moved off a holiday', quick=500, shards=4)
def quote_dates(c, r):
    exp = expect(c)
    out = build(c, exp)
    got = list(zip(np_dates(out['fixing_date']), np_dates(out['delivery_date']), [float(x) for x in out['fx_forward_rate']]))
    check(sorted(got) == sorted(exp), 'fixing and delivery dates of the quotes', got=sorted(got), expected=sorted(exp), kind=c['kind'])
    check([g[1] for g in got] == sorted(g[1] for g in got), 'rows are in delivery date order')
    r.label(c['kind'])
    cal = Cal(c['cal'])
    r.nt(any(not cal.is_bd(D(c['cd']) + ONE * TEN[w['t']]) for w in c['rows'] if isinstance(TEN[w['t']], int)) or c['off'] > 0 and c['kind'] != 'tenor')


@st.composite
def interp(draw):
    c = draw(table(kinds=('tenor', 'fixing', 'delivery', 'both')))
    c['q'] = draw(st.lists(st.integers(-40, 1000), min_size=1, max_size=8))
    c['q'] = c['q'] * draw(reps()) if draw(st.integers(0, 9)) else list(range(-30, 1000))
    c['hit'] = draw(st.integers(0, 7))
    c['by'] = draw(st.sampled_from(['fixing_date', 'delivery_date']))
    c['flat'] = draw(st.booleans())
    c['cont'] = draw(st.sampled_from(['index', 'series']))
    c['hours'] = draw(st.sampled_from([0, 0, 0, 9, 17]))
    c['perm'] = draw(st.booleans())
    return c


@facet(FACETS, interp, 'interpolation before, inside and after the curve, unsorted and repeated dates; non-trivial: a date strictly between quotes',
       quick=500, shards=4)
def interpolation(c, r):
    from frm.term_structures.fx_helpers import interp_fx_forward_curve_df
    exp = expect(c)
    k = 0 if c['by'] == 'fixing_date' else 1
    pts = sorted((e[k], e[2]) for e in exp)
    if len({p[0] for p in pts}) < len(pts):
        r.discard()
    curve = build(c, exp)
    if c['perm']:
        curve = curve.iloc[::-1]
    cd = D(c['cd'])
    qs = [pd.Timestamp(cd + ONE * i) for i in c['q']] + [pd.Timestamp(pts[c['hit'] % len(pts)][0])]
    if c['hours']:
        qs = [q + pd.Timedelta(hours=c['hours'] * (i % 2)) for i, q in enumerate(qs)]
    x0 = [(p[0] - cd).days for p in pts]
    v = [p[1] for p in pts]
    t0 = pd.Timestamp(cd)
    ref = np.interp([(q - t0) / pd.Timedelta(days=1) for q in qs], x0, v)
    outside = np.array([q < pd.Timestamp(pts[0][0]) or q > pd.Timestamp(pts[-1][0]) for q in qs])
    if not c['flat']:
        ref = np.where(outside, np.nan, ref)
    d = pd.DatetimeIndex(qs)
    if c['cont'] == 'series':
        d = pd.Series(d, index=range(3, 3 + len(qs)), name='expiry_date')
    kw = dict(dates=d, date_type=c['by'])
    if not c['flat']:
        kw['flat_extrapolation'] = False
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        got = np.asarray(interp_fx_forward_curve_df(curve, **kw), dtype=float)
    if c['flat']:
        check(sum('extrapolation' in str(w.message) for w in ws) == len({q for q, o in zip(qs, outside) if o}), 'one warning per extrapolated date',
              warnings=[str(w.message)[:40] for w in ws][:5])
    check(got.shape == (len(qs),), 'one forward per date', shape=got.shape)
    close(got, ref, 'forward rates are linear in time between quotes, flat (or missing) outside', 1e-9, 1e-12, by=c['by'], dates=[str(q) for q in qs])
    r.label(c['by'], 'flat' if c['flat'] else 'none')
    r.nt(any(x0[0] < (q - t0).days < x0[-1] and (q - t0).days not in x0 for q in qs))


PAIRS = ['aud', 'eur', 'gbp', 'nzd', 'usd', 'jpy', 'chf', 'cad', 'sek']


@facet(FACETS, lambda: st.tuples(st.sampled_from(PAIRS), st.sampled_from(PAIRS), st.integers(0, 3)).flatmap(
    lambda t: rnd_case([f'{t[0]}{t[1]}', f'{t[0]}/{t[1]}', f' {t[0]}{t[1]} ', f'{t[0]}/{t[1]} '][t[2]]).map(lambda s: dict(s=s, a=t[0], b=t[1]))),
       'spellings of currency pairs; non-trivial: a pair involving usd', quick=200)
def currency_pairs(c, r):
    from frm.term_structures.fx_helpers import validate_ccy_pair
    if c['a'] == c['b']:
        r.discard()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = validate_ccy_pair(c['s'])
    check(tuple(got) == (c['a'] + c['b'], c['b'], c['a']), 'pair, domestic (quote) and foreign (base) currency', got=got)
    base = {'aud', 'eur', 'gbp', 'nzd'}
    unusual = (c['a'] == 'usd' and c['b'] in base) or (c['b'] == 'usd' and c['a'] not in base)
    check(bool(w) == unusual, 'an unconventional quotation is warned about, a conventional one is not', pair=c['s'])
    check(raises(lambda: validate_ccy_pair(c['s'].strip()[:-1])), 'malformed pair accepted')
    r.nt('usd' in (c['a'], c['b']))
