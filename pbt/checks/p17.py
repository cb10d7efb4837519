"""P17 FX volatility quotes: column spellings, strategy quotes, smile ordering."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl

FACETS = []


@st.composite
def spelled(draw, delta, kind, pad):
    s1, s2 = draw(st.sampled_from(['_', ' ', ''])), draw(st.sampled_from(['_', ' ', '']))
    d = f'{delta:02d}' if pad else str(delta)
    word = {'call': ['call', 'c'], 'put': ['put', 'p'], 'rr': ['risk_reversal', 'risk reversal', 'riskreversal', 'rr'], 'bf': ['butterfly', 'bf']}[kind]
    return d + s1 + draw(st.sampled_from(['delta', 'Δ'])) + s2 + draw(st.sampled_from(word))


@st.composite
def atm(draw):
    s = [draw(st.sampled_from(['_', ' ', ''])) for _ in range(4)]
    return (draw(st.sampled_from(['a', 'at'])) + s[0] + draw(st.sampled_from(['t', 'the'])) + s[1] + draw(st.sampled_from(['m', 'money'])) + s[2]
            + draw(st.sampled_from(['delta', 'Δ'])) + s[3] + 'neutral')


@st.composite
def quotes(draw):
    n = draw(st.integers(1, 5))
    ds = draw(st.lists(st.one_of(st.sampled_from([5, 10, 15, 25]), st.integers(1, 49)), min_size=n, max_size=n, unique=True))
    rows = draw(st.integers(1, 4))
    vec = lambda lo, hi: draw(st.lists(fl(lo, hi, 5), min_size=rows, max_size=rows))
    cols, spec = [], {}
    for d in ds:
        pad = draw(st.booleans()) and d < 10
        k = draw(st.sampled_from(['strategy', 'strategy', 'direct', 'both', 'call', 'put']))
        e = dict(kind=k)
        if k != 'direct':
            e['rr'], e['bf'] = vec(-0.05, 0.05), vec(-0.01, 0.03)
            cols.append([draw(spelled(d, 'rr', pad)), e['rr']])
            cols.append([draw(spelled(d, 'bf', pad)), e['bf']])
        for side in ('call', 'put'):
            if k in ('direct', 'both', side):
                e[side] = vec(0.03, 0.4)
                cols.append([draw(spelled(d, side, pad)), e[side]])
        spec[str(d)] = e
    a = vec(0.04, 0.4)
    cols.append([draw(atm()), a])
    cols.append(['tenor', [f'{i + 1}m' for i in range(rows)]])
    cols.append(['delta_convention', ['regular_spot'] * rows])
    perm = draw(st.permutations(list(range(len(cols)))))
    return dict(cols=[cols[i] for i in perm], spec=spec, atm=a, idx=draw(st.sampled_from([0, 3])))


def frame(c):
    df = pd.DataFrame({k: v for k, v in c['cols']})
    df.index = range(c['idx'], c['idx'] + len(df))
    return df


@facet(FACETS, quotes, 'quote tables with random spellings, direct and strategy quotes, any column order; non-trivial: a strategy quote',
       quick=700, shards=3)
def smile_from_quotes(c, r):
    from frm.term_structures.fx_helpers import clean_vol_quotes_column_names, solve_call_put_quotes_from_strategy_quotes, get_delta_smile_quote_details
    df = solve_call_put_quotes_from_strategy_quotes(clean_vol_quotes_column_names(frame(c)))
    det = get_delta_smile_quote_details(df)
    exp = {0.5: c['atm']}
    for d, e in c['spec'].items():
        d = int(d) / 100
        for side, sign in (('call', 1), ('put', -1)):
            exp[sign * d] = e[side] if side in e else [a + b + sign * x / 2 for a, b, x in zip(c['atm'], e['bf'], e['rr'])]
    got = {}
    sd = [float(x) for x in det['quotes_signed_delta']]
    check(len(det) == len(exp), 'one quote per delta, call and put, plus the at-the-money quote', got=list(det['quotes_column_names']))
    for name, x in zip(det['quotes_column_names'], sd):
        k = min(exp, key=lambda y: abs(y - x))
        close(x, k, 'signed delta of a quote', 1e-12, 0, column=name)
        got[k] = 1
        close(df[name].to_numpy(dtype=float), exp[k], 'call/put volatility of a quote', 1e-12, 1e-14, column=name)
    check(len(got) == len(exp), 'every quote appears exactly once')
    # low strikes (small delta puts) to high strikes (small delta calls)
    order = sorted(sd, key=lambda x: 1 / x)
    check(sd == order, 'quotes are ordered by strike', got=sd)
    for name, f in zip(det['quotes_column_names'], det['quotes_call_put_flag']):
        k = det.loc[det['quotes_column_names'] == name, 'quotes_signed_delta'].iloc[0]
        check(f == (1 if k > 0 else -1), 'call/put flag', column=name)
    check(list(df['tenor']) == [f'{i + 1}m' for i in range(len(df))], 'other columns are kept')
    r.label(*{e['kind'] for e in c['spec'].values()})
    r.nt(any(e['kind'] != 'direct' for e in c['spec'].values()))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(q=quotes(), k=st.sampled_from(['atm', 'rr', 'bf']))), 'incomplete quote tables; non-trivial: all', quick=150)
def incomplete_rejected(c, r):
    from frm.term_structures.fx_helpers import clean_vol_quotes_column_names, solve_call_put_quotes_from_strategy_quotes
    q = c['q']
    df = clean_vol_quotes_column_names(frame(q))
    word = {'atm': 'atm', 'rr': 'reversal', 'bf': 'butterfly'}[c['k']]
    drop = [x for x in df.columns if word in x]
    if not drop:
        r.discard()
    check(raises(lambda: solve_call_put_quotes_from_strategy_quotes(df.drop(columns=drop[:1]))), 'an incomplete set of quotes was accepted', missing=drop[:1])
    r.nt()


PAIRS = ['audusd', 'eurusd', 'gbpusd', 'nzdusd', 'usdjpy', 'usdcad', 'usdchf', 'usdmxn', 'eurgbp', 'audnzd', 'eurjpy', 'cadusd', 'jpyusd', 'usdaud', 'usdnzd']
CONV = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']


@facet(FACETS, lambda: st.fixed_dictionaries(dict(p=st.sampled_from(PAIRS), c=st.lists(st.sampled_from(CONV), min_size=1, max_size=5))),
       'delta conventions of currency pairs; non-trivial: an unconventional row', quick=200)
def convention_warnings(c, r):
    from frm.term_structures.fx_helpers import check_delta_convention
    n = len(c['c'])
    df = pd.DataFrame({'warnings': [''] * n, 'tenor': [f'{i}m' for i in range(n)], 'delta_convention': c['c']})
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = check_delta_convention(df, c['p'])
    reg = c['p'] in ('audusd', 'eurusd', 'gbpusd', 'nzdusd')
    exp = [('premium' in x) if reg else ('regular' in x and 'usd' in c['p'] and c['p'] not in ('usdaud', 'usdeur', 'usdgbp', 'usdnzd')) for x in c['c']]
    got = [bool(x) for x in out['warnings']]
    check(got == exp, 'rows whose delta convention is not the market\'s are flagged, no others', pair=c['p'], conv=c['c'], got=got)
    check(bool(w) == any(exp), 'a warning is raised exactly when a row is flagged')
    check(list(out['delta_convention']) == c['c'], 'conventions are not changed')
    r.nt(any(exp))


CCY = ['usd', 'aud', 'eur', 'gbp', 'nzd', 'jpy', 'cad', 'chf', 'mxn', 'sgd', 'cnh']


@facet(FACETS, lambda: st.fixed_dictionaries(dict(a=st.sampled_from(CCY), b=st.sampled_from(CCY), sp=st.sampled_from(['{}{}', '{}/{}', ' {}/{} ', '{}{} ']),
                                                  up=st.booleans())),
       'ordered pairs of currencies in any spelling; non-trivial: a pair quoted against the market order', quick=150)
def pair_order_warnings(c, r):
    from frm.term_structures.fx_helpers import validate_ccy_pair
    a, b = c['a'], c['b']
    if a == b:
        r.discard()
    s = c['sp'].format(a, b)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = validate_ccy_pair(s.upper() if c['up'] else s)
    check(tuple(got) == (a + b, b, a), 'the pair and its quote and base currency', got=got, pair=s)
    direct = ('aud', 'eur', 'gbp', 'nzd')  # quoted as usd per unit; every other currency is quoted per usd
    odd = (a == 'usd' and b in direct) or (b == 'usd' and a not in direct)
    check(bool(w) == odd, 'a warning is raised exactly for a pair quoted against the market order', pair=a + b, warned=[str(x.message) for x in w])
    for bad in (s.strip()[:-1], s.strip() + 'x', ''):
        try:
            validate_ccy_pair(bad)
        except Exception:
            continue
        fail('a currency pair of the wrong length was accepted', pair=bad)
    r.nt(odd)
