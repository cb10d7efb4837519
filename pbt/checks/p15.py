"""P15 bootstrapping of cash deposits and bank bill futures."""
import calendar
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, dates, fl, calendar_spec, mkcal, Cal, add_months, add_days, rnd_case, np_dates
from pbt.curves import yf

FACETS = []
ONE = dt.timedelta(1)
TEN = {'on': 1, '1w': 7, '2w': 14, '3w': 21, '1m': (1,), '2m': (2,), '3m': (3,), '4m': (4,), '6m': (6,), '9m': (9,), '12m': (12,), '1y': (12,),
       '1y3m': (15,), '2y': (24,)}
SPELL = {'on': ['on', 'O/N', 'Overnight'], '1w': ['1w', '1 Week'], '1m': ['1m', '1 Month', '1MON'], '3m': ['3m', '3 months'], '6m': ['6M'],
         '1y': ['1y', '1 Year', '1YR']}
BAS = ['act/360', 'act/365', 'act/act']


@st.composite
def cash(draw, maxn=8):
    cd = draw(dates('2000-01-01', '2060-12-31'))
    cal = draw(calendar_spec(cd, add_days(cd, 800), 30))
    # the settlement date must be covered by an earlier maturity: on the curve date, or where the overnight deposit matures
    delay = draw(st.integers(0, 1))
    cal_ = Cal(cal)
    cd = cal_.following(D(cd)).isoformat()
    tens = draw(st.lists(st.sampled_from(sorted(TEN)), min_size=1, max_size=maxn, unique=True))
    if delay and 'on' not in tens:
        tens.append('on')
    rates = draw(st.lists(fl(-0.02, 0.12, 6), min_size=len(tens), max_size=len(tens)))
    sp = [draw(st.sampled_from(SPELL.get(t, [t, t.upper()]))) for t in tens]
    return dict(cd=cd, cal=cal, delay=delay, tens=tens, rates=rates, sp=sp, basis=draw(st.sampled_from(BAS)),
                byears=draw(st.sampled_from(['act/act', 'act/365'])), given_settle=draw(st.booleans()), explicit=draw(st.booleans()),
                idx=draw(st.sampled_from([0, 5])))


def ref_periods(c):
    cal, cd = Cal(c['cal']), D(c['cd'])
    settle = cal.shift(cd, c['delay'])
    out = []
    for t in c['tens']:
        eff = cd if t == 'on' else settle
        x = TEN[t]
        out.append((eff, cal.following(eff + ONE * x if isinstance(x, int) else add_months(eff, x[0]))))
    return settle, out


def interp_ln(X, Y, x):
    return float(np.interp(x, X, Y))


def ref_cash(c, ps):
    """[(df_eff, df_mat)] by the order of the quotes"""
    cd = D(c['cd'])
    order = sorted(range(len(ps)), key=lambda i: ps[i][1])
    X, Y = [0.0], [0.0]
    out = {}
    for i in order:
        e, m = ps[i]
        ye = yf(cd, e, c['byears'])
        de = 1.0 if e == cd else math.exp(interp_ln(X, Y, ye))
        dm = de / (1 + c['rates'][i] * yf(e, m, c['basis']))
        out[i] = (de, dm)
        X.append(yf(cd, m, c['byears']))
        Y.append(math.log(dm))
    return out, X, Y


def cash_df(c, ps):
    df = pd.DataFrame({'tenor': c['sp'], 'rate': c['rates']})
    if c['explicit']:
        df['effective_date'] = [pd.Timestamp(a) for a, _ in ps]
        df['maturity_date'] = [pd.Timestamp(b) for _, b in ps]
        if c['idx']:
            df = df.drop(columns='tenor')
    df.index = range(c['idx'], c['idx'] + len(df))
    return df


def run_cash(c, ps, settle):
    from frm.enums import DayCountBasis
    from frm.term_structures.bootstrap_helpers import cash_rates_quote_helper, bootstrap_cash_rates
    kw = dict(settlement_date=pd.Timestamp(settle)) if c['given_settle'] else dict(settlement_delay=c['delay'])
    h = cash_rates_quote_helper(cash_df(c, ps), curve_date=pd.Timestamp(c['cd']), day_count_basis=DayCountBasis(c['basis']),
                                cal=mkcal(c['cal']), **kw)
    periods = list(zip(np_dates(h['effective_date']), np_dates(h['maturity_date'])))
    rates = list(h['rate'])
    b = bootstrap_cash_rates(h.copy(), curve_date=pd.Timestamp(c['cd']), day_count_basis_years=DayCountBasis(c['byears']))
    return periods, rates, b


def distinct(ps):
    m = [p[1] for p in ps]
    return len(set(m)) == len(m) and all(b > a for a, b in ps)


@facet(FACETS, cash, 'deposit tables in any order with 0/1 day settlement; non-trivial: a delayed settlement with several tenors', quick=500,
       shards=4)
def cash_reprices(c, r):
    settle, ps = ref_periods(c)
    if not distinct(ps):
        r.discard()
    exp, _, _ = ref_cash(c, ps)
    periods, rates, b = run_cash(c, ps, settle)
    check([(str(x), str(y)) for x, y in periods] == [(str(x), str(y)) for x, y in ps], 'deposit periods', got=periods, expected=ps)
    check(len(b) == len(ps), 'one row per deposit')
    for k in range(len(b)):
        row = b.iloc[k]
        e, m = row['effective_date'].date(), row['maturity_date'].date()
        i = ps.index((e, m))
        close(row['rate'], c['rates'][i], 'quotes are kept with their period', 0, 0)
        de, dm = row['effective_date_discount_factor'], row['maturity_date_discount_factor']
        tau = yf(e, m, c['basis'])
        close((de / dm - 1) / tau, c['rates'][i], 'the bootstrapped discount factors do not reprice the deposit', 1e-8, 1e-10,
              effective=str(e), maturity=str(m))
        close([de, dm], exp[i], 'discount factors of the deposit\'s dates', 1e-10, 1e-12, effective=str(e), maturity=str(m))
    r.label('explicit' if c['explicit'] else 'tenors', f"delay{c['delay']}")
    r.nt(c['delay'] and len(ps) > 2)


@st.composite
def futures(draw):
    c = draw(cash(maxn=5))
    if '6m' not in c['tens']:
        c['tens'].append('6m')
        c['sp'].append('6M')
        c['rates'].append(draw(fl(0.0, 0.1, 6)))
    c['explicit'], c['idx'] = False, 0
    n = draw(st.integers(1, 8))
    c['first'] = draw(st.integers(5, 150))
    c['gap'] = draw(st.lists(st.integers(60, 120), min_size=n, max_size=n))
    c['len'] = draw(st.lists(st.integers(85, 95), min_size=n, max_size=n))
    c['price'] = draw(st.lists(fl(90, 101, 6), min_size=n, max_size=n))
    c['conv'] = draw(st.one_of(st.none(), st.lists(fl(-15, 40, 3), min_size=n, max_size=n)))
    c['perm'] = draw(st.permutations(list(range(n))))
    return c


@facet(FACETS, futures, 'strips of futures after a deposit curve, any row order; non-trivial: two or more contracts out of order', quick=300,
       shards=3)
def futures_reprice(c, r):
    from frm.enums import DayCountBasis
    from frm.term_structures.bootstrap_helpers import bootstrap_futures
    settle, ps = ref_periods(c)
    if not distinct(ps):
        r.discard()
    cd = D(c['cd'])
    _, X, Y = ref_cash(c, ps)
    _, _, b = run_cash(c, ps, settle)
    fs, s = [], cd + ONE * c['first']
    for g, l in zip(c['gap'], c['len']):
        fs.append((s, s + ONE * l))
        s += ONE * g
    first_cash = min(m for _, m in ps)
    mats = {m for _, m in ps} | {m for _, m in fs}
    if len(mats) < len(ps) + len(fs) or fs[0][0] < first_cash:
        r.discard()
    df = pd.DataFrame({'effective_date': [pd.Timestamp(a) for a, _ in fs], 'maturity_date': [pd.Timestamp(b_) for _, b_ in fs],
                       'price': c['price']})
    if c['conv']:
        df['convexity_bps'] = c['conv']
    df = df.iloc[c['perm']].reset_index(drop=True)
    out = bootstrap_futures(df.copy(), pd.Timestamp(c['cd']), b, DayCountBasis(c['basis']), DayCountBasis(c['byears']))
    check(len(out) == len(fs), 'one row per contract')
    order = sorted(range(len(fs)), key=lambda i: fs[i][0])
    exp = {}
    for i in order:
        e, m = fs[i]
        f = (100 - c['price'][i]) / 100 - (c['conv'][i] if c['conv'] else 0) / 1e4
        z = sorted(zip(X, Y))
        xs, ys = [a for a, _ in z], [a for _, a in z]
        x = yf(cd, e, c['byears'])
        if x <= xs[-1]:
            l = interp_ln(xs, ys, x)
        else:
            l = ys[-1] + (ys[-1] - ys[-2]) / (xs[-1] - xs[-2]) * (x - xs[-1])
        de = math.exp(l)
        dm = de / (1 + f * yf(e, m, c['basis']))
        exp[fs[i]] = (de, dm, f)
        X.append(yf(cd, m, c['byears']))
        Y.append(math.log(dm))
    for k in range(len(out)):
        row = out.iloc[k]
        key = (row['effective_date'].date(), row['maturity_date'].date())
        de, dm, f = exp[key]
        a, z = row['effective_date_discount_factor'], row['maturity_date_discount_factor']
        close((a / z - 1) / yf(*key, c['basis']), f, 'the bootstrapped discount factors do not reprice the future (price and convexity)',
              1e-7, 1e-9, contract=key)
        close([a, z], [de, dm], 'discount factors at the future\'s dates', 1e-9, 1e-12, contract=key)
    r.nt(len(fs) > 1 and list(c['perm']) != sorted(c['perm']))


MON = {'H': 3, 'M': 6, 'U': 9, 'Z': 12}


@st.composite
def asx(draw):
    n = draw(st.integers(1, 6))
    rows = draw(st.lists(st.tuples(st.sampled_from('HMUZ'), st.integers(2020, 2029)), min_size=n, max_size=n, unique=True))
    wide = draw(st.integers(0, 2))
    if wide:
        k = draw(st.integers(-20, 70))
        rows = [(m, y + (k if 2000 <= y + k else 0)) for m, y in rows]
    tick = []
    for m, y in rows:
        code = [str(y % 10), f'{y % 100:02d}', str(y)][wide]
        tick.append(draw(rnd_case('IR' + m)) + code + draw(st.sampled_from(['', ' '])))
    return dict(rows=rows, tick=tick, price=[draw(fl(90, 101, 6)) for _ in rows], idx=draw(st.sampled_from([0, 3])), form=draw(st.sampled_from(['ticker', 'ticker', 'months'])))


@facet(FACETS, asx, 'ASX 90 day bank bill tickers with 1, 2 or 4 digit years in any row order; non-trivial: rows out of date order', quick=300)
def asx_contracts(c, r):
    from frm.term_structures.bootstrap_helpers import futures_helper_asx_90day
    from frm.utils import get_busdaycal
    df = pd.DataFrame({'ticker': c['tick'], 'price': c['price']})
    if c['form'] == 'months':
        df = pd.DataFrame({'months': [MON[m] for m, _ in c['rows']], 'years': [y for _, y in c['rows']], 'price': c['price']})
    df.index = range(c['idx'], c['idx'] + len(df))
    out = futures_helper_asx_90day(df)
    check(len(out) == len(c['rows']), 'one row per contract')
    bc = get_busdaycal('AU-SYDNEY')
    for k, (m, y) in enumerate(c['rows']):
        mm = MON[m]
        fr = [w for w in calendar.Calendar().itermonthdates(y, mm) if w.month == mm and w.weekday() == 4]
        settle = fr[1]
        mat = add_months(settle, 3)
        while not np.is_busday(np.datetime64(mat), busdaycal=bc):
            mat += ONE
        row = out.iloc[k]
        got = {x: row[x].date() for x in ('settlement_date', 'effective_date', 'maturity_date', 'expiry_date')}
        check(got == dict(settlement_date=settle, effective_date=settle, maturity_date=mat, expiry_date=settle - ONE),
              'contract dates: settlement on the second Friday, 3 month bill from there, expiry the business day before',
              contract=f'{m}{y}', got=got, expected=(settle, mat))
        close(row['futures_rate'], (100 - c['price'][k]) / 100, 'futures rate', 1e-12)
    r.label(c['form'], f"{len(c['tick'][0].strip()) - 3} digit year")
    r.nt(c['rows'] != sorted(c['rows'], key=lambda x: (x[1], MON[x[0]])))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(k=st.integers(0, 2), m=st.sampled_from('FGJKNQVX'), y=st.integers(0, 9))),
       'contracts that do not exist; non-trivial: all', quick=60)
def unknown_contracts_rejected(c, r):
    from frm.term_structures.bootstrap_helpers import futures_helper_asx_90day
    t = [f"IR{c['m']}{c['y']}", f"XTH{c['y']}", f"IRH{c['y']}{c['y']}{c['y']}"][c['k']]
    check(raises(lambda: futures_helper_asx_90day(pd.DataFrame({'ticker': ['IRH4', t], 'price': [95.0, 95.0]}))), 'unknown contract accepted', ticker=t)
    r.nt()
