"""P36: interest-rate option quotes: strike columns and settlement date."""
import datetime as dt
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import gen
from pbt.core import facet, check, close, raises

FACETS = []
OTHER = ['tenor', 'expiry', 'F', 'beta', 'ln_shift', 'effective_date', 'settlement_date', 'last_optionlet_expiry_date', 'termination_date',
         'term_years', 'last_optionlet_expiry_years', 'comment']
ATM = ['atm', 'atmf', 'at the money', 'at-the-money', 'at the money forward', 'at-the-money-forward', 'atm forward', 'atm f', 'atm-forward']


@st.composite
def spell(draw, k):
    """one spelling of k tenths of a basis point"""
    a = abs(k)
    unit = draw(st.sampled_from(['bps', 'bps', 'bp', '%', '%']))
    if unit == '%':
        num = f'{a // 1000}.{a % 1000:03d}'
        num = num.rstrip('0').rstrip('.') if draw(st.booleans()) else num.rstrip('0') + ('0' if num.endswith('000') or draw(st.booleans()) else '')
        if num.endswith('.'):
            num += '0'
    else:
        num = f'{a // 10}' + (f'.{a % 10}' if a % 10 else draw(st.sampled_from(['', '', '.0'])))
    sign = '-' if k < 0 else draw(st.sampled_from(['', '+']))
    sp1 = draw(st.sampled_from(['', '', ' '])) if sign else ''
    sp2 = draw(st.sampled_from(['', '', ' ']))
    s = sign + sp1 + num + sp2 + unit
    return draw(gen.rnd_case(s)) if draw(st.integers(0, 3)) == 0 else s


@st.composite
def s_cols(draw):
    rel = draw(st.booleans())
    whole = st.integers(-300, 300).map(lambda i: 10 * i)
    ks = draw(st.lists(st.one_of(whole, whole, st.integers(-5000, 5000)) if rel else st.one_of(whole.map(abs), st.integers(0, 9999)),
                       min_size=1, max_size=7, unique=True))
    if rel:
        ks = [k for k in ks if k] or [10]
    ks = [(k, draw(spell(k))) for k in ks]
    cols = [dict(kind='q', k=k, s=s) for k, s in ks]
    cols += [dict(kind='o', s=s) for s in draw(st.lists(st.sampled_from(OTHER), max_size=5, unique=True))]
    if rel:
        a = draw(st.sampled_from(ATM))
        cols.append(dict(kind='a', s=draw(gen.rnd_case(a)) if draw(st.booleans()) else a))
    cols = draw(st.permutations(cols))
    return dict(rel=rel, cols=list(cols))


@facet(FACETS, s_cols, 'a quote in percent or basis points with at least one other column', quick=1500)
def strike_columns(c, r):
    from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names as frel, standardise_absolute_quote_col_names as fab
    f = frel if c['rel'] else fab
    cols = [x['s'] for x in c['cols']]
    if len(set(cols)) < len(cols):
        r.discard()
    arg = list(cols)
    upd, val = f(arg)
    check(arg == cols, 'the list of column names was modified', before=cols, after=arg)
    q = [x for x in c['cols'] if x['kind'] == 'q']
    a = [x for x in c['cols'] if x['kind'] == 'a']
    check(set(upd) <= {x['s'] for x in q + a}, 'a column that is no quote is renamed', upd=upd)
    for x in a:
        check(upd.get(x['s']) == 'atmf', 'at-the-money column not recognised', col=x['s'], upd=upd)
    if c['rel']:
        check('atmf' in val and val['atmf'] == 0, 'the at-the-money quote has no zero offset', val=val)
    for x in q:
        check(x['s'] in upd, 'quote column not recognised', col=x['s'], upd=upd)
        n = upd[x['s']]
        check(n in val, 'renamed column without a value', col=x['s'], name=n, val=val)
        close(val[n], x['k'] / 1e5, 'value of a quote column', rtol=0, atol=1.5e-8, col=x['s'], name=n)
        m = re.fullmatch(r'([+-]?\d+(?:\.\d+)?)bps', n)
        check(m, 'a standardised quote column is not named in basis points', col=x['s'], name=n)
        close(float(m.group(1)), x['k'] / 10, 'the name of a standardised quote column contradicts its value', rtol=0, atol=1e-6, col=x['s'], name=n)
    check(len(set(upd.values())) == len(upd), 'two quote columns given the same name', upd=upd)
    check(set(val) == set(upd.values()), 'values for columns that do not exist', val=val, upd=upd)
    # standardised names are left as they are, whatever the spelling they came from
    again = [upd.get(s, s) for s in cols]
    upd2, val2 = f(list(again))
    check(all(k == v for k, v in upd2.items()), 'standardising is not idempotent', first=upd, second=upd2)
    check(val2 == val, 'standardising twice changes the values', first=val, second=val2)
    r.label('relative' if c['rel'] else 'absolute')
    if any('%' in x['s'] for x in q):
        r.label('percent')
    r.nt(len(cols) >= 2)


@st.composite
def s_pair(draw):
    k = draw(st.one_of(st.integers(-400, 400).map(lambda i: 10 * i), st.integers(-5000, 5000)).filter(bool))
    return dict(k=k, a=draw(spell(k)), b=draw(spell(k)), rel=draw(st.booleans()))


@facet(FACETS, s_pair, 'two different spellings of one strike', quick=600)
def spellings(c, r):
    from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names as frel, standardise_absolute_quote_col_names as fab
    f = (lambda s: frel([s, 'atmf'])) if c['rel'] else (lambda s: fab([s]))
    (ua, va), (ub, vb) = f(c['a']), f(c['b'])
    check(ua[c['a']] == ub[c['b']], 'two spellings of one strike get different names', a=c['a'], b=c['b'], name_a=ua[c['a']], name_b=ub[c['b']])
    check(va == vb, 'two spellings of one strike get different values', a=c['a'], b=c['b'], va=va, vb=vb)
    r.nt(c['a'] != c['b'])


@st.composite
def s_atm(draw):
    n = draw(st.sampled_from([0, 2, 2, 3]))
    cols = draw(st.lists(st.sampled_from(OTHER + ['+50bps', '-50bps', '1%']), min_size=1, max_size=5, unique=True))
    return dict(cols=list(draw(st.permutations(cols + draw(st.lists(st.sampled_from(ATM), min_size=n, max_size=n, unique=True))))), n=n)


@facet(FACETS, s_atm, 'no or several at-the-money columns', quick=150)
def one_atm(c, r):
    from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names as frel, standardise_atmf_quote_col_names as fatm
    for f in (frel, fatm):
        check(raises(lambda: f(list(c['cols'])), (AssertionError, ValueError)), f'{c["n"]} at-the-money columns accepted', cols=c['cols'])
    r.nt()


@st.composite
def s_settle(draw):
    cd = draw(gen.dates('2005-01-01', '2060-12-31'))
    return dict(cd=cd, cal=draw(gen.calendar_spec(gen.add_days(cd, -10), gen.add_days(cd, 40), 20)), delay=draw(st.integers(0, 10)),
                off=draw(st.integers(-20, 40)), how=draw(st.sampled_from(['delay', 'delay', 'date', 'none'])))


@facet(FACETS, s_settle, 'a delay across a holiday or weekend, or a settlement date', quick=500)
def settlement_date(c, r):
    from frm.term_structures.interest_rate_option_helpers import settlement_date_helper as f
    cd = pd.Timestamp(c['cd'])
    bc = gen.mkcal(c['cal'])
    r.label(c['how'])
    if c['how'] == 'none':
        check(raises(lambda: f(cd, None, None, bc), ValueError), 'neither settlement date nor delay accepted')
        r.nt()
        return
    if c['how'] == 'date':
        d = cd + pd.Timedelta(days=c['off'])
        if c['off'] < 0:
            check(raises(lambda: f(cd, d, None, bc), (AssertionError, ValueError)), 'settlement before the curve date accepted', settlement=d, curve=cd)
        else:
            check(pd.Timestamp(f(cd, d, None, bc)) == d, 'the given settlement date is not used', settlement=d)
        r.nt()
        return
    cal = gen.Cal(c['cal'])
    e = cal.shift(cal.following(gen.D(c['cd'])), c['delay'])
    got = pd.Timestamp(f(cd, None, c['delay'], bc)).date()
    check(got == e, 'settlement date is not the delay in business days after the curve date', expected=e, actual=got)
    r.nt((e - gen.D(c['cd'])).days != c['delay'])
