"""P13 coupon rates from historical fixings."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, add_days, dates, fl, Cal, reps

FACETS = []
ONE = dt.timedelta(1)


@st.composite
def history(draw, lo=None, span=None):
    """weekday fixings with random holidays; values vary by day"""
    lo = lo or draw(dates('2010-01-01', '2030-12-31'))
    span = span or draw(st.one_of(st.integers(30, 150), st.integers(30, 150), st.integers(30, 150), st.integers(300, 900)))
    hol = sorted(set(draw(st.lists(st.integers(1, span - 1), max_size=8))))
    vals = draw(st.lists(st.integers(-100, 800).map(lambda x: x / 1e4), min_size=1, max_size=9))
    return dict(lo=lo, span=span, hol=hol, vals=vals, shuffle=draw(st.integers(0, 1000)))


def fixing_map(h):
    lo = D(h['lo'])
    while lo.weekday() >= 5:
        lo += ONE
    hol = {D(h['lo']) + ONE * i for i in h['hol']} - {lo}
    out = {}
    for i in range(h['span'] + 3):
        d = D(h['lo']) + ONE * i
        if d >= lo and d.weekday() < 5 and d not in hol:
            out[d] = h['vals'][len(out) % len(h['vals'])] + 1e-4 * (len(out) % 7)
    return out


def frame(fm, shuffle=0):
    items = list(fm.items())
    if shuffle:
        import random
        random.Random(shuffle).shuffle(items)
    return pd.DataFrame({'date': [pd.Timestamp(d) for d, _ in items], 'fixing': [v for _, v in items]})


def on(fm, d):
    while d not in fm:
        d -= ONE
    return fm[d]


def coupon(fm, s, e, method, dpy):
    days = [s + ONE * i for i in range((e - s).days)]
    if method == 'simple_average':
        v = [fm[d] for d in days if d in fm]
        return float(np.mean(v)) if v else float('nan')
    v = [on(fm, d) for d in days]
    if method == 'weighted_average':
        return float(np.mean(v))
    return (math.prod(1 + x / dpy for x in v) - 1) * dpy / len(days)


@st.composite
def rfr(draw):
    h = draw(history())
    fm = fixing_map(h)
    first, last = min(fm), max(fm)
    n = (last - first).days
    ps = []
    for _ in range(draw(st.integers(1, 4))):
        a = draw(st.integers(0, n - 1))
        ps.append([a, draw(st.integers(1, n - a))])
    return dict(h=h, ps=ps, basis=draw(st.sampled_from(['act/360', 'act/365', 'act/366'])),
                method=draw(st.sampled_from(['daily_compounded', 'weighted_average', 'simple_average'])))


@facet(FACETS, rfr, 'observation periods inside random fixing histories; non-trivial: a period contains a day without a fixing',
       quick=700, shards=3)
def rfr_coupon_vs_reference(c, r):
    from frm.enums import DayCountBasis, RFRFixingCalcMethod
    from frm.term_structures.historical_swap_index_fixings import RFRFixings
    fm = fixing_map(c['h'])
    first = min(fm)
    ps = [(first + ONE * a, first + ONE * (a + l)) for a, l in c['ps']]
    b = DayCountBasis(c['basis'])
    exp = [coupon(fm, s, e, c['method'], b.days_per_year) for s, e in ps]
    if any(math.isnan(x) for x in exp):
        r.discard()
    f = frame(fm, c['h']['shuffle'])
    before = f.copy()
    obj = RFRFixings(f, b)
    got = obj.get_coupon_rates(pd.DatetimeIndex([p[0] for p in ps]), pd.DatetimeIndex([p[1] for p in ps]), RFRFixingCalcMethod(c['method']))
    close(got, exp, f"{c['method']} coupon rate", 1e-9, 1e-13, periods=[(str(s), str(e)) for s, e in ps])
    check(f.equals(before), 'the fixings were modified')
    # each period only depends on its own fixings
    for (s, e), x in zip(ps, exp):
        close(obj.get_coupon_rates(pd.DatetimeIndex([s]), pd.DatetimeIndex([e]), RFRFixingCalcMethod(c['method'])), x,
              'a coupon rate depends on the other periods asked for', 1e-9, 1e-13, period=(str(s), str(e)))
    lo = min(fm.values())
    hi = max(fm.values())
    if c['method'] != 'daily_compounded':
        check(np.asarray(got) >= lo - 1e-12, 'average below every fixing') or check(np.asarray(got) <= hi + 1e-12, 'average above every fixing')
    r.label(c['method'])
    r.nt(any(any((s + ONE * i) not in fm for i in range((e - s).days)) for s, e in ps))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(c=rfr(), k=st.integers(0, 3), n=st.integers(1, 40))),
       'observation periods outside the history; non-trivial: all', quick=200)
def missing_history_rejected(c, r):
    from frm.enums import DayCountBasis, RFRFixingCalcMethod
    from frm.term_structures.historical_swap_index_fixings import RFRFixings
    k, n, c = c['k'], c['n'], c['c']
    fm = fixing_map(c['h'])
    first, last = min(fm), max(fm)
    obj = RFRFixings(frame(fm, c['h']['shuffle']), DayCountBasis(c['basis']))
    # a whole business day after the last fixing / before the first one has no rate
    if k in (0, 3):
        s, e = first - ONE * n, first + ONE * 3
        bad = True
    else:
        s, e = last, last + ONE * (n + 1)
        bad = any((last + ONE * i).weekday() < 5 for i in range(1, n + 1))
    if not bad:
        r.discard()
    ok = (first, first + ONE * 5)
    P = [ok, (s, e)] if k >= 2 else [(s, e)]
    check(raises(lambda: obj.get_coupon_rates(pd.DatetimeIndex([p[0] for p in P]), pd.DatetimeIndex([p[1] for p in P]),
                                             RFRFixingCalcMethod(c['method']))), 'a period without fixings was given a coupon rate',
          period=(str(s), str(e)), first=str(first), last=str(last))
    f = frame(fm)
    check(raises(lambda: RFRFixings(f.rename(columns={'fixing': 'rate'}), DayCountBasis(c['basis']))), 'wrong fixing columns accepted')
    check(raises(lambda: RFRFixings(f, c['basis'])), 'a day count basis that is not one was accepted')
    r.nt()


@facet(FACETS, lambda: st.fixed_dictionaries(dict(h=history(), q=st.lists(st.integers(-5, 170), min_size=1, max_size=8), rep=reps())),
       'term fixing lookups in any order; non-trivial: a date without its own fixing', quick=500)
def term_fixing_lookup(c, r):
    from frm.enums import DayCountBasis
    from frm.term_structures.historical_swap_index_fixings import TermFixings
    fm = fixing_map(c['h'])
    f = frame(fm, c['h']['shuffle'])
    ds = [D(c['h']['lo']) + ONE * i for i in c['q']] * c.get('rep', 1)
    exp = [on(fm, d) if d >= min(fm) else float('nan') for d in ds]
    got = TermFixings(f, DayCountBasis.ACT_360).index_historical_fixings(pd.DatetimeIndex(ds))
    close(got, exp, 'term fixing is the latest fixing on or before the date, in the order asked', 0, 0, dates=[str(d) for d in ds])
    r.nt(any(d not in fm for d in ds))
