"""P14 swap curves stitch historical fixings and curve forwards at the curve date."""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, add_days, fl
from pbt import curves as C
from pbt.checks import p13 as H

FACETS = []
ONE = dt.timedelta(1)


@st.composite
def case(draw):
    c = draw(C.curve(xs=['date', 'days'], bases=['act/360', 'act/365'], maxdays=1600, t0=False, interps=['linear_on_ln_discount']))
    c['cal'] = dict(mask='1111100', hols=[])
    c['h'] = draw(H.history(lo=add_days(c['cd'], -160), span=159))
    n = draw(st.integers(1, 5))
    ln = draw(st.sampled_from([110, 110, 110, 900]))
    c['ps'] = [[draw(st.one_of(st.integers(-150, 60), st.integers(-20, 20))), draw(st.integers(1, ln))] for _ in range(n)]
    if draw(st.integers(0, 3)) == 0:
        # many periods in one request
        k = draw(st.integers(2, 9))
        c['ps'] = c['ps'] + [[max(a - 11 * i, -150), l + 5 * i] for i in range(1, k) for a, l in c['ps']]
    c['method'] = draw(st.sampled_from(['daily_compounded', 'daily_compounded', 'weighted_average', 'simple_average']))
    return c


def setup(c, r):
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    n = (ref.last_day() - ref.cd).days
    cd = ref.cd
    fm = {d: v for d, v in H.fixing_map(c['h']).items() if d < cd}
    last = max(fm)
    # a fixing exists for the last weekday before the curve date
    if any((last + ONE * i).weekday() < 5 for i in range(1, (cd - last).days)):
        fm[cd - ONE * next(i for i in range(1, 8) if (cd - ONE * i).weekday() < 5)] = 0.0123
    ps = [(cd + ONE * a, cd + ONE * (a + l)) for a, l in c['ps']]
    ps = [(s, min(e, cd + ONE * n)) for s, e in ps]
    ps = [(s, e) for s, e in ps if e > s and s >= min(fm)]
    if not ps:
        r.discard()
    return ref, cd, fm, ps


@facet(FACETS, case, 'past, future and current periods in one request; non-trivial: a period contains the curve date', quick=400, shards=4)
def rfr_periods(c, r):
    from frm.enums import DayCountBasis, RFRFixingCalcMethod
    from frm.term_structures.historical_swap_index_fixings import RFRFixings
    from frm.term_structures.swap_curve import RFRSwapCurve
    ref, cd, fm, ps = setup(c, r)
    b = DayCountBasis(c['basis'])
    dpy = b.days_per_year
    zc = C.build(c, ref)
    sc = RFRSwapCurve(zc, RFRFixings(H.frame(fm, c['h']['shuffle']), b))
    P = lambda d: float(np.exp(ref.ln_df(C.yf(cd, d, c['basis']))))

    def fwd(s, e):
        if c['method'] == 'daily_compounded':
            return (P(s) / P(e) - 1) / C.yf(s, e, c['basis'])
        v = [(P(s + ONE * i) / P(s + ONE * (i + 1)) - 1) * dpy for i in range((e - s).days)
             if c['method'] == 'weighted_average' or (s + ONE * i).weekday() < 5]
        return float(np.mean(v)) if v else float('nan')

    exp = []
    for s, e in ps:
        if e <= cd:
            exp.append(H.coupon(fm, s, e, c['method'], dpy))
        elif s >= cd:
            exp.append(fwd(s, e))
        else:
            h, f = H.coupon(fm, s, cd, c['method'], dpy), fwd(cd, e)
            a, z = C.yf(s, cd, c['basis']), C.yf(cd, e, c['basis'])
            if c['method'] == 'daily_compounded':
                exp.append(((1 + h * a) * (1 + f * z) - 1) / (a + z))
            else:
                exp.append((h * a + f * z) / (a + z))
    if np.isnan(exp).any():
        r.discard()
    got = sc.get_fixings(pd.DatetimeIndex([p[0] for p in ps]), pd.DatetimeIndex([p[1] for p in ps]), RFRFixingCalcMethod(c['method']))
    check(len(got) == len(ps), 'one rate per period')
    close(got, exp, f"{c['method']} rates: past periods from fixings, future ones from the curve, the current one from both", 1e-6, 1e-8,
          periods=[(str(s), str(e)) for s, e in ps], curve_date=str(cd))
    d = pd.DatetimeIndex([cd, cd + ONE * 30])
    close(sc.get_discount_factors(d), zc.get_discount_factors(dates=d), 'discount factors come from the curve', 0, 0)
    r.label(c['method'], *('past' if e <= cd else 'future' if s >= cd else 'current' for s, e in ps))
    r.nt(any(s < cd < e for s, e in ps))


@facet(FACETS, case, 'term index periods before and after the curve date; non-trivial: both kinds in one request', quick=250, shards=2)
def term_periods(c, r):
    from frm.enums import DayCountBasis, TermRate, PeriodFreq
    from frm.term_structures.historical_swap_index_fixings import TermFixings
    from frm.term_structures.swap_curve import TermSwapCurve
    ref, cd, fm, ps = setup(c, r)
    b = DayCountBasis(c['basis'])
    zc = C.build(c, ref)
    sc = TermSwapCurve(zc, TermFixings(H.frame(fm, c['h']['shuffle']), b))
    P = lambda d: float(np.exp(ref.ln_df(C.yf(cd, d, c['basis']))))
    fwd = {TermRate.SIMPLE: lambda g, t: (g - 1) / t, TermRate.CONTINUOUS: lambda g, t: np.log(g) / t, TermRate.ANNUAL: lambda g, t: g ** (1 / t) - 1}
    for m, f in fwd.items():
        exp = [H.on(fm, s) if s < cd else f(P(s) / P(e), C.yf(s, e, c['basis'])) for s, e in ps]
        got = sc.get_fixings(pd.DatetimeIndex([p[0] for p in ps]), pd.DatetimeIndex([p[1] for p in ps]), PeriodFreq.QUARTERLY, m)
        close(got, exp, 'term rates: periods started before the curve date are fixed historically, later ones are forwards', 1e-6, 1e-8,
              kind=m.value, periods=[(str(s), str(e)) for s, e in ps], curve_date=str(cd))
    r.nt(any(s < cd for s, _ in ps) and any(s >= cd for s, _ in ps))


@facet(FACETS, case, 'fixings and curve on different day count bases; non-trivial: all', quick=40)
def basis_mismatch_rejected(c, r):
    from frm.enums import DayCountBasis
    from frm.term_structures.historical_swap_index_fixings import TermFixings, RFRFixings
    from frm.term_structures.swap_curve import TermSwapCurve, RFRSwapCurve
    ref, cd, fm, ps = setup(c, r)
    zc = C.build(c, ref)
    o = DayCountBasis.ACT_365 if c['basis'] == 'act/360' else DayCountBasis.ACT_360
    check(raises(lambda: RFRSwapCurve(zc, RFRFixings(H.frame(fm), o))), 'fixings of another basis were accepted')
    check(raises(lambda: TermSwapCurve(zc, TermFixings(H.frame(fm), o))), 'fixings of another basis were accepted')
    r.nt()
