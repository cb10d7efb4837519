"""P12 forward rates of zero curves."""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, add_days, fl, calendar_spec, Cal
from pbt import curves as C

FACETS = []


@st.composite
def periods(draw, maxlen=2000, **kw):
    c = draw(C.curve(xs=['date', 'days', 'tenor'], **kw))
    n = draw(st.integers(1, 4))
    c['p'] = [[round(draw(st.floats(0, 0.95)), 4), draw(st.integers(1, maxlen))] for _ in range(n)]
    c['scalar'] = draw(st.booleans())
    lo = add_days(c['cd'], 0)
    c['hol'] = draw(calendar_spec(lo, add_days(lo, 300), 15))
    return c


def setup(c, r):
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    zc = C.build(c, ref)
    n = (ref.last_day() - ref.cd).days
    ps = []
    for a, l in c['p']:
        s = int(a * n)
        e = min(s + l, n)
        if e > s:
            ps.append((ref.cd + dt.timedelta(s), ref.cd + dt.timedelta(e)))
    ps = [p for p in ps if C.yf(p[0], p[1], c['basis']) > 0]
    if not ps:
        r.discard()
    if c['scalar']:
        ps = ps[:1]
    return ref, zc, ps


def call(zc, ps, f, scalar):
    if scalar:
        return zc.get_forward_rates(pd.Timestamp(ps[0][0]), pd.Timestamp(ps[0][1]), f)
    return zc.get_forward_rates(pd.DatetimeIndex([p[0] for p in ps]), pd.Series([pd.Timestamp(p[1]) for p in ps]), f)


@facet(FACETS, periods, 'forward periods on any curve; non-trivial: a period starting after the curve date', quick=400, shards=4)
def term_forwards(c, r):
    from frm.enums import TermRate, RFRFixingCalcMethod
    ref, zc, ps = setup(c, r)
    b = c['basis']
    P = lambda d: float(np.exp(ref.ln_df(C.yf(ref.cd, d, b))))
    for f, g in ((TermRate.SIMPLE, lambda m, t: (m - 1) / t), (RFRFixingCalcMethod.DAILY_COMPOUNDED, lambda m, t: (m - 1) / t),
                 (TermRate.CONTINUOUS, lambda m, t: np.log(m) / t), (TermRate.ANNUAL, lambda m, t: m ** (1 / t) - 1)):
        exp = [g(P(s) / P(e), C.yf(s, e, b)) for s, e in ps]
        got = call(zc, ps, f, c['scalar'])
        tol = [1e-8 + 1e-10 / C.yf(s, e, b) for s, e in ps]
        check(np.size(got) == len(ps), 'one forward rate per period', got=got)
        check(np.abs(np.asarray(got, float) - np.array(exp)) <= np.array(tol) + 1e-8 * np.abs(exp),
              f'{f} forward rate is not implied by the discount factors', got=got, exp=exp)
    # rolling a deposit over adjacent periods is the same as one long deposit
    s, e = ps[0]
    m = s + (e - s) // 2
    if s < m < e and C.yf(s, m, b) > 0 and C.yf(m, e, b) > 0:
        f = lambda x, y: float(zc.get_forward_rates(pd.Timestamp(x), pd.Timestamp(y), TermRate.SIMPLE)[0])
        acc = (1 + f(s, m) * C.yf(s, m, b)) * (1 + f(m, e) * C.yf(m, e, b))
        close(1 + f(s, e) * C.yf(s, e, b), acc, 'forward rates over adjacent periods do not compound to the long forward', 1e-8)
    r.label(c['interp'], 'scalar' if c['scalar'] else 'vector')
    r.nt(any(p[0] > ref.cd for p in ps))


@facet(FACETS, lambda: periods(maxlen=90, bases=['act/365', 'act/360', 'act/act', 'act/366'], maxdays=2500),
       'averaged overnight forwards with a random holiday calendar; non-trivial: the period contains a non-business day', quick=200, shards=3)
def averaged_forwards(c, r):
    from frm.enums import RFRFixingCalcMethod
    import calendar
    c = dict(c, cal=c['hol'])  # the curve's calendar decides which days are averaged
    ref, zc, ps = setup(c, r)
    cal = Cal(c['hol'])
    one = dt.timedelta(1)
    P = lambda d: float(np.exp(ref.ln_df(C.yf(ref.cd, d, c['basis']))))
    dcf = lambda d: C.yf(d, d + one, c['basis'])
    nt = False
    wa, sa = [], []
    for s, e in ps:
        days = [s + one * i for i in range((e - s).days)]
        rate = {d: (P(d) / P(d + one) - 1) / dcf(d) for d in days}
        wa.append(np.mean([rate[d] for d in days]))
        bd = [rate[d] for d in days if cal.is_bd(d)]
        sa.append(np.mean(bd) if bd else float('nan'))
        nt = nt or len(bd) < len(days)
    close(call(zc, ps, RFRFixingCalcMethod.WEIGHTED_AVERAGE, c['scalar']), wa, 'weighted average of the daily forwards', 1e-6, 1e-8)
    close(call(zc, ps, RFRFixingCalcMethod.SIMPLE_AVERAGE, c['scalar']), sa, 'simple average over business days', 1e-6, 1e-8)
    r.label(c['basis'])
    r.nt(nt)


@facet(FACETS, lambda: st.tuples(C.curve(interps=C.INTERP[1:]), st.lists(st.floats(0.02, 0.98), min_size=1, max_size=4)).map(
    lambda t: dict(t[0], q=[round(x, 4) for x in t[1]])), 'instantaneous forwards on spline curves; non-trivial: all', quick=240, shards=2)
def instantaneous_forward(c, r):
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    zc = C.build(c, ref)
    T = ref.st[-1]
    t = np.array([x * T for x in c['q']])
    h = 1e-4
    t = t[(t > 2 * h) & (t < T - 2 * h)]
    if not len(t):
        r.discard()
    ln = lambda x: np.log(np.asarray(zc.get_discount_factors(years=x), float))
    exp = -(ln(t + h) - ln(t - h)) / (2 * h)
    scale = 1 + np.max(np.abs(np.diff(ref.ln_df(np.linspace(0, T, 200)), 2))) * (200 / T) ** 3
    close(np.atleast_1d(zc.get_instantaneous_forward_rate(t)), exp, 'instantaneous forward is not the slope of -ln discount factor', 1e-5,
          1e-6 + 1e-6 * scale, interp=c['interp'])
    r.nt()


@facet(FACETS, lambda: periods(), 'invalid forward periods; non-trivial: all', quick=60)
def invalid_periods_rejected(c, r):
    from frm.enums import TermRate
    ref, zc, ps = setup(c, r)
    s, e = map(pd.Timestamp, ps[0])
    d1 = pd.Timedelta(days=1)
    check(raises(lambda: zc.get_forward_rates(e, s, TermRate.SIMPLE)), 'a period ending before it starts was accepted')
    from frm.enums import RFRFixingCalcMethod as M
    for f in (TermRate.CONTINUOUS, M.WEIGHTED_AVERAGE, M.SIMPLE_AVERAGE, M.DAILY_COMPOUNDED):
        check(raises(lambda: zc.get_forward_rates(pd.DatetimeIndex([s, e]), pd.DatetimeIndex([e, s]), f)), 'a vector with a reversed period was accepted',
              kind=str(f))
    check(raises(lambda: zc.get_forward_rates(pd.Timestamp(ref.cd) - d1, e, TermRate.SIMPLE)), 'a period starting before the curve was accepted')
    check(raises(lambda: zc.get_forward_rates(pd.DatetimeIndex([s, s]), pd.DatetimeIndex([e]), TermRate.SIMPLE)),
          'starts and ends of different length were accepted')
    check(raises(lambda: zc.get_forward_rates(s, e, 'simple')), 'an unknown rate type was accepted')
    r.nt()
