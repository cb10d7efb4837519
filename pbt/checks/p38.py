"""P38 fixed and zero-coupon legs and swaps: value, accrued interest, par rates and buckets under any order of calls."""
import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises
from pbt.gen import add_days, np_dates, fl, D
from pbt import sched as S
from pbt.checks.p01 import ref_yf, BASES, basis

FACETS = []
CF = ['simple', 'annual', 'semiannual', 'quarterly', 'monthly', 'daily', 'continuous']
OPS = ['dirty', 'accrued', 'clean', 'par', 'target', 'split', 'buckets', 'vd']


@st.composite
def leg(draw, kinds=('fixed', 'zero')):
    c = draw(S.sched(max_periods=8))
    c['rollflag'] = False
    c['kind'] = draw(st.sampled_from(kinds))
    c['dir'] = draw(st.sampled_from(['pay', 'rcv']))
    c['vals'] = draw(st.lists(fl(1, 1e6), min_size=1, max_size=3)) if draw(st.booleans()) else [draw(fl(1, 1e8))]
    c['ex'] = draw(st.sampled_from(['neither', 'start', 'end', 'both']))
    c['delay'], c['cdelay'] = draw(st.sampled_from([0, 0, 2, 5])), draw(st.sampled_from([0, 2, 5, 12]))
    c['adv'], c['cadv'] = draw(st.booleans()), draw(st.booleans())
    c['init'] = draw(st.sampled_from([None, None, -3, 2]))
    c['basis'] = draw(st.sampled_from(BASES))
    c['rates'] = [round(x, 5) for x in draw(st.lists(st.floats(-0.02, 0.15), min_size=1, max_size=4))]
    c['cf'] = draw(st.sampled_from(CF))
    return c


@st.composite
def case(draw, nlegs=1):
    c = dict(legs=[draw(leg()) for _ in range(nlegs)])
    c['vd'] = draw(st.floats(-0.2, 1.05))
    c['at'] = draw(st.sampled_from(['free', 'free', 'period', 'coupon', 'notional', 'year']))
    c['k'] = draw(st.integers(0, 30))
    c['lag'] = draw(st.sampled_from([0, 0, 1, 40]))
    c['incl'], c['limit'] = draw(st.booleans()), draw(st.sampled_from([False, False, True]))
    c['curve'] = [round(x, 4) for x in draw(st.lists(st.floats(-0.01, 0.1), min_size=4, max_size=4))]
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.floats(-1, 1).map(lambda x: round(x, 3))).map(list), min_size=2, max_size=7))
    return c


def growth(cf, z, t):
    """Value of one unit invested for t years at zero rate z."""
    if cf == 'simple':
        return 1 + z * t
    if cf == 'continuous':
        return np.exp(z * t)
    m = dict(annual=1, semiannual=2, quarterly=4, monthly=12, daily=365)[cf]
    return (1 + z / m) ** (m * t)


def schedule(c):
    from frm.enums.utils import ExchangeNotionals, TimingConvention
    from frm.utils.schedule import CouponSchedule, BaseSchedule
    kw = S.kwargs(c)
    b = S.bounds(BaseSchedule(**kw).df)
    n = len(b) - 1
    v = [c['vals'][i % len(c['vals'])] for i in range(n)]
    t = lambda adv: TimingConvention.IN_ADVANCE if adv else TimingConvention.IN_ARREARS
    init = None if c['init'] is None else pd.Timestamp(add_days(c['start'], c['init']))
    sch = CouponSchedule(**kw, notional_amount=v[0] if len(c['vals']) == 1 else np.array(v), exchange_notionals=ExchangeNotionals(c['ex']),
                         notional_payment_delay=c['delay'], notional_payment_timing=t(c['adv']), initial_notional_exchange_date=init,
                         coupon_payment_delay=c['cdelay'], coupon_payment_timing=t(c['cadv']))
    return sch, n


class Model:
    """Cash flows of the leg, taken from its schedule (whose correctness is P05-P07) before the leg is built on it."""

    def __init__(self, c, sch, n):
        df = sch.df
        self.c, s = c, -1 if c['dir'] == 'pay' else 1
        self.rows = []
        one = len(c['rates']) == 1
        rates = [c['rates'][i % len(c['rates'])] for i in range(n)]
        self.arg = rates[0] if one else np.array(rates)
        cols = [np_dates(df[x]) for x in ('period_start', 'period_end', 'notional_payment_date', 'coupon_payment_date')]
        last = max(x for x in cols[1] if x is not None)
        i = 0
        for ps, pe, nd, cd, N, npay in zip(*cols, df['notional'], df['notional_payment'].astype(float)):
            if ps is None:
                self.rows.append(dict(ps=None, pe=None, nd=nd, cd=None, N=0.0, npay=s * npay, rate=0.0, yf=0.0))
            else:
                self.rows.append(dict(ps=ps, pe=pe, nd=nd, cd=cd, N=s * float(N), npay=s * npay, rate=rates[i],
                                      yf=float(ref_yf(ps, pe, c['basis'], pe == last))))
                i += 1

    def interest(self, r, rate, t):
        return r['N'] * (rate * t if self.c['kind'] == 'fixed' else growth(self.c['cf'], rate, t) - 1)

    def coupon(self, r, rate=None):
        return 0.0 if r['cd'] is None else self.interest(r, r['rate'] if rate is None else rate, r['yf'])

    def due(self, d, vd, incl):
        return d is not None and (d >= vd if incl else d > vd)

    def flows(self, vd, incl, rate=None):
        """(date, kind, amount) of everything still to be paid"""
        out = []
        for r in self.rows:
            if self.due(r['nd'], vd, incl):
                out.append((r['nd'], 'n', r['npay']))
            if self.due(r['cd'], vd, incl):
                out.append((r['cd'], 'c', self.coupon(r, rate)))
        return out

    def pv(self, df, vd, incl, rate=None):
        return sum(a * df(d) for d, _, a in self.flows(vd, incl, rate))

    def accrued(self, vd, incl, limit):
        acc = sum(self.interest(r, r['rate'], float(ref_yf(r['ps'], vd, self.c['basis'], False)))
                  for r in self.rows if r['ps'] is not None and r['ps'] <= vd < r['pe'])
        uns = sum(self.coupon(r) for r in self.rows if r['ps'] is not None and r['pe'] <= vd and self.due(r['cd'], vd, incl))
        return (uns if uns != 0 else acc) if limit else acc + uns

    def scale(self):
        return sum(abs(r['npay']) + abs(r['N']) * (1 + abs(r['rate'])) for r in self.rows)

    def dates(self):
        return [x for r in self.rows for x in (r['ps'], r['pe'], r['nd'], r['cd']) if x is not None]


def plus_years(d, n):
    try:
        return d.replace(year=d.year + n)
    except ValueError:
        return d.replace(year=d.year + n, day=28)


def setup(c, r):
    """Legs, models, curve and value date of a case."""
    from frm.enums.utils import PayRcv, CompoundingFreq
    from frm.instruments.leg import FixedLeg, ZerocouponLeg
    from frm.term_structures.zero_curve import ZeroCurve
    ms, objs = [], []
    for lc in c['legs']:
        sch, n = schedule(lc)
        m = Model(lc, sch, n)
        if max(x['yf'] for x in m.rows) > 9:
            r.discard()
        ms.append(m)
        objs.append((lc, sch))
    alld = [d for m in ms for d in m.dates()]
    lo, hi = min(alld), max(alld)
    vd = lo + datetime.timedelta(days=int(c['vd'] * (hi - lo).days))
    pool = {'period': [x['ps'] for m in ms for x in m.rows if x['ps']], 'coupon': [x['cd'] for m in ms for x in m.rows if x['cd']],
            'notional': [x['nd'] for m in ms for x in m.rows if x['nd']],
            'year': [plus_years(d, -(1 + c['k'] % 3)) for m in ms for x in m.rows for d in (x['cd'],) if d]}.get(c['at'])
    if pool:
        vd = pool[c['k'] % len(pool)]
    cd = vd - datetime.timedelta(days=c['lag'])
    span = max((hi - cd).days, 30) + 400
    pil = pd.DataFrame(dict(date=[pd.Timestamp(cd + datetime.timedelta(days=int(span * f))) for f in (0.1, 0.3, 0.6, 1.0)], zero_rate=c['curve']))
    zc = ZeroCurve(curve_date=pd.Timestamp(cd), pillar_df=pil, compounding_freq=CompoundingFreq.CONTINUOUS)
    legs = []
    for (lc, sch), m in zip(objs, ms):
        kw = dict(schedule=sch, discount_curve=zc, pay_rcv=PayRcv(lc['dir']), day_count_basis=basis(lc['basis']))
        if lc['kind'] == 'fixed':
            legs.append(FixedLeg(fixed_rate=m.arg, **kw))
        else:
            legs.append(ZerocouponLeg(zero_rate=m.arg, compounding_freq=CompoundingFreq(lc['cf']), **kw))
    memo = {}
    def df(d):
        if d not in memo:
            memo[d] = zc.get_discount_factors(pd.Timestamp(d))
        return memo[d]
    return legs, ms, df, vd


class settings:
    def __init__(self, c, vd):
        self.c, self.vd = c, vd

    def __enter__(self):
        import frm.utils as u
        self.old = u.VALUE_DATE, u.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV, u.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW
        u.VALUE_DATE, u.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV = pd.Timestamp(self.vd), self.c['incl']
        u.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = self.c['limit']
        return u

    def __exit__(self, *a):
        import frm.utils as u
        u.VALUE_DATE, u.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV, u.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = self.old


def check_solved(got, m, df, vd, incl, target, what, ctx):
    """got: the rate at which the remaining cash flows are worth target, NaN if there is none between -10% and 300%"""
    f = lambda x: m.pv(df, vd, incl, x) - target
    a, b, sc = f(-0.1), f(3.0), m.scale()
    if min(abs(a), abs(b)) < 1e-7 * sc or abs(a - b) < 1e-7 * sc:
        return
    if a * b > 0:
        check(np.isnan(got), f'{what}: a rate was returned although no rate between -10% and 300% gives the value', got=got, **ctx)
    else:
        check(not np.isnan(got), f'{what}: no rate found although one exists', **ctx)
        close(m.pv(df, vd, incl, got), target, f'{what}: value at the solved rate', atol=1e-9 * sc + 1e-10 * (abs(a) + abs(b)), got=got, **ctx)


@facet(FACETS, case, 'fixed and zero-coupon legs, several calls in any order; non-trivial: some cash flow past and some to come', quick=420, shards=4)
def leg_operations(c, r):
    (leg,), (m,), df, vd = setup(c, r)
    incl, limit = c['incl'], c['limit']
    col = 'fixed_rate' if m.c['kind'] == 'fixed' else 'zero_rate'
    fut = m.flows(vd, incl)
    r.nt(0 < len(fut) < sum((x['nd'] is not None) + (x['cd'] is not None) for x in m.rows))
    r.label(m.c['kind'], m.c['dir'])
    hi = max(m.dates())
    with settings(c, vd) as u:
        for op, x in c['ops']:
            ctx = dict(op=op, value_date=str(vd))
            sc = m.scale()
            ok = lambda g, e, msg: close(g, e, msg, rtol=1e-10, atol=1e-11 * sc, **ctx)
            if op == 'vd':
                vd = min(vd + datetime.timedelta(days=int(abs(x) * 300)), max(hi, vd))
                u.VALUE_DATE = pd.Timestamp(vd)
            elif op == 'dirty':
                ok(leg.calc_dirty_pv(), m.pv(df, vd, incl), 'dirty value')
                d = leg.schedule.df
                ok(d['coupon_payment'].to_numpy(dtype=float), [m.coupon(q) for q in m.rows], 'coupon payments of the schedule')
                ok(d['total_payment'].to_numpy(dtype=float), [m.coupon(q) + q['npay'] for q in m.rows], 'total payments of the schedule')
                ok(d['total_payment_pv'].to_numpy(dtype=float).sum(), m.pv(df, vd, incl), 'present values of the schedule')
            elif op == 'accrued':
                ok(leg.calc_accrued_interest(), m.accrued(vd, incl, limit), 'accrued interest')
            elif op == 'clean':
                ok(leg.calc_clean_pv(), m.pv(df, vd, incl) - m.accrued(vd, incl, limit), 'clean value')
            elif op == 'par':
                tgt = sum(a for d, k, a in m.flows(vd, incl) if k == 'n')
                check_solved(leg.par_solve(), m, df, vd, incl, tgt, 'par rate', ctx)
            elif op == 'target':
                tgt = m.pv(df, vd, incl, 0.05 + 0.1 * x)
                check_solved(leg.target_solve(tgt), m, df, vd, incl, tgt, 'rate for a target value', ctx)
            elif op == 'split':
                cur, non = leg.get_current_non_current_split()
                y = pd.Timestamp(vd) + pd.DateOffset(years=1)
                near = lambda d: pd.Timestamp(d) <= y if incl else pd.Timestamp(d) < y
                fl_ = m.flows(vd, incl)
                ok(cur, sum(a * df(d) for d, _, a in fl_ if near(d)), 'current part')
                ok(non, sum(a * df(d) for d, _, a in fl_ if not near(d)), 'non-current part')
            elif op == 'buckets':
                bk = (1, 2, 3, 5) if x < 0.3 else (1,) if x < 0.6 else (2, 7)
                t = leg.bucket_payments() if bk == (1, 2, 3, 5) else leg.bucket_payments(buckets=bk)
                edges = [None] + [pd.Timestamp(vd) + pd.DateOffset(years=k) for k in bk] + [None]
                check(list(t.index) == list(bk) + [np.inf], 'bucket labels', got=list(t.index))
                fl_ = m.flows(vd, incl)
                for i, (lo, up) in enumerate(zip(edges, edges[1:])):
                    tot = 0.0
                    for k, name in (('c', 'coupon_payment'), ('n', 'notional_payment')):
                        e = sum(a for d, q, a in fl_ if q == k and (lo is None or pd.Timestamp(d) >= lo) and (up is None or pd.Timestamp(d) < up))
                        ok(float(t[name].iloc[i]), e, f'{name} in bucket {t.index[i]}')
                        tot += e
                    ok(float(t['total_payment'].iloc[i]), tot, 'total payment in a bucket')
            body = leg.schedule.df[leg.schedule.df['period_start'].notna()]
            close(body[col].to_numpy(dtype=float), [q['rate'] for q in m.rows if q['ps'] is not None], 'the contractual rate changed', **ctx)


@facet(FACETS, lambda: case(2), 'two legs of any kind; non-trivial: cash flows to come on both', quick=160, shards=2)
def swaps(c, r):
    from frm.instruments.swap import Swap
    legs, ms, df, vd = setup(c, r)
    if c['legs'][0]['dir'] == c['legs'][1]['dir']:
        r.label('same direction')
        check(raises(lambda: Swap(*legs)), 'a swap of two legs in the same direction was accepted')
        return
    incl, limit = c['incl'], c['limit']
    s = Swap(*legs)
    pvs = [m.pv(df, vd, incl) for m in ms]
    acc = [m.accrued(vd, incl, limit) for m in ms]
    r.nt(all(m.flows(vd, incl) for m in ms))
    sc = sum(m.scale() for m in ms)
    ok = lambda g, e, msg: close(g, e, msg, rtol=1e-10, atol=1e-11 * sc)
    with settings(c, vd):
        ok(s.calc_dirty_pv(), sum(pvs), 'dirty value of a swap')
        ok(s.calc_accrued_interest(), sum(acc), 'accrued interest of a swap')
        par = s.par_solve_each_leg()
        for p, m in zip(par, ms):
            tgt = sum(a for d, k, a in m.flows(vd, incl) if k == 'n')
            check_solved(p, m, df, vd, incl, tgt, 'par rate of a swap leg', {})
        ok(s.calc_clean_pv(), sum(pvs) - sum(acc), 'clean value of a swap')


@facet(FACETS, case, 'rates of the wrong length, missing curve; non-trivial: all', quick=60)
def invalid_rejected(c, r):
    from frm.enums.utils import PayRcv
    from frm.instruments.leg import FixedLeg, ZerocouponLeg
    lc = c['legs'][0]
    sch, n = schedule(lc)
    cls, col = (FixedLeg, 'fixed_rate') if lc['kind'] == 'fixed' else (ZerocouponLeg, 'zero_rate')
    r.nt(True)
    kw = dict(schedule=sch, pay_rcv=PayRcv(lc['dir']), day_count_basis=basis(lc['basis']))
    if c['k'] % 2:
        bad = n + 1 if c['k'] % 3 else max(n - 1, 2) if n != 2 else 3
        check(raises(lambda: cls(**kw, **{col: np.full(bad, 0.03)})), 'a vector of rates of the wrong length was accepted', periods=n, given=bad)
    else:
        leg = cls(**kw, **{col: 0.03})
        from frm.utils import MarketDataNotAvailableError
        with settings(c, D(lc['start'])):
            check(raises(leg.calc_dirty_pv, MarketDataNotAvailableError), 'a value without a discount curve')
