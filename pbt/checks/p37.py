"""P37: cap/floor quotes to optionlets: schedule, prices, stripped SABR smiles, optionlet pricing."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.optimize import brentq

from pbt import bs, curves, gen
from pbt.checks.p01 import basis
from pbt.checks.p29 import hagan
from pbt.core import facet, check, close, fail, raises, quiet

FACETS = []
PER = {'quarterly': 3, 'semiannual': 6}
TENORS = {'quarterly': [6, 9, 12, 18, 24, 36, 48], 'semiannual': [12, 18, 24, 36, 48, 60]}
OFFS = [-200, -150, -100, -75, -50, -25, 25, 50, 75, 100, 150, 200]


@st.composite
def market(draw, max_quotes=4, flat=None):
    cd = draw(gen.dates('2005-01-03', '2040-12-31', special=False))
    freq = draw(st.sampled_from(['quarterly', 'quarterly', 'semiannual']))
    tens = sorted(draw(st.lists(st.sampled_from(TENORS[freq]), min_size=1, max_size=max_quotes, unique=True)))
    lv = round(draw(gen.fl(0.01, 0.06, 4)), 5)
    sl = round(draw(gen.fl(-0.004, 0.008, 4)), 5)
    pts = ['1m', '3m', '6m', '1y', '2y', '3y', '5y', '7y']
    T = [1 / 12, .25, .5, 1, 2, 3, 5, 7]
    z = [round(lv + sl * (1 - math.exp(-t / 2)), 6) for t in T]
    crv = dict(x='tenor', cd=cd, pts=pts, y='zero_rate', z=z, cf=draw(st.sampled_from(['continuous', 'annual', 'semiannual'])),
               basis=draw(st.sampled_from(['act/365', 'act/360', 'act/act'])), interp=draw(st.sampled_from(curves.INTERP)),
               cal=dict(mask='1111100', hols=[]), perm=0)
    shift = draw(st.sampled_from([0.0, 0.01, 0.02, 0.03]))
    lo = min(z) - 0.004 + shift
    v0 = round(draw(gen.fl(0.2, 0.6, 3)) * lv / (lv + shift), 4)
    tau = max(PER[freq], tens[0] - PER[freq]) / 12
    wide = 2 * v0 * (lv + shift) * math.sqrt(tau)
    offs = [o for o in OFFS if o / 1e4 + lo > 0.004 and abs(o / 1e4) <= wide]
    if len(offs) < 2:
        offs = [o for o in (-10, -5) if o / 1e4 + lo > 0.003] + [5, 10]
    offs = sorted(draw(st.lists(st.sampled_from(offs), min_size=2, max_size=5, unique=True)))
    flat = draw(st.booleans()) if flat is None else flat
    m = dict(crv=crv, freq=freq, tens=tens, shift=shift, offs=offs, flat=flat, atm_pos=draw(st.integers(0, len(offs))),
             v0=v0, beta=1.0 if flat else draw(st.sampled_from([0.0, 0.5, 1.0])),
             rho=0.0 if flat else round(draw(gen.fl(-0.5, 0.5, 3)), 3), vv=0.0 if flat else round(draw(gen.fl(0.1, 0.5, 3)), 3),
             given_beta=draw(st.booleans()), perm=draw(st.integers(0, 1000)),
             cal=draw(gen.calendar_spec(cd, gen.add_days(cd, 1900), 25)), delay=draw(st.integers(0, 3)),
             own_settle=draw(st.sampled_from([None, None, 1, 3, 10])))
    if not m['flat'] and draw(st.integers(0, 3)) == 0:
        # betas by quote, some of them free
        m['given_beta'], m['betas'] = True, [draw(st.sampled_from([0.0, 0.3, 0.5, 0.8, 1.0, None])) for _ in tens]
    return m


def betas(m):
    return (m.get('betas') or [m['beta']] * len(m['tens'])) if m['given_beta'] else [None] * len(m['tens'])


class Ref:
    """Schedule, forwards and flat-volatility prices of the quotes by their definition"""

    def __init__(self, m):
        self.m = m
        self.c = curves.Ref(m['crv'])
        cal = gen.Cal(m['cal'])
        cd = self.cd = gen.D(m['crv']['cd'])
        b = m['crv']['basis']
        self.settle = cd + dt.timedelta(m['own_settle']) if m['own_settle'] else cal.shift(cal.following(cd), m['delay'])
        p = PER[m['freq']]
        n = m['tens'][-1] // p
        d = [cal.following(gen.add_months(self.settle, p * k)) for k in range(1, n + 1)]
        self.start, self.end = d[:-1], d[1:]
        self.term = [cal.following(gen.add_months(self.settle, t)) for t in m['tens']]
        self.last = [cal.following(gen.add_months(self.settle, t - p)) for t in m['tens']]
        self.yf = np.array([curves.yf(s, e, b) for s, e in zip(self.start, self.end)])
        self.tau = np.array([curves.yf(cd, s, b) for s in self.start])
        t1 = np.array([curves.yf(cd, e, b) for e in self.end])
        d0, d1 = np.exp(self.c.ln_df(self.tau)), np.exp(self.c.ln_df(t1))
        self.df = d1
        self.ann = self.yf * d1
        self.F = (d0 / d1 - 1) / self.yf
        self.nb = [next(i for i, q in enumerate(self.term) if e <= q) for e in self.end]
        self.qF = [float(np.sum((self.F * self.ann)[:k]) / np.sum(self.ann[:k])) for k in self.count()]
        self.cols = [f'{o}bps' for o in m['offs']]
        self.cols.insert(m['atm_pos'], 'atmf')
        self.off = [o / 1e4 for o in m['offs']]
        self.off.insert(m['atm_pos'], 0.0)

    def count(self):
        return [sum(1 for x in self.nb if x <= i) for i in range(len(self.term))]

    def vols(self):
        m = self.m
        out = []
        for i, t in enumerate(m['tens']):
            F = self.qF[i]
            if m['flat']:
                out.append([m['v0']] * len(self.off))
            else:
                b = m['beta'] if betas(m)[i] is None else betas(m)[i]
                a = m['v0'] * (F + m['shift']) ** (1 - b)
                out.append([round(hagan(t / 12, F, a, b, m['rho'], m['vv'], F + o, m['shift']), 6) for o in self.off])
        return out

    def quotes(self):
        m = self.m
        q = pd.DataFrame(self.vols(), columns=self.cols)
        q.insert(0, 'tenor', [f'{t // 12}y' if t % 12 == 0 else f'{t}m' for t in m['tens']])
        if m['given_beta']:
            q['beta'] = pd.array([float('nan') if b is None else b for b in betas(m)], dtype=float)
        if m['perm'] % 3:
            q = q.sample(frac=1, random_state=m['perm'])
            if m['perm'] % 2:
                q = q.reset_index(drop=True)
        return q


def usable(m, r):
    R = Ref(m)
    if R.settle.day > 28 or R.settle < R.cd:
        r.discard()
    if not R.c.ok() or R.c.last_day() < max(R.end):
        r.discard()
    if min(min(R.F), min(R.qF)) + min(R.off) + m['shift'] < 0.003:
        r.discard()
    return R


def build(m, R, q=None):
    from frm.enums import PeriodFreq
    from frm.term_structures.optionlet import Optionlet
    kw = dict(settlement_date=pd.Timestamp(R.settle)) if m['own_settle'] else dict(settlement_delay=m['delay'])
    with quiet(), np.errstate(all='ignore'):
        return Optionlet(curve_date=pd.Timestamp(R.cd), quote_vol_sln=R.quotes() if q is None else q, ln_shift=m['shift'],
                         zero_curve=curves.build(m['crv'], R.c), optionlet_freq=PeriodFreq(m['freq']), busdaycal=gen.mkcal(m['cal']), **kw)


def black_sum(R, k, K, v, cp, shift):
    return sum(R.ann[j] * bs.black(R.F[j] + shift, K + shift, v * math.sqrt(R.tau[j]), cp) for j in range(k))


@facet(FACETS, market, 'several quotes bootstrapped', quick=72, thorough=3000, shards=8, budget=110)
def bootstrap(m, r):
    R = usable(m, r)
    q0 = R.quotes()
    o = build(m, R, q0)
    check(q0.equals(R.quotes()), "the caller's quotes were modified", columns=list(q0.columns))
    ts, q = o.term_structure, o.quote_vol_sln
    N, P = len(m['tens']), len(R.start)
    # ---- schedule of the optionlets
    check(pd.Timestamp(o.settlement_date).date() == R.settle, 'settlement date', expected=R.settle, actual=o.settlement_date)
    check(gen.np_dates(ts['period_start']) == R.start and gen.np_dates(ts['period_end']) == R.end, 'optionlet periods',
          expected=list(zip(R.start, R.end)), actual=list(zip(gen.np_dates(ts['period_start']), gen.np_dates(ts['period_end']))))
    check(gen.np_dates(ts['payment_date']) == R.end, 'optionlets are not paid at the end of their period')
    check([int(x) for x in ts['quote_nb']] == R.nb, 'optionlets assigned to the wrong quote', expected=R.nb, actual=list(ts['quote_nb']))
    close(ts['expiry_years'], R.tau, 'optionlet expiry', rtol=1e-9, atol=1e-9)
    close(ts['period_yearfrac'], R.yf, 'optionlet year fraction', rtol=1e-9, atol=1e-9)
    close(ts['discount_factors'], R.df, 'discount factor', rtol=1e-9)
    close(ts['annuity_factor'], R.ann, 'annuity factor', rtol=1e-9)
    close(ts['F'], R.F, 'optionlet forward rate', rtol=1e-7, atol=1e-9)
    # ---- quotes
    check(gen.np_dates(q['termination_date']) == R.term, 'quote termination dates', expected=R.term, actual=gen.np_dates(q['termination_date']))
    check(gen.np_dates(q['last_optionlet_expiry_date']) == R.last, 'quote last optionlet expiry', expected=R.last)
    check(gen.np_dates(q['effective_date']) == [R.start[0]] * N, 'quote effective dates')
    check(set(o.quote_cols) == set(R.cols), 'quote columns', expected=R.cols, actual=o.quote_cols)
    close(q['F'], R.qF, 'forward rate of the quotes', rtol=1e-7, atol=1e-9)
    V = R.vols()
    rel = np.zeros((N, len(R.cols)))
    sabr = np.array(ts[['alpha', 'beta', 'rho', 'volvol']], dtype=float)
    check(np.isfinite(sabr).all(), 'SABR parameters missing', ts=ts[['alpha', 'beta', 'rho', 'volvol']])
    check((sabr[:, 0] > 0).all() and (sabr[:, 1] >= 0).all() and (sabr[:, 1] <= 1).all() and (np.abs(sabr[:, 2]) <= 1).all() and (sabr[:, 3] > 0).all(),
          'invalid SABR parameters', sabr=sabr)
    cnt = R.count()
    for i in range(N):
        k = cnt[i]
        for j, col in enumerate(R.cols):
            K = R.qF[i] + R.off[j]
            close(q.loc[i, col], V[i][j], 'quoted volatilities are not kept', rtol=1e-12, col=col)
            close(o.quote_strikes.loc[i, col], K, 'strike of a quote', rtol=1e-7, atol=1e-9, col=col)
            cp = int(o.quote_cp.loc[i, col])
            check(cp == (1 if R.off[j] > 0 else -1), 'out-of-the-money option type of a quote', col=col, cp=cp)
            px = black_sum(R, k, K, V[i][j], cp, m['shift'])
            close(o.quote_pxs.loc[i, col], px, 'price of a quote at its flat volatility', rtol=1e-6, atol=1e-12, col=col, tenor=m['tens'][i])
            vn = float(o.quote_vol_n.loc[i, col])
            pn = sum(R.ann[x] * bs.bachelier(R.F[x], K, vn * math.sqrt(R.tau[x]), cp) for x in range(k))
            close(pn, px, 'price at the equivalent normal volatility', rtol=3e-4, atol=1e-12, col=col, tenor=m['tens'][i], vol_n=vn)
            ps = sum(R.ann[x] * bs.black(R.F[x] + m['shift'], K + m['shift'], math.sqrt(R.tau[x]) *
                     hagan(R.tau[x], R.F[x], *sabr[x], K, m['shift']), cp) for x in range(k))
            h = 1e-4
            vega = (black_sum(R, k, K, V[i][j] + h, cp, m['shift']) - black_sum(R, k, K, V[i][j] - h, cp, m['shift'])) / (2 * h)
            rel[i, j] = (ps - px) / vega / V[i][j]
    # ---- volatilities at the money, intra-pillar interpolation
    vna = np.array(ts['vol_n_atm'], float)
    for x in range(P):
        v = float(ts.loc[x, 'vol_sln_atm'])
        f = R.F[x] + m['shift']
        close(bs.black(f, f, v * math.sqrt(R.tau[x]), 1), bs.bachelier(f, f, vna[x] * math.sqrt(R.tau[x]), 1),
              'lognormal and normal at-the-money optionlet volatilities price differently', rtol=1e-5, x=x)
        close(hagan(R.tau[x], R.F[x], *sabr[x], R.F[x], m['shift']), v, 'SABR smile misses the at-the-money optionlet volatility', rtol=1e-6, x=x)
    close(vna[:cnt[0]], [float(o.quote_vol_n.loc[0, 'atmf'])] * cnt[0], 'first optionlets do not have the first at-the-money volatility', rtol=1e-9)
    for i in range(N):
        lo, hi = (cnt[i - 1] - 1 if i else 0), cnt[i] - 1
        for nm in ('beta', 'rho', 'volvol', 'vol_n_atm'):
            y = np.array(ts[nm], float)
            if i == 0:
                close(y[:hi + 1], [y[0]] * (hi + 1), f'{nm} is not constant up to the first quote', rtol=1e-9)
            else:
                close(y[lo:hi + 1], np.interp(R.tau[lo:hi + 1], [R.tau[lo], R.tau[hi]], [y[lo], y[hi]]), f'{nm} is not linear between two quotes',
                      rtol=1e-8, atol=1e-10)
        if betas(m)[i] is not None:
            close(ts['beta'].iloc[hi], betas(m)[i], 'the given beta is not kept', rtol=1e-12)
    # ---- the at-the-money quotes are stripped: smile of the earlier optionlets, normal volatilities of the later ones
    for i in range(1, N):
        K, cp = R.qF[i], -1
        k0, k1 = cnt[i - 1], cnt[i]
        p0 = [R.ann[x] * bs.black(R.F[x] + m['shift'], K + m['shift'], math.sqrt(R.tau[x]) * hagan(R.tau[x], R.F[x], *sabr[x], K, m['shift']), cp)
              for x in range(k0)]
        x = k0 - 1
        vK = brentq(lambda v: R.ann[x] * bs.bachelier(R.F[x], K, v * math.sqrt(R.tau[x]), cp) - p0[x], 1e-6, 1.0, xtol=1e-12)
        w = np.interp(R.tau[k0:k1], [R.tau[x], R.tau[k1 - 1]], [vK, vna[k1 - 1]])
        p1 = sum(R.ann[y] * bs.bachelier(R.F[y], K, w[y - k0] * math.sqrt(R.tau[y]), cp) for y in range(k0, k1))
        px = black_sum(R, k1, K, V[i][R.cols.index('atmf')], cp, m['shift'])
        close(sum(p0) + p1, px, 'stripped at-the-money volatility does not reprice its quote', rtol=3e-4, tenor=m['tens'][i], vol=vna[k1 - 1])
    # the smiles are calibrated to relative prices with a loose tolerance; without a given beta more loosely still
    tol = 0.12 if m['given_beta'] and not m.get('betas') else 0.2
    r.label('flat' if m['flat'] else 'sabr', 'beta given' if m['given_beta'] else 'beta free')
    check(np.abs(rel).max() <= tol, 'the stripped smiles do not reprice the quotes', worst=float(np.abs(rel).max()), rel=rel.round(4), tol=tol)
    r.nt(N >= 2)


# ------------------------------------------------------------------------------------------------ pricing on a stripped surface
def _mk(cd, freq, tens, lv, sl, b, shift, offs, v0, beta, rho, vv, flat=False):
    T = [1 / 12, .25, .5, 1, 2, 3, 5, 7]
    crv = dict(x='tenor', cd=cd, pts=['1m', '3m', '6m', '1y', '2y', '3y', '5y', '7y'], y='zero_rate',
               z=[round(lv + sl * (1 - math.exp(-t / 2)), 6) for t in T], cf='continuous', basis=b, interp='linear_on_ln_discount',
               cal=dict(mask='1111100', hols=[]), perm=0)
    return dict(crv=crv, freq=freq, tens=tens, shift=shift, offs=offs, flat=flat, atm_pos=len(offs) // 2, v0=v0, beta=beta, rho=rho, vv=vv,
                given_beta=True, perm=0, cal=dict(mask='1111100', hols=[]), delay=2, own_settle=None)


SURF = [_mk('2024-04-01', 'quarterly', [12, 24, 48], 0.03, 0.006, 'act/365', 0.01, [-100, -50, 50, 100], 0.25, 0.5, -0.3, 0.4),
        _mk('2021-06-14', 'semiannual', [12, 36, 60], 0.015, 0.01, 'act/360', 0.02, [-50, -25, 25, 75], 0.2, 0.0, 0.2, 0.3),
        _mk('2030-01-07', 'quarterly', [9, 18, 36], 0.05, -0.005, 'act/act', 0.0, [-150, -75, 75, 150], 0.3, 1.0, -0.2, 0.35),
        _mk('2026-10-05', 'quarterly', [6, 12], 0.04, 0.0, 'act/365', 0.0, [-50, 50], 0.25, 1.0, 0.0, 0.0, True)]
_cache = {}


def surface(i):
    if i not in _cache:
        R = Ref(SURF[i])
        _cache[i] = (R, build(SURF[i], R))
    return _cache[i]


@st.composite
def s_price(draw):
    i = draw(st.integers(0, len(SURF) - 1))
    n = draw(st.integers(1, 8))
    per = draw(st.booleans())
    k = n if per else 1
    return dict(surf=i, at=draw(st.one_of(st.just(0.0), gen.fl(0, 1, 3))), grid=draw(st.booleans()), n=n, freq=draw(st.sampled_from(['monthly', 'quarterly', 'semiannual', 'annual'])),
                conv=draw(st.sampled_from(['following', 'modifiedfollowing', 'unadjusted'])), basis=draw(st.sampled_from(['act/365', 'act/360', '30/360', None])),
                delay=draw(st.sampled_from([0, 0, 2])), per=per, kind=draw(st.sampled_from(['list', 'array'])),
                m=[round(draw(gen.fl(-1.5, 1.5, 3)), 3) for _ in range(k)], cp=[draw(st.sampled_from([1, -1])) for _ in range(k)],
                v=round(draw(gen.fl(0.05, 0.6, 3)), 4), vn=round(draw(gen.fl(0.002, 0.02, 3)), 5), solve=draw(st.booleans()))


MONTHS = dict(monthly=1, quarterly=3, semiannual=6, annual=12)


def make(c):
    """schedule inside the surface, number of periods"""
    from frm.enums import PeriodFreq, RollConv
    from frm.utils import BaseSchedule
    R, o = surface(c['surf'])
    lo, hi = R.start[0], R.start[-1]
    s = R.start[int(c['at'] * (len(R.start) - 1))] if c['grid'] else lo + dt.timedelta(int(c['at'] * (hi - lo).days))
    p, n = MONTHS[c['freq']], 0
    while n < c['n'] and gen.add_months(s, p * n) <= hi - dt.timedelta(5) + dt.timedelta(5 if n == 0 else 0) and gen.add_months(s, p * (n + 1)) <= R.c.last_day() - dt.timedelta(12):
        n += 1
    if n == 0:
        return R, o, None, 0
    sch = BaseSchedule(start_date=pd.Timestamp(s), end_date=pd.Timestamp(gen.add_months(s, p * n)), freq=PeriodFreq(c['freq']), roll_conv=RollConv(c['conv']),
                       cal=gen.mkcal(SURF[c['surf']]['cal']))
    sch.add_payment_dates(payment_delay=c['delay'])
    return R, o, sch, n


def alpha_of(tau, F, b, rho, v, atm, shift):
    f = F + shift
    lo = atm * f ** (1 - b)
    return brentq(lambda a: hagan(tau, F, a, b, rho, v, F, shift) - atm, 0.2 * lo, 3 * lo, xtol=1e-14)


@facet(FACETS, s_price, 'several optionlets or one away from the pillars', quick=200, thorough=15000, shards=3, budget=90)
def pricing(c, r):
    R, o, sch, n = make(c)
    if sch is None:
        r.discard()
    m = SURF[c['surf']]
    sh, cd = m['shift'], R.cd
    b0 = m['crv']['basis']
    b1 = c['basis'] or b0
    ps, pe, pay = (gen.np_dates(sch.df[x]) for x in ('period_start', 'period_end', 'payment_date'))
    n = len(ps)
    if min(ps) < R.start[0] or max(ps) > R.start[-1] or max(pay) > R.c.last_day():
        r.discard()
    t0, t1, tp = (np.array([curves.yf(cd, d, b0) for d in x]) for x in (ps, pe, pay))
    F = (np.exp(R.c.ln_df(t0) - R.c.ln_df(t1)) - 1) / np.array([curves.yf(a, b, b0) for a, b in zip(ps, pe)])
    ann = np.array([curves.yf(a, b, b1) for a, b in zip(ps, pe)]) * np.exp(R.c.ln_df(tp))
    ts = o.term_structure
    x = np.array([d.toordinal() for d in ps], float)
    X = np.array([d.toordinal() for d in R.start], float)
    be, rho, vv, vna = (np.interp(x, X, np.array(ts[k], float)) for k in ('beta', 'rho', 'volvol', 'vol_n_atm'))
    sd = np.median(vna) * math.sqrt(float(np.median(t0)))
    ms = (c['m'] * n)[:n]
    cps = (c['cp'] * n)[:n]
    if c['per']:
        Ks = [max(round(float(F[i] + ms[i] * sd), 5), round(0.004 - sh, 5)) for i in range(n)]
        K, cp = (list(Ks), list(cps)) if c['kind'] == 'list' else (np.array(Ks), np.array(cps))
    else:
        K = max(round(float(F.mean() + ms[0] * sd), 5), round(0.004 - sh, 5))
        cp = cps[0]
        Ks = [K] * n
    r.label('per period' if c['per'] else 'one strike', c['freq'])
    r.nt(n > 1 or ps[0] not in R.start)
    B = basis(b1)
    # ---- flat volatilities
    def run(fn, **kw):
        with quiet(), np.errstate(all='ignore'):
            return fn(schedule=sch, K=K, cp=cp, day_count_basis=B, **kw)
    def exact(df, ref, what, rtol=1e-6):
        close(df['F'], F, 'forward rates, ' + what, rtol=1e-7, atol=1e-9)
        close(df['annuity_factor'], ann, 'annuity factors, ' + what, rtol=1e-9)
        close(df['expiry_years'], t0, 'expiries, ' + what, rtol=1e-9)
        close(df['K'], Ks, 'strikes, ' + what)
        close(df['cp'], cps if c['per'] else [cp] * n, 'option types, ' + what)
        close(df['price'], ref, 'optionlet prices, ' + what, rtol=rtol, atol=1e-10)
        close(df['forward_price'], np.array(df['price'], float) / ann, 'undiscounted prices, ' + what, rtol=1e-9, atol=1e-15)
        close(np.array(df['intrinsic'], float) + np.array(df['time'], float), df['price'], 'intrinsic plus time value, ' + what, rtol=1e-9, atol=1e-14)
    cc = cps if c['per'] else [cp] * n
    v, vn = c['v'], c['vn']
    exact(run(o.price_optionlets_per_flat_vol_sln, vol_sln_override=v if c['solve'] else np.array([v])),
          [ann[i] * bs.black(F[i] + sh, Ks[i] + sh, v * math.sqrt(t0[i]), cc[i]) for i in range(n)], 'flat lognormal volatility')
    exact(run(o.price_optionlets_per_flat_vol_n, vol_n_override=vn if c['solve'] else np.array([vn])),
          [ann[i] * bs.bachelier(F[i], Ks[i], vn * math.sqrt(t0[i]), cc[i]) for i in range(n)], 'flat normal volatility')
    # ---- smiles interpolated to the schedule
    vols = []
    for i in range(n):
        f = F[i] + sh
        p = bs.bachelier(f, f, vna[i] * math.sqrt(t0[i]), 1)
        atm = brentq(lambda z: bs.black(f, f, z * math.sqrt(t0[i]), 1) - p, 1e-4, 5, xtol=1e-13)
        a = alpha_of(t0[i], F[i], be[i], rho[i], vv[i], atm, sh)
        vols.append(hagan(t0[i], F[i], a, be[i], rho[i], vv[i], Ks[i], sh))
    ref = [ann[i] * bs.black(F[i] + sh, Ks[i] + sh, vols[i] * math.sqrt(t0[i]), cc[i]) for i in range(n)]
    out = run(o.price_optionlets_per_term_structure, solve_equivalent_flat_vol=False)
    close(out['vol_sln'], vols, 'volatility of the interpolated smile', rtol=2e-5, atol=1e-7)
    exact(out, ref, 'smile', rtol=2e-4)
    # ---- caps less floors are forwards
    fl = o.price_optionlets_per_term_structure(schedule=sch, K=K, cp=(-np.array(cp)).tolist() if isinstance(cp, list) else -cp, day_count_basis=B)
    close(np.array(cc) * (np.array(out['price'], float) - np.array(fl['price'], float)), ann * (F - np.array(Ks)), 'cap less floor is not the forward', rtol=1e-6, atol=1e-10)
    if c['solve'] and abs(ms[0]) < 1 and (not c['per']):
        tv = sum(ref) - sum(ann[i] * max(0.0, cc[i] * (F[i] - Ks[i])) for i in range(n))
        if tv > 0.02 * sum(ref):
            d, vs, vnf = run(o.price_optionlets_per_term_structure, solve_equivalent_flat_vol=True)
            close(d['price'], out['price'], 'prices depend on the request for flat volatilities', rtol=1e-12)
            tot = float(np.sum(np.array(out['price'], float)))
            close(sum(ann[i] * bs.black(F[i] + sh, Ks[i] + sh, float(vs) * math.sqrt(t0[i]), cc[i]) for i in range(n)), tot, 'price at the equivalent lognormal volatility',
                  rtol=1e-4, atol=1e-9)
            close(sum(ann[i] * bs.bachelier(F[i], Ks[i], float(vnf) * math.sqrt(t0[i]), cc[i]) for i in range(n)), tot, 'price at the equivalent normal volatility',
                  rtol=1e-4, atol=1e-9)
            r.label('flat volatilities solved')


@st.composite
def s_bad(draw):
    return dict(how=draw(st.sampled_from(['len_K', 'len_cp', 'cp', 'cp_list', 'mixed', 'mixed2', 'text', 'settle'])), surf=draw(st.integers(0, 1)),
                extra=draw(st.sampled_from([-1, 1, 2])), bad=draw(st.sampled_from([0, 2, -2, 3])), n=draw(st.integers(2, 4)))


@facet(FACETS, s_bad, 'always', quick=60, thorough=1500)
def invalid_rejected(c, r):
    R, o, sch, n = make(dict(surf=c['surf'], grid=True, at=0.0, n=c['n'], freq='quarterly', conv='following', delay=0))
    n = len(sch.df)
    K, cp, how = [0.03] * n, [1] * n, c['how']
    if how == 'len_K':
        K = [0.03] * (n + c['extra'])
    elif how == 'len_cp':
        cp = [1] * (n + c['extra'])
    elif how == 'cp':
        K, cp = 0.03, c['bad']
    elif how == 'cp_list':
        cp[-1] = c['bad']
    elif how == 'mixed':
        K = 0.03
    elif how == 'mixed2':
        cp = 1
    elif how == 'text':
        K, cp = '3%', 1
    r.label(how)
    r.nt()
    if how == 'settle':
        m = dict(SURF[c['surf']])
        def f():
            from frm.enums import PeriodFreq
            from frm.term_structures.optionlet import Optionlet
            Optionlet(curve_date=pd.Timestamp(R.cd), quote_vol_sln=R.quotes(), ln_shift=m['shift'], zero_curve=curves.build(m['crv'], R.c), optionlet_freq=PeriodFreq(m['freq']))
        check(raises(f, ValueError), 'neither settlement date nor delay was accepted')
        return
    for fn, kw in ((o.price_optionlets_per_term_structure, {}), (o.price_optionlets_per_flat_vol_sln, dict(vol_sln_override=0.2)),
                   (o.price_optionlets_per_flat_vol_n, dict(vol_n_override=0.01))):
        check(raises(lambda: fn(schedule=sch, K=K, cp=cp, day_count_basis=basis('act/365'), **kw), (AssertionError, ValueError, TypeError)), 'invalid strikes or option types accepted',
              how=how, K=K, cp=cp)
