"""P18: the FX volatility surface."""
import datetime as dt
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bs, gen
from pbt.checks.p16 import TEN, LONG
from pbt.core import facet, check, close, fail, raises
from pbt.curves import yf, df_from_zero, zero_from_df
from pbt.gen import Cal, D, add_days, add_months, calendar_spec, mkcal, fl, logfl

FACETS = []
ONE = dt.timedelta(1)
CONVS = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']
DELTAS = [5, 10, 15, 20, 25, 30, 35, 40]
PAIRS = [('usd', 'aud'), ('usd', 'eur'), ('jpy', 'usd'), ('chf', 'usd'), ('cad', 'usd'), ('gbp', 'eur')]  # domestic, foreign
LENGTH = ['3d', '1w', '2w', '1m', '2m', '3m', '6m', '9m', '1y', '15m', '1y6m', '2y']


@st.composite
def zcurve(draw, pts=(30, 120, 300, 900)):
    lvl = draw(fl(-0.005, 0.07, 4))
    return dict(pts=list(pts), z=[round(lvl + draw(st.integers(-80, 80)) / 1e4, 6) for _ in range(4)],
                basis=draw(st.sampled_from(['act/365', 'act/360'])), cf=draw(st.sampled_from(['continuous', 'annual', 'semiannual'])))


@st.composite
def surface(draw, convs=CONVS, nmin=1):
    cd = draw(gen.dates('2005-01-01', '2045-12-31'))
    cal = draw(calendar_spec(add_days(cd, -10), add_days(cd, 800), 25))
    cd = Cal(cal).following(D(cd)).isoformat()
    dom, fgn = draw(st.sampled_from(PAIRS))
    n = draw(st.integers(2, 5))
    long = draw(st.integers(0, 14)) == 0
    zp = (30, 300, 1200, 4000) if long else (30, 120, 300, 900)
    tens = draw(st.lists(st.sampled_from(LENGTH), min_size=n, max_size=n, unique=True))
    if long:
        tens = tens[:2] + ['10y']
    tens = sorted(tens, key=lambda t: TEN[t] if isinstance(TEN[t], int) else 30 * TEN[t][0])
    k = draw(st.integers(nmin, 4))
    ds = sorted(draw(st.lists(st.sampled_from(DELTAS), min_size=k, max_size=k, unique=True)))
    base = draw(fl(0.05, 0.3, 4))
    tv = []  # total variance factor of the rows, increasing
    return dict(cd=cd, cal=cal, dom=dom, fgn=fgn, off=draw(st.sampled_from([1, 2, 2])), S=draw(st.one_of(logfl(0.4, 2), logfl(60, 160))), dz=draw(zcurve(zp)), fz=draw(zcurve(zp)),
                bas=draw(fl(-0.01, 0.01, 3)), fwd=sorted(draw(st.lists(st.sampled_from(['1w', '1m', '3m', '6m', '1y', '2y', '3y']), min_size=1, max_size=5, unique=True))),
                noise=[draw(fl(-0.003, 0.003, 3)) for _ in range(5)],
                rows=[dict(t=t, by=draw(st.sampled_from(['tenor', 'tenor', 'expiry'])), sp=draw(st.sampled_from(LONG.get(t, []) + [t, t.upper()])),
                           conv=draw(st.sampled_from(convs)), fv=draw(fl(0.7, 1.4, 3))) for t in tens],
                base=base, ds=ds, rr=[draw(fl(-0.2, 0.2, 3)) for _ in ds], bf=[draw(fl(0, 0.2, 3)) for _ in ds],
                strat=[draw(st.booleans()) for _ in ds], perm=draw(st.booleans()), by_spot=draw(st.booleans()), one_conv=draw(st.booleans()))


class Ref:
    def __init__(self, c):
        self.c = c
        cal, cd = Cal(c['cal']), D(c['cd'])
        self.cal, self.cd = cal, cd
        self.exp = []
        for w in c['rows']:
            x = TEN[w['t']]
            self.exp.append(cal.following(cd + ONE * x if isinstance(x, int) else add_months(cd, x[0])))
        self.tau = np.array([yf(cd, e, 'act/act') for e in self.exp])
        # forward curve
        self.ffix, self.fx = [cd], [c['S']]
        for i, t in enumerate(c['fwd']):
            x = TEN[t]
            f = cal.following(cd + ONE * x if isinstance(x, int) else add_months(cd, x[0]))
            y = (f - cd).days / 365
            self.ffix.append(f)
            self.fx.append(gen.sig(c['S'] * math.exp((c['dz']['z'][2] - c['fz']['z'][2] + c['bas']) * y + c['noise'][i] * math.sqrt(y)), 7))
        # volatilities per row: column multipliers on a base with increasing total variance
        names, mult, sd = ['atm'], [1.0], [0.5]
        for d, a, b in zip(c['ds'], c['rr'], c['bf']):
            w = (0.5 - d / 100) * 2
            mult += [1 + b * w + a * w / 2, 1 + b * w - a * w / 2]
            sd += [d / 100, -d / 100]
        self.sd, self.mult = sd, np.array(mult)
        v, tot, t0 = [], 0.0, 0.0
        for w, t in zip(c['rows'], self.tau):
            tot += (c['base'] * w['fv']) ** 2 * (t - t0)
            t0 = t
            v.append(math.sqrt(tot / t) if t > 0 else c['base'])
        self.vol = np.round(np.array(v)[:, None] * self.mult[None, :], 6)
        self.conv = [c['rows'][0]['conv'] if c['one_conv'] else w['conv'] for w in c['rows']]
        order = np.argsort([1 / d for d in sd])
        self.order = order
        self.sd_sorted = [sd[i] for i in order]

    def ok(self):
        if len(set(self.exp)) < len(self.exp) or len(set(self.ffix)) < len(self.ffix):
            return False
        tv = self.vol ** 2 * self.tau[:, None]
        return bool((np.diff(tv, axis=0) > 1e-9).all()) and self.tau[0] > 0

    def fwd(self, d):
        o = np.argsort(self.ffix)
        return float(np.interp((d - self.cd).days, [(self.ffix[i] - self.cd).days for i in o], [self.fx[i] for i in o]))

    def zero(self, which, d):
        z = self.c[which]
        days = [D(add_days(self.c['cd'], p)) for p in z['pts']]
        t = [yf(self.cd, x, z['basis']) for x in days]
        ln = [math.log(df_from_zero(z['cf'], a, b)) for a, b in zip(t, z['z'])]
        x = yf(self.cd, d, z['basis'])
        return -float(np.interp(x, [0.0] + t, [0.0] + ln)) / x

    def vols(self, d):
        """call/put volatilities (ordered by strike) of an expiry date: flat forward in total variance"""
        t = yf(self.cd, d, 'act/act')
        v = self.vol[:, self.order]
        if d in self.exp:
            return v[self.exp.index(d)]
        i = max(j for j, e in enumerate(self.exp) if e < d)
        a, b = self.tau[i], self.tau[i + 1]
        return np.sqrt((v[i] ** 2 * a * (b - t) + v[i + 1] ** 2 * b * (t - a)) / (b - a) / t)

    def conv_at(self, d):
        return self.conv[min(j for j, e in enumerate(self.exp) if e >= d)]

    def strikes(self, d):
        """strikes of the quotes, None when a premium adjusted or spot delta is not attainable"""
        t, F, rf = yf(self.cd, d, 'act/act'), self.fwd(d), self.zero('fz', d)
        conv, out = self.conv_at(d), []
        for sd, v in zip(self.sd_sorted, self.vols(d)):
            s = v * math.sqrt(t)
            cp = 1 if sd > 0 else -1
            q = math.exp(-rf * t) if conv.endswith('spot') else 1.0
            if sd == 0.5:
                out.append(F * math.exp(s * s / 2 if conv.startswith('regular') else -s * s / 2))
            elif conv.startswith('regular'):
                if abs(sd) / q > 0.97:
                    return None
                from scipy.stats import norm
                out.append(F * math.exp(-cp * norm.ppf(cp * sd / q) * s + s * s / 2))
            else:
                from scipy.optimize import brentq, minimize_scalar
                # x = ln(K/F); |delta| = q e^x N(cp d2), d2 = -x/s - s/2
                f = lambda x: q * math.exp(x) * bs.N(cp * (-x / s - s / 2)) - abs(sd)
                if cp == -1:
                    out.append(F * math.exp(brentq(f, -12 * s - 2, 12 * s + 2, xtol=1e-14)))
                else:
                    m = minimize_scalar(lambda x: -f(x), bounds=(-8 * s, 4 * s), method='bounded', options=dict(xatol=1e-10)).x
                    if f(m) < 0.02:
                        return None
                    out.append(F * math.exp(brentq(f, m, m + 14 * s, xtol=1e-14)))
        return np.array(out)


def enums():
    from frm.enums import DayCountBasis, CompoundingFreq, ZeroCurveInterpMethod
    return DayCountBasis, CompoundingFreq


def zc(c, which):
    from frm.enums import DayCountBasis, CompoundingFreq
    from frm.term_structures.zero_curve import ZeroCurve
    z = c[which]
    return ZeroCurve(curve_date=pd.Timestamp(c['cd']), pillar_df=pd.DataFrame({'date': [pd.Timestamp(add_days(c['cd'], p)) for p in z['pts']], 'zero_rate': z['z']}),
                     day_count_basis=DayCountBasis(z['basis']), compounding_freq=CompoundingFreq(z['cf']))


def tables(c, ref):
    fw = pd.DataFrame({'tenor': ['SP'] + c['fwd'], 'fx_forward_rate': ref.fx})
    cols = {}
    bys = [w['by'] for w in c['rows']]
    if 'tenor' in bys:
        cols['tenor'] = [w['sp'] if w['by'] == 'tenor' else np.nan for w in c['rows']]
    if 'expiry' in bys:
        cols['expiry_date'] = [pd.Timestamp(e) if w['by'] == 'expiry' else pd.NaT for w, e in zip(c['rows'], ref.exp)]
    cols['delta_convention'] = ref.conv
    for i, d in enumerate(c['ds']):
        call, put = ref.vol[:, 1 + 2 * i], ref.vol[:, 2 + 2 * i]
        if c['strat'][i]:
            cols[f'{d}_delta_rr'] = call - put
            cols[f'{d}_delta_bf'] = (call + put) / 2 - ref.vol[:, 0]
        else:
            cols[f'{d}_delta_call'] = call
            cols[f'{d} delta put'] = put
    cols['atm_delta_neutral'] = ref.vol[:, 0]
    q = pd.DataFrame(cols)
    if c['perm']:
        q = q.iloc[::-1]
    return fw, q


def build(c, ref, method='univariate_spline', own=False):
    from frm.enums import FXSmileInterpolationMethod
    from frm.term_structures.fx_volatility_surface import FXVolatilitySurface
    fw, q = tables(c, ref)
    keep = (fw.copy(deep=True), q.copy(deep=True))
    kw = dict(curve_date=pd.Timestamp(c['cd']))
    if c['by_spot']:
        kw = dict(spot_date=pd.Timestamp(ref.cal.shift(ref.cd, c['off'])))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = FXVolatilitySurface(domestic_ccy=c['dom'], foreign_ccy=c['fgn'], fx_forward_curve_df=fw, domestic_zero_curve=zc(c, 'dz'), foreign_zero_curve=zc(c, 'fz'),
                                vol_quotes=q, spot_offset=c['off'], cal=mkcal(c['cal']), smile_interpolation_method=FXSmileInterpolationMethod(method), **kw)
    if own:
        for name, a, b in (('fx_forward_curve_df', keep[0], fw), ('vol_quotes', keep[1], q)):
            check(a.equals(b) and list(a.columns) == list(b.columns), 'the caller\'s table was modified', table=name, before=list(a.columns), after=list(b.columns))
    return s


def start(c, r, need=1):
    ref = Ref(c)
    if not ref.ok():
        r.discard()
    # a premium adjusted delta that no strike has at a long expiry is refused (P21)
    if ref.tau[-1] > 2.5 and any('premium' in x for x in ref.conv) and any(ref.strikes(e) is None for e in ref.exp):
        r.discard()
    r.label(*{x.split('_')[0] for x in ref.conv})
    return ref


def quoted(s, df):
    return df[list(s.quotes_column_names)].to_numpy(dtype=float)


@facet(FACETS, surface, 'quotes by tenor or expiry date, calls/puts or strategies; non-trivial: an expiry between pillars in the daily table', quick=60, shards=4, thorough=2500)
def market_data(c, r):
    """Pillar and daily tables hold the expiries, year fractions, forwards, zero rates and (flat forward) volatilities of the inputs."""
    ref = start(c, r)
    s = build(c, ref, own=True)
    check(s.fx_spot_rate == c['S'], 'spot rate', got=s.fx_spot_rate)
    check(s.curve_date == pd.Timestamp(c['cd']), 'curve date', got=s.curve_date)
    close(np.asarray(s.quotes_signed_delta, dtype=float), ref.sd_sorted, 'signed deltas in strike order', 1e-12)
    p = s.vol_smile_pillar_df
    check([x.date() for x in p['expiry_date']] == ref.exp, 'expiry dates of the pillars', got=list(p['expiry_date']), expected=ref.exp)
    check(list(p['delta_convention']) == ref.conv, 'delta conventions of the pillars')
    check([x.date() for x in p['delivery_date']] == [ref.cal.shift(e, c['off']) for e in ref.exp], 'delivery dates of the pillars')
    n = (ref.exp[-1] - ref.exp[0]).days + 1
    days = [ref.exp[0] + ONE * i for i in range(n)]
    d = s.vol_smile_daily_df
    check([x.date() for x in d['expiry_date']] == days, 'one row per day between the first and the last expiry', rows=len(d), expected=n)
    step = max(1, n // 60)
    pick = sorted({*range(0, n, step), n - 1, *((e - ref.exp[0]).days + k for e in ref.exp for k in (-1, 0, 1) if 0 <= (e - ref.exp[0]).days + k < n)})
    for df, ds in ((p, ref.exp), (d.iloc[pick], [days[i] for i in pick])):
        close(df['expiry_years'].to_numpy(dtype=float), [yf(ref.cd, x, 'act/act') for x in ds], 'years to expiry', 1e-9)
        close(df['fx_forward_rate'].to_numpy(dtype=float), [ref.fwd(x) for x in ds], 'forward rate at expiry', 1e-9)
        close(df['domestic_zero_rate'].to_numpy(dtype=float), [ref.zero('dz', x) for x in ds], 'domestic zero rate at expiry', 1e-7, 1e-10)
        close(df['foreign_zero_rate'].to_numpy(dtype=float), [ref.zero('fz', x) for x in ds], 'foreign zero rate at expiry', 1e-7, 1e-10)
        close(quoted(s, df), np.array([ref.vols(x) for x in ds]), 'volatilities of the quotes', 1e-7, 1e-9)
    check(list(d['delta_convention']) == [ref.conv_at(x) for x in days], 'delta convention of a day is that of the next pillar')
    r.nt(n > 2)


@facet(FACETS, surface, 'four delta conventions; non-trivial: premium adjusted, or more than three quotes', quick=60, shards=2, thorough=3000)
def pillar_strikes(c, r):
    """Every pillar strike has the quoted delta (at-the-money: delta neutral) at the quoted volatility and the market forward."""
    ref = start(c, r)
    K = [ref.strikes(e) for e in ref.exp]
    if any(k is None for k in K):
        r.discard()
    s = build(c, ref)
    check([x.date() for x in s.strike_pillar_df['expiry_date']] == ref.exp, 'expiries of the strikes')
    close(quoted(s, s.strike_pillar_df), np.array(K), 'strikes of the quotes', 1e-6)
    r.nt(any('premium' in x for x in ref.conv) or len(ref.sd) > 3)


@st.composite
def queries(draw):
    c = draw(surface())
    c['q'] = [dict(d=draw(st.one_of(st.integers(0, 10 ** 4), st.integers(-5, -1))), w=draw(fl(-0.2, 1.2, 3)), node=draw(st.booleans()), i=draw(st.integers(0, 8)), cp=draw(st.sampled_from([1, -1])))
              for _ in range(draw(st.integers(1, 6)))]
    c['m'] = draw(st.sampled_from(['univariate_spline', 'cubic_spline']))
    c['a'], c['g'] = draw(st.booleans()), draw(st.booleans())
    c['warm'] = draw(st.sampled_from([0] * 11 + [75]))
    return c


def asked(c, ref):
    """dates, strikes and reference volatilities of the queries (None when a smile is not usable)"""
    from scipy.interpolate import CubicSpline
    span = (ref.exp[-1] - ref.exp[0]).days
    out = []
    for q in c['q']:
        d = ref.exp[(-q['d']) % len(ref.exp)] if q['d'] < 0 else ref.exp[0] + ONE * (q['d'] % (span + 1))
        K = ref.strikes(d)
        if K is None or (np.diff(K) < 1e-4 * K[1:]).any():
            return None
        v = ref.vols(d)
        if q['node']:
            k, x = K[q['i'] % len(K)], v[q['i'] % len(K)]
        else:
            k = gen.sig(K[0] + q['w'] * (K[-1] - K[0]), 7)
            if len(K) <= 4:  # the parabola / cubic through the points
                x = sum(v[i] * math.prod((k - K[j]) / (K[i] - K[j]) for j in range(len(K)) if j != i) for i in range(len(K)))
            else:
                x = float(CubicSpline(K, v, bc_type='not-a-knot')(k))
            if not 0.02 < x < 1 or k <= 0:
                return None
        out.append((d, float(k), float(x), q['cp']))
    return out


@facet(FACETS, queries, 'quoted and unquoted strikes, several queries in any order; non-trivial: a strike between two quotes', quick=120, shards=4, thorough=4000)
def smile(c, r):
    """The smile passes through the quotes and is the interpolating polynomial spline in strike in between, whatever was asked before."""
    ref = start(c, r)
    qs = asked(c, ref)
    if qs is None:
        r.discard()
    s = build(c, ref, c['m'])
    E = lambda x: pd.DatetimeIndex([pd.Timestamp(a[0]) for a in x])
    A = lambda x, i: np.array([a[i] for a in x])
    if len(ref.sd) < 4 and c['m'] == 'cubic_spline':
        check(raises(lambda: s.interp_vol_surface(E(qs), A(qs, 1), A(qs, 3)), ValueError), 'a cubic spline through three quotes was not refused')
        return
    r.label(c['m'], f'{len(ref.sd)} quotes')
    if c.get('warm'):  # many other days are asked for first
        n = (ref.exp[-1] - ref.exp[0]).days
        w = pd.DatetimeIndex([pd.Timestamp(ref.exp[0] + ONE * int(i)) for i in np.linspace(0, n, min(c['warm'], n + 1)).astype(int)])
        try:
            s.interp_vol_surface(expiry_dates=w, K=np.full(len(w), qs[0][1]), cp=np.ones(len(w)))
        except ValueError:
            r.discard()  # a delta that is not attainable on one of those days
    out = s.interp_vol_surface(expiry_dates=E(qs), K=A(qs, 1), cp=A(qs, 3))
    check(list(out['expiry_date']) == list(E(qs)), 'one row per query, in order')
    close(out['K'].to_numpy(dtype=float), A(qs, 1), 'strikes are returned', 1e-12)
    tol = 2e-6 + 2e-6 * max(abs(ref.mult - 1))
    close(out['vol'].to_numpy(dtype=float), A(qs, 2), 'volatility of the smile', 2e-5, tol)
    close(out['fx_forward_rate'].to_numpy(dtype=float), [ref.fwd(a[0]) for a in qs], 'forward of the query', 1e-9)
    # the same answers from the same object in another order and one at a time
    again = s.interp_vol_surface(expiry_dates=E(qs[::-1]), K=A(qs[::-1], 1), cp=A(qs[::-1], 3))
    close(again['vol'].to_numpy(dtype=float)[::-1], out['vol'].to_numpy(dtype=float), 'answers depend on earlier queries or on their order', 1e-12)
    one = s.interp_vol_surface(expiry_dates=E(qs[:1]), K=A(qs[:1], 1), cp=-A(qs[:1], 3))
    close(one['vol'].to_numpy(dtype=float)[0], out['vol'].to_numpy(dtype=float)[0], 'call and put have the same volatility', 1e-12)
    r.nt(any(not q['node'] and 0 < q['w'] < 1 for q in c['q']))
    far = pd.DatetimeIndex([pd.Timestamp(ref.exp[-1] + ONE * 3)])
    check(raises(lambda: s.interp_vol_surface(far, A(qs[:1], 1), A(qs[:1], 3))), 'an expiry after the last pillar was accepted')


@facet(FACETS, queries, 'calls and puts on several expiries; non-trivial: at least two options', quick=120, shards=4, thorough=4000)
def prices(c, r):
    """Prices and greeks are Garman-Kohlhagen's at the surface volatility, forward and zero rates, which are returned."""
    ref = start(c, r)
    qs = asked(c, ref)
    if qs is None or (len(ref.sd) < 4 and c['m'] == 'cubic_spline'):
        r.discard()
    s = build(c, ref, c['m'])
    e = pd.DatetimeIndex([pd.Timestamp(a[0]) for a in qs])
    K, cp = np.array([a[1] for a in qs]), np.array([a[3] for a in qs])
    out = s.price_vanilla_european(expiry_dates=e, K=K, cp=cp, analytical_greeks_flag=c['a'], intrinsic_time_split_flag=c['g'])
    t = [yf(ref.cd, a[0], 'act/act') for a in qs]
    rd, rf, F = ([f(a[0]) for a in qs] for f in (lambda x: ref.zero('dz', x), lambda x: ref.zero('fz', x), ref.fwd))
    want = [bs.gk(c['S'], t[i], rd[i], rf[i], cp[i], K[i], a[2], F[i]) for i, a in enumerate(qs)]
    key = 'price' if 'price' in out else 'option_value'
    vega = [c['S'] * math.exp(-rf[i] * t[i]) * math.sqrt(t[i]) for i in range(len(qs))]
    got = np.asarray(out[key], dtype=float)
    check(got.shape == (len(qs),), 'one price per option', got=got.shape)
    for i, a in enumerate(qs):
        close(got[i], want[i], 'price of the option', 1e-6, vega[i] * (2e-5 * a[2] + 3e-6), K=K[i], cp=cp[i], F=F[i], vol=a[2])
    m = out['market_data_inputs']
    close(m['vol'].to_numpy(dtype=float), [a[2] for a in qs], 'returned volatility', 2e-5, 3e-6)
    close(m['F'].to_numpy(dtype=float), F, 'returned forward', 1e-9)
    close(m['r_d'].to_numpy(dtype=float), rd, 'returned domestic rate', 1e-7, 1e-10)
    close(m['r_f'].to_numpy(dtype=float), rf, 'returned foreign rate', 1e-7, 1e-10)
    if c['a']:
        g = out['analytical_greeks']
        for i, a in enumerate(qs):
            s_ = a[2] * math.sqrt(t[i])
            d1 = math.log(F[i] / K[i]) / s_ + s_ / 2
            close(float(np.asarray(g['forward_delta'], dtype=float)[i]), cp[i] * bs.N(cp[i] * d1), 'forward delta', 1e-4, 2e-4)
            close(float(np.asarray(g['spot_delta'], dtype=float)[i]), cp[i] * bs.N(cp[i] * d1) * math.exp(-rf[i] * t[i]), 'spot delta', 1e-4, 2e-4)
    r.nt(len(qs) > 1)


@st.composite
def heston_case(draw):
    c = draw(surface(nmin=2))
    c['rows'] = [w for w in c['rows'] if w['t'] not in ('3d',)] or c['rows']
    c['rr'] = [x / 2 for x in c['rr']]
    c['bf'] = [0.02 + x / 4 for x in c['bf']]
    c['d'] = draw(st.integers(0, 10 ** 4))
    c['x'] = draw(fl(0, 1, 3))
    if draw(st.integers(0, 3)) == 0:  # smiles the model cannot follow
        c['bf'] = [draw(fl(-0.3, 0.6, 3)) for _ in c['bf']]
        c['rr'] = [draw(fl(-0.4, 0.4, 3)) for _ in c['rr']]
    return c


@facet(FACETS, heston_case, 'Heston (cosine) smiles of two to five strategies; non-trivial: all that calibrate', quick=10, shards=5, thorough=400)
def heston_smile(c, r):
    """A Heston smile is within the accepted calibration error of the quotes, the same for calls and puts, and used in prices."""
    ref = start(c, r)
    span = (ref.exp[-1] - ref.exp[0]).days
    d = ref.exp[0] + ONE * (c['d'] % (span + 1))
    K = ref.strikes(d)
    if K is None or (np.diff(K) < 1e-4 * K[1:]).any():
        r.discard()
    v = ref.vols(d)
    t = yf(ref.cd, d, 'act/act')
    rd, rf, F = ref.zero('dz', d), ref.zero('fz', d), ref.fwd(d)
    if (v < 0.01).any():
        r.discard()
    # the calibration (its own property) to the reference market data of that day
    from frm.pricing_engine.heston import heston_calibrate_vanilla_smile
    iv, sse = heston_calibrate_vanilla_smile(volatility_quotes=v, delta_of_quotes=np.array(ref.sd_sorted), S0=c['S'], r=math.log(F / c['S']) / t + rf, q=rf, tau=t,
                                             cp=np.sign(ref.sd_sorted).astype(int), delta_convention=ref.conv_at(d), pricing_method='heston_cosine')[6:8]
    s = build(c, ref, 'heston_cosine')
    K = np.append(K, K[0] + c['x'] * (K[-1] - K[0]))
    n = len(K)
    e = pd.DatetimeIndex([pd.Timestamp(d)] * n)
    try:
        v1 = s.interp_vol_surface(e, K, np.ones(n))['vol'].to_numpy(dtype=float)
    except ValueError as x:
        if 'SSE' not in str(x):
            raise
        r.label('refused')
        check(not sse < 0.0009, 'a smile within the accepted error was refused', sse=sse)
        return
    r.nt()
    check(not sse > 0.0011, 'a smile with a large error was accepted', sse=sse)
    close(v1[:-1], np.asarray(iv, dtype=float), 'the smile of the surface is the one calibrated to the day\'s market data', 1e-3, 4e-4, quotes=v)
    # smiles whose sum of squared errors is 0.001 or more are refused
    check(np.sum((v1[:-1] - v) ** 2) < 1.2e-3, 'a smile far from its quotes was accepted', got=v1[:-1], quotes=v)
    v2 = s.interp_vol_surface(e, K, -np.ones(n))['vol'].to_numpy(dtype=float)
    close(v2, v1, 'call and put have the same volatility', 2e-3, 2e-4)
    out = s.price_vanilla_european(expiry_dates=e, K=K, cp=np.ones(n))
    for i in range(n):
        close(float(out['price'][i]), bs.gk(c['S'], t, rd, rf, 1, K[i], v1[i], F), 'price at the volatility of the smile', 1e-6, 1e-8 * c['S'])


@facet(FACETS, lambda: st.tuples(surface(), st.sampled_from(PAIRS), st.sampled_from(['d', 'f', 'none', 'order'])).map(lambda t: dict(t[0], pair=t[1], bad=t[2])),
       'surfaces without an explicit calendar; non-trivial: currencies with different holidays', quick=20, shards=2)
def default_calendar(c, r):
    """Without a calendar the holidays of both currencies count; curves of another day are rejected."""
    from frm.enums import FXSmileInterpolationMethod
    from frm.term_structures.fx_volatility_surface import FXVolatilitySurface
    from frm.utils.business_day_calendar import get_busdaycal
    dom, fgn = c['pair']
    bc = get_busdaycal([dom, fgn])  # the calendars themselves are P02
    cal = dict(mask=''.join('1' if x else '0' for x in bc.weekmask), hols=[str(h) for h in bc.holidays[(bc.holidays > np.datetime64(c['cd']) - 30) & (
        bc.holidays < np.datetime64(c['cd']) + 4200)]])
    c = dict(c, cal=cal, dom=dom, fgn=fgn, cd=Cal(cal).following(D(c['cd'])).isoformat(), by_spot=False)
    ref = start(c, r)
    fw, q = tables(c, ref)
    kw = dict(domestic_ccy=dom, foreign_ccy=fgn, spot_offset=c['off'], curve_date=pd.Timestamp(c['cd']), smile_interpolation_method=FXSmileInterpolationMethod('univariate_spline'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = FXVolatilitySurface(fx_forward_curve_df=fw.copy(), vol_quotes=q.copy(), domestic_zero_curve=zc(c, 'dz'), foreign_zero_curve=zc(c, 'fz'), **kw)
        p = s.vol_smile_pillar_df
        check([x.date() for x in p['expiry_date']] == ref.exp, 'expiry dates avoid the holidays of both currencies', got=list(p['expiry_date']), expected=ref.exp)
        check([x.date() for x in p['delivery_date']] == [ref.cal.shift(e, c['off']) for e in ref.exp], 'delivery dates avoid the holidays of both currencies',
              got=list(p['delivery_date']))
        check(s.spot_date.date() == ref.cal.shift(ref.cd, c['off']), 'spot date', got=s.spot_date)
        late = dict(c, cd=add_days(c['cd'], 1))
        if c['bad'] in 'df':
            check(raises(lambda: FXVolatilitySurface(fx_forward_curve_df=fw.copy(), vol_quotes=q.copy(), domestic_zero_curve=zc(late if c['bad'] == 'd' else c, 'dz'),
                                                     foreign_zero_curve=zc(late if c['bad'] == 'f' else c, 'fz'), **kw)), 'a zero curve of another day was accepted', which=c['bad'])
            early = dict(c, cd=add_days(c['cd'], -1))
            check(raises(lambda: FXVolatilitySurface(fx_forward_curve_df=fw.copy(), vol_quotes=q.copy(), domestic_zero_curve=zc(early if c['bad'] == 'd' else c, 'dz'),
                                                     foreign_zero_curve=zc(early if c['bad'] == 'f' else c, 'fz'), **kw)), 'a zero curve of an earlier day was accepted', which=c['bad'])
    r.nt(len(cal['hols']) > 0)


PINNED = []


@facet(PINNED, surface, 'known finding')
def gbm_paths(c, r):
    """Simulated paths start at the spot rate and have the forward as their mean."""
    ref = Ref(c)
    s = build(c, ref)
    grid = pd.DatetimeIndex([pd.Timestamp(ref.cal.shift(e, c['off'])) for e in ref.exp])
    out = s.simulate_gbm_fx_rate_path(delivery_date_grid=grid, nb_simulations=20000)
    x = np.asarray(out['fx_rate_simulation_paths']).reshape(len(grid) + 1, -1)
    close(x[0], c['S'], 'paths start at the spot rate', 1e-9)
    for i, e in enumerate(ref.exp):
        close(x[i + 1].mean(), ref.fwd(e), 'mean of the simulated rate', 0.03)


@facet(PINNED, surface, 'known finding')
def heston_paths(c, r):
    """Simulated Heston paths are returned for every delivery date."""
    ref = Ref(c)
    s = build(c, ref, 'heston_cosine')
    grid = pd.DatetimeIndex([pd.Timestamp(ref.cal.shift(ref.exp[-1], c['off']))])
    out = s.simulate_heston_fx_rate_path(delivery_date_grid=grid, nb_simulations=200)
    check(grid[0] in out, 'no paths for the delivery date')
