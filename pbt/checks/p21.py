"""P21 strikes of FX delta quotes."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl, logfl
from pbt import bs

FACETS = []
REG = ['regular_spot', 'regular_forward']
PA = ['premium_adjusted_spot', 'premium_adjusted_forward']


@st.composite
def smile(draw, convs=REG + PA):
    n = draw(st.integers(1, 6))
    mag = st.one_of(st.sampled_from([0.05, 0.1, 0.25, 0.5]), fl(0.01, 0.49, 3))
    ds = [draw(mag) * draw(st.sampled_from([1, -1])) for _ in range(n)]
    return dict(S=draw(logfl(0.005, 20000)), t=draw(logfl(0.01, 12)), rd=draw(fl(-0.02, 0.12, 4)), rf=draw(fl(-0.02, 0.12, 4)), ds=ds,
                v=[draw(logfl(0.03, 0.4)) for _ in ds], conv=draw(st.sampled_from(convs)), useF=draw(st.booleans()), bas=draw(fl(-0.03, 0.03, 4)),
                atm=draw(st.sampled_from(['forward', 'per_delta_convention', None])), scalar=draw(st.booleans()))


def delta(c, F, K, v, cp):
    s = v * math.sqrt(c['t'])
    d1 = math.log(F / K) / s + s / 2
    spot = math.exp(-c['rf'] * c['t']) if c['conv'].endswith('spot') else 1.0
    if c['conv'].startswith('regular'):
        return cp * spot * bs.N(cp * d1)
    return cp * spot * (K / F) * bs.N(cp * (d1 - s))


def fwd(c):
    return c['S'] * math.exp((c['rd'] - c['rf'] + (c['bas'] if c['useF'] else 0)) * c['t'])


def solve(c, ds, vs):
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta
    kw = dict(S0=c['S'], tau=c['t'], r_d=c['rd'], r_f=c['rf'], vol=vs, signed_delta=ds, delta_convention=c['conv'])
    if c['useF']:
        kw['F'] = fwd(c)
    if c['atm']:
        kw['atm_delta_convention'] = c['atm']
    return garman_kohlhagen_solve_strike_from_delta(**kw)


def attainable(c, F, d, v):
    """the quoted delta has a strike (on the branch above the maximum for premium adjusted calls)"""
    s = v * math.sqrt(c['t'])
    spot = math.exp(-c['rf'] * c['t']) if c['conv'].endswith('spot') else 1.0
    if c['conv'].startswith('regular'):
        return abs(d) / spot < 0.985
    if d < 0:
        return True
    xs = np.linspace(-6, 6, 2001) * s
    vals = [delta(c, F, F * math.exp(x), v, 1) for x in xs]
    return max(vals) > d * 1.01


@facet(FACETS, smile, 'delta-volatility quotes of four conventions, with and without a market forward; non-trivial: premium adjusted or with a forward',
       quick=1000, shards=4)
def strike_has_the_quoted_delta(c, r):
    F = fwd(c)
    if c['scalar']:
        c['ds'], c['v'] = c['ds'][:1], c['v'][:1]
    ok = [i for i, (d, v) in enumerate(zip(c['ds'], c['v'])) if abs(d) == 0.5 or attainable(c, F, d, v)]
    if not ok:
        r.discard()
    ds, vs = [c['ds'][i] for i in ok], [c['v'][i] for i in ok]
    if any(abs(d) == 0.5 for d in ds) and c['conv'].startswith('regular') and c['atm'] == 'per_delta_convention' and not all(
            attainable(c, F, d, v) for d, v in zip(ds, vs)):
        r.discard()
    K = solve(c, np.array(ds), np.array(vs)) if not c['scalar'] else solve(c, ds[0], vs[0])
    check(np.shape(K) == (len(ds),), 'one strike per quote', shape=np.shape(K))
    for d, v, k in zip(ds, vs, K):
        k = float(k)
        check(math.isfinite(k) and k > 0, 'strike is not a positive number', delta=d, strike=k)
        cp = 1 if d > 0 else -1
        s2 = v * v * c['t']
        if abs(d) == 0.5 and c['conv'].startswith('premium'):
            close(k, F * math.exp(-s2 / 2), 'premium adjusted at-the-money delta neutral strike', 1e-9)
            a, b = delta(c, F, k, v, 1), delta(c, F, k, v, -1)
            close(a, -b, 'delta neutral: call and put deltas offset', 1e-7)
            r.label('atm')
        elif abs(d) == 0.5 and c['atm'] != 'per_delta_convention':
            close(k, F * math.exp(s2 / 2), 'at-the-money delta neutral strike (forward delta)', 1e-9)
            r.label('atm')
        else:
            close(delta(c, F, k, v, cp), d, 'the strike does not have the quoted delta', 1e-6, 1e-9, conv=c['conv'], strike=k, forward=F)
            if c['conv'].startswith('premium') and cp == 1:
                # of the two solutions the one at the higher strike, where delta falls with the strike
                check(delta(c, F, k * 1.0005, v, cp) <= d + 1e-9, 'premium adjusted call strike is on the wrong side of the maximum', delta=d)
    r.label(c['conv'])
    r.nt(c['conv'] in PA or c['useF'])


@facet(FACETS, lambda: smile(convs=REG), 'regular quotes of one volatility; non-trivial: two or more deltas', quick=300)
def order_and_independence(c, r):
    F = fwd(c)
    v = c['v'][0]
    ds = sorted({d for d in c['ds'] if attainable(c, F, d, v)}, key=lambda d: 1 / d)
    if c['conv'] == 'regular_spot' and any(abs(d) == 0.5 for d in ds):
        c['atm'] = 'per_delta_convention'
    if not ds:
        r.discard()
    K = solve(c, np.array(ds), np.full(len(ds), v))
    spot = math.exp(-c['rf'] * c['t']) if c['conv'].endswith('spot') else 1.0
    # call-equivalent delta orders the strikes
    ce = [d / spot if d > 0 else 1 + d / spot for d in ds]
    o = np.argsort(ce)[::-1]
    check(np.all(np.diff(np.asarray(K)[o]) >= -1e-12 * F), 'strikes are not ordered by delta', deltas=ds, strikes=list(map(float, K)))
    for d, k in zip(ds, K):
        close(float(solve(c, d, v).item()), float(k), 'a strike depends on the other quotes', 1e-9, 0)
    r.nt(len(ds) > 1)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(c=smile(), k=st.integers(0, 4))), 'impossible quotes; non-trivial: all', quick=100)
def invalid_quotes_rejected(c, r):
    k, c = c['k'], c['c']
    d, v = 0.25, c['v'][0]
    if k == 0:
        d = 0.6
    elif k == 1:
        v = -v
    elif k == 2:
        c['conv'] = 'regular'
    elif k == 3:
        c['atm'] = 'spot'
    else:
        c['t'] = 0.0
    check(raises(lambda: solve(c, d, v)), 'an impossible quote got a strike', kind=k)
    r.nt()


@st.composite
def pacall(draw):
    c = draw(smile(convs=PA))
    c['t'] = max(c['t'], 0.5)
    c['ds'], c['v'], c['scalar'], c['useF'] = [0.3], [draw(fl(0.4, 1.0, 3)) / math.sqrt(c['t'])], True, True
    c['bas'] = draw(fl(-0.06, 0.06, 4))
    c['frac'] = draw(st.one_of(fl(0.5, 0.985, 4), fl(0.9, 0.985, 4)))
    return c


@facet(FACETS, pacall, 'premium adjusted calls close to the largest attainable delta with a market forward off parity; non-trivial: within 10% of the largest',
       quick=300)
def premium_adjusted_calls_near_maximum(c, r):
    F, v = fwd(c), c['v'][0]
    s = v * math.sqrt(c['t'])
    top = max(delta(c, F, F * math.exp(x), v, 1) for x in np.linspace(-6, 6, 2001) * s)
    d = top * c['frac']
    if d > 0.499:
        r.discard()
    k = float(np.asarray(solve(c, d, v)).item())
    close(delta(c, F, k, v, 1), d, 'the strike does not have the quoted delta', 1e-6, 1e-9, conv=c['conv'], strike=k, forward=F)
    check(delta(c, F, k * 1.0005, v, 1) <= d + 1e-9, 'premium adjusted call strike is on the wrong side of the maximum', delta=d)
    r.nt(c['frac'] > 0.9)


@st.composite
def paput(draw):
    c = draw(smile(convs=PA))
    c['ds'], c['v'], c['rf'] = [-draw(fl(0.2, 0.49, 3))], c['v'][:1], draw(fl(0.03, 0.2, 4))
    # |delta| * exp(rf * t) between 0.9 and 1.6
    c['t'] = round(min(math.log(draw(st.integers(90, 160)) / 100 / -c['ds'][0]) / c['rf'], 40), 4)
    return c


@facet(FACETS, paput, 'premium adjusted puts of long expiries and high foreign rates; non-trivial: the regular delta of that size has no strike', quick=250)
def premium_adjusted_puts_beyond_regular(c, r):
    F, v, d = fwd(c), c['v'][0], c['ds'][0]
    k = float(np.asarray(solve(c, d, v)).item())
    close(delta(c, F, k, v, -1), d, 'the strike does not have the quoted delta', 1e-6, 1e-9, conv=c['conv'], strike=k, forward=F)
    r.nt(c['conv'].endswith('spot') and abs(d) * math.exp(c['rf'] * c['t']) > 1)
