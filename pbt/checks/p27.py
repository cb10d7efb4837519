"""P27: calibration of the Heston model to a smile."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import bs, gen, hes
from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl, logfl

FACETS = []
CONVS = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']


def H():
    from frm.pricing_engine import heston as m
    return m


@st.composite
def smile(draw, methods=('heston_cosine',)):
    k = draw(st.integers(1, 2))
    ds = sorted(draw(st.lists(st.sampled_from([0.1, 0.15, 0.2, 0.25, 0.3, 0.35]), min_size=k, max_size=k, unique=True)))
    atm = draw(fl(0.06, 0.3, 4))
    return dict(S0=draw(logfl(0.5, 150)), r=draw(fl(-0.01, 0.08, 4)), q=draw(fl(-0.01, 0.08, 4)), tau=draw(logfl(0.05, 3)), ds=ds, atm=atm,
                rr=[draw(fl(-0.12, 0.12, 3)) for _ in ds], bf=[draw(fl(0.01, 0.08, 3)) for _ in ds], conv=draw(st.sampled_from(CONVS)),
                method=draw(st.sampled_from(methods)), default=draw(st.booleans()), rev=draw(st.booleans()), k=draw(st.integers(0, 7)))


def quotes(c):
    d = [-x for x in c['ds']] + [0.5] + c['ds'][::-1]
    w = [(0.5 - x) * 2 for x in c['ds']]
    put = [c['atm'] * (1 + b * x - a * x) for x, a, b in zip(w, c['rr'], c['bf'])]
    call = [c['atm'] * (1 + b * x + a * x) for x, a, b in zip(w, c['rr'], c['bf'])]
    v = [round(x, 6) for x in put + [c['atm']] + call[::-1]]
    if c['rev']:
        d, v = d[::-1], v[::-1]
    d, v = np.array(d), np.array(v)
    return d, v, np.where(d > 0, 1, -1)


def run(c, d, v, cp, over={}):
    kw = dict(volatility_quotes=v, delta_of_quotes=d, S0=c['S0'], r=c['r'], q=c['q'], tau=c['tau'], cp=cp, delta_convention=c['conv'])
    if not (c['default'] and c['method'] == 'heston_cosine'):
        kw['pricing_method'] = c['method']
    kw.update(over)
    return H().heston_calibrate_vanilla_smile(**kw)


def strikes(c, d, v):
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta
    return np.asarray(garman_kohlhagen_solve_strike_from_delta(S0=c['S0'], tau=c['tau'], r_d=c['r'], r_f=c['q'], vol=v, signed_delta=d, delta_convention=c['conv']), dtype=float)


def iv(c, K, cp, X):
    """Implied volatility by bisection; None if the price has no time value."""
    F = c['S0'] * math.exp((c['r'] - c['q']) * c['tau'])
    df = math.exp(-c['r'] * c['tau'])
    lo, hi = 1e-4, 5.0
    f = lambda s: df * bs.black(F, K, s * math.sqrt(c['tau']), cp) - X
    if not f(lo) < 0 < f(hi):
        return None
    from scipy.optimize import brentq
    return brentq(f, lo, hi, xtol=1e-13)


def judge(c, r):
    d, v, cp = quotes(c)
    keep = (d.copy(), v.copy(), cp.copy())
    try:
        out = run(c, d, v, cp)
    except ValueError as e:
        # a delta that cannot be attained under the convention
        r.label('refused')
        r.discard()
    check(all(np.array_equal(a, b) for a, b in zip(keep, (d, v, cp))), 'an input array was modified')
    check(out is not None and len(out) == 8, 'no calibration result', got=out)
    var0, vv, kappa, theta, rho, lam, IV, SSE = out
    r.label(c['conv'])
    close(var0, c['atm'] ** 2, 'initial variance is the squared at-the-money volatility', 1e-4)
    check(kappa == 1.5 and lam == 0, 'mean reversion 1.5 and no risk premium', kappa=kappa, lambda_=lam)
    check(vv > 0 and theta >= 0 and -1 <= rho <= 1, 'parameters outside their domain', vv=vv, theta=theta, rho=rho)
    check(np.shape(IV) == v.shape and np.isfinite(IV).all() and np.isfinite(SSE), 'fitted volatilities are not numbers', IV=IV, SSE=SSE)
    close(float(SSE), float(np.sum((v - IV) ** 2)), 'sum of squared errors of the fitted volatilities', 1e-9, 1e-15)
    K = strikes(c, d, v)
    m = (var0, vv, kappa, theta, rho)
    # beyond vv 1.5 the cosine method itself is no longer accurate (P25): take its prices
    mine, wild = [], vv > 1.5
    for i in range(len(v)):
        if wild:
            X = float(np.asarray(H().heston_price_vanilla_european(S0=c['S0'], tau=c['tau'], r=c['r'], q=c['q'], cp=int(cp[i]), K=K[i], var0=var0, vv=vv, kappa=kappa, theta=theta,
                                                                   rho=rho, lambda_=0, pricing_method=c['method'])).item())
        else:
            X = hes.price(int(cp[i]), c['S0'], c['tau'], c['r'], c['q'], K[i], *m)
        mine.append(iv(c, K[i], int(cp[i]), X))
    if any(x is None for x in mine):
        r.discard()
    tol = 5e-4 if c['method'] != 'heston_carr_madan_fft_w_simpsons' else 5e-3
    close(IV, mine, 'fitted volatilities are those of the Heston model with the returned parameters', 1e-3, tol, params=m)
    return d, v, cp, K, m, IV, SSE


@facet(FACETS, smile, 'three to five quotes, four delta conventions, strikes in either order; non-trivial: all', quick=60, shards=5, thorough=1500)
def fit(c, r):
    """The result is internally consistent, valid and at least as good as the starting point and a flat smile at the at-the-money volatility."""
    d, v, cp, K, m, IV, SSE = judge(c, r)
    r.nt()
    # starting point of the search
    s0 = 0.0
    for i in range(len(v)):
        X = hes.price(int(cp[i]), c['S0'], c['tau'], c['r'], c['q'], K[i], c['atm'] ** 2, 2 * c['atm'], 1.5, 2 * c['atm'] ** 2, 0.0)
        x = iv(c, K[i], int(cp[i]), X)
        s0 += (v[i] - x) ** 2 if x is not None else 1.0
    r.label('vv>1.5' if m[1] > 1.5 else 'vv<=1.5')
    check(SSE <= s0 * 1.02 + 1e-7, 'the fit is worse than its starting point', SSE=SSE, start=s0)
    rel = math.sqrt(SSE / len(v)) / c['atm']
    check(rel < 0.1, 'the fitted smile is far from its quotes', relative_rmse=rel)
    r.label('rmse<1%' if rel < 0.01 else 'rmse<5%' if rel < 0.05 else 'rmse>5%')


@facet(FACETS, lambda: smile(methods=('heston_lipton', 'heston_1993', 'heston_carr_madan_gauss_kronrod_quadrature', 'heston_carr_madan_fft_w_simpsons')), 'the other pricing methods; non-trivial: all', quick=6, shards=3, thorough=120)
def other_methods(c, r):
    """Calibrating with another pricing method is consistent and as close as the cosine method."""
    c['tau'] = max(c['tau'], 0.25)
    d, v, cp, K, m, IV, SSE = judge(c, r)
    r.label(c['method'])
    r.nt()


@facet(FACETS, smile, 'invalid inputs; non-trivial: all', quick=60)
def invalid_rejected(c, r):
    """Non-positive spot or expiry, missing rates, option types other than 1 / -1 and unknown methods are rejected."""
    d, v, cp = quotes(c)
    bad = [dict(S0=0.0), dict(S0=-c['S0']), dict(tau=0.0), dict(tau=-c['tau']), dict(r=float('nan')), dict(q=float('nan')), dict(cp=cp * 2), dict(pricing_method='heston')][c['k']]
    r.nt()
    check(raises(lambda: run(c, d, v, cp, bad), ValueError), 'invalid input was accepted', bad=bad)
