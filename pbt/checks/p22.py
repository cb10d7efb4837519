"""P22 implied volatility of FX options inverts the price."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl, logfl
from pbt import bs

FACETS = []


@st.composite
def opt(draw):
    t = draw(logfl(0.02, 15))
    v = draw(st.one_of(logfl(0.03, 0.8), logfl(0.03, 0.8), logfl(0.8, 1.9), logfl(0.003, 0.03)))  # the documented fallback searches 0.01% to 200%
    S = draw(logfl(0.01, 2000))
    rd, rf = draw(fl(-0.02, 0.1, 4)), draw(fl(-0.02, 0.1, 4))
    x = draw(fl(-2.0, 2.0, 3)) * (1 if v >= 0.03 else 0.5)  # the solver stops within a hundredth of a point
    K = S * math.exp((rd - rf) * t) * math.exp(max(min(x * v * math.sqrt(t), 3), -3))
    return dict(S=S, t=t, rd=rd, rf=rf, v=v, K=K, cp=draw(st.sampled_from([1, -1])), g=draw(st.one_of(st.just(None), logfl(0.05, 0.6), logfl(0.01, 2))),
                bad=draw(st.one_of(fl(0.01, 0.5, 3), logfl(0.002, 0.05))))


def solve(c, X, guess):
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_implied_vol
    with np.errstate(all='ignore'):
        return float(garman_kohlhagen_solve_implied_vol(S0=c['S'], tau=c['t'], r_d=c['rd'], r_f=c['rf'], cp=c['cp'], K=c['K'], X=X, vol_guess=guess))


@facet(FACETS, opt, 'prices of options within two standard deviations and any guess; non-trivial: guess more than 5 vol points away', quick=900, shards=3)
def round_trip(c, r):
    P = lambda v: bs.gk(c['S'], c['t'], c['rd'], c['rf'], c['cp'], c['K'], v)
    X = P(c['v'])
    if X < 1e-9 * c['S']:
        r.discard()
    g = c['g'] or c['v'] * 1.1
    s = c['v'] * math.sqrt(c['t'])
    d1 = math.log(c['S'] * math.exp((c['rd'] - c['rf']) * c['t']) / c['K']) / s + s / 2
    vega = c['S'] * math.exp(-c['rf'] * c['t']) * bs.n(d1) * math.sqrt(c['t'])
    if vega < 1e-4 * c['S'] * math.sqrt(c['t']):
        r.discard()
    iv = solve(c, X, g)
    check(math.isfinite(iv) and iv > 0, 'no implied volatility found for an attainable price', got=iv, vol=c['v'], guess=g)
    close(iv, c['v'], 'implied volatility does not recover the volatility that priced the option', 0, 2e-4, guess=g)
    close(bs.gk(c['S'], c['t'], c['rd'], c['rf'], c['cp'], c['K'], iv), X, 'price at the implied volatility', 1e-9,
          abs(P(c['v'] + 2.1e-4) - P(max(c['v'] - 2.1e-4, 1e-5))))
    r.nt(abs(g - c['v']) > 0.05)


@facet(FACETS, opt, 'prices outside the arbitrage bounds; non-trivial: all', quick=2500, shards=7)
def unattainable_price_has_no_volatility(c, r):
    F, df = c['S'] * math.exp((c['rd'] - c['rf']) * c['t']), math.exp(-c['rd'] * c['t'])
    lo = df * max(0, c['cp'] * (F - c['K']))
    hi = df * (F if c['cp'] == 1 else c['K'])
    for X in (lo - c['bad'] * c['S'], hi + c['bad'] * c['S']):
        iv = solve(c, X, c['g'] or 0.2)
        check(not (math.isfinite(iv) and iv > 0), 'a volatility was returned for a price no volatility attains', price=X, bounds=(lo, hi), got=iv)
    r.nt()
