"""P20 Garman-Kohlhagen greeks."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl, logfl
from pbt import bs
from pbt.checks import p19

FACETS = []


@st.composite
def opt(draw):
    c = draw(p19.opt(tau0=False))
    for x in c['o']:
        x['t'] = max(x['t'], 0.05)
        x['v'] = max(x['v'], 0.04)
        k = math.log(x['K'] / x['S']) / max(x['v'] * math.sqrt(x['t']), 0.01)
        x['K'] = x['S'] * math.exp(max(min(k, 2.5), -2.5) * x['v'] * math.sqrt(x['t']))
    return c


def ref_greeks(c, x):
    """central differences of the reference price, in the documented units"""
    S, t, K, v, cp, rd, rf = x['S'], x['t'], x['K'], x['v'], x['cp'], x['rd'], x['rf']
    if c['useF']:
        rd = rd + x['bas']  # the forward implies the domestic rate
    g = lambda S=S, t=t, rd=rd, v=v: bs.gk(S, t, rd, rf, cp, K, v)
    s = v * math.sqrt(t)
    h = S * s * 2e-3
    d1 = (math.log(S / K) + (rd - rf + v * v / 2) * t) / s
    out = dict(spot_delta=cp * math.exp(-rf * t) * bs.N(cp * d1))
    close((g(S=S + h) - g(S=S - h)) / (2 * h), out['spot_delta'], 'oracle: delta', 1e-4, 1e-5)
    out['forward_delta'] = cp * bs.N(cp * d1)
    e = v * 1e-4
    out['vega'] = (g(v=v + e) - g(v=v - e)) / (2 * e) * 0.01
    out['gamma'] = math.exp(-rf * t) * bs.n(d1) / (S * s) * 0.01 * S
    e = t * 1e-4
    out['theta'] = -(g(t=t + e) - g(t=t - e)) / (2 * e) / 365.25
    e = 1e-5
    out['rho'] = (g(rd=rd + e) - g(rd=rd - e)) / (2 * e) * 0.01
    return out


@facet(FACETS, opt, 'options from weeks to 20 years; non-trivial: a put with different rates', quick=900, shards=2)
def analytical_greeks(c, r):
    g = p19.price(p19.args(c), analytical_greeks=True)['analytical_greeks']
    for i, x in enumerate(c['o']):
        for k, e in ref_greeks(c, x).items():
            scale = 1.0 if k in ('spot_delta', 'forward_delta', 'gamma') else x['S'] * 0.01
            close(float(g[k].iloc[i]), e, f'analytical {k} is the derivative of the price in the documented unit', 2e-5, 3e-7 * scale,
                  cp=x['cp'], useF=c['useF'])
    r.nt(any(x['cp'] == -1 and x['rd'] != x['rf'] for x in c['o']))


@facet(FACETS, opt, 'the same options; non-trivial: a put', quick=500, shards=2)
def numerical_greeks(c, r):
    for x in c['o']:
        x['v'] = max(x['v'], 0.05)
        x['t'] = max(x['t'], 0.15)
    res = p19.price(p19.args(c), analytical_greeks=True, numerical_greeks=True)
    a, g = res['analytical_greeks'], res['numerical_greeks']
    for i, x in enumerate(c['o']):
        sd = x['v'] * math.sqrt(x['t'])
        for k in ('spot_delta', 'forward_delta', 'vega', 'theta', 'gamma', 'rho'):
            # a 1% shift of the spot / one point of volatility / one day / 1% of the rate: curvature limits the agreement
            rel = {'spot_delta': 0.02, 'forward_delta': 0.02, 'vega': 0.02, 'theta': 0.02, 'gamma': 0.03, 'rho': 0.03}[k]
            e, v = float(a[k].iloc[i]), float(np.asarray(g[k])[i])
            size = {'spot_delta': 1.0, 'forward_delta': 1.0, 'gamma': 0.01 / sd, 'vega': 0.01 * x['S'] * math.sqrt(x['t']),
                    'theta': x['S'] * x['v'] / math.sqrt(x['t']) / 365, 'rho': 0.01 * x['t'] * x['K']}[k]
            stiff = {'spot_delta': (0.01 / sd) ** 2, 'forward_delta': (0.01 / sd) ** 2, 'gamma': (0.01 / sd) ** 2, 'vega': (0.01 / x['v']) ** 2,
                     'theta': (1 / 365 / x['t']) ** 2, 'rho': (0.01 * x['t'] / sd) ** 2 + (0.01 * x['t']) ** 2}[k]
            close(v, e, f'numerical {k} is the finite difference estimate of the analytical one', rel, size * (1e-4 + 3 * stiff), cp=x['cp'], stiff=stiff)
    r.nt(any(x['cp'] == -1 for x in c['o']))
