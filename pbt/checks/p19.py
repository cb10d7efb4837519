"""P19 Garman-Kohlhagen European FX option prices."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl, logfl, reps
from pbt import bs

FACETS = []


@st.composite
def opt(draw, tau0=True, n=None, one_market=False):
    """n options, each with its own market (or all on one spot)"""
    n = n or draw(st.integers(1, 4))
    S0 = draw(logfl(0.01, 2000))
    own = draw(st.booleans()) and not one_market
    out = []
    for i in range(n):
        S = draw(logfl(0.01, 2000)) if own and i else S0
        t = draw(st.one_of(logfl(0.003, 20), st.sampled_from([0.0, 0.25, 1.0] if tau0 else [0.25, 1.0])))
        v = draw(logfl(0.02, 0.8))
        sd = max(v * math.sqrt(t), 0.01)
        k = draw(fl(-3.0, 3.0, 4)) * sd
        out.append(dict(S=S, t=t, v=v, K=S * math.exp(max(min(k, 3), -3)), cp=draw(st.sampled_from([1, -1])), rd=draw(fl(-0.03, 0.15, 4)),
                        rf=draw(fl(-0.03, 0.15, 4)), bas=draw(fl(-0.02, 0.02, 4))))
    out = [dict(x) for _ in range(draw(reps())) for x in out]
    return dict(S=S0, o=out, useF=draw(st.booleans()))


def args(c, o=None):
    """vector arguments of the options o (default all)"""
    o = c['o'] if o is None else o
    a = lambda k: np.array([x[k] for x in o])
    kw = dict(S0=a('S'), tau=a('t'), r_d=a('rd'), r_f=a('rf'), cp=a('cp'), K=a('K'), vol=a('v'))
    if c['useF']:
        kw['F'] = np.array([fwd(c, x) for x in o])
    return kw


def fwd(c, x):
    return x['S'] * math.exp((x['rd'] - x['rf'] + x['bas']) * x['t'])


def ref(c, x):
    return bs.gk(x['S'], x['t'], x['rd'], x['rf'], x['cp'], x['K'], x['v'], fwd(c, x) if c['useF'] else None)


def scalar(c, x, **over):
    kw = dict(S0=x['S'], tau=x['t'], r_d=x['rd'], r_f=x['rf'], cp=x['cp'], K=x['K'], vol=x['v'])
    if c['useF']:
        kw['F'] = fwd(c, x)
    kw.update(over)
    return kw


def price(kw, **k):
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price
    with np.errstate(all='ignore'):
        return garman_kohlhagen_price(**kw, **k)


@facet(FACETS, opt, 'options from one day to 20 years, with and without a market forward; non-trivial: two or more options at once', quick=1200, shards=2)
def price_vs_reference(c, r):
    exp = [ref(c, x) for x in c['o']]
    tol = np.array([1e-10 * x['S'] for x in c['o']])
    res = price(args(c), intrinsic_time_split=True)
    check(np.shape(res['price']) == (len(exp),), 'one price per option', shape=np.shape(res['price']))
    for p, e, h in zip(res['price'], exp, tol):
        close(p, e, 'option prices', 1e-8, h)
    for x, e, h in zip(c['o'], exp, tol):
        close(price(scalar(c, x))['price'], e, 'option price (scalar call)', 1e-8, h)
    # quadrature of the payoff under the lognormal law with the given forward
    x = c['o'][0]
    if x['t'] > 0:
        s = x['v'] * math.sqrt(x['t'])
        F = fwd(c, x) if c['useF'] else x['S'] * math.exp((x['rd'] - x['rf']) * x['t'])
        z0 = (math.log(x['K'] / F) + 0.5 * s * s) / s
        e = bs.expect_payoff(lambda z: np.maximum(x['cp'] * (F * np.exp(s * z - 0.5 * s * s) - x['K']), 0), s, z0)
        df = math.exp(-x['rf'] * x['t']) * x['S'] / F
        close(float(res['price'][0]), df * e, 'price is the discounted expected payoff', 1e-6, 1e-7 * x['S'])
    for i, x in enumerate(c['o']):
        t = x['t']
        F = fwd(c, x) if c['useF'] else x['S'] * math.exp((x['rd'] - x['rf']) * t)
        df = math.exp(-x['rf'] * t) * x['S'] / F if t else 1.0
        intr = df * max(0.0, x['cp'] * (F - x['K'])) if t else max(0.0, x['cp'] * (x['S'] - x['K']))
        close(res['intrinsic'][i], intr, 'intrinsic value is the discounted forward intrinsic', 1e-8, tol[i])
        close(res['time'][i], exp[i] - intr, 'time value is price less intrinsic', 1e-7, 1e-8 * x['S'])
        check(res['time'][i] >= -1e-8 * x['S'], 'negative time value')
    r.label('forward' if c['useF'] else 'parity', *('expired' if x['t'] == 0 else 'alive' for x in c['o']))
    if len({x['S'] for x in c['o']}) > 1:
        r.label('different spots')
    r.nt(len(c['o']) > 1)


@facet(FACETS, lambda: opt(tau0=False, n=1), 'put-call parity, foreign-domestic symmetry, monotonicity, convexity, bounds; non-trivial: all', quick=700, shards=2)
def relations(c, r):
    x = c['o'][0]
    S, K, t, rd, rf, v = c['S'], x['K'], x['t'], x['rd'], x['rf'], x['v']
    p = lambda **k: float(np.asarray(price(scalar(c, x, **k))['price']).item())
    tol = 1e-9 * max(S, K)
    F = fwd(c, x) if c['useF'] else S * math.exp((rd - rf) * t)
    df = math.exp(-rf * t) * S / F
    C, P = p(cp=1), p(cp=-1)
    close(C - P, df * (F - K), 'put-call parity', 1e-9, tol)
    check(C >= max(0, df * (F - K)) - tol, 'call below its lower bound') or check(C <= df * F + tol, 'call above the discounted forward')
    check(P >= max(0, df * (K - F)) - tol, 'put below its lower bound') or check(P <= df * K + tol, 'put above the discounted strike')
    for cp in (1, -1):
        a, b, d = p(cp=cp, K=K * 0.99), p(cp=cp), p(cp=cp, K=K * 1.01)
        check(cp * (a - b) >= -tol and cp * (b - d) >= -tol, 'price is not monotone in the strike', cp=cp)
        check(a + d - 2 * b >= -tol, 'price is not convex in the strike', cp=cp)
        check(p(cp=cp, vol=v * 1.05) >= b - tol, 'price decreases with volatility', cp=cp)
    # a call on the foreign currency is a put on the domestic one
    o = dict(S0=1 / S, tau=t, r_d=rf, r_f=rd, cp=-x['cp'], K=1 / K, vol=v)
    if c['useF']:
        o['F'] = 1 / F
        o['r_f'] = math.log(F / S) / t + rf
    close(float(np.asarray(price(o)['price']).item()) * S * K, p(), 'foreign-domestic symmetry', 1e-8, tol)
    # scaling of the currency unit
    k = dict(S0=7 * S, K=7 * K)
    if c['useF']:
        k['F'] = 7 * F
    close(p(**k), 7 * p(), 'price scales with the currency unit', 1e-9, tol)
    r.nt()


@facet(FACETS, lambda: opt(n=3, one_market=True), 'one market, several strikes given as vectors; non-trivial: all', quick=300)
def scalar_market_vector_options(c, r):
    x0 = c['o'][0]
    o = [dict(x0, K=x['K'], v=x['v'], cp=x['cp']) for x in c['o']]
    a = lambda k: np.array([x[k] for x in o])
    kw = scalar(c, x0, K=a('K'), vol=a('v'), cp=a('cp'))
    res = price(kw, intrinsic_time_split=True, analytical_greeks=x0['t'] > 0)
    exp = [ref(c, x) for x in o]
    close(res['price'], exp, 'vector of options on one market', 1e-8, 1e-10 * c['S'])
    close(np.asarray(res['intrinsic']) + np.asarray(res['time']), exp, 'intrinsic + time = price', 1e-8, 1e-10 * c['S'])
    if x0['t'] > 0:
        g = res['analytical_greeks']
        for i, x in enumerate(o):
            gi = price(scalar(c, x), analytical_greeks=True)['analytical_greeks']
            for k in g.columns:
                close(float(g[k].iloc[i]), float(gi[k].iloc[0]), f'{k} of a vector of options', 1e-9, 1e-12)
    r.nt()


@facet(FACETS, lambda: st.fixed_dictionaries(dict(c=opt(n=1, tau0=False), k=st.integers(0, 3))), 'impossible inputs; non-trivial: all', quick=80)
def invalid_inputs_rejected(c, r):
    k, c = c['k'], c['c']
    bad = [dict(S0=-c['S']), dict(tau=-0.1), dict(cp=0), dict(F=-1.0)][k]
    check(raises(lambda: price(scalar(c, c['o'][0], **bad))), 'impossible input accepted', **bad)
    r.nt()
