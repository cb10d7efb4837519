"""P24 implied volatilities and volatility conversions (Black76 lognormal, shifted lognormal, normal)."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl, logfl
from pbt import bs

FACETS = []


@st.composite
def quote(draw, wide=2.0):
    """one option on a (shifted) rate with a shifted lognormal volatility"""
    shift = draw(st.sampled_from([0.0, 0.0, 0.01, 0.02, 0.03]))
    G = draw(logfl(0.004, 0.12))
    t = draw(logfl(0.05, 20))
    v = draw(logfl(0.08, 0.8))
    sd = v * math.sqrt(t)
    if sd > 1.6:
        v = round(1.6 / math.sqrt(t), 5)
        sd = v * math.sqrt(t)
    x = draw(st.one_of(fl(-wide, wide, 3), st.just(0.0)))
    K = G * math.exp(x * sd)
    F = round(G - shift, 10)
    K = F if x == 0 else round(K - shift, 10)
    return dict(F=F, tau=t, K=K, v=v, shift=shift, cp=draw(st.sampled_from([1, -1])), ann=draw(st.one_of(logfl(0.02, 20), st.just(1.0))),
                g=draw(logfl(0.02, 1.5)))


def black(c, cp=1, v=None, shift=None, ann=1.0):
    h = c['shift'] if shift is None else shift
    return ann * bs.black(c['F'] + h, c['K'] + h, (v or c['v']) * math.sqrt(c['tau']), cp)


def bach(c, cp=1, v=None, ann=1.0):
    return ann * bs.bachelier(c['F'], c['K'], v * math.sqrt(c['tau']), cp)


def normal_vol(c, X, lo=1e-7, hi=5.0):
    """reference: bisection of the out of the money Bachelier price"""
    cp = 1 if c['K'] >= c['F'] else -1
    X = X - max(0.0, c['F'] - c['K'])  # time value of the call
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if bach(c, cp, m) < X:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(o=quote(), n=st.integers(1, 5), d=fl(-0.3, 0.3, 3), m=st.sampled_from(['black', 'normal']), own=st.booleans())),
       'prices of options, and of strips of options sharing one volatility, any starting guess; non-trivial: a strip', quick=600, shards=3)
def implied_vol_round_trip(c, r):
    from frm.pricing_engine.black76_bachelier import black76_solve_implied_vol, bachelier_solve_implied_vol
    o, n = c['o'], c['n']
    taus = [o['tau'] * (1 + 0.25 * i) for i in range(n)]
    Ks = [o['K'] + (o['F'] - o['K']) * c['d'] * i for i in range(n)]
    if min(Ks) + o['shift'] < 1e-3:
        r.discard()
    anns = [o['ann'] * (1 - 0.02 * i) for i in range(n)]
    opts = [dict(o, tau=t, K=k) for t, k in zip(taus, Ks)]
    vn = o['v'] * (o['F'] + o['shift'])
    if c['m'] == 'normal' and not 2e-4 < vn < 0.9:
        r.discard()
    f = (lambda q, a, v: black(q, o['cp'], v, ann=a)) if c['m'] == 'black' else (lambda q, a, v: bach(q, o['cp'], v, ann=a))
    total = lambda v: sum(f(q, a, v) for q, a in zip(opts, anns))
    v0 = o['v'] if c['m'] == 'black' else vn
    X = total(v0)
    intr = sum(a * max(0, o['cp'] * (q['F'] - q['K'])) for q, a in zip(opts, anns))
    if X < 1e-7 * o['ann'] * 0.01 or X - intr < 1e-3 * X:
        r.discard()
    arr = (lambda x: np.array(x)) if n > 1 else (lambda x: x[0])
    a = dict(F=arr([o['F']] * n), tau=arr(taus), cp=o['cp'], K=arr(Ks), X=X, annuity_factor=arr(anns))
    if not c['own']:
        a['vol_sln_guess' if c['m'] == 'black' else 'vol_n_guess'] = o['g'] if c['m'] == 'black' else min(max(o['g'] * 0.05, 1e-4), 1)
    if c['m'] == 'black':
        v = black76_solve_implied_vol(ln_shift=o['shift'], **a)
    else:
        v = bachelier_solve_implied_vol(**a)
    check(np.ndim(v) == 0 or np.size(v) == 1, 'one volatility is returned', got=v)
    v = float(np.asarray(v).item())
    check(math.isfinite(v) and v > 0, 'implied volatility is a positive number', got=v)
    close(total(v), X, f'{c["m"]} price at the implied volatility', 5e-5, 1e-12, vol=v0, got_vol=v)
    # volatility error implied by the price tolerance
    e = 1e-4 * v0
    vega = (total(v0 + e) - total(v0 - e)) / (2 * e)
    close(v, v0, 'implied volatility', 0, 2e-6 + 4 * 5e-5 * X / vega, vega=vega)
    r.label(c['m'])
    r.nt(n > 1)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(o=quote(), m=st.sampled_from(['black', 'normal']), side=st.booleans(), e=logfl(0.05, 0.5))),
       'prices below intrinsic or above the upper bound; non-trivial: all', quick=200)
def unattainable_price_rejected(c, r):
    from frm.pricing_engine.black76_bachelier import black76_solve_implied_vol, bachelier_solve_implied_vol
    o = c['o']
    intr = max(0, o['cp'] * (o['F'] - o['K']))
    if c['side'] and intr > 0:
        X = intr * (1 - c['e'])
    elif c['m'] == 'black':
        X = (o['F'] + o['shift'] if o['cp'] == 1 else o['K'] + o['shift']) * (1 + c['e'])
    else:
        X = (intr + 0.4 * math.sqrt(o['tau']) + abs(o['F'] - o['K'])) * (1 + c['e']) + 1
    X *= o['ann']
    a = dict(F=o['F'], tau=o['tau'], cp=o['cp'], K=o['K'], X=X, annuity_factor=o['ann'])
    fn = (lambda: black76_solve_implied_vol(ln_shift=o['shift'], **a)) if c['m'] == 'black' else (lambda: bachelier_solve_implied_vol(**a))
    check(raises(fn), 'a volatility was returned for a price that no volatility attains', price=X, intrinsic=intr * o['ann'])
    r.nt()


@facet(FACETS, quote, 'lognormal quotes converted to normal volatility and back; non-trivial: away from the money', quick=500, shards=2)
def normal_conversion(c, r):
    from frm.pricing_engine import black76_bachelier as B
    X = black(c)
    tv = X - max(0.0, c['F'] - c['K'])
    ref = normal_vol(c, X)
    if tv < 2e-3 * X or not 2e-4 < ref < 0.9:
        r.discard()
    a = dict(F=c['F'], tau=c['tau'], K=c['K'])
    vn = float(B.black76_sln_to_normal_vol(vol_sln=c['v'], ln_shift=c['shift'], **a))
    close(bach(c, v=vn), X, 'the normal volatility gives the same price', 5e-5, 1e-13, got=vn, reference=ref)
    vb = float(np.asarray(B.normal_vol_to_black76_sln(vol_n=ref, ln_shift=c['shift'], **a)).item())
    close(black(c, v=vb), X, 'the lognormal volatility gives the same price', 1e-4, 1e-13, got=vb, vol=c['v'])
    back = float(np.asarray(B.normal_vol_to_black76_sln(vol_n=vn, ln_shift=c['shift'], **a)).item())
    close(black(c, v=back), X, 'there and back', 2e-4, 1e-13, got=back, vol=c['v'])
    if c['K'] == c['F']:
        close(vn, ref, 'at-the-money normal volatility', 1e-6, 0)
        close(vb, c['v'], 'at-the-money lognormal volatility', 1e-5, 0)
        close(B.normal_vol_atm_to_black76_sln_atm(c['F'], c['tau'], ref, c['shift']), c['v'], 'closed form at-the-money volatility', 1e-6, 0)
    ap = float(B.black76_sln_to_normal_vol_analytical(vol_sln=c['v'], ln_shift=c['shift'], **a))
    sd = c['v'] * math.sqrt(c['tau'])
    close(ap, ref, 'analytical approximation', 1e-4 + 0.004 * sd ** 4, 0, sd=sd)
    r.nt(c['K'] != c['F'])


@facet(FACETS, lambda: st.fixed_dictionaries(dict(o=quote(), h=st.sampled_from([0.0, 0.005, 0.01, 0.02, 0.03, 0.05]))),
       'lognormal quotes moved to another shift and back; non-trivial: a different shift', quick=500, shards=2)
def change_of_shift(c, r):
    from frm.pricing_engine.black76_bachelier import shift_black76_vol
    o, h = c['o'], c['h']
    if min(o['F'], o['K']) + h < 0.002:
        r.discard()
    X = black(o)
    if X - max(0.0, o['F'] - o['K']) < 2e-3 * X:
        r.discard()
    a = dict(F=o['F'], tau=o['tau'], K=o['K'])
    hi = bs.black(o['F'] + h, o['K'] + h, 9.9 * math.sqrt(o['tau']), 1)
    if X > 0.95 * hi:
        r.discard()
    v = float(np.asarray(shift_black76_vol(vol_sln=o['v'], from_ln_shift=o['shift'], to_ln_shift=h, **a)).item())
    close(black(o, v=v, shift=h), X, 'the price does not depend on the shift convention', 1e-4, 1e-13, got=v)
    if h == o['shift']:
        vega = (black(o, v=o['v'] * 1.0001) - black(o, v=o['v'] * 0.9999)) / (2e-4 * o['v'])
        close(v, o['v'], 'the same shift keeps the volatility', 0, 2e-6 + 2e-4 * X / vega)
    b = float(np.asarray(shift_black76_vol(vol_sln=v, from_ln_shift=h, to_ln_shift=o['shift'], **a)).item())
    close(black(o, v=b), X, 'there and back', 2e-4, 1e-13, got=b, vol=o['v'])
    r.nt(h != o['shift'])
