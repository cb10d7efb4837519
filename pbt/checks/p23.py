"""P23 Black76 (shifted lognormal) and Bachelier (normal) prices and greeks."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import fl, logfl, reps
from pbt import bs

FACETS = []
KEYS = ['F', 'tau', 'cp', 'K', 'vol', 'shift', 'ann']


@st.composite
def opts(draw, model=None, tau0=True, n=None, tmin=0.0005):
    """n options; the keys in 'same' have one value for all of them and may be passed as a scalar"""
    model = model or draw(st.sampled_from(['black', 'normal']))
    rep = 1 if n else draw(reps())
    n = n or draw(st.integers(1, 4))
    same = draw(st.lists(st.sampled_from(['ft', 'cp', 'K', 'vol', 'shift', 'ann']), unique=True))
    out = []
    base_level = draw(st.sampled_from(['rate', 'rate', 'price']))
    for _ in range(n):
        if base_level == 'rate':
            shift = draw(st.sampled_from([0.0, 0.0, 0.005, 0.02, 0.03])) if model == 'black' else 0.0
            G = draw(logfl(0.002, 0.15))
            F = G - shift
            if model == 'normal':
                F = draw(fl(-0.03, 0.15, 5))
        else:
            shift, F = 0.0, draw(logfl(1, 3000))
        t = draw(st.one_of(logfl(tmin, 30), st.sampled_from([0.0, 0.5, 1.0] if tau0 else [0.5, 1.0])))
        v = draw(logfl(0.05, 0.9))
        scale = 0.04 if base_level == 'rate' else abs(F) or 1.0
        x = draw(st.one_of(fl(-3, 3, 3), st.just(0.0)))
        if model == 'normal':
            v = v * scale
            K = F + x * v * math.sqrt(max(t, 0.01))
        else:
            K = (F + shift) * math.exp(max(min(x * v * math.sqrt(max(t, 0.01)), 2.5), -2.5)) - shift
        out.append(dict(F=F, tau=t, cp=draw(st.sampled_from([1, -1])), K=K, vol=v, shift=shift, ann=draw(st.one_of(logfl(0.01, 20), st.just(1.0)))))
    for k in same:
        for o in out[1:]:
            for q in (('F', 'tau') if k == 'ft' else (k,)):
                o[q] = out[0][q]
    if model == 'black':  # values copied from another option must keep the shifted forward and strike positive
        sh = max(o['shift'] for o in out)
        for o in out:
            if min(o['F'], o['K']) + o['shift'] <= 1e-4:
                o['shift'] = sh
        if any(min(o['F'], o['K']) + o['shift'] <= 1e-4 for o in out) or ('shift' in same and len({o['shift'] for o in out}) > 1):
            for o in out:
                o['F'], o['K'] = abs(o['F']) + 1e-3, abs(o['K']) + 1e-3
                o['shift'] = out[0]['shift']
    out = [dict(o) for _ in range(rep) for o in out]
    return dict(model=model, o=out, same=same, ann_default=draw(st.integers(0, 5)) == 0)


def ref(model, o, **k):
    o = dict(o, **k)
    s = o['vol'] * math.sqrt(o['tau'])
    if model == 'black':
        return o['ann'] * bs.black(o['F'] + o['shift'], o['K'] + o['shift'], s, o['cp'])
    return o['ann'] * bs.bachelier(o['F'], o['K'], s, o['cp'])


def call(c, **k):
    from frm.pricing_engine.black76_bachelier import black76_price, bachelier_price
    o, n = c['o'], len(c['o'])
    if c['ann_default']:
        for x in o:
            x['ann'] = 1.0

    def val(key):
        grp = 'ft' if key in ('F', 'tau') else key
        vals = [x[key] for x in o]
        if n == 1 or (grp in c['same'] and len(set(vals)) == 1):
            return vals[0]
        return np.array(vals)
    a = dict(F=val('F'), tau=val('tau'), cp=val('cp'), K=val('K'))
    if np.shape(a['F']) != np.shape(a['tau']):
        a['F'], a['tau'] = np.array([x['F'] for x in o]), np.array([x['tau'] for x in o])
    if not c['ann_default']:
        a['annuity_factor'] = val('ann')
    if c['model'] == 'black':
        a.update(vol_sln=val('vol'), ln_shift=val('shift'))
        f = black76_price
    else:
        a.update(vol_n=val('vol'))
        f = bachelier_price
    out = f(**a, **k)
    size = max(np.size(v) for v in a.values())
    return out, size


def spread(x, size, n, msg):
    """result vector for the n options (a single one if every parameter is a scalar)"""
    x = np.asarray(x, dtype=float).reshape(-1)
    check(x.size == size, msg + ': one value per option expected', size=x.size, expected=size)
    return np.full(n, x[0]) if size == 1 else x


@facet(FACETS, opts, 'vectors of 1-4 options with scalar or vector parameters, shifts, annuities and expired options; non-trivial: two or more options',
       quick=1500, shards=3)
def price_and_split(c, r):
    res, size = call(c, intrinsic_time_split=True)
    m, o, n = c['model'], c['o'], len(c['o'])
    exp = [ref(m, x) for x in o]
    P = spread(res['price'], size, n, 'price')
    I, T = spread(res['intrinsic'], size, n, 'intrinsic'), spread(res['time'], size, n, 'time value')
    for i, x in enumerate(o):
        tol = 1e-10 * x['ann'] * max(abs(x['F']), abs(x['K']), 1e-3)
        close(P[i], exp[i], f'{m} price', 1e-8, tol, tau=x['tau'])
        intr = x['ann'] * max(0.0, x['cp'] * (x['F'] - x['K']))
        close(I[i], intr, 'intrinsic value is the annuity times the exercise value', 1e-9, tol, tau=x['tau'])
        close(T[i], exp[i] - intr, 'time value is price less intrinsic', 1e-7, 10 * tol)
        check(T[i] >= -10 * tol, 'negative time value', time=T[i])
    x = o[0]
    if x['tau'] > 0:
        s, F, K = x['vol'] * math.sqrt(x['tau']), x['F'] + x['shift'], x['K'] + x['shift']
        if m == 'black':
            z0 = (math.log(K / F) + 0.5 * s * s) / s
            e = bs.expect_payoff(lambda z: np.maximum(x['cp'] * (F * np.exp(s * z - 0.5 * s * s) - K), 0), s, z0)
        else:
            e = bs.expect_payoff(lambda z: np.maximum(x['cp'] * (F + s * z - K), 0), s, (K - F) / s)
        close(P[0], x['ann'] * e, 'price is the expected payoff times the annuity', 1e-6, 1e-7 * x['ann'] * max(abs(F), abs(K)))
    r.label(m, *('expired' if x['tau'] == 0 else 'alive' for x in o))
    r.nt(n > 1)


@facet(FACETS, lambda: opts(tau0=False, n=1), 'parity, bounds, monotonicity, convexity and scaling for one option; non-trivial: all', quick=700, shards=2)
def relations(c, r):
    m, x = c['model'], c['o'][0]
    if c['ann_default']:
        x['ann'] = 1.0

    def p(**k):
        return float(np.asarray(call(dict(c, ann_default=0, o=[dict(x, **k)]))[0]['price']).item())
    F, K, A, h = x['F'], x['K'], x['ann'], x['shift']
    tol = 1e-10 * A * max(abs(F), abs(K), 1e-3)
    C, Q = p(cp=1), p(cp=-1)
    close(C - Q, A * (F - K), 'put-call parity', 1e-9, tol)
    check(C >= A * max(0, F - K) - tol and Q >= A * max(0, K - F) - tol, 'price below intrinsic value', call=C, put=Q)
    if m == 'black':
        check(C <= A * (F + h) + tol and Q <= A * (K + h) + tol, 'price above its upper bound', call=C, put=Q)
    d = 0.01 * ((K + h) if m == 'black' else x['vol'])
    for cp in (1, -1):
        a, b, e = p(cp=cp, K=K - d), p(cp=cp), p(cp=cp, K=K + d)
        check(cp * (a - b) >= -tol and cp * (b - e) >= -tol, 'price is not monotone in the strike', cp=cp)
        check(a + e - 2 * b >= -tol, 'price is not convex in the strike', cp=cp)
        check(p(cp=cp, vol=x['vol'] * 1.05) >= b - tol, 'price decreases with volatility', cp=cp)
        check(p(cp=cp, tau=x['tau'] * 1.05) >= b - tol, 'price decreases with expiry', cp=cp)
    close(p(ann=3 * A), 3 * p(), 'price is proportional to the annuity', 1e-12, tol)
    if m == 'black':
        close(p(F=F + h, K=K + h, shift=0.0), p(), 'the shift moves forward and strike', 1e-9, tol)
    else:
        close(p(F=F + 0.01, K=K + 0.01), p(), 'translation invariance', 1e-7, 10 * tol)
    r.nt()


@facet(FACETS, lambda: opts(tau0=False, tmin=0.02), 'analytical greeks of vectors of options; non-trivial: a put', quick=700, shards=2)
def analytical_greeks(c, r):
    m, o, n = c['model'], c['o'], len(c['o'])
    res, size = call(c, analytical_greeks=True)
    g = res['analytical_greeks']
    for k in g.columns:
        col = spread(g[k], size, n, k)
        for i, x in enumerate(o):
            s = x['vol'] * math.sqrt(x['tau'])
            if m == 'black':
                s *= x['F'] + x['shift']
            unit = x['ann']
            if k == 'delta':
                h = 1e-3 * s
                e = (ref(m, x, F=x['F'] + h) - ref(m, x, F=x['F'] - h)) / (2 * h)
            elif k == 'vega':
                h = 1e-4 * x['vol']
                e = (ref(m, x, vol=x['vol'] + h) - ref(m, x, vol=x['vol'] - h)) / (2 * h) * (0.01 if m == 'black' else 0.0001)
                unit = x['ann'] * s / x['vol'] * (0.01 if m == 'black' else 0.0001)
            elif k == 'theta':
                h = 1e-4 * x['tau']
                e = -(ref(m, x, tau=x['tau'] + h) - ref(m, x, tau=x['tau'] - h)) / (2 * h) / 365.25
                unit = x['ann'] * s / x['tau'] / 365.25
            else:
                continue
            close(col[i], e, f'{m} analytical {k} is the derivative of the price in its market unit', 2e-5, 2e-5 * unit, cp=x['cp'])
    check({'delta', 'vega'} <= set(g.columns), 'delta and vega are reported', columns=list(g.columns))
    r.label(m)
    r.nt(any(x['cp'] == -1 for x in o))


@facet(FACETS, lambda: opts('black', tau0=False, tmin=0.1), 'numerical greeks of Black76, with and without a shift; non-trivial: a shift', quick=400, shards=2)
def numerical_greeks(c, r):
    for x in c['o']:
        x['vol'] = max(x['vol'], 0.1)
    c['same'] = [k for k in c['same'] if k != 'vol']
    o, n = c['o'], len(c['o'])
    res, size = call(c, numerical_greeks=True)
    g = res['numerical_greeks']
    for k in ('delta', 'vega'):
        col = spread(g[k], size, n, k)
        for i, x in enumerate(o):
            sd = x['vol'] * math.sqrt(x['tau'])
            G = x['F'] + x['shift']
            h = 1e-3 * sd * G
            if k == 'delta':
                e = (ref('black', x, F=x['F'] + h) - ref('black', x, F=x['F'] - h)) / (2 * h)
                unit, stiff = x['ann'], (0.01 / sd) ** 2
            else:
                d = 1e-4
                e = (ref('black', x, vol=x['vol'] + d) - ref('black', x, vol=x['vol'] - d)) / (2 * d) * 0.01
                unit, stiff = 0.01 * x['ann'] * G * math.sqrt(x['tau']), (0.01 / x['vol']) ** 2
            close(col[i], e, f'numerical {k} is the finite difference estimate', 0.02, unit * (1e-4 + 3 * stiff), shift=x['shift'])
    r.nt(any(x['shift'] for x in o))
