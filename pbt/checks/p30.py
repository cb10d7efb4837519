"""P30: forward volatility and flat-forward interpolation preserve total variance."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import facet, check, close, fail, raises

FACETS = []


def F():
    from frm.pricing_engine import volatility_generic as m
    return m


@st.composite
def s_fwd(draw):
    n = draw(st.integers(1, 5))
    rows = []
    for _ in range(n):
        t1 = draw(gen.logfl(0.003, 5)) if draw(st.integers(0, 9)) else 0.0
        dt = draw(gen.logfl(0.002, 10))
        v1 = draw(gen.fl(0.01, 1.0))
        fv = draw(gen.fl(0.0, 1.2)) if draw(st.integers(0, 6)) else 0.0
        rows.append([t1, t1 + dt, v1, fv])
    k = draw(st.integers(1, 3))
    cols = [[draw(gen.fl(0.5, 1.5)) for _ in range(k)] for _ in range(n)]
    w = [draw(gen.fl(0, 1)) for _ in range(n)]
    form = draw(st.sampled_from(['scalar', 'vector', 'matrix']))
    eq = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if draw(st.booleans()) else [False] * n
    bad = draw(st.sampled_from(['', '', '', 'order', 'variance']))
    return dict(rows=rows, cols=cols, w=w, form=form, eq=eq, bad=bad, pos=draw(st.integers(0, n - 1)))


def build(c):
    a = np.array(c['rows'], dtype=float)
    t1, t2, v1, fv = a.T
    if c['form'] == 'scalar':
        t1, t2, v1, fv = t1[0], t2[0], v1[0], fv[0]
    elif c['form'] == 'matrix':
        t1, t2 = t1[:, None], t2[:, None]
        m = np.array(c['cols'])
        v1, fv = v1[:, None] * m, fv[:, None] * m[:, ::-1]
    v2 = np.sqrt((v1 ** 2 * t1 + fv ** 2 * (t2 - t1)) / t2)
    return t1, t2, v1, v2, fv


@facet(FACETS, s_fwd, 'more than one quote, or positive first expiry and a non-trivial forward volatility', quick=1500)
def forward_vol(c, r):
    """var(t1) + fwd var * (t2-t1) == var(t2), NaN where the expiries coincide, errors for inconsistent input."""
    m = F()
    t1, t2, v1, v2, fv = build(c)
    r.label(c['form'], 'bad ' + c['bad'] if c['bad'] else 'valid')
    r.nt(np.size(fv) > 1 or (np.max(t1) > 0 and np.max(fv) > 0))
    eq = np.array(c['eq'])
    if c['form'] == 'matrix':
        eq = np.zeros(len(eq), bool)
    pos = c['pos']
    if c['bad'] == 'order':
        if c['form'] == 'scalar':
            t1, t2 = t2, t1
            v1 = v2 = 0.2
        else:
            t1, t2 = t1.copy(), t2.copy()
            x = t1[pos].copy()
            t1[pos] = t2[pos]
            t2[pos] = x
            v1 = v1.copy()
            v2 = v2.copy()
            v1[pos], v2[pos] = 0.2, 0.2
            other = (pos + 1) % len(eq)
            if c['form'] == 'vector' and eq[pos] and other != pos:  # another quote with coinciding expiries
                t2[other] = t1[other]
                v2[other] = v1[other]
        check(raises(lambda: m.forward_volatility(t1, v1, t2, v2), ValueError), 'expiries in the wrong order were not rejected',
              t1=t1, t2=t2)
        return
    if c['bad'] == 'variance':
        x = v1 ** 2 * t1 / t2
        if c['form'] == 'scalar':
            if t1 < 0.01:
                r.discard()
            v2 = 0.9 * np.sqrt(x)
        else:
            if np.min(t1[pos]) < 0.01:
                r.discard()
            v2 = v2.copy()
            v2[pos] = 0.9 * np.sqrt(x[pos])
        check(raises(lambda: m.forward_volatility(t1, v1, t2, v2), ValueError), 'decreasing total variance was not rejected', t1=t1, t2=t2, v1=v1, v2=v2)
        return
    # forward variance that is exactly zero may come out a rounding error below zero
    with np.errstate(all='ignore'):
        raw = (v2 ** 2 * t2 - v1 ** 2 * t1)
    if np.any(raw < 0):
        r.discard()
    if c['form'] == 'scalar':
        if eq[0]:
            r.label('equal')
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                out = m.forward_volatility(t1, v1, t1, v1)
            check(np.all(np.isnan(out)) and len(w) > 0, 'equal expiries must give NaN with a warning', got=out)
            return
        out = m.forward_volatility(t1, v1, t2, v2)
    else:
        if c['form'] == 'vector' and eq.any():
            r.label('equal')
            t2 = np.where(eq, t1, t2)
            v2 = np.where(eq, v1, v2)
            fv = np.where(eq, np.nan, fv)
            if np.any(t1[eq] == 0):
                r.discard()
        out = m.forward_volatility(t1, v1, t2, v2)
    tol = 1e-9 * np.max(v2 ** 2 * t2 / np.where(t2 > t1, t2 - t1, 1)) if np.size(v2) else 0
    close(np.asarray(out) ** 2, np.asarray(fv) ** 2, 'forward variance', rtol=1e-7, atol=tol + 1e-12)


@facet(FACETS, s_fwd, 'more than one quote, or a time strictly between the expiries', quick=1500)
def interp(c, r):
    """Total variance is linear in time between the expiries; the expiries' own volatilities are recovered."""
    m = F()
    t1, t2, v1, v2, fv = build(c)
    with np.errstate(all='ignore'):
        raw = (v2 ** 2 * t2 - v1 ** 2 * t1)
    if np.any(raw < 0):
        r.discard()
    w = np.array(c['w'])
    if c['form'] == 'scalar':
        w = float(w[0])
        if c['eq'][0]:
            t2, v2 = t1, v1
    elif c['form'] == 'matrix':
        w = w[:, None]
        e = np.array(c['eq'])[:, None]
        t2, v2 = np.where(e, t1, t2), np.where(e, v1, v2)
    else:
        e = np.array(c['eq'])
        t2, v2 = np.where(e, t1, t2), np.where(e, v1, v2)
    r.label(c['form'], 'equal' if np.any(t1 == t2) else 'distinct')
    r.nt(np.size(fv) > 1 or 0 < np.max(w) < 1)

    def call(t):
        return m.flat_forward_interp(t1, v1, t2, v2, t)

    keep = (np.array(t1, copy=True), np.array(v1, copy=True), np.array(t2, copy=True), np.array(v2, copy=True))
    t = t1 + w * (t2 - t1)
    if np.min(t) <= 0:
        t = t1 + np.maximum(w, 0.01) * (t2 - t1)
    if np.min(t) <= 0:
        r.discard()
    with np.errstate(all='ignore'):
        expected = np.where(t2 > t1, (v1 ** 2 * t1 * (t2 - t) + v2 ** 2 * t2 * (t - t1)) / np.where(t2 > t1, t2 - t1, 1), v1 ** 2 * t1)
    out = np.asarray(call(t))
    check(out.shape == np.shape(v1), 'shape of the interpolated volatilities', got=out.shape, expected=np.shape(v1))
    close(out ** 2 * t, expected, 'total variance at t', rtol=1e-8, atol=1e-12)
    close(np.asarray(call(t2)), v2, 'volatility at the second expiry', rtol=1e-7, atol=1e-9)
    if np.min(t1) > 0:
        close(np.asarray(call(t1)), v1, 'volatility at the first expiry', rtol=1e-7, atol=1e-9)
    for a, b in zip(keep, (t1, v1, t2, v2)):
        check(np.array_equal(a, b), 'an input array was modified')
