"""P33: Clewlow-Strickland one-factor commodity spot simulation."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.bs import N
from pbt.core import facet, check, close

FACETS = []


def M():
    from frm.pricing_engine import clewlow_strickland_1_factor as m
    return m


@st.composite
def s_curve(draw, T):
    """Forward curve covering [0, T] on an even or uneven grid of days."""
    if draw(st.booleans()):
        days = list(range(T + 1 + draw(st.integers(0, 5))))
    else:
        days = [0]
        while days[-1] < T:
            days.append(days[-1] + draw(st.integers(1, 9)))
    lvl = draw(gen.logfl(0.5, 200))
    return [[float(d), float(f'{lvl * draw(gen.logfl(0.6, 1.6)):.6g}')] for d in days]


@st.composite
def s_zero(draw):
    T = draw(st.integers(1, 30))
    return dict(T=T, f=draw(s_curve(T)), seg=draw(st.integers(1, 12)), n=draw(st.integers(1, 9)), a=draw(gen.logfl(1e-3, 0.9)),
                s=draw(gen.logfl(1e-3, 0.2)))


def run(c, sigma=None, n=None, f=None):
    return M().clewlow_strickland_1_factor_simulate(forward_curve=np.array(c['f']) if f is None else f, nb_simulations=n or c['n'],
                                                    segments_per_day=c['seg'], T=c['T'], alpha=c['a'],
                                                    sigma=c['s'] if sigma is None else sigma)


def fwd(c):
    f = np.array(c['f'])
    return np.interp(np.arange(c['T'] + 1), f[:, 0], f[:, 1])


@facet(FACETS, s_zero, 'forward curve not flat and at least 3 days', quick=400)
def zero_volatility(c, r):
    """Shape (T+1, n), start on today's price, and with no volatility every path is the linearly interpolated forward curve."""
    F = fwd(c)
    r.nt(c['T'] >= 3 and np.ptp(F) > 0.01 * F[0])
    arr = np.array(c['f'])
    a0 = arr.copy()
    x = run(c, sigma=0.0, f=arr)
    check(np.array_equal(arr, a0), 'the forward curve was modified')
    check(x.shape == (c['T'] + 1, c['n']), 'shape of the paths', got=x.shape)
    close(x, np.repeat(F[:, None], c['n'], axis=1), 'paths without volatility are the forward curve', rtol=1e-9)
    y = run(c)
    check(y.shape == (c['T'] + 1, c['n']), 'shape of the paths', got=y.shape)
    check(np.isfinite(y).all() and (y > 0).all(), 'spot prices are positive')
    close(y[0], np.full(c['n'], F[0]), 'paths start on the current price', rtol=1e-12)


@st.composite
def s_batch(draw):
    c = draw(s_zero())
    c['T'] = min(c['T'], 8)
    c['n'] = draw(st.integers(2, 25))
    c['per'] = draw(st.integers(1, 25))
    c['np'] = draw(st.integers(0, 10 ** 6))
    return c


@facet(FACETS, s_batch, 'more than one batch', quick=400)
def batches(c, r):
    """Simulations run in several batches (memory limit): every path is simulated, all are different, and runs are reproducible."""
    m = M()
    per = min(c['per'], c['n'])
    r.nt(c['n'] > per)
    r.label('batches' if c['n'] > per else 'single', 'ragged' if c['n'] % per else 'even')
    old = getattr(m, 'MAX_SIMULATIONS_PER_LOOP', None)
    try:
        m.MAX_SIMULATIONS_PER_LOOP = c['T'] * c['seg'] * c['per']
        np.random.seed(c['np'] % 2 ** 31)
        x = run(c)
        np.random.seed((c['np'] + 1) % 2 ** 31)
        y = run(c)
    finally:
        m.MAX_SIMULATIONS_PER_LOOP = old
    check(x.shape == (c['T'] + 1, c['n']), 'shape of the paths', got=x.shape)
    check(np.array_equal(x, y), 'two identical calls give different paths')
    check(np.isfinite(x).all() and (x > 0).all(), 'a path was not simulated')
    check(len(np.unique(x[-1])) == c['n'], 'two paths end on the same price', n=c['n'], distinct=len(np.unique(x[-1])))
    # log-price shocks are at most 9 standard deviations: no batch starts from the state another one ended in
    dev = np.abs(np.log(x[1:] / fwd(c)[1:, None]))
    t = np.arange(1, c['T'] + 1)
    check((dev < (9 * c['s'] * np.sqrt(t) + c['s'] ** 2 * t)[:, None]).all(), 'price too far from the forward for its volatility',
          worst=float((dev / (c['s'] * np.sqrt(t))[:, None]).max()))


@st.composite
def s_stat(draw):
    T = draw(st.integers(2, 25))
    seg = draw(st.integers(2, 10))
    a = draw(gen.logfl(2e-3, 0.5))
    vmax = min(0.35, 0.6 / math.sqrt(T))
    return dict(T=T, f=draw(s_curve(T)), seg=seg, n=draw(st.sampled_from([4000, 9001])), a=a, s=draw(gen.logfl(min(0.02, vmax / 2), vmax)),
                per=draw(st.sampled_from([0, 1500, 4000])), k=draw(gen.fl(-1.5, 1.5)), d=draw(st.integers(1, T)), d2=draw(st.integers(1, T)))


@facet(FACETS, s_stat, 'mean reversion matters (1-exp(-2at) differs from 2at by 5%)', quick=60, thorough=1500, budget=60)
def distribution(c, r):
    """Mean spot equals the forward, log-prices have the mean, variance and autocovariance of the mean-reverting model, calls its price."""
    m = M()
    a, s, T, seg, n = c['a'], c['s'], c['T'], c['seg'], c['n']
    F = fwd(c)
    old = getattr(m, 'MAX_SIMULATIONS_PER_LOOP', None)
    try:
        if c['per']:
            m.MAX_SIMULATIONS_PER_LOOP = T * seg * c['per']
        x = run(c)
    finally:
        m.MAX_SIMULATIONS_PER_LOOP = old
    r.nt(2 * a * T > 0.1)
    r.label('batches' if c['per'] and c['per'] < n else 'single')
    t = np.arange(T + 1)
    v = s ** 2 * -np.expm1(-2 * a * t) / (2 * a)
    # the Euler scheme's own moments: the allowance for discretisation error
    dt = 1.0 / seg
    q = 1 - a * dt
    i = np.arange(T * seg + 1)
    vd_all = np.concatenate([[0], np.cumsum(q ** (2 * i[:-1])) * s ** 2 * dt])
    drift = -0.25 * s ** 2 * (1 + np.exp(-2 * a * dt * i[:-1])) * dt
    md_all = np.zeros(T * seg + 1)
    for j in range(T * seg):
        md_all[j + 1] = q * md_all[j] + drift[j]
    vd, md = vd_all[::seg], md_all[::seg]
    L = np.log(x)[1:]
    v, vd, md, F = v[1:], vd[1:], md[1:], F[1:]
    slack_m = 1.5 * np.abs(md + v / 2)
    slack_v = 1.5 * np.abs(vd - v)
    mean = L.mean(axis=1) - np.log(F)
    check((np.abs(mean + v / 2) < 6 * np.sqrt(vd / n) + slack_m).all(), 'mean of the log-price', got=mean, expected=-v / 2)
    var = L.var(axis=1)
    check((np.abs(var - v) < 6 * v * math.sqrt(2 / n) + slack_v).all(), 'variance of the log-price', got=var, expected=v)
    sp = x[1:].mean(axis=1) / F
    tol = 6 * np.sqrt(np.expm1(np.maximum(v, vd)) / n) + np.exp(v) * (slack_m + slack_v / 2)
    check((np.abs(sp - 1) < tol).all(), 'mean spot price is not the forward price', got=sp, tol=tol)
    i1, i2 = sorted((c['d'] - 1, c['d2'] - 1))
    cov = np.mean((L[i1] - L[i1].mean()) * (L[i2] - L[i2].mean()))
    exp = math.exp(-a * (i2 - i1)) * v[i1]
    disc = abs(q ** ((i2 - i1) * seg) * vd[i1] - exp)
    check(abs(cov - exp) < 6 * math.sqrt(2 * v[i1] * v[i2] / n) + 1.5 * disc, 'autocovariance of the log-price', got=cov, expected=exp,
          days=(i1 + 1, i2 + 1))
    w = math.sqrt(v[i2])
    K = F[i2] * math.exp(c['k'] * w)
    d1 = (math.log(F[i2] / K) + v[i2] / 2) / w
    px = F[i2] * N(d1) - K * N(d1 - w)
    pay = np.maximum(x[i2 + 1] - K, 0)
    se = max(pay.std(), 0.02 * F[i2] * w) / math.sqrt(n)
    check(abs(pay.mean() - px) < 6 * se + F[i2] * (slack_m[i2] + slack_v[i2] / w), 'undiscounted call price', got=pay.mean(), expected=px)
