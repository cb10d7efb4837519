"""P35: Hull-White one-factor model, simulation."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hw
from pbt.core import facet, check, close, raises, quiet

FACETS = []
METHODS = ['euler', 'rk4', 'exact']


@st.composite
def s_sim(draw):
    c = draw(hw.model())
    c['tau'] = round(draw(gen.fl(0.2, 0.98, 3)) * c['pts'][-1], 4)
    c['steps'] = draw(st.integers(1, 25))
    c['n'] = draw(st.integers(2, 12))
    c['anti'] = draw(st.booleans())
    c['method'] = draw(st.sampled_from(METHODS))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    if draw(st.integers(0, 5)) == 0:
        c['s'] = 0.0
    return c


def sim(c, h=None, **kw):
    a = dict(tau=c['tau'], nb_steps=c['steps'], nb_simulations=c['n'], flag_apply_antithetic_variates=c['anti'], random_seed=c['seed'],
             method=c['method'])
    a.update(kw)
    with np.errstate(all='ignore'), quiet():
        o = (h or hw.build(c)).simulate(**a)
    return dict(R=np.asarray(o['R']), t=np.asarray(o['years_grid']), df=np.asarray(o['sim_dsc_factor']), z=np.asarray(o['sim_cczr']),
                av=o['averages_df'])


def scheme(c, R, tau, steps, method):
    """mean of the simulated rates and their response A to the variates (R_i = m_i + sum_j A_ij Z_j)"""
    a, s = c['a'], c['s']
    dt = tau / steps
    t = np.linspace(0, tau, steps + 1)
    th = R.theta(t)
    m = np.empty(steps + 1)
    m[0] = float(R.f(0.0))
    if method == 'exact':
        q, sd = math.exp(-a * dt), s * math.sqrt(float(R.V(dt)))
        x, w = np.polynomial.legendre.leggauss(8)
    else:
        q, sd = (1 - a * dt if method == 'euler' else 1 - a * dt + (a * dt) ** 2 / 2 - (a * dt) ** 3 / 6 + (a * dt) ** 4 / 24), s * math.sqrt(dt)
    for i in range(steps):
        if method == 'exact':
            u = t[i] + dt * 0.5 * (x + 1)
            add = 0.5 * dt * float(np.sum(w * np.interp(u, t, th) * np.exp(-a * (t[i + 1] - u))))
        else:
            add = th[i] * (dt if a < 1e-12 else (1 - q) / a)
        m[i + 1] = q * m[i] + add
    i = np.arange(steps + 1)[:, None]
    j = np.arange(1, steps + 1)[None, :]
    A = np.where(i >= j, q ** np.maximum(i - j, 0), 0.0) * sd
    return t, m, A


@facet(FACETS, s_sim, 'at least 3 steps and not flat', quick=400, shards=2)
def structure(c, r):
    """Rates start at r0, discount factors integrate each path, averages average them; reproducible; antithetic; no noise without volatility."""
    R = hw.HW(c)
    h = hw.build(c)
    o = sim(c, h)
    n, m = c['n'], c['steps']
    r.nt(m >= 3 and np.ptp(c['z']) > 1e-3)
    r.label(c['method'], 'antithetic' if c['anti'] else 'plain', 'zero vol' if c['s'] == 0 else 'vol')
    check(o['R'].shape == (m + 1, n) and o['df'].shape == (m + 1, n) and o['z'].shape == (m + 1, n), 'shapes', R=o['R'].shape, df=o['df'].shape)
    close(o['t'], np.linspace(0, c['tau'], m + 1), 'time grid')
    check(np.isfinite(o['R']).all(), 'a rate is not finite')
    close(o['R'][0], np.full(n, float(R.f(0.0))), 'initial rate', rtol=0, atol=3e-7)
    dt = c['tau'] / m
    y = np.vstack([np.zeros(n), np.cumsum(0.5 * (o['R'][1:] + o['R'][:-1]) * dt, axis=0)])
    close(o['df'], np.exp(-y), 'discount factors integrate the rates of their path', rtol=1e-9)
    close(o['z'][1:], y[1:] / o['t'][1:, None], 'zero rates of the paths', rtol=1e-8, atol=1e-12)
    av = o['av']
    close(av['years'].to_numpy(float), o['t'], 'averages: years')
    close(av['discount_factor'].to_numpy(float), o['df'].mean(axis=1), 'averages: discount factor', rtol=1e-9)
    close(av['cczr'].to_numpy(float)[1:], -np.log(o['df'].mean(axis=1))[1:] / o['t'][1:], 'averages: zero rate', rtol=1e-8, atol=1e-12)
    np.random.seed(c['seed'] + 1)
    p = sim(c, h)
    check(np.array_equal(o['R'], p['R']), 'two runs with one seed differ')
    _, mean, A = scheme(c, R, c['tau'], m, c['method'])
    # slack: the code differentiates the forward rate numerically, which smooths its kinks at the pillars
    sl = 2e-4 * max(float(np.max(np.abs(R.df(np.linspace(0, R.T, 200))))), 1e-3) * c['tau'] + 1e-6
    kink = _kink(R, o['t'])
    if c['s'] == 0:
        if not kink:
            close(o['R'], np.repeat(mean[:, None], n, axis=1), 'rates without volatility', rtol=0, atol=sl)
    else:
        check(len(np.unique(o['R'][-1])) == n, 'two paths are the same')
        if c['anti']:
            for k in range(n // 2):
                mid = 0.5 * (o['R'][:, 2 * k] + o['R'][:, 2 * k + 1])
                if not kink:
                    close(mid, mean, 'antithetic paths are symmetric about the mean', rtol=0, atol=sl)
        elif n >= 2:
            check(not np.allclose(o['R'][1, 0] + o['R'][1, 1], 2 * mean[1], rtol=0, atol=1e-9 * c['s']) , 'paths are antithetic although not requested')


def _kink(R, t):
    return bool(np.min(np.abs(R.t[:, None] - t[None, :])) < 2e-3)


@st.composite
def s_bad(draw):
    c = draw(s_sim())
    c['method'] = draw(st.sampled_from(['milstein', 'Exact', '', 'rk', 'exact ']))
    return c


@facet(FACETS, s_bad, 'always', quick=60)
def unknown_method(c, r):
    """An unknown simulation method is rejected."""
    h = hw.build(c)
    r.nt()
    check(raises(lambda: sim(c, h), Exception), 'an unknown simulation method was accepted', method=c['method'])


@st.composite
def s_mom(draw):
    c = draw(hw.model())
    c['tau'] = round(draw(gen.fl(0.2, 0.98, 3)) * c['pts'][-1], 4)
    c['steps'] = draw(st.sampled_from([2, 4, 8, 20, 40, 61]))
    c['n'] = draw(st.sampled_from([4000, 6001])) if c['steps'] > 8 else 40000
    c['anti'] = draw(st.booleans())
    c['method'] = draw(st.sampled_from(METHODS))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['i'] = [draw(st.integers(1, min(20, c['steps']))) for _ in range(2)]
    c['s'] = max(c['s'], 0.003)
    return c


@facet(FACETS, s_mom, 'mean reversion above 5% and a curve that is not flat', quick=80, thorough=2500, shards=3)
def moments(c, r):
    """Rates have the mean, variance and autocovariance of the model, and average simulated discount factors reprice the zero curve."""
    R = hw.HW(c)
    o = sim(c)
    n, m, a, s = c['n'], c['steps'], c['a'], c['s']
    r.nt(a > 0.05 and np.ptp(c['z']) > 1e-3)
    r.label(c['method'], 'antithetic' if c['anti'] else 'plain')
    neff = n / 2 if c['anti'] else n
    t, mean, A = scheme(c, R, c['tau'], m, c['method'])
    true_m = R.f(t) + 0.5 * s ** 2 * R.B(t) ** 2
    true_v = s ** 2 * R.V(t)
    v = (A ** 2).sum(axis=1)
    kink = 0.5 * c['tau'] / m * float(np.max(np.abs(R.df(t)))) if _kink(R, t) else 0.0
    sl_m = 1.5 * np.abs(mean - true_m) + 1e-6 + kink
    sl_v = 1.5 * np.abs(v - true_v)
    got = o['R'].mean(axis=1)
    check((np.abs(got - true_m) < 6 * np.sqrt(v / n) + sl_m).all(), 'mean of the short rate', got=got[-1], expected=true_m[-1],
          worst=float(np.max(np.abs(got - true_m) / (np.sqrt(v / n) + sl_m + 1e-15))))
    if c['anti'] and n % 2 == 0:
        check((np.abs(got - true_m) < sl_m + 1e-9).all(), 'the antithetic mean is the mean of the model', worst=float(np.max(np.abs(got - true_m))))
    var = ((o['R'] - got[:, None]) ** 2).mean(axis=1)
    check((np.abs(var - true_v) <= 6 * true_v * math.sqrt(2 / neff) + sl_v + 1e-15).all(), 'variance of the short rate', got=var[-1], expected=true_v[-1])
    i, j = sorted(c['i'])
    cov = float(np.mean((o['R'][i] - got[i]) * (o['R'][j] - got[j])))
    ec = math.exp(-a * (t[j] - t[i])) * true_v[i]
    check(abs(cov - ec) < 6 * math.sqrt(2 * true_v[i] * true_v[j] / neff) + 1.5 * abs(float(A[i] @ A[j]) - ec), 'autocovariance of the short rate',
          got=cov, expected=ec, times=(t[i], t[j]))
    dt = c['tau'] / m
    W = np.zeros((m + 1, m + 1))
    for k in range(1, m + 1):
        W[k] = W[k - 1]
        W[k, k - 1] += dt / 2
        W[k, k] += dt / 2
    ym, yv = W @ mean, ((W @ A) ** 2).sum(axis=1)
    P = R.P(t)
    sch = np.exp(-ym + yv / 2)
    sd = sch * np.sqrt(np.expm1(yv))
    tol = 6 * sd / math.sqrt(n) + 1.5 * np.abs(sch - P) + (1e-6 + kink) * np.maximum(t, 0.05)
    avg = o['av']['discount_factor'].to_numpy(float)
    check((np.abs(avg - P) < tol + 1e-12).all(), 'the average simulated discount factor does not reprice the zero curve',
          worst=float(np.max(np.abs(avg - P) / (tol + 1e-12))), got=avg[-1], expected=P[-1])
