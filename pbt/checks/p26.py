"""P26: simulated Heston paths."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hes
from pbt.core import facet, check, close, raises
from pbt.gen import fl, logfl

FACETS = []
QE = 'quadratic_exponential'
ABS, REF = 'euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process'


def H():
    from frm.pricing_engine import heston as m
    return m


@st.composite
def case(draw, methods=(QE, ABS, REF)):
    return dict(S0=draw(logfl(0.5, 200)), mu=draw(fl(-0.1, 0.1, 4)), var0=round(draw(fl(0.02, 0.6)) ** 2, 6), vv=draw(logfl(0.03, 1.5)), kappa=draw(logfl(0.1, 6)),
                theta=round(draw(fl(0.03, 0.6)) ** 2, 6), rho=draw(fl(-0.98, 0.98, 3)), tau=draw(logfl(0.02, 8)), T=draw(st.integers(1, 8)), n=draw(st.integers(1, 6)),
                method=draw(st.sampled_from(methods)), default=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), i=draw(st.integers(0, 7)))


def par(c):
    return {k: c[k] for k in ('S0', 'mu', 'var0', 'vv', 'kappa', 'theta', 'rho', 'tau')}


def kw(c):
    return {} if c['default'] and c['method'] == QE else dict(method=c['method'])


def rnd(c):
    return np.random.RandomState(c['seed']).normal(size=(c['T'], 2, c['n']))


def qe_step(c, dt, v, z):
    """Andersen (2008) quadratic exponential step of the variance for one number z."""
    e = math.exp(-c['kappa'] * dt)
    m = c['theta'] + (v - c['theta']) * e
    s2 = c['vv'] ** 2 / c['kappa'] * (1 - e) * (v * e + c['theta'] / 2 * (1 - e))
    psi = s2 / m ** 2
    if psi <= 1.5:
        b2 = 2 / psi - 1 + math.sqrt(2 / psi) * math.sqrt(2 / psi - 1)
        return m / (1 + b2) * (math.sqrt(b2) + z) ** 2, psi
    p = (psi - 1) / (psi + 1)
    from scipy.stats import norm
    u = norm.cdf(z)
    return (0.0 if u <= p else m / (1 - p) * math.log((1 - p) / norm.sf(z))), psi


def ref_path(c, z):
    """One path of the documented schemes."""
    dt = c['tau'] / c['T']
    S, v = c['S0'], c['var0']
    out, branches, neg = [(S, v)], set(), False
    ka, th, vv, rho = c['kappa'], c['theta'], c['vv'], c['rho']
    for a, b in z:
        if c['method'] == QE:
            w, psi = qe_step(c, dt, v, b)
            branches.add('exp' if psi > 1.5 else 'quad')
            x = (c['mu'] * dt - rho * ka * th / vv * dt + (0.5 * dt * (ka * rho / vv - 0.5) - rho / vv) * v + (0.5 * dt * (ka * rho / vv - 0.5) + rho / vv) * w
                 + math.sqrt(0.5 * dt * (1 - rho ** 2) * (v + w)) * a)
            S, v = S * math.exp(x), w
        else:
            g = rho * a + math.sqrt(1 - rho ** 2) * b
            S = S + S * (c['mu'] * dt + math.sqrt(v * dt) * a)
            w = v + ka * (th - v) * dt + vv * math.sqrt(v * dt) * g
            neg |= w < 0
            v = max(w, 0.0) if c['method'] == ABS else abs(w)
        out.append((S, v))
    return np.array(out), branches, neg


@facet(FACETS, case, 'several steps and paths, three schemes; non-trivial: both branches of the quadratic exponential scheme, or a negative Euler variance', quick=800, shards=3)
def scheme(c, r):
    """Every path is the documented scheme applied to its own numbers: scalar and vectorised, step by step."""
    m = H()
    z = rnd(c)
    z0 = z.copy()
    out = m.heston_simulate(**par(c), rand_nbs=z, **kw(c))
    check(out.shape == (c['T'] + 1, 2, c['n']), 'shape of the paths', got=out.shape)
    check(np.isfinite(out).all(), 'a simulated value is not a number')
    check((out[:, 1] >= 0).all(), 'a simulated variance is negative', minimum=out[:, 1].min())
    br, neg = set(), False
    for j in range(c['n']):
        one = m.heston_simulate_scalar(**par(c), rand_nbs=z[:, :, j], **kw(c))
        close(one, out[:, :, j], 'scalar and vectorised simulation differ', rtol=1e-8, atol=1e-11)
        ref, b, ng = ref_path(c, z[:, :, j])
        br |= b
        neg |= ng
        s = np.max(np.abs(ref[:, 0]))
        close(out[:, 0, j], ref[:, 0], 'simulated spot', rtol=1e-7, atol=1e-9 * s, path=j)
        close(out[:, 1, j], ref[:, 1], 'simulated variance', rtol=1e-6, atol=1e-11, path=j)
    check(np.array_equal(z, z0), 'the random numbers were modified')
    r.label(c['method'][:16], *br, 'negative' if neg else '')
    r.nt(len(br) > 1 or neg)


@facet(FACETS, lambda: case(methods=(QE,)), 'one step, integrated over the variance number; non-trivial: the exponential branch, or starting away from the mean', quick=400)
def variance_moments(c, r):
    """The simulated variance has the exact conditional mean and variance of the square-root process."""
    m = H()
    e = math.exp(-c['kappa'] * c['tau'])
    mean = c['theta'] + (c['var0'] - c['theta']) * e
    s2 = c['vv'] ** 2 / c['kappa'] * (1 - e) * (c['var0'] * e + c['theta'] / 2 * (1 - e))
    psi = s2 / mean ** 2
    r.label('exponential' if psi > 1.5 else 'quadratic')
    r.nt(psi > 1.5 or abs(c['var0'] / c['theta'] - 1) > 0.1)
    from scipy.stats import norm
    # nodes on both sides of the atom of the exponential branch
    cut = norm.ppf((psi - 1) / (psi + 1)) if psi > 1.5 else 0.0
    x, w = np.polynomial.legendre.leggauss(200)
    zs, ws = [], []
    for lo, hi in ((-8.0, min(cut, 7.9)), (min(cut, 7.9), 8.0)):
        zs.append(0.5 * (hi - lo) * x + 0.5 * (hi + lo))
        ws.append(0.5 * (hi - lo) * w)
    z, w = np.concatenate(zs), np.concatenate(ws)
    w = w * norm.pdf(z)
    R = np.zeros((1, 2, len(z)))
    R[0, 1] = z
    v = m.heston_simulate(**par(c), rand_nbs=R, method=QE)[1, 1]
    close(float(np.sum(w * v)), mean, 'mean of the simulated variance', rtol=1e-4, atol=1e-12)
    close(float(np.sum(w * (v - mean) ** 2)), s2, 'variance of the simulated variance', rtol=3e-3, atol=1e-14)


@facet(FACETS, case, 'splitting, scaling and drift; non-trivial: at least two steps', quick=400)
def markov_and_scaling(c, r):
    """A path restarted from one of its points continues unchanged; spot scales, and in the quadratic exponential scheme the drift is a factor."""
    m = H()
    z = rnd(c)[:, :, :1]
    a = m.heston_simulate(**par(c), rand_nbs=z, **kw(c))[:, :, 0]
    p = par(c)
    p['S0'] = 3.0 * c['S0']
    b = m.heston_simulate(**p, rand_nbs=z, **kw(c))[:, :, 0]
    close(b[:, 0], 3 * a[:, 0], 'spot does not scale', rtol=1e-8)
    close(b[:, 1], a[:, 1], 'variance depends on the spot', rtol=1e-9)
    if c['method'] == QE:
        p = par(c)
        p['mu'] += 0.07
        b = m.heston_simulate(**p, rand_nbs=z, **kw(c))[:, :, 0]
        close(b[:, 0], a[:, 0] * np.exp(0.07 * np.linspace(0, c['tau'], c['T'] + 1)), 'drift of the spot', rtol=1e-8)
    k = c['i'] % c['T']
    if k and a[k, 1] > 1e-8 and a[k, 0] > 0:
        p = par(c)
        p.update(S0=a[k, 0], var0=a[k, 1], tau=c['tau'] * (c['T'] - k) / c['T'])
        b = m.heston_simulate(**p, rand_nbs=z[k:], **kw(c))[:, :, 0]
        close(b, a[k:], 'restarting the path changes it', rtol=1e-6, atol=1e-9 * a[:, 0].max())
    r.nt(c['T'] > 1)


@st.composite
def mc(draw):
    c = draw(case())
    c.update(vv=draw(logfl(0.05, 0.6)), kappa=draw(logfl(0.5, 4)), var0=round(draw(fl(0.1, 0.3)) ** 2, 6), theta=round(draw(fl(0.1, 0.3)) ** 2, 6), rho=draw(fl(-0.9, 0.9, 3)), mu=draw(fl(-0.05, 0.05, 3)),
             tau=draw(logfl(0.1, 2)), m=draw(fl(-0.8, 0.8, 3)))
    return c


@facet(FACETS, mc, 'library random numbers, 20000 paths; non-trivial: all', quick=24, shards=2, thorough=800)
def prices(c, r):
    """The mean is the forward, the log spot and variance have the model's correlation sign, and a call has the model's price (6 standard errors plus discretisation allowance)."""
    from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
    m = H()
    n, T = 20000, 60 if c['method'] != QE else 20
    z = generate_rand_nbs(nb_steps=T, nb_rand_vars=2, nb_simulations=n, apply_antithetic_variates=True, random_seed=c['seed'])
    x = m.heston_simulate(**par(c), rand_nbs=z, **kw(c))
    S = x[-1, 0]
    F = c['S0'] * math.exp(c['mu'] * c['tau'])
    r.nt()
    r.label(c['method'][:16])
    pair = lambda y: 0.5 * (y[0::2] + y[1::2])
    se = lambda y: pair(y).std() / math.sqrt(n / 2)
    check(abs(S.mean() - F) < 6 * se(S) + 0.003 * F, 'mean of the simulated spot', got=S.mean(), forward=F, se=se(S))
    K = F * math.exp(c['m'] * math.sqrt(c['theta'] * c['tau']))
    pay = np.maximum(S - K, 0)
    ref = hes.price(1, c['S0'], c['tau'], c['mu'], 0.0, K, c['var0'], c['vv'], c['kappa'], c['theta'], c['rho']) * math.exp(c['mu'] * c['tau'])
    sd = F * math.sqrt(max(c['theta'], c['var0']) * c['tau'])
    tol = 0.02 if c['method'] == QE else 0.06
    check(abs(pay.mean() - ref) < 6 * se(pay) + tol * sd, 'simulated call payoff differs from the model price', got=pay.mean(), expected=ref, se=se(pay))


@facet(FACETS, case, 'misspelled schemes; non-trivial: all', quick=60)
def unknown_scheme_rejected(c, r):
    """A scheme that does not exist is rejected."""
    m = H()
    z = rnd(c)
    bad = [c['method'][:-1], c['method'].upper(), 'euler', 'milstein', ''][c['i'] % 5]
    r.nt()
    for f, x in ((m.heston_simulate, z), (m.heston_simulate_scalar, z[:, :, 0])):
        check(raises(lambda: f(**par(c), rand_nbs=x, method=bad)), 'an unknown scheme was accepted', method=bad)
