"""P28: Heston characteristic functions, COS truncation range and COS distribution recovery."""
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hes
from pbt.bs import N as Ncdf, n as npdf
from pbt.checks.p25 import model, par, explosion
from pbt.core import facet, check, close

FACETS = []


def C():
    from frm.pricing_engine import cosine_method_generic as m
    return m


def H():
    from frm.pricing_engine import heston as m
    return m


@st.composite
def s_cf(draw):
    m = draw(model())
    n = draw(st.integers(1, 5))
    m['u'] = [draw(st.one_of(gen.fl(0.01, 40), gen.fl(-20, -0.01))) for _ in range(n)]
    m['im'] = draw(st.sampled_from([0.0, -0.5, -1.0, 0.5, -1.5]))
    m['scalar'] = draw(st.booleans())
    return m


@facet(FACETS, s_cf, 'complex argument, or vol of vol above 0.2 with correlation', quick=800)
def characteristic_functions(c, r):
    """Both forms equal the model's characteristic function (phi(0)=1, phi(-i)=forward, |phi|<=1, conjugate symmetry)."""
    m = H()
    tau, mu = c['tau'], c['r'] - c['q']
    p = par(c)
    u = np.array(c['u']) + 1j * c['im']
    ex = -c['im']
    if ex not in (0.0, 1.0) and not 0 < ex < 1 and explosion(ex, c) < 1.25 * tau:
        u = u.real + 0j
    r.label('complex' if c['im'] else 'real')
    r.nt(bool(c['im']) or (c['vv'] > 0.2 and abs(c['rho']) > 0.05))
    ref = hes.cf(u, tau, *p) * np.exp(1j * u * mu * tau)
    s = c['S0']
    args = dict(tau=tau, r=c['r'], q=c['q'], var0=p[0], vv=p[1], kappa=p[2], theta=p[3], rho=p[4])

    def both(x):
        a = m.chf_heston_albrecher2007(u=x, log_S0=math.log(s), **args)
        f = m.chf_heston_fang2008(u=x, **args)
        return a, f
    a, f = both(u)
    fwd = np.exp(1j * u * math.log(s))
    for got, want, name in ((a, ref * fwd, 'albrecher2007'), (f, ref, 'fang2008')):
        got = np.asarray(got)
        check(np.all(np.abs(got - want) <= 1e-7 * np.abs(want) + 1e-9 * max(np.max(np.abs(want)), 1e-3)), 'characteristic function ' + name, got=got, expected=want, u=u)
    if c['scalar']:
        a1, f1 = both(complex(u[0]))
        check(abs(a1 - a[0]) <= 1e-9 * abs(a[0]) + 1e-12 and abs(f1 - f[0]) <= 1e-9 * abs(f[0]) + 1e-12, 'scalar argument differs from vector')
    fm = np.array([1e-7 + 0j])
    a0, f0 = both(fm)
    check(abs(a0[0] - 1) < 1e-5 and abs(f0[0] - 1) < 1e-5, 'phi(0) is not 1', a=a0, f=f0)
    a1, f1 = both(np.array([1e-7 - 1j]))
    F = math.exp(mu * tau)
    check(abs(a1[0] - s * F) < 1e-4 * s * F and abs(f1[0] - F) < 1e-4 * F, 'phi(-i) is not the forward', a=a1, f=f1)
    ur = u.real + 0j
    ar, fr = both(ur)
    an, fn = both(-ur)
    for x, y in ((ar, an), (fr, fn)):
        check(np.all(np.abs(x) <= 1 + 1e-9), 'modulus above one', got=x)
        check(np.all(np.abs(x - np.conj(y)) <= 1e-8), 'phi(-u) is not the conjugate', x=x, y=y)


@st.composite
def s_rng(draw):
    m = draw(model())
    m['L'] = draw(st.sampled_from([5, 8, 10, 12, 2.5]))
    return m


@facet(FACETS, s_rng, 'vol of vol above 0.2', quick=800)
def truncation_range(c, r):
    """The range is the mean of the log-return plus and minus L standard deviations."""
    p = par(c)
    tau, mu = c['tau'], c['r'] - c['q']
    r.nt(c['vv'] > 0.2)
    a, b = C().get_cos_truncation_range(model='heston', L=c['L'], model_param=dict(tau=tau, mu=mu, var0=p[0], vv=p[1], kappa=p[2], theta=p[3], rho=p[4]))
    k, th, v0, vv, rho = p[2], p[3], p[0], p[1], p[4]
    mean = mu * tau - 0.5 * hes.mean_var(tau, v0, k, th) * 1.0
    close((a + b) / 2, mean, 'centre of the range', rtol=1e-9, atol=1e-10)
    # variance by quadrature of the covariance structure of (v, integral of v, martingale part)
    x, w = np.polynomial.legendre.leggauss(60)
    t = tau * (x + 1) / 2
    w = w * tau / 2
    Vv = v0 * vv ** 2 / k * (np.exp(-k * t) - np.exp(-2 * k * t)) + th * vv ** 2 / (2 * k) * (1 - np.exp(-k * t)) ** 2
    rest = (1 - np.exp(-k * (tau - t))) / k
    var_i = 2 * np.sum(w * Vv * rest)
    cov = rho * vv * np.sum(w * (th + (v0 - th) * np.exp(-k * t)) * rest)
    var = hes.mean_var(tau, v0, k, th) + var_i / 4 - cov
    close((b - a) / 2, c['L'] * math.sqrt(var), 'half width of the range', rtol=1e-6, atol=1e-8)


@st.composite
def s_dist(draw):
    kind = draw(st.sampled_from(['normal', 'mixture', 'heston']))
    c = dict(kind=kind, p=draw(gen.fl(-3, 3)), mu=draw(gen.fl(-1, 1)), sd=draw(gen.logfl(0.05, 2)), w=draw(gen.fl(0.1, 0.9)),
             shift=draw(gen.fl(-1.5, 1.5)), ratio=draw(gen.fl(0.6, 1.6)), L=draw(gen.fl(8, 11)))
    return c


@facet(FACETS, s_dist, 'evaluation point within three standard deviations', quick=60, thorough=1200)
def distribution(c, r):
    """cos_method recovers density and distribution function from a characteristic function."""
    mu, sd = c['mu'], c['sd']
    if c['kind'] == 'normal':
        comps = [(1.0, mu, sd)]
    elif c['kind'] == 'mixture':
        comps = [(c['w'], mu - c['shift'] * sd / 2, sd), (1 - c['w'], mu + c['shift'] * sd / 2, sd * c['ratio'])]
    else:
        comps = None
    r.label(c['kind'])
    r.nt()
    if comps:
        def cf(u):
            return sum(w * np.exp(1j * u * m - 0.5 * (u * s) ** 2) for w, m, s in comps)
        S = max(s for _, _, s in comps)
        a, b = mu - c['L'] * S, mu + c['L'] * S
        pdf = lambda x: sum(w * npdf((x - m) / s) / s for w, m, s in comps)
        cdf = lambda x: sum(w * Ncdf((x - m) / s) for w, m, s in comps)
    else:
        hp = (0.09, 0.15, 2.0, 0.08, -0.4 if c['w'] < 0.5 else 0.3)
        tau = 0.5 + c['w']
        sd = math.sqrt(hes.mean_var(tau, hp[0], hp[2], hp[3]))
        mu = -0.5 * sd ** 2

        def cf(u):
            return hes.cf(u + 0j, tau, *hp)
        a, b = mu - 8 * sd, mu + 8 * sd
        pdf = cdf = None
    p = mu + c['p'] * sd
    dt = sd / 1500
    F, Fs, fs, I, pts = C().cos_method(p=p, cf=cf, dt=dt, a=a, b=b)
    check(np.all(np.diff(pts) > 0) and p in pts, 'grid is increasing and contains the point')
    check(len(Fs) == len(pts) == len(fs), 'lengths of the outputs')
    close(I, 1.0, 'integral of the density', rtol=0, atol=1e-5)
    i = int(np.flatnonzero(pts == p)[0])
    close(F, Fs[i], 'CDF at the point is the CDF on the grid', rtol=0, atol=1e-12)
    sub = slice(0, len(pts), 97)
    if pdf:
        close(fs[sub], [pdf(x) for x in pts[sub]], 'density', rtol=1e-5, atol=1e-6 / sd)
        close(Fs[sub], [cdf(x) for x in pts[sub]], 'distribution function', rtol=0, atol=1.5e-3)
        close(F, cdf(p), 'distribution function at the point', rtol=0, atol=1.5e-3)
    else:
        # put prices recovered from the density
        for K in (0.9, 1.0, 1.1):
            w = np.append(np.diff(pts), dt)
            put = np.sum(np.maximum(K - np.exp(pts), 0) * fs * w)
            close(put, hes.price(-1, 1.0, tau, 0.0, 0.0, K, *hp), 'put price from the recovered density', rtol=0, atol=2e-3)
