"""P25: every Heston pricing method prices the Heston model."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hes
from pbt.core import facet, check, close, fail, raises

FACETS = []
METHODS = ['heston_1993', 'heston_carr_madan_gauss_kronrod_quadrature', 'heston_carr_madan_fft_w_simpsons', 'heston_cosine', 'heston_lipton']


def H():
    from frm.pricing_engine import heston as m
    return m


def warmup():
    m = H()
    for meth in METHODS:
        m.heston_price_vanilla_european(S0=1.0, tau=1.0, r=0.01, q=0.0, cp=1, K=1.0, var0=0.02, vv=0.3, kappa=1.5, theta=0.02, rho=-0.3, lambda_=0,
                                        pricing_method=meth)


@st.composite
def model(draw):
    return dict(S0=draw(st.one_of(gen.logfl(0.5, 2), gen.logfl(50, 200))), tau=draw(gen.logfl(0.02, 8)), r=draw(gen.fl(-0.02, 0.1)), q=draw(gen.fl(-0.02, 0.1)),
                var0=round(draw(gen.fl(0.05, 0.5)) ** 2, 6), vv=draw(gen.logfl(0.05, 1.5)), kappa=draw(gen.logfl(0.2, 6)),
                theta=round(draw(gen.fl(0.05, 0.5)) ** 2, 6), rho=draw(st.one_of(gen.fl(-0.95, -0.06), gen.fl(0.06, 0.95), gen.fl(-0.95, 0.95))))


@st.composite
def s_one(draw):
    m = draw(model())
    m.update(cp=draw(st.sampled_from([1, -1])), m=draw(st.one_of(gen.fl(-2, 2), gen.fl(-2, 2), gen.fl(-4, 4))))
    return m


def par(c):
    return [c[k] for k in ('var0', 'vv', 'kappa', 'theta', 'rho')]


def kw(c):
    return {k: c[k] for k in ('S0', 'tau', 'r', 'q', 'var0', 'vv', 'kappa', 'theta', 'rho')}


def sdev(c):
    return math.sqrt(hes.mean_var(c['tau'], c['var0'], c['kappa'], c['theta']))


def strike(c, m):
    return gen.sig(c['S0'] * math.exp((c['r'] - c['q']) * c['tau'] + m * sdev(c)), 7)


def refprice(c, cp, K):
    return hes.price(cp, c['S0'], c['tau'], c['r'], c['q'], K, *par(c))


def explosion(p, c):
    """Explosion time of E[S^p] (Andersen-Piterbarg)."""
    vv = c['vv']
    chi = c['rho'] * vv * p - c['kappa']
    d = chi ** 2 - vv ** 2 * (p * p - p)
    if d >= 0:
        return math.inf if chi < 0 else math.log((chi + d ** .5) / (chi - d ** .5)) / d ** .5
    g = (-d) ** .5
    return 2 / g * (math.pi * (chi < 0) + math.atan(g / chi))


@facet(FACETS, s_one, 'correlation above 5% and vol of vol above 0.2', quick=350, thorough=12000, shards=2)
def quadrature(c, r):
    """The integral methods and the FFT agree with an independent quadrature of the model, directly and through the dispatcher."""
    m = H()
    K = strike(c, c['m'])
    cp, S = c['cp'], c['S0']
    r.label('call' if cp == 1 else 'put', 'large spot' if S > 10 else 'small spot')
    r.nt(abs(c['rho']) > 0.05 and c['vv'] > 0.2)
    ref = refprice(c, cp, K)

    def px(method):
        return float(np.squeeze(m.heston_price_vanilla_european(cp=cp, K=K, lambda_=0, pricing_method=method, **kw(c))))
    close(px('heston_1993'), ref, 'heston_1993', rtol=0, atol=2e-5 * S, K=K)
    close(m.heston1993_price_vanilla_european(cp=cp, K=K, **kw(c)), ref, 'heston1993 function', rtol=0, atol=2e-5 * S, K=K)
    close(px('heston_lipton'), ref, 'heston_lipton', rtol=0, atol=2e-5 * S, K=K)
    close(m.heston_lipton_price_vanilla_european(cp=cp, K=K, **kw(c)), ref, 'lipton function', rtol=0, atol=2e-5 * S, K=K)
    ts = explosion(1.75 if cp == 1 else -0.75, c)
    if c['tau'] < 0.7 * ts:
        r.label('carr-madan')
        close(px('heston_carr_madan_gauss_kronrod_quadrature'), ref, 'carr-madan quadrature', rtol=0, atol=3e-5 * S, K=K)
        close(m.heston_carr_madan_price_vanilla_european(cp=cp, K=K, integration_method=0, **kw(c)), ref, 'carr-madan function', rtol=0, atol=3e-5 * S, K=K)
    if c['tau'] < min(0.4 * ts, 3) and sdev(c) > 0.03:
        r.label('fft')
        # linear interpolation on the FFT's log-strike grid
        lam = 2 * math.pi / 256
        k0 = math.floor(math.log(K) / lam) * lam
        w = (math.log(K) - k0) / lam
        li = (1 - w) * refprice(c, cp, math.exp(k0)) + w * refprice(c, cp, math.exp(k0 + lam))
        tol = 1.5 * abs(li - ref) + 5e-4 * S
        close(px('heston_carr_madan_fft_w_simpsons'), ref, 'carr-madan FFT', rtol=0, atol=tol, K=K)
        close(m.heston_carr_madan_price_vanilla_european(cp=cp, K=K, integration_method=1, **kw(c)), ref, 'carr-madan FFT function', rtol=0, atol=tol, K=K)


@st.composite
def s_strip(draw):
    m = draw(model())
    n = draw(st.integers(1, 6))
    m.update(cps=[draw(st.sampled_from([1, -1])) for _ in range(n)], ms=[draw(st.one_of(gen.fl(-2, 2), gen.fl(-2, 2), gen.fl(-4, 4))) for _ in range(n)],
             form=draw(st.sampled_from(['array', 'list', 'scalar'])), parity=draw(st.booleans()))
    return m


def cos_bound(c, K, N=160, L=10):
    """A-priori error of the COS series: mass outside the true mean +- L standard deviations plus the first neglected term."""
    h = 1e-4
    lg = [np.log(hes.cf(np.array([s]), c['tau'], *par(c))[0]) for s in (h, -h)]
    mu = ((lg[0] - lg[1]) / (2j * h)).real + (c['r'] - c['q']) * c['tau']
    sd = math.sqrt(max(-((lg[0] + lg[1]) / h ** 2).real, 1e-8))
    a, b = mu - L * sd, mu + L * sd
    tr = abs(hes.cf(np.array([N * math.pi / (b - a)]), c['tau'], *par(c))[0])
    x0 = math.log(c['S0'] / K)
    g = 0.5 * sd
    sa, sb = c['S0'] * math.exp(a - x0 + g), c['S0'] * math.exp(b - x0 - g)
    df = math.exp(-c['r'] * c['tau'])
    ta = refprice(c, -1, sa) / df / sa / (1 - math.exp(-g))
    tb = refprice(c, 1, sb) / df / sb / (math.exp(g) - 1)
    return K * df * (max(ta, 0) + max(tb, 0) + tr), b


@facet(FACETS, s_strip, 'at least two strikes or both option types, correlation above 5%', quick=350, thorough=12000, shards=2)
def cosine(c, r):
    """COS prices of a strip of calls and puts are within the method's own error bound, with and without put-call parity."""
    m = H()
    Ks = [strike(c, x) for x in c['ms']]
    cps = list(c['cps'])
    if c['form'] == 'scalar':
        Ks, cps = Ks[:1], cps[:1]
        K, cp = Ks[0], cps[0]
    elif c['form'] == 'list':
        K, cp = list(Ks), list(cps)
    else:
        K, cp = np.array(Ks), np.array(cps)
    r.label(c['form'], 'parity' if c['parity'] else 'direct')
    r.nt(len(Ks) > 1 and abs(c['rho']) > 0.05)
    out = m.heston_cosine_price_vanilla_european(cp=cp, K=K, calculate_via_put_call_parity=c['parity'], **kw(c))
    check(np.size(out) == len(Ks), 'number of prices', got=out)
    out2 = m.heston_price_vanilla_european(cp=cp, K=K, lambda_=0, pricing_method='heston_cosine', **kw(c))
    small = False
    for i, (k, o) in enumerate(zip(Ks, cps)):
        ref = refprice(c, o, k)
        tol, b = cos_bound(c, k)
        tol = 0.3 * tol + 1e-7 * c['S0']
        small |= tol < 1e-5 * c['S0']
        close(np.ravel(out2)[i], ref, 'heston_cosine (dispatcher)', rtol=0, atol=tol, K=k, cp=o)
        if not c['parity'] and o == 1:
            tol *= math.exp(b) * 10
        close(np.ravel(out)[i], ref, 'heston_cosine', rtol=0, atol=tol, K=k, cp=o)
    r.label('sharp' if small else 'coarse')


@st.composite
def s_prem(draw):
    m = draw(s_one())
    m['lam'] = draw(gen.fl(-0.9, 3)) * m['kappa'] if draw(st.booleans()) else draw(gen.fl(0, 1))
    m['lam'] = gen.sig(m['lam'], 5)
    return m


@facet(FACETS, s_prem, 'market price of volatility risk above 0.05', quick=200, thorough=5000)
def risk_premium(c, r):
    """A market price of volatility risk changes the mean reversion to kappa+lambda and the long-run variance to kappa theta/(kappa+lambda)."""
    m = H()
    K = strike(c, c['m'])
    lam = c['lam']
    r.nt(abs(lam) > 0.05)
    d = dict(c, kappa=c['kappa'] + lam, theta=c['theta'] * c['kappa'] / (c['kappa'] + lam))
    if d['kappa'] < 0.1 or d['theta'] > 1:
        r.discard()
    got = m.heston_price_vanilla_european(cp=c['cp'], K=K, lambda_=lam, pricing_method='heston_1993', **kw(c))
    close(got, refprice(d, c['cp'], K), 'price with a market price of volatility risk', rtol=0, atol=2e-5 * c["S0"])
    close(m.heston1993_price_vanilla_european(cp=c['cp'], K=K, lambda_=lam, **kw(c)), got, 'heston1993 function', rtol=1e-12)


@st.composite
def s_lim(draw):
    m = draw(s_one())
    m.update(vv=0.003, rho=0.0, method=draw(st.sampled_from(METHODS)), tau=draw(gen.logfl(0.05, 2)))
    return m


@facet(FACETS, s_lim, 'always', quick=200, thorough=3000)
def deterministic_limit(c, r):
    """With a negligible vol of vol every method gives the Black-Scholes price at the average variance; unknown methods are rejected."""
    m = H()
    K = strike(c, c['m'])
    r.nt()
    r.label(c['method'])
    F = c['S0'] * math.exp((c['r'] - c['q']) * c['tau'])
    ref = hes.bs(c['cp'], F, K, sdev(c), math.exp(-c['r'] * c['tau']))
    got = float(np.squeeze(m.heston_price_vanilla_european(cp=c['cp'], K=K, lambda_=0, pricing_method=c['method'], **kw(c))))
    tol = 2e-4 + 3e-4 / sdev(c) * 0.4 if 'fft' in c['method'] else 5e-5
    close(got, ref, c['method'] + ' at negligible vol of vol', rtol=0, atol=tol * c['S0'], K=K)
    check(raises(lambda: m.heston_price_vanilla_european(cp=c['cp'], K=K, lambda_=0, pricing_method=c['method'] + 'x', **kw(c)), ValueError),
          'an unknown pricing method was accepted')
