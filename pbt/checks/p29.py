"""P29: SABR volatilities, the alpha solver and smile calibration."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import facet, check, close, fail, raises

FACETS = []


def S():
    from frm.pricing_engine import sabr as m
    return m


def hagan(tau, F, a, b, rho, v, K, shift):
    """Hagan et al. (2002), equation 2.17, scalar reference."""
    f, k = F + shift, K + shift
    l = math.log(f / k)
    fk = (f * k) ** ((1 - b) / 2)
    z = v / a * fk * l
    if abs(z) < 1e-4:
        ratio = 1 - rho * z / 2 + (2 - 3 * rho ** 2) * z * z / 12
    else:
        s = math.sqrt(1 - 2 * rho * z + z * z)
        # two algebraically equal forms; use the one without cancellation
        x = math.log((s + z - rho) / (1 - rho)) if z > rho else -math.log((s - (z - rho)) / (1 + rho))
        ratio = z / x
    d = 1 + (1 - b) ** 2 / 24 * l ** 2 + (1 - b) ** 4 / 1920 * l ** 4
    t = 1 + ((1 - b) ** 2 / 24 * a * a / fk ** 2 + rho * b * v * a / (4 * fk) + (2 - 3 * rho ** 2) / 24 * v * v) * tau
    return a / fk / d * ratio * t


@st.composite
def smile(draw):
    price = draw(st.integers(0, 3)) == 0
    shift = draw(st.sampled_from([0.0, 0.0, 0.01, 0.02, 0.03]))
    if price:
        F = draw(gen.logfl(0.5, 200))
        shift = 0.0
    else:
        F = round(draw(gen.fl(0.003, 0.09)), 5)
        if shift and draw(st.integers(0, 4)) == 0:
            F = round(-0.6 * shift * draw(gen.fl(0.05, 1)), 5)
    b = draw(st.one_of(gen.fl(0, 1, 3), st.sampled_from([0.0, 0.5, 1.0])))
    rho = draw(gen.fl(-0.9, 0.9, 3))
    v = draw(gen.logfl(0.02, 1.2, 3))
    atm = draw(gen.fl(0.05, 0.6, 3))
    alpha = gen.sig(atm * (F + shift) ** (1 - b), 5)
    return dict(tau=draw(gen.logfl(0.05, 15, 4)), F=F, b=b, rho=rho, v=v, alpha=alpha, shift=shift)


def strike(c, m):
    """strike at m standard deviations of the starting volatility"""
    f = c['F'] + c['shift']
    return f * math.exp(m * min(c['alpha'] * f ** (c['b'] - 1) * math.sqrt(c['tau']), 0.7)) - c['shift']


@st.composite
def s_vol(draw):
    n = draw(st.integers(1, 5))
    form = draw(st.sampled_from(['scalar', 'strikes', 'expiries', 'both', 'flat strike']))
    k = n if form in ('expiries', 'both') else 1
    sm = [draw(smile()) for _ in range(k)]
    if form != 'scalar' and k > 1:
        for s in sm[1:]:  # one shift per call
            f = s['F'] + s['shift']
            s['shift'] = sm[0]['shift']
            s['F'] = f - s['shift']
    ms = [draw(st.one_of(gen.fl(-2.5, 2.5, 4), st.just(0.0), st.sampled_from([1e-5, -1e-5, 1e-4]))) for _ in range(n)]
    return dict(form=form, sm=sm, ms=ms, lam=draw(gen.logfl(0.2, 5, 3)))


@facet(FACETS, s_vol, 'some strike away from the forward', quick=1500)
def volatility(c, r):
    """The volatility is Hagan's, for scalars, strike vectors and expiry vectors; the at-the-money branch joins the wings."""
    m = S()
    form, sm, ms = c['form'], c['sm'], c['ms']
    shift = sm[0]['shift']
    r.label(form, 'shifted' if shift else 'unshifted')
    r.nt(any(abs(x) > 0.01 for x in ms))

    def col(k):
        return np.array([s[k] for s in sm])

    one = dict(tau=sm[0]['tau'], F=sm[0]['F'], alpha=sm[0]['alpha'], beta=sm[0]['b'], rho=sm[0]['rho'], volvol=sm[0]['v'], ln_shift=shift)
    if form == 'scalar':
        K = strike(sm[0], ms[0])
        want = [hagan(*(sm[0][k] for k in ('tau', 'F', 'alpha', 'b', 'rho', 'v')), K, shift)]
        args = dict(one, K=K)
    elif form in ('strikes', 'flat strike'):
        n = 1 if form == 'flat strike' else len(ms)
        K = np.array([strike(sm[0], x) for x in ms[:n]])
        want = [hagan(*(sm[0][k] for k in ('tau', 'F', 'alpha', 'b', 'rho', 'v')), x, shift) for x in K]
        args = dict(one, K=K)
    else:
        if form == 'both':
            K = np.array([strike(s, x) for s, x in zip(sm, ms)])
            Ks = K
        else:
            K = strike(sm[0], ms[0])
            if any(abs(math.log((s['F'] + shift) / (K + shift))) > 1.5 for s in sm):
                r.discard()
            Ks = [K] * len(sm)
        want = [hagan(*(s[k] for k in ('tau', 'F', 'alpha', 'b', 'rho', 'v')), x, shift) for s, x in zip(sm, Ks)]
        args = dict(tau=col('tau'), F=col('F'), alpha=col('alpha'), beta=col('b'), rho=col('rho'), volvol=col('v'), K=K, ln_shift=shift)
    keep = {k: np.array(v, copy=True) for k, v in args.items()}
    out = m.calc_sln_vol_for_strike_from_sabr_params(**args)
    check(np.size(out) == len(want), 'number of volatilities', got=out)
    if len(want) == 1:
        check(np.ndim(out) == 0, 'scalar inputs must give a scalar', got=out)
    for k, v in keep.items():
        check(np.array_equal(v, args[k]), 'an input was modified', name=k)
    close(out, want, 'SABR volatility', rtol=2e-5, atol=1e-9, args={k: v for k, v in args.items()})
    if form == 'scalar':  # homogeneity
        lam = c['lam']
        s = dict(one, F=one['F'] * lam, alpha=one['alpha'] * lam ** (1 - one['beta']), ln_shift=shift * lam)
        close(m.calc_sln_vol_for_strike_from_sabr_params(**s, K=args['K'] * lam), out, 'volatility is unchanged when forward, strike and shift are scaled', rtol=2e-5)


@facet(FACETS, s_vol, 'shifted forward, or correlation and vol of vol not negligible', quick=1200)
def alpha_solver(c, r):
    """The solved alpha is positive and reproduces the at-the-money volatility."""
    m = S()
    s = c['sm'][0]
    r.nt(s['shift'] > 0 or (abs(s['rho']) > 0.05 and s['v'] > 0.1))
    tau, F, b, rho, v, sh = s['tau'], s['F'], s['b'], s['rho'], s['v'], s['shift']
    atm = hagan(tau, F, s['alpha'], b, rho, v, F, sh)
    if atm <= 0.005:
        r.discard()
    # existence of a real solution is given: s['alpha'] is one
    got = m.solve_alpha_from_sln_vol(tau=tau, F=F, beta=b, rho=rho, volvol=v, vol_sln_atm=atm, ln_shift=sh)
    check(isinstance(got, float) and math.isfinite(got), 'alpha is not a number', got=got)
    if not got > 0:
        fail('alpha is not positive', got=got, generating=s['alpha'])
    close(hagan(tau, F, got, b, rho, v, F, sh), atm, 'at-the-money volatility of the solved alpha', rtol=1e-6, atol=1e-9, alpha=got)
    close(m.calc_sln_vol_for_strike_from_sabr_params(tau=tau, F=F, alpha=got, beta=b, rho=rho, volvol=v, K=F, ln_shift=sh), atm,
          'at-the-money volatility through the library', rtol=1e-6, atol=1e-9)
    if sh == 0:
        close(m.solve_alpha_from_sln_vol(tau=tau, F=F, beta=b, rho=rho, volvol=v, vol_sln_atm=atm), got, 'default shift', rtol=1e-9)


@st.composite
def s_fit(draw):
    s = draw(smile())
    s['rho'] = draw(gen.fl(-0.7, 0.7, 3))
    s['v'] = draw(gen.logfl(0.15, 0.9, 3))
    s['tau'] = draw(gen.logfl(0.25, 8, 4))
    n = draw(st.integers(2, 4))
    s['ms'] = sorted({round(draw(gen.fl(0.15, 1.6, 3)), 3) for _ in range(n)})
    s['free'] = draw(st.booleans())
    s['noise'] = [draw(gen.fl(-0.01, 0.01, 3)) for _ in range(8)] if draw(st.booleans()) else None
    s['order'] = draw(st.integers(0, 10 ** 6))
    s['noatm'] = draw(st.integers(0, 9)) == 0
    return s


@facet(FACETS, s_fit, 'always', quick=160, thorough=6000, shards=2)
def calibration(c, r):
    """A fitted smile keeps beta when given, has valid parameters, reprices the at-the-money quote and is at least as close as a flat start; exact smiles are recovered."""
    m = S()
    tau, F, b, sh = c['tau'], c['F'], c['b'], c['shift']
    mm = [-x for x in c['ms'][::-1]] + [0.0] + list(c['ms'])
    K = np.array([strike(c, x) if x else F for x in mm])
    if np.min(np.abs(np.delete(K, len(c['ms'])) - F)) < 5e-4 * abs(F) + 1e-6:
        r.discard()
    vols = np.array([hagan(tau, F, c['alpha'], b, c['rho'], c['v'], x, sh) for x in K])
    if vols.min() < 0.02 or vols.max() > 1.5:
        r.discard()
    exact = c['noise'] is None
    if not exact:
        vols = vols * (1 + np.resize(np.array(c['noise']), len(vols)))
    r.nt()
    r.label('exact' if exact else 'noisy', 'free beta' if c['free'] else 'given beta')
    perm = np.random.RandomState(c['order']).permutation(len(K))
    K, vols = K[perm], vols[perm]
    kw = dict(tau=tau, F=F, K=K, vols_sln=vols, ln_shift=sh)
    if not c['free']:
        kw['beta_overide'] = b
    if sh == 0:
        del kw['ln_shift']
    if c['noatm']:
        i = int(np.argmin(np.abs(K - F)))
        kw['K'] = np.delete(K, i)
        kw['vols_sln'] = np.delete(vols, i)
        check(raises(lambda: m.fit_sabr_params_to_sln_smile(**kw), ValueError), 'a smile without at-the-money quote was accepted')
        return
    keep = (K.copy(), vols.copy())
    try:
        (a, bb, rho, v), res = m.fit_sabr_params_to_sln_smile(**kw)
    except ValueError as e:
        if 'failed' in str(e):
            if exact:
                fail('the fit of an exact SABR smile failed')
            r.label('refused')
            return
        raise
    check(np.array_equal(K, keep[0]) and np.array_equal(vols, keep[1]), 'an input array was modified')
    if not c['free']:
        check(bb == b, 'the given beta was changed', got=bb)
    check(-1e-12 <= bb <= 1 + 1e-12 and -1 <= rho <= 1 and v > 0 and a > 0, 'invalid parameters', alpha=a, beta=bb, rho=rho, volvol=v)
    fit = np.array([hagan(tau, F, a, bb, rho, v, x, sh) for x in K])
    i = int(np.argmin(np.abs(K - F)))
    close(fit[i], vols[i], 'at-the-money volatility of the fit', rtol=1e-5, atol=1e-7)
    err = np.sqrt(np.mean((fit - vols) ** 2))
    flat = np.sqrt(np.mean((vols - vols[i]) ** 2))
    check(err <= 1.05 * flat + 5e-4, 'the fitted smile is worse than a flat one', rmse=err, flat=flat)
    if exact:
        # the optimiser may stop at the rho = -1 edge for steep, long-dated smiles (local optimum)
        mild = abs(c['rho']) <= 0.5 and c['v'] * math.sqrt(tau) <= 0.6
        r.label('mild' if mild else 'steep')
        check(err <= (1.5e-3 if mild else max(3e-3, 0.6 * flat)), 'a SABR smile is not recovered', rmse=err, flat=flat, params=(a, bb, rho, v))
