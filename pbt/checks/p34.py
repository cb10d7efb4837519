"""P34: Hull-White one-factor model, analytic prices."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hw
from pbt.core import facet, check, close, raises, quiet

FACETS = []


@st.composite
def s_df(draw):
    c = draw(hw.model())
    c['u'] = [draw(gen.fl(0.02, 1, 3)) for _ in range(3)]
    c['v'] = draw(gen.fl(0, 0.95, 3))
    c['r'] = draw(gen.fl(-0.05, 0.15, 4))
    return c


@facet(FACETS, s_df, 'curve not flat', quick=400, shards=3)
def discount_factors(c, r):
    """Bond prices from the drift (both formulas) reprice the curve at time 0 and equal the affine formula at later times and rates."""
    R = hw.HW(c)
    h = hw.build(c)
    r.nt(np.ptp(c['z']) > 1e-3)
    r.label(c['interp'], 'no mean reversion' if c['a'] < 1e-8 else 'mean reverting')
    with np.errstate(all='ignore'):
        close(h.r0, float(R.f(0.0)), 'initial short rate', rtol=0, atol=3e-7)
        h.setup_theta()
        T = R.T
        for u in c['u']:
            t2 = u * T
            P = float(R.P(t2))
            close(float(h.calc_discount_factor_by_solving_ode_2(0, t2)), P, 'ODE 2: today\'s discount factor', rtol=2e-6, t=t2)
            close(float(h.calc_discount_factor_by_solving_ode_1(0, t2)), P, 'ODE 1: today\'s discount factor', rtol=2e-5, t=t2)
            t1 = c['v'] * t2
            if t1 > 0 and t2 - t1 > 1e-3:
                P = float(R.bond(t1, t2, c['r']))
                close(float(h.calc_discount_factor_by_solving_ode_2(t1, t2, c['r'])), P, 'ODE 2: bond price at a later short rate', rtol=2e-6, t=(t1, t2))
                close(float(h.calc_discount_factor_by_solving_ode_1(t1, t2, c['r'])), P, 'ODE 1: bond price at a later short rate', rtol=2e-5, t=(t1, t2))
                for m in (h.calc_discount_factor_by_solving_ode_1, h.calc_discount_factor_by_solving_ode_2):
                    check(raises(lambda: m(t1, t2), AssertionError), 'a later bond price without a short rate was not rejected')
                    check(raises(lambda: m(t2, t1, c['r']), AssertionError), 'a bond maturing before its pricing date was not rejected')


@facet(FACETS, s_df, 'curve not flat', quick=400)
def theta(c, r):
    """The drift function is f'(t) + a f(t) + s^2/(2a)(1-exp(-2at)) of the curve's instantaneous forward rate."""
    R = hw.HW(c)
    h = hw.build(c)
    r.nt(np.ptp(c['z']) > 1e-3)
    t = np.array([0.0] + [u * R.T * 0.99 for u in c['u']])
    # the derivative is taken numerically over +-dt: keep clear of the kinks of f' at the pillars
    t = np.array([x for x in t if np.min(np.abs(R.t - x)) > 2e-3])
    with np.errstate(all='ignore'):
        th = np.asarray(h.get_thetas(years=t))
        f = np.array([float(h.zero_curve.get_instantaneous_forward_rate(years=x)) for x in t if x > 0])
    close(f, R.f(t[t > 0]), 'instantaneous forward rate', rtol=0, atol=1e-9)
    a, b = (0.01 + 0.97 * c['u'][0]) * R.T, R.T * 0.99
    close(float(h.get_forward_rate_by_integration(a, b)), float(R.lnP(a) - R.lnP(b)), 'integral of the instantaneous forward rate', rtol=1e-6, atol=1e-7)
    close(th, R.theta(t), 'theta', rtol=0, atol=5e-6 + 1e-4 * np.max(np.abs(R.df(t))), t=t)


@st.composite
def s_fit(draw):
    c = draw(hw.model(alpha0=False))
    c['dts'] = draw(st.lists(st.sampled_from([1e-3, 1e-4, 1e-5]), min_size=1, max_size=2, unique=True))
    c['nums'] = draw(st.lists(st.sampled_from([3, 10, 50]), min_size=1, max_size=2, unique=True))
    return c


@facet(FACETS, s_fit, 'more than one candidate', quick=60, thorough=2000)
def theta_fit(c, r):
    """The reported fit error is the root mean square zero-rate error at the pillars, and the grid search keeps the best candidate."""
    import contextlib
    import io
    h = hw.build(c)
    r.nt(len(c['dts']) * len(c['nums']) > 1)
    R = hw.HW(c)
    best = {}
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        for d in c['dts']:
            for n in c['nums']:
                g = hw.build(c, dt=d, num=n)
                g.setup_theta()
                e = float(g.calc_error_for_theta_fit(print_results=len(c['dts']) == 1))
                own = [1e4 * (-math.log(float(g.calc_discount_factor_by_solving_ode_1(0, t))) / t + float(R.lnP(t)) / t) for t in R.t]
                rms, alt = math.sqrt(np.mean(np.square(own))), math.sqrt(np.sum(np.square(own)) / (len(own) + 1))
                check(min(abs(e - rms), abs(e - alt)) < 1e-6 + 1e-4 * rms, 'reported fit error', got=e, expected=rms)
                best[(d, n)] = e
        h.fit_theta(dts=tuple(c['dts']), nums=tuple(c['nums']))
    check((h.dt, h.num) in best, 'the grid search left a candidate that was not offered', got=(h.dt, h.num))
    check(best[(h.dt, h.num)] <= min(best.values()) + 1e-9, 'the grid search did not keep the best candidate', got=best[(h.dt, h.num)],
          best=min(best.values()))


def dim(draw, n, f):
    return [draw(f) for _ in range(n if draw(st.booleans()) else 1)]


@st.composite
def s_opt(draw):
    c = draw(hw.model())
    n = draw(st.integers(1, 4))
    T = sum([0, c['pts'][-1]])
    c['n'] = n
    c['e'] = [round(T * x, 6) for x in dim(draw, n, gen.fl(0.01, 0.85, 3))]
    c['len'] = [round(T * 0.15 * x, 6) for x in dim(draw, n, st.one_of(gen.fl(0.02, 1, 3), st.sampled_from([0.0, -0.2]) if draw(st.integers(0, 5)) == 0 else gen.fl(0.02, 1, 3)))]
    c['k'] = dim(draw, n, gen.fl(-2, 2, 2))
    c['cp'] = dim(draw, n, st.sampled_from([1, -1]))
    c['arr'] = draw(st.booleans())
    if draw(st.integers(0, 7)) == 0:
        c['s'] = 0.0
    return c


def bc(c, x):
    return x * (c['n'] if len(x) == 1 else 1)


def give(c, x):
    return np.array(x, dtype=float) if (len(x) > 1 or c['arr']) else x[0]


@facet(FACETS, s_opt, 'option with a price above 1e-6 of the bond', quick=700, shards=2)
def bond_options(c, r):
    """Bond options are Black prices with the bond volatility of the model; any mix of scalars and vectors; parity; degenerate cases."""
    R = hw.HW(c)
    h = hw.build(c)
    e = c['e']
    # maturity has as many entries as expiry needs
    n = c['n']
    e_, l_ = bc(c, e), bc(c, c['len'])
    S_ = [a + b for a, b in zip(e_, l_)]
    S = S_ if (len(e) > 1 or len(c['len']) > 1) else S_[:1]
    k_, cp_ = bc(c, c['k']), bc(c, c['cp'])
    K_ = []
    for a, b, k in zip(e_, S_, k_):
        fwd = float(R.P(b) / R.P(a))
        K_.append(fwd * math.exp(k * max(R.sigma_p(a, b), 0.01) if b > a else k * 0.01))
    K = K_ if max(len(e), len(c['len']), len(c['k'])) > 1 else K_[:1]
    m = max(len(e), len(S), len(K), len(c['cp']))
    sc = m == 1 and not c['arr']
    r.label('scalar' if sc else 'vector', 'zero vol' if c['s'] == 0 else 'vol')
    with np.errstate(all='ignore'), quiet():
        px = np.atleast_1d(np.asarray(h.price_zero_coupon_bond_option(give(c, e), give(c, S), K=give(c, K), cp=give(c, c['cp'])), float))
        opp = np.atleast_1d(np.asarray(h.price_zero_coupon_bond_option(give(c, e), give(c, S), K=give(c, K), cp=-1 * np.array(c['cp'])), float))
    check(px.shape == (m,), 'one price per option', got=px.shape, expected=m)
    exp = [R.zbo(a, b, k, s) for a, b, k, s in zip(e_, S_, K_, cp_)][:m]
    r.nt(max(exp) > 1e-6)
    close(px, exp, 'bond option price', rtol=1e-7, atol=1e-10, expiry=e_[:m], maturity=S_[:m], K=K_[:m], cp=cp_[:m])
    par = [s * (float(R.P(b)) - k * float(R.P(a))) if b >= a else 0.0 for a, b, k, s in zip(e_, S_, K_, cp_)][:m]
    close(px - opp, par, 'put-call parity', rtol=1e-9, atol=1e-10)


@st.composite
def s_cap(draw):
    c = draw(s_opt())
    c['len'] = [max(x, 0.05) for x in c['len']]
    c['kr'] = dim(draw, c['n'], gen.fl(-0.02, 0.02, 4))
    return c


@facet(FACETS, s_cap, 'option with a price above 1e-6', quick=500, shards=2)
def optionlets(c, r):
    """Caplets and floorlets equal the integral of their payoff over the model's Gaussian rate, and satisfy parity."""
    R = hw.HW(c)
    h = hw.build(c)
    e_, l_, kr, cp_ = bc(c, c['e']), bc(c, c['len']), bc(c, c['kr']), bc(c, c['cp'])
    S_ = [a + b for a, b in zip(e_, l_)]
    S = S_ if (len(c['e']) > 1 or len(c['len']) > 1) else S_[:1]
    K_ = [(float(R.P(a) / R.P(b)) - 1) / (b - a) + k for a, b, k in zip(e_, S_, kr)]
    K = K_ if max(len(c['e']), len(c['len']), len(c['kr'])) > 1 else K_[:1]
    m = max(len(c['e']), len(S), len(K), len(c['cp']))
    a1, a2, a3, a4 = (give(c, x) for x in (c['e'], S, K, c['cp']))
    with np.errstate(all='ignore'), quiet():
        px = np.atleast_1d(np.asarray(h.price_optionlet(a1, a2, a3, a4), float))
        opp = np.atleast_1d(np.asarray(h.price_optionlet(a1, a2, a3, -1 * np.array(c['cp'])), float))
    check(px.shape == (m,), 'one price per option', got=px.shape, expected=m)
    for i in range(m):
        T, S0, k, cp = e_[i], S_[i], K_[i], cp_[i]
        exp = R.european(T, [S0], [1 + k * (S0 - T)], lambda x: np.maximum(cp * (1 - x), 0.0))
        r.nt(exp > 1e-6)
        close(px[i], exp, 'caplet' if cp == 1 else 'floorlet', rtol=1e-6, atol=1e-9, start=T, end=S0, K=k)
        close(px[i] - opp[i], cp * float(R.P(T) - (1 + k * (S0 - T)) * R.P(S0)), 'cap-floor parity', rtol=1e-9, atol=1e-10)


@st.composite
def s_swn(draw):
    c = draw(hw.model())
    T = c['pts'][-1]
    c['e'] = round(T * draw(gen.fl(0.02, 0.6, 3)), 6)
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 20)))
    c['gap'] = [draw(gen.fl(0.5, 1.5, 2)) for _ in range(n)]
    c['over'] = draw(st.sampled_from([0, 0, 1, -1]))
    c['k'] = draw(st.one_of(gen.fl(-0.02, 0.02, 4), gen.fl(-0.02, 0.02, 4), gen.fl(-0.02, 0.3, 3)))
    c['payer'] = draw(st.booleans())
    c['notional'] = draw(st.sampled_from([1.0, 1e6, 250.0, -1e4]))
    return c


@facet(FACETS, s_swn, 'price above 1e-6 of the notional with at least 2 coupons', quick=110, shards=8)
def swaptions(c, r):
    """Swaptions equal the integral of max(+-(1 - fixed leg), 0) over the model's Gaussian rate; payer - receiver is the forward swap."""
    R = hw.HW(c)
    h = hw.build(c)
    e, left = c['e'], R.T - c['e']
    g = np.cumsum(c['gap'])
    t = e + left * 0.95 * g / g[-1]
    dcf = np.diff(np.r_[e, t])
    tn = float(t[-1])
    if c['over'] == 1:
        tn = tn + 0.02 * left
    elif c['over'] == -1 and len(t) > 1:
        tn = 0.7 * tn + 0.3 * float(t[-2])
    r.label('notional with the last coupon' if tn == t[-1] else 'notional at its own time', 'single coupon' if len(t) == 1 else 'coupons')
    ann = float(np.sum(dcf * R.P(t)))
    K = max((float(R.P(e)) - float(R.P(tn))) / ann + c['k'], 0.002)  # the decomposition needs a fixed leg that decreases in the rate
    coefs, times = np.r_[K * dcf, 1.0], np.r_[t, tn]
    w = 1 if c['payer'] else -1
    if float(np.sum(coefs * [R.bond(e, x, 0.95) for x in times])) > 1:
        r.discard()  # exercised only at rates above 95%
    exp = R.european(e, times, coefs, lambda x: np.maximum(w * (1 - x), 0.0))
    r.nt(exp > 1e-6 and len(t) > 1)
    with np.errstate(all='ignore'), quiet():
        h.setup_theta()
        args = dict(swaption_expiry=e, coupon_payment_times=t, coupon_year_fractions=dcf, notional_payment_time=tn, fixed_rate=K)
        px = float(np.squeeze(h.price_swaption(is_payer=c['payer'], notional=c['notional'], **args)))
        opp = float(np.squeeze(h.price_swaption(is_payer=not c['payer'], notional=c['notional'], **args)))
    close(px / c['notional'], exp, 'swaption price', rtol=2e-5, atol=5e-7, K=K)
    fwd = float(R.P(e)) - float(np.sum(coefs * R.P(times)))
    close((px - opp) / c['notional'], w * fwd, 'payer minus receiver is the forward swap', rtol=1e-6, atol=1e-5)
