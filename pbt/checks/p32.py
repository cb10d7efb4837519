"""P32: simulated geometric Brownian motion paths."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import facet, check, close

FACETS = []


@st.composite
def s_gbm(draw):
    n = draw(st.integers(1, 3))
    T = draw(st.integers(1, 6))
    S = draw(st.one_of(st.integers(1, 4), st.just(n), st.integers(5, 30)))
    if draw(st.integers(0, 7)) == 0:
        # many steps or assets: few drawn values, varied
        n, T = draw(st.integers(1, 12)), draw(st.integers(1, 80))
        k = [draw(gen.fl(-0.2, 0.3)) for _ in range(3)], [draw(gen.fl(0, 0.6)) for _ in range(3)], [draw(gen.logfl(0.002, 0.1)) for _ in range(3)]
        at = lambda x, i, j: round(x[(i + j) % 3] * (1 + 0.01 * ((3 * i + j) % 11)), 6)
        return dict(n=n, T=T, S=S, px=[round(10.0 + 7 * j, 2) for j in range(n)], drift=[[at(k[0], i, j) for j in range(n)] for i in range(T)],
                    vol=[[at(k[1], i, j) for j in range(n)] for i in range(T)], dt=[at(k[2], i, 0) for i in range(T)],
                    form='2d', px_form=draw(st.sampled_from(['1d', '2d'])), seed=draw(st.integers(0, 10 ** 6)))
    return dict(n=n, T=T, S=S, px=[draw(gen.logfl(0.01, 5000)) for _ in range(n)],
                drift=[[draw(gen.fl(-0.2, 0.3)) for _ in range(n)] for _ in range(T)],
                vol=[[draw(gen.fl(0, 1.0)) for _ in range(n)] for _ in range(T)], dt=[draw(gen.logfl(0.002, 2)) for _ in range(T)],
                form=draw(st.sampled_from(['1d', '2d'])) if n == 1 else '2d', px_form=draw(st.sampled_from(['1d', '2d'])), seed=draw(st.integers(0, 10 ** 6)))


@facet(FACETS, s_gbm, 'more than one asset or step, with positive volatility', quick=1500)
def exact_paths(c, r):
    """Path by path, step by step, log-returns are (drift - vol^2/2) dt + vol sqrt(dt) z."""
    from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
    n, T, S = c['n'], c['T'], c['S']
    px, mu, vol, dt = (np.array(c[k], dtype=float) for k in ('px', 'drift', 'vol', 'dt'))
    z = np.random.RandomState(c['seed']).normal(size=(T, n, S))
    r.label(f'{n} assets', 'one step' if T == 1 else 'steps')
    r.nt((n > 1 or T > 1) and vol.max() > 0)
    if c['form'] == '1d':
        a_mu, a_vol = mu[:, 0], vol[:, 0]
    else:
        a_mu, a_vol = mu, vol
    a_px = px if c['px_form'] == '1d' else px[None, :]
    args = [a_px, a_mu, a_vol, dt, z]
    keep = [x.copy() for x in args]
    x = simulate_gbm_path(initial_px=a_px, drift=a_mu, forward_volatility=a_vol, timestep_length=dt, rand_nbs=z)
    check(x.shape == (T + 1, n, S), 'shape of the paths', got=x.shape)
    inc = (mu - 0.5 * vol ** 2)[:, :, None] * dt[:, None, None] + vol[:, :, None] * np.sqrt(dt)[:, None, None] * z
    ref = px[None, :, None] * np.exp(np.concatenate([np.zeros((1, n, S)), np.cumsum(inc, axis=0)]))
    close(x, ref, 'simulated path', rtol=1e-9, atol=0)
    for a, b in zip(args, keep):
        check(np.array_equal(a, b), 'an input array was modified')


@st.composite
def s_mart(draw):
    T = draw(st.integers(1, 5))
    return dict(px=draw(gen.logfl(0.1, 500)), drift=[draw(gen.fl(-0.1, 0.1)) for _ in range(T)], vol=[draw(gen.fl(0.05, 0.5)) for _ in range(T)],
                dt=[draw(gen.logfl(0.05, 1)) for _ in range(T)], seed=draw(st.integers(0, 10 ** 6)))


@facet(FACETS, s_mart, 'always', quick=30, thorough=1000)
def moments(c, r):
    """Mean grows at the drift and log-variance accumulates vol^2 dt (6 sigma, antithetic library random numbers)."""
    from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
    from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
    mu, vol, dt = (np.array(c[k], dtype=float) for k in ('drift', 'vol', 'dt'))
    n = 20000
    z = generate_rand_nbs(nb_steps=len(dt), nb_rand_vars=1, nb_simulations=n, apply_antithetic_variates=True, random_seed=c['seed'])
    r.nt()
    x = simulate_gbm_path(initial_px=np.array([c['px']]), drift=mu, forward_volatility=vol, timestep_length=dt, rand_nbs=z)[:, 0, :]
    for i in range(1, len(dt) + 1):
        F = c['px'] * np.exp(np.sum(mu[:i] * dt[:i]))
        V = np.sum(vol[:i] ** 2 * dt[:i])
        w = x[i] / F
        pairs = 0.5 * (w[0::2] + w[1::2])
        se = pairs.std() / np.sqrt(n / 2)
        check(abs(w.mean() - 1) < 6 * se + 1e-9, 'mean of the simulated price differs from the forward', step=i, mean=w.mean(), se=se)
        v = np.log(w).var()
        check(abs(v / V - 1) < 6 * np.sqrt(2 / (n / 2)), 'variance of the simulated log price', step=i, var=v, expected=V)
