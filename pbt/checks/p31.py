"""P31: Monte Carlo random numbers and their correlation."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import facet, check, close, raises

FACETS = []


def M():
    from frm.pricing_engine import monte_carlo_generic as m
    return m


@st.composite
def s_gen(draw):
    return dict(steps=draw(st.integers(1, 12)), nvars=draw(st.integers(1, 4)),
                sims=draw(st.one_of(st.integers(1, 9), st.integers(10, 60))), anti=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 31)),
                seed2=draw(st.integers(0, 2 ** 31)), seedk=draw(st.integers(0, 40)))


def key(a):
    """Canonical bytes of one simulation's numbers."""
    return np.ascontiguousarray(a).tobytes()


@facet(FACETS, s_gen, 'antithetic variates with at least two simulations, or more than one step and variable', quick=500)
def shape_and_pairing(c, r):
    """Shape (steps, variables, simulations); reproducible per seed; antithetic simulations come in adjacent exact pairs."""
    m = M()

    def call(seed):
        return m.generate_rand_nbs(nb_steps=c['steps'], nb_rand_vars=c['nvars'], nb_simulations=c['sims'], apply_antithetic_variates=c['anti'],
                                   random_seed=seed)
    r.label('antithetic' if c['anti'] else 'plain', 'odd' if c['sims'] % 2 else 'even')
    if c['anti'] and c['sims'] == 1:
        check(raises(lambda: call(c['seed']), ValueError), 'a single antithetic simulation was not rejected')
        return
    r.nt((c['anti'] and c['sims'] > 1) or (c['steps'] > 1 and c['nvars'] > 1))
    x = call(c['seed'])
    check(x.shape == (c['steps'], c['nvars'], c['sims']), 'shape', got=x.shape)
    check(np.isfinite(x).all(), 'non-finite random number')
    y = call(c['seed'])
    check(np.array_equal(x, y), 'same seed, different numbers')
    k = c.get('seedk', 0)
    s3 = (c['seed'] + (10 ** (k % 10) if k < 10 else 2 ** (k % 31))) % 2 ** 32
    if s3 != c['seed']:
        check(not np.array_equal(x, call(s3)), 'different seeds, same numbers', seed=c['seed'], other=s3)
    if c['seed2'] != c['seed']:
        check(not np.array_equal(x, call(c['seed2'])), 'different seeds, same numbers')
    n = c['sims']
    if c['anti']:
        for k in range(n // 2):
            check(np.array_equal(x[:, :, 2 * k], -x[:, :, 2 * k + 1]), 'simulations 2k and 2k+1 are not antithetic', k=k)
        base = x[:, :, 0:2 * (n // 2):2]
        if n % 2:
            base = np.concatenate([base, x[:, :, -1:]], axis=2)
    else:
        base = x
    # no number is used twice (all draws are independent)
    check(np.unique(np.abs(base)).size == base.size, 'a random number is repeated', size=base.size, distinct=np.unique(np.abs(base)).size)


@st.composite
def s_stat(draw):
    return dict(steps=draw(st.integers(1, 4)), nvars=draw(st.integers(1, 3)), sims=draw(st.sampled_from([4000, 4001, 10001])),
                anti=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))


@facet(FACETS, s_stat, 'always', quick=40, thorough=1500)
def standard_normal(c, r):
    """Each variable at each step is standard normal and uncorrelated with every other one (6 sigma bounds)."""
    m = M()
    x = m.generate_rand_nbs(nb_steps=c['steps'], nb_rand_vars=c['nvars'], nb_simulations=c['sims'], apply_antithetic_variates=c['anti'],
                            random_seed=c['seed'])
    r.nt()
    r.label('antithetic' if c['anti'] else 'plain')
    z = x.reshape(-1, x.shape[2])
    n = z.shape[1]
    eff = n / 2 if c['anti'] else n
    mean = z.mean(axis=1)
    check((np.abs(mean) < 6 / math.sqrt(n)).all(), 'mean is not 0', mean=mean)
    if c['anti'] and n % 2 == 0:
        check((np.abs(mean) < 1e-12).all(), 'antithetic mean is not exactly 0', mean=mean)
    cov = z @ z.T / n
    d = np.diag(cov)
    check((np.abs(d - 1) < 6 * math.sqrt(2 / eff)).all(), 'variance is not 1', var=d)
    off = cov - np.diag(d)
    check((np.abs(off) < 6 / math.sqrt(eff)).all(), 'variables or steps are correlated', cov=off)
    k4 = (z ** 4).mean(axis=1)
    check((np.abs(k4 - 3) < 6 * math.sqrt(96 / eff)).all(), 'fourth moment is not 3', k4=k4)
    p = (np.abs(z) < 0.6744897501960817).mean(axis=1)
    check((np.abs(p - 0.5) < 6 * 0.5 / math.sqrt(eff)).all(), 'interquartile probability is not one half', p=p)


@st.composite
def s_corr(draw):
    k = draw(st.integers(2, 4))
    rows = [[draw(gen.fl(-1, 1)) for _ in range(k)] for _ in range(k)]
    return dict(k=k, rows=rows, diag=draw(gen.logfl(0.05, 3)), dim=draw(st.sampled_from([2, 3])), n=draw(st.integers(1, 6)),
                sims=draw(st.integers(1, 5)), scale=[draw(gen.fl(0.2, 3)) for _ in range(k)] if draw(st.integers(0, 3)) == 0 else None,
                seed=draw(st.integers(0, 10 ** 6)))


@facet(FACETS, s_corr, 'some correlation above 10% in absolute value', quick=800)
def correlate(c, r):
    """normal_corr is a linear map A of each observation with A A' equal to the requested matrix, for 2-D and 3-D input."""
    m = M()
    k = c['k']
    L = np.array(c['rows'])
    C = L @ L.T + c['diag'] * np.eye(k)
    s = np.sqrt(np.diag(C))
    C = C / np.outer(s, s)
    if c['scale']:
        C = C * np.outer(c['scale'], c['scale'])
        r.label('covariance')
    r.nt(np.max(np.abs(C - np.diag(np.diag(C)))) > 0.1)
    C0 = C.copy()
    basis = np.asarray(m.normal_corr(C, np.eye(k)))  # row i: image of the i-th unit vector
    check(basis.shape == (k, k), 'shape of the correlated numbers', got=basis.shape)
    close(basis.T @ basis, C, 'covariance of the correlated numbers', rtol=1e-9, atol=1e-9)
    rng = np.random.RandomState(c['seed'])
    if c['dim'] == 2:
        z = rng.normal(size=(c['n'], k))
        exp = z @ basis
    else:
        z = rng.normal(size=(c['n'], k, c['sims']))
        exp = np.einsum('tks,kj->tjs', z, basis)
    r.label(f"{c['dim']}d")
    z0 = z.copy()
    out = np.asarray(m.normal_corr(C, z))
    check(out.shape == z.shape, 'shape of the correlated numbers', got=out.shape, expected=z.shape)
    close(out, exp, 'the same linear map for every observation', rtol=1e-9, atol=1e-9)
    check(np.array_equal(z, z0) and np.array_equal(C, C0), 'an input array was modified')
