"""P09 compounding conventions: rate <-> discount factor and rate conversions."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises
from pbt.gen import fl, logfl, reps

FACETS = []
CF = ['simple', 'continuous', 'daily', 'weekly', 'monthly', 'quarterly', 'semiannual', 'annual']
N = dict(daily=365, weekly=52, monthly=12, quarterly=4, semiannual=2, annual=1)


def cf(x):
    from frm.enums import CompoundingFreq
    return CompoundingFreq(x)


def ref_df(f, t, z):
    """definition, in logs"""
    if f == 'continuous':
        return math.exp(-z * t)
    if f == 'simple':
        return 1 / (1 + z * t)
    return math.exp(-N[f] * t * math.log1p(z / N[f]))


rates = lambda: st.one_of(fl(-0.05, 0.25), fl(-0.4, 1.0), st.just(0.0))
years = lambda: st.one_of(logfl(1 / 366, 60), st.sampled_from([1.0, 0.5, 2.0, 30.0]))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(f=st.sampled_from(CF), z=st.lists(rates(), min_size=1, max_size=5), t=st.lists(
    years(), min_size=5, max_size=5), rep=reps(), kind=st.sampled_from(['float', 'array', 'series']))),
    'zero rates and maturities, scalar and vector; non-trivial: non-zero rate', quick=1500)
def rate_to_df_and_back(c, r):
    f = cf(c['f'])
    z = c['z']
    t = c['t'][:len(z)]
    z, t = z * c.get('rep', 1), t * c.get('rep', 1)
    if c['f'] == 'simple' and any(1 + a * b <= 0.02 for a, b in zip(z, t)):
        r.discard()
    if c['kind'] == 'float':
        z, t = z[:1], t[:1]
        az, at = z[0], t[0]
    elif c['kind'] == 'array':
        az, at = np.array(z), np.array(t)
    else:
        az, at = pd.Series(z), pd.Series(t)
    exp = [ref_df(c['f'], b, a) for a, b in zip(z, t)]
    df = f.calc_discount_factor_from_zero_rate(years=at, zero_rate=az)
    close(df, exp, f"{c['f']}: discount factor from zero rate", 1e-10, 1e-14, z=z, t=t)
    back = f.calc_zero_rate_from_discount_factor(years=at, discount_factor=df)
    # the rate is recovered up to the rounding of the discount factor
    tol = [1e-9 + 4e-15 / b * (1 + abs(a)) * max(1, N.get(c['f'], 1)) for a, b in zip(z, t)]
    check(np.abs(np.atleast_1d(np.asarray(back, float)) - np.array(z)) <= np.array(tol) + 1e-9 * np.abs(z),
          f"{c['f']}: zero rate -> discount factor -> zero rate", z=z, back=back, t=t)
    check(np.asarray(df) > 0, 'discount factor must be positive')
    r.label(c['f'], c['kind'])
    r.nt(any(z))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(a=st.sampled_from(CF), b=st.sampled_from(CF), c=st.sampled_from(CF), z=rates(), z2=rates(),
                                                  t=years(), vec=st.booleans())),
       'conversions between all pairs of conventions; non-trivial: different conventions and non-zero rate', quick=1500)
def conversions(c, r):
    A, B, C = cf(c['a']), cf(c['b']), cf(c['c'])
    z = c['z']
    arg = np.array([z, z]) if c['vec'] else z
    y = A.convert_rate_to(arg, B)
    # same one-year accumulation
    la = -math.log(ref_df(c['a'], 1.0, z))
    exp = {'continuous': la, 'simple': math.expm1(la)}.get(c['b'])
    if exp is None:
        exp = N[c['b']] * math.expm1(la / N[c['b']])
    close(y, [exp, exp] if c['vec'] else exp, f"{c['a']} -> {c['b']} changes the one-year accumulation", 1e-10, 1e-13)
    close(B.convert_rate_to(y, A), arg, 'converting there and back', 1e-9, 1e-12)
    close(B.convert_rate_to(y, C), A.convert_rate_to(arg, C), 'conversion is not transitive', 1e-9, 1e-12)
    close(A.convert_rate_to(arg, A), arg, 'identity conversion', 1e-10, 1e-13)
    if 'simple' not in (c['a'], c['b']):
        # compounded and continuous rates describe the same discount factor at every maturity
        close(B.calc_discount_factor_from_zero_rate(c['t'], y), A.calc_discount_factor_from_zero_rate(c['t'], arg),
              'converted rate gives another discount factor', 1e-9, 1e-13)
    if c['z2'] > z:
        check(A.convert_rate_to(c['z2'], B) > np.max(y) - 1e-15, 'conversion is not monotone')
    r.label(c['a'] + '>' + c['b'])
    r.nt(c['a'] != c['b'] and z != 0)
