"""Black-Scholes reference functions (plain math)."""
import math

import numpy as np


def N(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def n(x):
    return math.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)


def black(F, K, s, cp):
    """undiscounted Black price with total standard deviation s"""
    if s <= 0:
        return max(0.0, cp * (F - K))
    d1 = math.log(F / K) / s + 0.5 * s
    return cp * (F * N(cp * d1) - K * N(cp * (d1 - s)))


def bachelier(F, K, s, cp):
    if s <= 0:
        return max(0.0, cp * (F - K))
    d = cp * (F - K) / s
    return s * (d * N(d) + n(d))


def gk(S, t, rd, rf, cp, K, v, F=None):
    if t == 0:
        return max(0.0, cp * (S - K))
    if F is None:
        F, df = S * math.exp((rd - rf) * t), math.exp(-rd * t)
    else:
        df = math.exp(-rf * t) * S / F
    return df * black(F, K, v * math.sqrt(t), cp)


_X, _W = np.polynomial.legendre.leggauss(400)


def expect_payoff(payoff, s, split):
    """E[payoff(Z)] for standard normal Z, integrated on both sides of split; payoff vectorised"""
    tot = 0.0
    for lo, hi in ((-12.0, split), (split, 12.0)):
        lo, hi = max(lo, -12.0), min(hi, 12.0)
        if hi > lo:
            z = 0.5 * (hi - lo) * _X + 0.5 * (hi + lo)
            tot += 0.5 * (hi - lo) * float(np.sum(_W * payoff(z) * np.exp(-0.5 * z * z))) / math.sqrt(2 * math.pi)
    return tot
