"""Strategies and reference formulas for the one-factor Hull-White model."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from pbt import gen
from pbt.bs import N


@st.composite
def model(draw, flat=False, alpha0=True):
    """A smooth zero curve with pillars in years or days, a mean reversion and a volatility."""
    n = draw(st.integers(4, 8))
    x = draw(st.sampled_from(['years', 'days']))
    pts, t = [], 0.0
    for _ in range(n):
        t += draw(st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.0]))
        pts.append(t)
    lvl = draw(gen.fl(-0.005, 0.06, 4))
    slope, hump, tau = draw(gen.fl(-0.02, 0.03, 4)), draw(gen.fl(-0.02, 0.02, 4)), draw(gen.fl(0.8, 6, 2))
    noise = draw(st.sampled_from([0, 1, 5]))
    zs = []
    for t in pts:
        u = t / tau
        z = lvl + slope * -math.expm1(-u) + hump * (-math.expm1(-u) / u - math.exp(-u))
        zs.append(lvl if flat else round(z + draw(st.integers(-noise, noise)) / 1e4, 6))
    a = draw(gen.logfl(5e-3, 0.6))
    if alpha0 and draw(st.integers(0, 9)) == 0:
        a = draw(st.sampled_from([0.0, 1e-9, 1e-5, 1e-4, 9e-4]))
    return dict(x=x, pts=pts, z=zs, interp=draw(st.sampled_from(['cubic_spline_on_cczr', 'cubic_spline_on_ln_discount'])), a=a,
                s=draw(gen.logfl(5e-4, 0.025)), cd=draw(gen.dates('2010-01-01', '2030-12-31')))


class HW:
    """Closed forms; the curve is the (not-a-knot) spline through the pillars."""

    def __init__(self, c):
        self.a, self.s = c['a'], c['s']
        t = np.array(c['pts'])
        if c['x'] == 'days':
            t = np.round(t * 365) / 365
        self.t = t
        z = np.array(c['z'])
        self.cczr = c['interp'] == 'cubic_spline_on_cczr'
        self.sp = CubicSpline(t, z, bc_type='not-a-knot') if self.cczr else CubicSpline(np.r_[0, t], np.r_[0, -z * t], bc_type='not-a-knot')
        self.T = float(t[-1])

    def lnP(self, t):
        t = np.asarray(t, float)
        return -t * self.sp(t) if self.cczr else self.sp(t)

    def P(self, t):
        return np.exp(self.lnP(t))

    def f(self, t):
        t = np.asarray(t, float)
        return self.sp(t) + t * self.sp(t, 1) if self.cczr else -self.sp(t, 1)

    def df(self, t):
        t = np.asarray(t, float)
        return 2 * self.sp(t, 1) + t * self.sp(t, 2) if self.cczr else -self.sp(t, 2)

    def B(self, x):
        """int_0^x exp(-a u) du"""
        x = np.asarray(x, float)
        return x.copy() if self.a < 1e-8 else -np.expm1(-self.a * x) / self.a

    def V(self, x):
        """int_0^x exp(-2 a u) du"""
        x = np.asarray(x, float)
        return x.copy() if self.a < 1e-8 else -np.expm1(-2 * self.a * x) / (2 * self.a)

    def theta(self, t):
        return self.df(t) + self.a * self.f(t) + self.s ** 2 * self.V(t)

    def bond(self, t, T, r):
        """price at t of the bond maturing at T when the short rate is r"""
        B = self.B(T - t)
        return self.P(T) / self.P(t) * np.exp(B * (self.f(t) - r) - 0.5 * self.s ** 2 * self.V(t) * B ** 2)

    def sigma_p(self, T, S, n=400):
        """volatility to T of the forward bond price, by quadrature of its instantaneous volatility"""
        x, w = np.polynomial.legendre.leggauss(40)
        u = 0.5 * T * (x + 1)
        iv = self.s * (self.B(S - u) - self.B(T - u))
        return math.sqrt(max(0.5 * T * float(np.sum(w * iv ** 2)), 0.0))

    def zbo(self, T, S, K, cp):
        """option on the zero bond, by the Black formula on its forward price"""
        if S < T:
            return 0.0
        v = self.sigma_p(T, S)
        pT, pS = float(self.P(T)), float(self.P(S))
        if v < 1e-14:
            return max(cp * (pS - K * pT), 0.0)
        d = math.log(pS / (K * pT)) / v + v / 2
        return cp * (pS * N(cp * d) - K * pT * N(cp * (d - v)))

    def european(self, T, times, coefs, payoff, width=9.0):
        """P(0,T) E^T[payoff(sum c_i P(T,T_i))], integrated over the one Gaussian factor with a split at the exercise boundary by bisection"""
        times, coefs = np.asarray(times, float), np.asarray(coefs, float)
        nu = self.s * math.sqrt(float(self.V(T))) * self.B(times - T)
        base = coefs * self.P(times) / float(self.P(T)) * np.exp(-0.5 * nu ** 2)

        def port(z):
            return (base[:, None] * np.exp(-nu[:, None] * np.atleast_1d(z)[None, :])).sum(axis=0)
        lo, hi = -width, width
        g = lambda z: float(port(z)[0]) - 1.0
        cuts = [-width, width]
        if g(lo) * g(hi) < 0:
            a_, b_ = lo, hi
            for _ in range(80):
                m = 0.5 * (a_ + b_)
                if g(a_) * g(m) <= 0:
                    b_ = m
                else:
                    a_ = m
            cuts = [-width, 0.5 * (a_ + b_), width]
        x, w = np.polynomial.legendre.leggauss(120)
        tot = 0.0
        for p, q in zip(cuts[:-1], cuts[1:]):
            z = 0.5 * (q - p) * (x + 1) + p
            tot += 0.5 * (q - p) * float(np.sum(w * payoff(port(z)) * np.exp(-z * z / 2))) / math.sqrt(2 * math.pi)
        return float(self.P(T)) * tot


def build(c, **kw):
    from frm.enums import CompoundingFreq, DayCountBasis, ZeroCurveInterpMethod
    from frm.pricing_engine.hw1f import HullWhite1Factor
    from frm.term_structures.zero_curve import ZeroCurve
    x = c['pts'] if c['x'] == 'years' else [int(round(p * 365)) for p in c['pts']]
    z = ZeroCurve(curve_date=pd.Timestamp(c['cd']), pillar_df=pd.DataFrame({c['x']: x, 'zero_rate': c['z']}),
                  compounding_freq=CompoundingFreq.CONTINUOUS, day_count_basis=DayCountBasis.ACT_365,
                  interp_method=ZeroCurveInterpMethod(c['interp']))
    return HullWhite1Factor(zero_curve=z, mean_rev_lvl=c['a'], vol=c['s'], **kw)
