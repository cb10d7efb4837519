"""Strategies and reference model for zero curves."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import D, iso, add_days, dates, fl, calendar_spec, Cal, add_months
from pbt.checks.p01 import ref_yf, basis

CF = ['simple', 'continuous', 'daily', 'weekly', 'monthly', 'quarterly', 'semiannual', 'annual']
CBASES = ['act/act', 'act/365', 'act/360', '30/360', '30e/360', 'act/366']
INTERP = ['linear_on_ln_discount', 'cubic_spline_on_ln_discount', 'cubic_spline_on_cczr']
NPER = dict(daily=365, weekly=52, monthly=12, quarterly=4, semiannual=2, annual=1)


def yf(a, b, bas):
    return float(ref_yf(a, b, bas, True))


def df_from_zero(f, t, z):
    if t == 0:
        return 1.0
    if f == 'continuous':
        return math.exp(-z * t)
    if f == 'simple':
        return 1 / (1 + z * t)
    return math.exp(-NPER[f] * t * math.log1p(z / NPER[f]))


def zero_from_df(f, t, d):
    if f == 'continuous':
        return -math.log(d) / t
    if f == 'simple':
        return (1 / d - 1) / t
    return NPER[f] * math.expm1(-math.log(d) / (NPER[f] * t))


@st.composite
def curve(draw, xs=('date', 'days', 'tenor', 'years'), ys=('zero_rate', 'discount_factor'), bases=None, interps=None, maxdays=7000,
          t0=True, min_n=4, max_n=8):
    x = draw(st.sampled_from(xs))
    cd = draw(dates('2005-01-01', '2035-12-31'))
    n = draw(st.integers(min_n, max_n))
    cal = draw(calendar_spec(cd, add_days(cd, 800), 10))
    if x == 'tenor':
        pool = [('m', k) for k in (1, 2, 3, 6, 9, 12, 15, 18)] + [('y', k) for k in (2, 3, 4, 5, 7, 10, 12, 15)]
        pts = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))
        pts = [f'{k}{u}' for u, k in pts]
    else:
        gaps = [draw(st.integers(20, max(40, maxdays // n))) for _ in range(n)]
        pts, a = [], 0
        for g in gaps:
            a += g
            pts.append(a)
        if t0 and draw(st.integers(0, 3)) == 0:
            pts[0] = 0
        if x == 'years':
            pts = [round(p / 365.0, 3) for p in pts]
    y = draw(st.sampled_from(ys))
    lvl = draw(fl(-0.01, 0.08, 4))
    zs = [round(lvl + draw(st.integers(-120, 120)) / 1e4, 6) for _ in range(len(pts))]
    return dict(x=x, cd=cd, pts=pts, y=y, z=zs, cf=draw(st.sampled_from(CF)), basis=draw(st.sampled_from(bases or CBASES)),
                interp=draw(st.sampled_from(interps or INTERP)), cal=cal, perm=draw(st.integers(0, 10 ** 6)))


class Ref:
    """The curve as the conventions define it."""

    def __init__(self, c):
        self.c = c
        self.cd = D(c['cd'])
        cal = Cal(c['cal'])
        if c['x'] == 'tenor':
            self.dates = []
            for p in c['pts']:
                k = int(p[:-1]) * (12 if p[-1] == 'y' else 1)
                self.dates.append(cal.following(add_months(self.cd, k)))
        elif c['x'] == 'years':
            self.dates = None
        else:
            self.dates = [D(add_days(c['cd'], p)) for p in c['pts']]
        self.t = [float(p) for p in c['pts']] if self.dates is None else [yf(self.cd, d, c['basis']) for d in self.dates]
        f = c['cf'] if c['y'] == 'zero_rate' else 'continuous'
        self.df = [df_from_zero(f, t, z) for t, z in zip(self.t, c['z'])]
        o = sorted(range(len(self.t)), key=lambda i: self.t[i])
        self.order = o
        self.st = [self.t[i] for i in o]
        self.sdf = [self.df[i] for i in o]
        # zero-rate nodes; at t=0 only known when rates were given
        nodes = [(self.t[i], zero_from_df('continuous', self.t[i], self.df[i]) if self.t[i] > 0 else
                  (zero_from_df('continuous', 1.0, df_from_zero(f, 1.0, c['z'][i])) if f != 'simple' else c['z'][i]))
                 for i in o if self.t[i] > 0 or c['y'] == 'zero_rate']
        self.nodes = nodes
        self._sp = None

    def ok(self):
        """enough distinct nodes for the interpolation"""
        g = np.diff(self.st)
        return bool((g > 1e-3).all()) and len([t for t in self.st if t > 0]) >= (4 if self.c['interp'] == 'cubic_spline_on_cczr' else 3)

    def ln_df(self, t):
        from scipy.interpolate import CubicSpline
        x = [0.0] + [a for a in self.st if a > 0]
        y = [0.0] + [math.log(d) for a, d in zip(self.st, self.sdf) if a > 0]
        if self.c['interp'] == 'linear_on_ln_discount':
            return np.interp(t, x, y)
        if self._sp is None:
            if self.c['interp'] == 'cubic_spline_on_ln_discount':
                self._sp = CubicSpline(x, y, bc_type='not-a-knot')
            else:
                self._sp = CubicSpline([a for a, _ in self.nodes], [b for _, b in self.nodes], bc_type='not-a-knot')
        if self.c['interp'] == 'cubic_spline_on_ln_discount':
            return self._sp(t)
        return -np.asarray(t) * self._sp(t)

    def last_day(self):
        """last whole day covered"""
        if self.dates is not None:
            return max(self.dates)
        k = int(self.st[-1] * 360)
        d = self.cd + dt.timedelta(k)
        while yf(self.cd, d + dt.timedelta(1), self.c['basis']) <= self.st[-1]:
            d += dt.timedelta(1)
        while yf(self.cd, d, self.c['basis']) > self.st[-1]:
            d -= dt.timedelta(1)
        return d


def pillar_df(c, ref=None, perm=True):
    ref = ref or Ref(c)
    x = c['pts']
    if c['x'] == 'date':
        x = [pd.Timestamp(d) for d in ref.dates]
    y = c['z'] if c['y'] == 'zero_rate' else ref.df
    idx = list(range(len(x)))
    if perm:
        import random
        random.Random(c['perm']).shuffle(idx)
    return pd.DataFrame({c['x']: [x[i] for i in idx], c['y']: [y[i] for i in idx]})


def build(c, ref=None, perm=True, extrap='none', pdf=None):
    from frm.enums import CompoundingFreq, ZeroCurveInterpMethod, ZeroCurveExtrapMethod
    from frm.term_structures.zero_curve import ZeroCurve
    from pbt.gen import mkcal
    return ZeroCurve(curve_date=pd.Timestamp(c['cd']), pillar_df=pillar_df(c, ref, perm) if pdf is None else pdf,
                     compounding_freq=CompoundingFreq(c['cf']) if c['y'] == 'zero_rate' else None,
                     day_count_basis=basis(c['basis']), cal=mkcal(c['cal']), interp_method=ZeroCurveInterpMethod(c['interp']),
                     extrap_method=ZeroCurveExtrapMethod(extrap))
