"""P11 zero curve queries: interpolation, query forms, extrapolation, parallel shifts."""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, add_days, fl
from pbt import curves as C

FACETS = []


@st.composite
def q(draw, **kw):
    c = draw(C.curve(**kw))
    c['q'] = [round(draw(st.floats(0, 1)), 4) for _ in range(draw(st.integers(1, 6)))]
    c['cont'] = draw(st.sampled_from(['index', 'series', 'series_idx', 'series_named', 'index_named', 'scalar', 'list']))
    return c


def container(v, kind):
    if kind == 'index':
        return pd.DatetimeIndex(v) if isinstance(v[0], pd.Timestamp) else np.array(v)
    if kind == 'series':
        return pd.Series(v)
    if kind == 'series_idx':
        return pd.Series(v, index=[7 - i for i in range(len(v))])
    if kind == 'series_named':
        return pd.Series(v, name='expiry')
    if kind == 'index_named':
        return pd.DatetimeIndex(v, name='expiry') if isinstance(v[0], pd.Timestamp) else pd.Index(v, name='expiry')
    if kind == 'scalar':
        return v[0]
    return list(v)


@facet(FACETS, q, 'dates, days and years inside the curve in any container and order; non-trivial: a query strictly between pillars',
       quick=500, shards=4)
def interpolation_vs_reference(c, r):
    from frm.enums import CompoundingFreq
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    zc = C.build(c, ref)
    span = (ref.last_day() - ref.cd).days
    if span < 2:
        r.discard()
    days = [int(round(x * span)) for x in c['q']]
    ds = [ref.cd + dt.timedelta(n) for n in days]
    t = [C.yf(ref.cd, d, c['basis']) for d in ds]
    if c['cont'] == 'scalar':
        days, ds, t = days[:1], ds[:1], t[:1]
    exp = np.exp(ref.ln_df(np.array(t)))
    by = {'dates': container([pd.Timestamp(d) for d in ds], c['cont']), 'days': container(days, c['cont'])}
    if c['x'] != 'years' or True:
        by['years'] = container(t, 'index' if c['cont'] == 'list' else c['cont'])
    for k, v in by.items():
        got = zc.get_discount_factors(**{k: v})
        check((np.ndim(got) == 0) == (c['cont'] == 'scalar'), 'scalar queries give scalars, vectors give vectors', by=k)
        close(got, exp, f'discount factors queried by {k} differ from the interpolation of the pillars', 1e-8, 1e-11,
              interp=c['interp'], t=t)
        for f in ('continuous', 'simple', 'annual', 'quarterly', 'daily'):
            z = np.atleast_1d(np.asarray(zc.get_zero_rates(CompoundingFreq(f), **{k: v}), float))
            check(len(z) == len(t), 'one zero rate per query')
            for zi, ti, e in zip(z, t, exp):
                if ti > 0:
                    close(zi, C.zero_from_df(f, ti, e), f'{f} zero rate (by {k}) is inconsistent with the discount factor', 1e-7,
                          1e-9 + 1e-11 / ti, t=ti)
    check(raises(lambda: zc.get_discount_factors(dates=pd.Timestamp(ds[0]), days=days[0])), 'two kinds of query at once were accepted')
    r.label(c['interp'], c['cont'], c['x'])
    r.nt(any(all(abs(a - b) > 1e-9 for b in ref.t) for a in t))


@facet(FACETS, lambda: st.tuples(q(xs=['date', 'days', 'tenor'], interps=['linear_on_ln_discount']), st.sampled_from(['none', 'flat']), st.lists(
    st.integers(-400, 900), min_size=2, max_size=7)).map(lambda t: dict(t[0], ex=t[1], off=t[2])),
    'queries before, inside and after the curve in any order; non-trivial: an out-of-range query before an in-range one', quick=240,
    shards=3)
def extrapolation(c, r):
    from frm.enums import CompoundingFreq
    ref = C.Ref(c)
    if not ref.ok() or ref.dates is None:
        r.discard()
    zc = C.build(c, ref, extrap=c['ex'])
    last = ref.last_day()
    # negative offsets lie before the curve, large ones beyond its last pillar
    n = (last - ref.cd).days
    ds = [ref.cd + dt.timedelta(o if o < 0 else n + o - 450) for o in c['off']]
    ds = [d if d >= ref.cd or o < 0 else ref.cd for d, o in zip(ds, c['off'])]
    exp = []
    for d in ds:
        if ref.cd <= d <= last:
            exp.append(float(np.exp(ref.ln_df(C.yf(ref.cd, d, c['basis'])))))
        elif c['ex'] == 'none':
            exp.append(float('nan'))
        else:
            exp.append(1.0 if d < ref.cd else float(np.exp(ref.ln_df(C.yf(ref.cd, last, c['basis'])))))
    got = zc.get_discount_factors(dates=pd.DatetimeIndex(ds))
    close(got, exp, f"extrapolation '{c['ex']}': one result per date in the order asked for", 1e-9, 1e-12, dates=[str(d) for d in ds])
    z = zc.get_zero_rates(CompoundingFreq.CONTINUOUS, dates=pd.DatetimeIndex(ds))
    check(len(z) == len(ds), 'one zero rate per date')
    if c['ex'] == 'none':
        check((np.isnan(np.asarray(z, float)) == np.isnan(exp))[[d != ref.cd for d in ds]], 'zero rates outside the curve must be NaN')
    io = [ref.cd <= d <= last for d in ds]
    r.label(c['ex'])
    r.nt(any(not a and b for a, b in zip(io, io[1:])))


@facet(FACETS, lambda: st.tuples(q(), st.one_of(fl(-300, 300, 4), st.sampled_from([0.0, 1.0, 100.0])), st.sampled_from(['none', 'flat'])).map(
    lambda t: dict(t[0], bp=t[1], ex=t[2])),
       'parallel shifts of any curve; non-trivial: non-zero shift', quick=200, shards=3)
def flat_shift(c, r):
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    ex = c.get('ex', 'none')
    zc = C.build(c, ref, extrap=ex)
    before = zc.pillar_df.copy(deep=True)
    sh = zc.flat_shift(c['bp'])
    t = np.array([x * ref.st[-1] for x in c['q']])
    exp = np.asarray(zc.get_discount_factors(years=t)) * np.exp(-c['bp'] / 1e4 * t)
    close(sh.get_discount_factors(years=t), exp, 'a parallel shift adds the shift to every continuous zero rate', 1e-8, 1e-11,
          interp=c['interp'], bp=c['bp'])
    n = (ref.last_day() - ref.cd).days
    d = pd.DatetimeIndex([pd.Timestamp(ref.cd + dt.timedelta(int(x * n))) for x in c['q']])
    tt = np.array([C.yf(ref.cd, x.date(), c['basis']) for x in d])
    close(sh.get_discount_factors(dates=d), np.asarray(zc.get_discount_factors(dates=d)) * np.exp(-c['bp'] / 1e4 * tt),
          'shifted curve by dates', 1e-8, 1e-11)
    if ref.dates is not None and c['interp'] == 'linear_on_ln_discount':
        far = pd.DatetimeIndex([pd.Timestamp(ref.last_day() + dt.timedelta(k)) for k in (1, 40, 900)])
        if ex == 'none':
            check(np.isnan(np.asarray(sh.get_discount_factors(dates=far), float)), 'the shifted curve extrapolates although the original does not')
        else:
            close(sh.get_discount_factors(dates=far), [float(np.exp(ref.ln_df(C.yf(ref.cd, ref.last_day(), c['basis'])) - c['bp'] / 1e4 * C.yf(
                ref.cd, ref.last_day(), c['basis'])))] * 3, 'the shifted curve must extrapolate as the original does', 1e-8, 1e-11)
    check(sh.curve_date == zc.curve_date and np.array_equal(sh.cal.holidays, zc.cal.holidays) and np.array_equal(sh.cal.weekmask, zc.cal.weekmask),
          'the shifted curve keeps the calendar')
    close(zc.pillar_df['discount_factor'], before['discount_factor'], 'shifting changed the original curve', 0, 0)
    close(sh.flat_shift(-c['bp']).get_discount_factors(years=t), zc.get_discount_factors(years=t), 'shifting back', 1e-8, 1e-11)
    r.nt(c['bp'] != 0)


@facet(FACETS, lambda: st.tuples(q(xs=['date', 'days', 'tenor']), st.sampled_from(['none', 'flat']), st.integers(20, 400), st.integers(0, 10 ** 6),
                                 st.sampled_from(['index', 'series', 'series_idx'])).map(
    lambda t: dict(t[0], ex=t[1], n=t[2], sd=t[3], ct=t[4])),
    'long query vectors with repeats, unsorted, in and out of range; non-trivial: more queries than distinct dates', quick=30, shards=2)
def bulk_queries(c, r):
    """One answer per query, in order, whatever the length of the vector and however often a date is repeated."""
    from frm.enums import CompoundingFreq
    ref = C.Ref(c)
    if not ref.ok() or ref.dates is None:
        r.discard()
    zc = C.build(c, ref, extrap=c['ex'])
    n = (ref.last_day() - ref.cd).days
    if n < 2:
        r.discard()
    pool = sorted({int(round(x * n)) for x in c['q']} | {0, n, -5, n + 40})
    if c['interp'] != 'linear_on_ln_discount':
        pool = [o for o in pool if 0 <= o <= n]
    idx = np.random.default_rng(c['sd']).integers(0, len(pool), c['n'])
    dd = pd.DatetimeIndex([pd.Timestamp(ref.cd + dt.timedelta(o)) for o in pool])
    wrap = {'index': lambda v: v, 'series': lambda v: pd.Series(v), 'series_idx': lambda v: pd.Series(v, index=np.arange(len(v))[::-1])}[c['ct']]
    one = np.array([np.asarray(zc.get_discount_factors(dates=pd.DatetimeIndex([d])), float)[0] for d in dd])
    got = zc.get_discount_factors(dates=wrap(dd[idx]))
    check(len(got) == c['n'], 'one discount factor per query', got=len(got), n=c['n'])
    close(got, one[idx], 'a long query vector differs from the queries one at a time', 1e-10, 1e-13)
    inside = [o for o in pool if 1 <= o <= n]
    if inside:
        j = np.random.default_rng(c['sd']).integers(0, len(inside), c['n'])
        di = np.array(inside)
        dt_ = pd.DatetimeIndex([pd.Timestamp(ref.cd + dt.timedelta(o)) for o in inside])
        f = CompoundingFreq.CONTINUOUS
        z1 = np.array([np.asarray(zc.get_zero_rates(f, dates=pd.DatetimeIndex([d])), float)[0] for d in dt_])
        close(zc.get_zero_rates(f, dates=wrap(dt_[j])), z1[j], 'a long vector of zero rates differs from one at a time', 1e-10, 1e-13)
        close(zc.get_discount_factors(days=di[j]), [float(np.asarray(zc.get_discount_factors(days=int(k)))) for k in di[j]],
              'a long vector of day counts differs from one at a time', 1e-10, 1e-13)
        close(zc.get_forward_rates(pd.DatetimeIndex([pd.Timestamp(ref.cd)] * c['n']), dt_[j], __import__('frm.enums', fromlist=['TermRate']).TermRate.CONTINUOUS),
              z1[j], 'a long vector of forward rates from the curve date differs from the zero rates', 1e-7, 1e-10)
    r.label(c['ex'], c['ct'])
    r.nt(c['n'] > len(pool))
