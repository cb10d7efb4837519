"""P10 zero curves reproduce their pillars."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, add_days
from pbt import curves as C

FACETS = []


@facet(FACETS, C.curve, 'curves in every pillar form, rate type, compounding, basis and interpolation; non-trivial: pillars unsorted '
       'or a pillar on the curve date', quick=500, shards=4)
def pillars_reproduced(c, r):
    from frm.enums import CompoundingFreq
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    pdf = C.pillar_df(c, ref)
    before = pdf.copy(deep=True)
    zc = C.build(c, ref, pdf=pdf)
    check(pdf.equals(before) and list(pdf.columns) == list(before.columns), 'the caller\'s pillar_df was modified',
          columns=list(pdf.columns))
    f = CompoundingFreq(c['cf'])
    close(zc.get_discount_factors(dates=pd.Timestamp(c['cd'])), 1.0, 'discount factor on the curve date')
    close(zc.get_discount_factors(years=0.0), 1.0, 'discount factor at t=0')
    for i, t in enumerate(ref.t):
        ctx = dict(pillar=c['pts'][i], interp=c['interp'], x=c['x'], y=c['y'])
        close(zc.get_discount_factors(years=t), ref.df[i], 'a pillar is not reproduced when queried by years', 1e-9, 1e-12, **ctx)
        if ref.dates is not None:
            d = ref.dates[i]
            close(zc.get_discount_factors(dates=pd.Timestamp(d)), ref.df[i], 'a pillar is not reproduced when queried by date',
                  1e-9, 1e-12, **ctx)
            close(zc.get_discount_factors(days=(d - ref.cd).days), ref.df[i], 'a pillar is not reproduced when queried by days',
                  1e-9, 1e-12, **ctx)
            if t > 0 and c['y'] == 'zero_rate':
                close(zc.get_zero_rates(f, dates=pd.Timestamp(d)), c['z'][i], 'a zero-rate pillar is not reproduced', 1e-7,
                      1e-9 + 1e-12 / t, cf=c['cf'], **ctx)
        if t > 0 and c['y'] == 'zero_rate':
            close(zc.get_zero_rates(f, years=t), c['z'][i], 'a zero-rate pillar is not reproduced by years', 1e-7, 1e-9 + 1e-12 / t,
                  cf=c['cf'], **ctx)
    p = zc.pillar_df
    check((np.diff(p['years']) > 0).all() and p['years'].iloc[0] == 0, 'pillar table is not in time order starting at t=0')
    r.label(c['x'], c['y'], c['interp'], c['cf'] if c['y'] == 'zero_rate' else '')
    r.nt(ref.st[0] == 0 or list(before[c['x']]) != [before[c['x']].iloc[i] for i in np.argsort(before[c['x']].values, kind='stable')]
         if c['x'] != 'tenor' else True)


@facet(FACETS, lambda: C.curve(xs=['date', 'days', 'tenor']), 'one curve described in different ways; non-trivial: all', quick=240, shards=2)
def equivalent_descriptions(c, r):
    """Row order, pillar form and rate type are only descriptions of one curve."""
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    a = C.build(c, ref, perm=False)
    alts = [C.build(c, ref, perm=True)]
    days = [(d - ref.cd).days for d in ref.dates]
    x = dict(c, x='date', pts=days)
    alts.append(C.build(x, C.Ref(x)))
    alts.append(C.build(dict(c, x='days', pts=days)))
    if ref.st[0] > 0:
        alts.append(C.build(dict(c, x='date', pts=days, y='discount_factor'), pdf=pd.DataFrame(
            {'date': [pd.Timestamp(d) for d in ref.dates], 'discount_factor': ref.df})))
    n = max(days)
    q = [pd.Timestamp(add_days(c['cd'], int(n * k / 13))) for k in range(1, 14)]
    base = a.get_discount_factors(dates=pd.DatetimeIndex(q))
    for i, b in enumerate(alts):
        close(b.get_discount_factors(dates=pd.DatetimeIndex(q)), base, f'an equivalent description gives another curve (variant {i})',
              1e-9, 1e-12, x=c['x'], interp=c['interp'])
    r.nt()


@facet(FACETS, lambda: st.fixed_dictionaries(dict(c=C.curve(), k=st.integers(0, 5))), 'malformed pillar tables; non-trivial: all', quick=120)
def malformed_rejected(c, r):
    from frm.term_structures.zero_curve import ZeroCurve
    k, c = c['k'], c['c']
    ref = C.Ref(c)
    if not ref.ok():
        r.discard()
    p = C.pillar_df(c, ref)
    if k == 0:
        p['spread'] = 0.0
    elif k == 1:
        p = p.rename(columns={c['x']: 'maturity'})
    elif k == 2:
        p = p.rename(columns={c['y']: 'yield'})
    elif k == 3:
        p = p[[c['x']]]
    elif k == 4:
        p = p.rename(columns={c['x']: {'zero_rate': 'discount_factor', 'discount_factor': 'zero_rate'}[c['y']]})
    if k == 5:
        q = C.pillar_df(dict(c, y='zero_rate'), ref)
        check(raises(lambda: ZeroCurve(curve_date=pd.Timestamp(c['cd']), pillar_df=q)), 'zero rates without a compounding frequency were accepted')
    else:
        check(raises(lambda: C.build(c, ref, pdf=p)), 'a malformed pillar table was accepted', columns=list(p.columns))
    r.nt()
