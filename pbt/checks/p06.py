"""P06 business-day adjustment, day roll and payment dates of schedules."""
import calendar

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, fail
from pbt.gen import D, iso, add_days, Cal, np_dates
from pbt import sched as S

FACETS = []
REAL = ['following', 'preceding', 'modifiedfollowing', 'modifiedpreceding']


@facet(FACETS, lambda: st.tuples(S.sched(convs=REAL), st.sampled_from(['short', 'last_short'])).map(lambda t: dict(t[0], k=t[1])),
       'schedules with a random calendar; non-trivial: at least one date is not a business day before rolling', quick=1500,
       shards=2)
def dates_roll_to_business_days(c, r):
    from frm.enums.utils import RollConv, Stub
    from frm.utils import make_schedule
    cal = Cal(c['cal'])
    s, e = D(c['start']), D(c['end'])
    rl = lambda d: cal.roll(d, c['conv'])
    if c['rollflag'] and rl(s) >= rl(e):
        r.discard()
    a = S.kwargs(c)
    st_ = dict(first_stub=Stub.SHORT, last_stub=Stub.NONE) if c['k'] == 'short' else dict(last_stub=Stub.SHORT)
    adj = S.bounds(make_schedule(**a, **st_))
    un = S.bounds(make_schedule(**dict(a, roll_conv=RollConv.UNADJUSTED), **st_))
    for d in adj[1:-1]:
        check(cal.is_bd(d), 'a period boundary is not a business day', date=str(d), conv=c['conv'])
    first, last = (rl(s), rl(e)) if c['rollflag'] else (s, e)
    check(adj[0] == first and adj[-1] == last, 'start/end date: wrong treatment of roll_user_specified_dates', got=[str(adj[0]), str(adj[-1])],
          expected=[str(first), str(last)])
    ref = S.gen(s, e, c['freq'], 'forward' if c['k'] == 'last_short' else 'backward', c['conv'], c['roll'], c['rollflag'], cal)
    check(adj == ref, 'dates are not the rolled regular dates (with the day roll applied before adjustment)', got=[str(x) for x in adj],
          expected=[str(x) for x in ref])
    exp = [first] + sorted({rl(d) for d in un[1:-1] if first < rl(d) < last}) + [last]
    check(adj == exp, 'adjusted dates are not the rolled unadjusted dates', got=[str(x) for x in adj], expected=[str(x) for x in exp],
          unadjusted=[str(x) for x in un])
    if c['conv'].startswith('modified'):
        months = {(d.year, d.month) for d in un[1:-1]}
        check(all((d.year, d.month) in months for d in adj[1:-1]), 'a modified roll convention left the month')
    if c['roll'] != 'unadjusted':
        for d in un[1:-1]:
            ld = calendar.monthrange(d.year, d.month)[1]
            want = ld if c['roll'] == 'eom' else min(c['roll'], ld)
            check(d.day == want, 'an unadjusted period boundary is not on the day roll', date=str(d), roll=c['roll'])
    r.label(c['conv'])
    r.nt(any(not cal.is_bd(d) for d in un[1:-1]))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(c=S.sched(), delay=st.integers(0, 12), adv=st.booleans(),
                                                  col=st.sampled_from(['payment_date', 'x', 'coupon_payment_date']))),
       'payment delay, timing, roll convention and calendar; non-trivial: some base date is not a business day or delay > 0',
       quick=1200, shards=2)
def payment_dates(c, r):
    from frm.enums.utils import TimingConvention
    from frm.utils.schedule import BaseSchedule
    k, c = c, c['c']
    cal = Cal(c['cal'])
    if c['rollflag'] and cal.roll(D(c['start']), c['conv']) >= cal.roll(D(c['end']), c['conv']):
        r.discard()
    sch = BaseSchedule(**S.kwargs(c))
    before = sch.df.copy()
    sch.add_payment_dates(k['delay'], TimingConvention.IN_ADVANCE if k['adv'] else TimingConvention.IN_ARREARS, col_name=k['col'])
    base = np_dates(sch.df['period_start'] if k['adv'] else sch.df['period_end'])
    got = np_dates(sch.df[k['col']])
    for b, g in zip(base, got):
        if c['conv'] == 'unadjusted' and k['delay']:
            ok = g in (cal.shift(cal.following(b), k['delay']), cal.shift(cal.preceding(b), k['delay']))
            check(ok, 'delayed payment date is not that many business days after the period date', base=str(b), got=str(g))
        else:
            x = cal.roll(b, c['conv'])
            x = cal.shift(x, k['delay']) if k['delay'] else x
            check(g == x, f'payment date {g} of {b}: expected {x}', conv=c['conv'], delay=k['delay'])
    check(sch.df[['period_start', 'period_end']].equals(before), 'adding payment dates changed the periods')
    r.label(c['conv'], 'advance' if k['adv'] else 'arrears')
    r.nt(k['delay'] > 0 or any(not cal.is_bd(b) for b in base))
