"""P07 notional, coupon and accrual columns of schedules; exposure date grids."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, close, raises, fail
from pbt.gen import D, iso, add_days, Cal, np_dates, fl, dates
from pbt import sched as S
from pbt.checks.p01 import ref_days, ref_yf, BASES, basis

FACETS = []


@st.composite
def noti(draw):
    c = draw(S.sched(max_periods=6))
    c['rollflag'] = False
    c['n'] = draw(st.sampled_from(['scalar', 'one', 'vector', 'vector', 'bad']))
    c['vals'] = draw(st.lists(fl(1, 1e7), min_size=1, max_size=4))
    c['ex'] = draw(st.sampled_from(['neither', 'start', 'end', 'both']))
    c['delay'], c['cdelay'] = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    c['adv'], c['cadv'] = draw(st.booleans()), draw(st.booleans())
    c['init'] = draw(st.sampled_from([None, None, -3, 0, 2]))
    c['basis'] = draw(st.sampled_from(BASES))
    c['days_first'] = draw(st.sampled_from(['days', 'years', 'both', 'both_rev']))
    return c


def pay(cal, b, conv, n):
    """Acceptable payment dates."""
    if conv == 'unadjusted' and n:
        return [cal.shift(cal.following(b), n), cal.shift(cal.preceding(b), n)]
    x = cal.roll(b, conv)
    return [cal.shift(x, n) if n else x]


@facet(FACETS, noti, 'notional and coupon schedules with scalar or per-period notionals and every exchange type; non-trivial: '
       'per-period notionals or an exchange', quick=700, shards=4)
def notional_and_coupon_cashflows(c, r):
    from frm.enums.utils import ExchangeNotionals, TimingConvention
    from frm.utils.schedule import CouponSchedule, NotionalSchedule, BaseSchedule
    cal = Cal(c['cal'])
    kw = S.kwargs(c)
    base = BaseSchedule(**kw).df
    b = S.bounds(base)
    n = len(b) - 1
    v = [c['vals'][i % len(c['vals'])] for i in range(n)]
    if c['n'] == 'scalar':
        v = [v[0]] * n
        arg = v[0]
    elif c['n'] == 'one':
        v = [v[0]] * n
        arg = np.array([v[0]])
    else:
        arg = np.array(v)
        if c['n'] == 'bad':
            arg = np.array(v + v + [1.0])
    t = lambda adv: TimingConvention.IN_ADVANCE if adv else TimingConvention.IN_ARREARS
    init = None if c['init'] is None else pd.Timestamp(add_days(c['start'], c['init']))
    args = dict(kw, notional_amount=arg, exchange_notionals=ExchangeNotionals(c['ex']), notional_payment_delay=c['delay'],
                notional_payment_timing=t(c['adv']), initial_notional_exchange_date=init)
    if c['n'] == 'bad':
        check(raises(lambda: NotionalSchedule(**args)), 'a notional vector of the wrong length was accepted', periods=n, given=len(arg))
        return
    for cls in (NotionalSchedule, CouponSchedule):
        if cls is CouponSchedule:
            args.update(coupon_payment_delay=c['cdelay'], coupon_payment_timing=t(c['cadv']))
        sch = cls(**args)
        df = sch.df
        start_row = c['ex'] in ('start', 'both')
        check(len(df) == n + start_row, 'wrong number of rows', rows=len(df), periods=n, exchange=c['ex'])
        body = df.iloc[1:] if start_row else df
        check(np_dates(body['period_start']) == b[:-1] and np_dates(body['period_end']) == b[1:], 'the periods changed')
        close(body['notional'].to_numpy(), v, 'notional of each period')
        exp = [v[i] - v[i + 1] for i in range(n - 1)] + [v[-1] if c['ex'] in ('end', 'both') else 0.0]
        close(body['notional_payment'].to_numpy(dtype=float), exp, 'notional repayments', atol=1e-6, exchange=c['ex'])
        ref = b[:-1] if c['adv'] else b[1:]
        for g, x in zip(np_dates(body['notional_payment_date']), ref):
            check(g in pay(cal, x, c['conv'], c['delay']), 'notional payment date', got=str(g), period_date=str(x))
        if start_row:
            f = df.iloc[0]
            check(pd.isna(f['period_start']) and pd.isna(f['period_end']), 'the initial exchange must not be an accrual period')
            close(f['notional_payment'], -v[0], 'initial exchange of notional')
            x = init if init is not None else pd.Timestamp(b[0])
            check(pd.Timestamp(f['notional_payment_date']) == x, 'date of the initial exchange', got=str(f['notional_payment_date']))
        if c['ex'] == 'both':
            close(df['notional_payment'].to_numpy(dtype=float).sum(), 0, 'with both exchanges the notional payments must net to zero',
                  atol=1e-5 + 1e-12 * max(v))
        if cls is CouponSchedule:
            ref = b[:-1] if c['cadv'] else b[1:]
            cp = np_dates(df['coupon_payment_date'])
            if start_row:
                check(cp[0] is None, 'a coupon payment date on the initial exchange')
                cp = cp[1:]
            for g, x in zip(cp, ref):
                check(g in pay(cal, x, c['conv'], c['cdelay']), 'coupon payment date', got=str(g), period_date=str(x))
            idx, shapes = sch.determine_valid_shapes_for_coupon_param()
            check(len(idx) == n and list(idx) == list(df.index[1:] if start_row else df.index) and (n,) in shapes and (1,) in shapes,
                  'coupon parameters must be scalar or one per accrual period', idx=list(idx), shapes=shapes)
    # accrual columns
    yf = [float(ref_yf(x, y, c['basis'], y == b[-1])) for x, y in zip(b, b[1:])]
    dc = [ref_days(x, y, c['basis'], y == b[-1]) for x, y in zip(b, b[1:])]
    for obj in (sch, BaseSchedule(**kw)):
        f = {'d': lambda: obj.add_period_daycount(basis(c['basis'])), 'y': lambda: obj.add_period_yearfrac(basis(c['basis']))}
        for k in {'days': 'd', 'years': 'y', 'both': 'dyd', 'both_rev': 'ydy'}[c['days_first']]:
            f[k]()
        df = obj.df
        check(len(set(df.columns)) == len(df.columns), 'duplicated columns', cols=list(df.columns))
        body = df[df['period_start'].notna()]
        if 'period_daycount' in df:
            close(body['period_daycount'].to_numpy(dtype=float), dc, 'period day counts', basis=c['basis'])
            check(df['period_daycount'][df['period_start'].isna()].isna().all(), 'day count on a row without period')
        if 'period_yearfrac' in df:
            close(body['period_yearfrac'].to_numpy(dtype=float), yf, 'period year fractions', basis=c['basis'])
            check(df['period_yearfrac'][df['period_start'].isna()].isna().all(), 'year fraction on a row without period')
    r.label(c['ex'], c['n'], c['days_first'])
    r.nt(c['ex'] != 'neither' or c['n'] == 'vector')


@st.composite
def grid(draw):
    cd = draw(dates('2015-01-01', '2040-12-31'))
    n = draw(st.integers(1, 5))
    f = draw(st.sampled_from(['1d', '1w', '1m', '3m', '6m', '12m', None]))
    mx = 60 if f == '1d' else 400 if f == '1w' else 1500
    return dict(cd=cd, dd=[add_days(cd, draw(st.integers(2, mx))) for _ in range(n)], f=f,
                pillar=sorted({add_days(cd, draw(st.integers(0, 900))) for _ in range(4)}),
                v=draw(st.booleans()), last=draw(st.booleans()), after=draw(st.booleans()))


@facet(FACETS, grid, 'exposure date grids; non-trivial: more than one delivery date', quick=400)
def exposure_grid(c, r):
    from frm.utils.schedule import create_date_grid_for_fx_exposures as f
    dd = pd.DatetimeIndex(c['dd'])
    g = f(pd.Timestamp(c['cd']), dd.to_numpy(), sampling_freq=c['f'],
          date_grid_pillar=None if c['f'] else pd.DatetimeIndex(c['pillar']), payments_on_value_date_have_value=c['v'],
          include_last_day_of_value=c['last'], include_day_after_last_day_of_value=c['after'])
    gd = np_dates(g)
    check(gd == sorted(set(gd)), 'the grid is not sorted and unique')
    import datetime as dt
    one = dt.timedelta(1)
    ddd = sorted({D(x) for x in c['dd']})
    extra = set()
    if c['last']:
        extra = set(ddd) if c['v'] else {x - one for x in ddd}
    elif c['after']:
        extra = {x + one for x in ddd} if c['v'] else set(ddd)
    if c['f']:
        cal = Cal(dict(mask='1111100', hols=[]))
        fr = {'1d': 'daily', '1w': 'weekly', '1m': 'monthly', '3m': 'quarterly', '6m': 'semiannual', '12m': 'annual'}[c['f']]
        regular = set(S.gen(D(c['cd']), ddd[-1], fr, 'forward', 'modifiedfollowing', 'unadjusted', False, cal))
    else:
        regular = {D(x) for x in c['pillar']}
    check(set(gd) == regular | extra, 'grid is not the sampling dates plus the requested value dates',
          missing=[str(x) for x in sorted((regular | extra) - set(gd))], surplus=[str(x) for x in sorted(set(gd) - regular - extra)])
    r.nt(len(ddd) > 1)
