"""Reference model of period schedules and the strategies that generate them."""
import calendar
import datetime as dt

from hypothesis import strategies as st

from pbt.gen import D, iso, add_days, add_months, dates, calendar_spec, Cal

FREQ = {'daily': ('d', 1), 'weekly': ('d', 7), '28days': ('d', 28), 'monthly': ('m', 1), 'quarterly': ('m', 3),
        'semiannual': ('m', 6), 'annual': ('m', 12)}
CONVS = ['unadjusted', 'following', 'preceding', 'modifiedfollowing', 'modifiedpreceding']


def step(d, freq, n):
    u, k = FREQ[freq]
    return d + dt.timedelta(k * n) if u == 'd' else add_months(d, k * n)


def day_roll(d, roll):
    if roll == 'unadjusted':
        return d
    last = calendar.monthrange(d.year, d.month)[1]
    return d.replace(day=last if roll == 'eom' else min(roll, last))


def raw_dates(start, end, freq, direction, roll):
    """Unadjusted dates strictly inside (start, end), stepping from one end, in ascending order."""
    out, n, anchor = [], 1, start if direction == 'forward' else end
    while True:
        d = day_roll(step(anchor, freq, n if direction == 'forward' else -n), roll)
        if (d >= end) if direction == 'forward' else (d <= start):
            break
        out.append(d)
        n += 1
    return sorted(set(x for x in out if start < x < end))


def gen(start, end, freq, direction, conv, roll, rollflag, cal):
    """Boundaries [start, ..., end] of the generated periods."""
    s = cal.roll(start, conv) if rollflag else start
    e = cal.roll(end, conv) if rollflag else end
    inner = sorted({cal.roll(d, conv) for d in raw_dates(start, end, freq, direction, roll)})
    return [s] + [d for d in inner if s < d < e] + [e]


def freq_days(freq):
    u, k = FREQ[freq]
    return k if u == 'd' else 30.4375 * k


@st.composite
def sched(draw, freqs=None, max_periods=9, user=False, convs=None):
    freq = draw(st.sampled_from(freqs or ['monthly', 'monthly', 'quarterly', 'quarterly', 'semiannual', 'annual', 'weekly',
                                          'daily', '28days']))
    start = draw(dates('2000-01-01', '2045-12-31'))
    n = draw(st.integers(1, max_periods))
    if draw(st.integers(0, 2)):
        end = iso(step(D(start), freq, n))
        j = draw(st.integers(-4, 4))
        if draw(st.booleans()):
            end = add_days(end, j)
    else:
        end = add_days(start, draw(st.integers(1, max(2, int(freq_days(freq) * n)))))
    if end <= start:
        end = add_days(start, 1)
    roll = 'unadjusted'
    if FREQ[freq][0] == 'm':
        roll = draw(st.sampled_from(['unadjusted', 'unadjusted', 'eom', 1, 15, 28, 29, 30, 31]))
    lo = add_days(start, -15)
    spec = draw(calendar_spec(lo, add_days(end, 20), 12))
    if draw(st.booleans()):
        # holidays exactly where the schedule wants to put a date
        k = draw(st.integers(0, n))
        x = iso(step(D(start), freq, k)) if draw(st.booleans()) else iso(step(D(end), freq, -k))
        extra = {add_days(x, i) for i in range(draw(st.integers(1, 4)))}
        spec = dict(mask=spec['mask'], hols=sorted(set(spec['hols']) | extra))
    return dict(start=start, end=end, freq=freq, conv=draw(st.sampled_from(convs or CONVS)), roll=roll,
                rollflag=draw(st.booleans()), cal=spec)


def kwargs(c):
    """Arguments for the code under test."""
    import pandas as pd
    from frm.enums.utils import PeriodFreq, RollConv, DayRoll
    from pbt.gen import mkcal
    return dict(start_date=pd.Timestamp(c['start']), end_date=pd.Timestamp(c['end']), freq=PeriodFreq(c['freq']),
                roll_conv=RollConv(c['conv']), day_roll=DayRoll(c['roll']), roll_user_specified_dates=c['rollflag'],
                cal=mkcal(c['cal']))


def bounds(df):
    """period boundaries of a schedule frame after checking it is contiguous."""
    from pbt.core import check
    from pbt.gen import np_dates
    s, e = np_dates(df['period_start']), np_dates(df['period_end'])
    check(len(s) >= 1, 'empty schedule')
    check(s[1:] == e[:-1], 'periods are not contiguous', starts=[str(x) for x in s], ends=[str(x) for x in e])
    check(all(a < b for a, b in zip(s, e)), 'a period has no positive length', starts=[str(x) for x in s], ends=[str(x) for x in e])
    return s + [e[-1]]
