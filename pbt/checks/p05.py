"""P05 schedules: contiguous coverage, regular periods, stubs, user-specified first/last periods."""
import datetime as dt

import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, raises, fail
from pbt.gen import D, iso, add_days, Cal, np_dates
from pbt import sched as S

FACETS = []


def fmt(b):
    return [str(x) for x in b]


def setup(c, r):
    cal = Cal(c['cal'])
    s, e = D(c['start']), D(c['end'])
    S_, E_ = (cal.roll(s, c['conv']), cal.roll(e, c['conv'])) if c['rollflag'] else (s, e)
    if S_ >= E_:
        r.discard()
    return cal, s, e, S_, E_


@facet(FACETS, lambda: st.tuples(S.sched(), st.sampled_from(
    [('default', 'default'), ('short', 'none'), ('short', 'default'), ('long', 'none'), ('long', 'default'),
     ('none', 'short'), ('default', 'short'), ('none', 'long'), ('default', 'long')])).map(lambda t: dict(t[0], stubs=list(t[1]))),
    'start/end/frequency/roll/calendar/stub type; non-trivial: at least two periods', quick=1600, shards=2)
def stub_types_vs_reference(c, r):
    from frm.enums.utils import Stub
    from frm.utils import make_schedule
    cal, s, e, S_, E_ = setup(c, r)
    f, l = c['stubs']
    direction = 'forward' if l in ('short', 'long') else 'backward'
    b = S.gen(s, e, c['freq'], direction, c['conv'], c['roll'], c['rollflag'], cal)
    if 'long' in (f, l):
        raw = S.raw_dates(s, e, c['freq'], direction, c['roll'])
        n = len(raw) + 1
        nxt = S.day_roll(S.step(e, c['freq'], -n) if direction == 'backward' else S.step(s, c['freq'], n), c['roll'])
        if nxt in (s, e) or len(raw) + 2 != len(b):
            r.discard()  # no broken period to merge (or it vanished by rolling): a long stub is not defined
        if len(b) > 2:
            b = [b[0]] + b[2:] if f == 'long' else b[:-2] + [b[-1]]
    df = make_schedule(first_stub=Stub(f), last_stub=Stub(l), **S.kwargs(c))
    got = S.bounds(df)
    check(got[0] == S_ and got[-1] == E_, 'the schedule does not cover [start, end]', got=fmt(got), start=str(S_), end=str(E_))
    check(got == b, 'schedule differs from the reference', got=fmt(got), expected=fmt(b))
    r.label(*c['stubs'])
    r.nt(len(b) > 2)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(c=S.sched(), d=st.sampled_from(['forward', 'backward']))),
       'generate_date_schedule in both directions; non-trivial: at least two periods', quick=900)
def generator_vs_reference(c, r):
    from frm.utils.schedule import generate_date_schedule
    d, c = c['d'], c['c']
    cal, s, e, S_, E_ = setup(c, r)
    b = S.gen(s, e, c['freq'], d, c['conv'], c['roll'], c['rollflag'], cal)
    d1, d2 = generate_date_schedule(direction=d, **S.kwargs(c))
    got = S.bounds(pd.DataFrame({'period_start': d1, 'period_end': d2}))
    check(got == b, f'{d} generation differs from the reference', got=fmt(got), expected=fmt(b))
    check(raises(lambda: generate_date_schedule(direction=d[:-1], **S.kwargs(c))), 'an unknown direction was accepted')
    r.nt(len(b) > 2)


@st.composite
def user(draw):
    c = draw(S.sched(freqs=['monthly', 'quarterly', 'semiannual', 'annual', 'weekly', '28days'], max_periods=7))
    span = (D(c['end']) - D(c['start'])).days
    cal = Cal(c['cal'])
    which = draw(st.sampled_from(['first', 'last', 'both', 'both', 'zero']))
    fpe = lps = None

    def pick(side):
        k = draw(st.sampled_from(['grid', 'grid', 'any', 'edge']))
        b = S.gen(D(c['start']), D(c['end']), c['freq'], draw(st.sampled_from(['forward', 'backward'])), c['conv'], c['roll'],
                  c['rollflag'], cal)
        inner = [x for x in b[1:-1] if D(c['start']) < x < D(c['end'])]
        if k == 'edge':
            return c['end'] if side == 'first' else c['start']
        if k == 'grid' and inner:
            i = draw(st.integers(0, min(1, len(inner) - 1)))
            return iso(inner[i] if side == 'first' else inner[-1 - i])
        hi = int(min(span, 1.8 * S.freq_days(c['freq'])))
        o = draw(st.integers(1, max(1, hi)))
        return add_days(c['start'], o) if side == 'first' else add_days(c['end'], -o)

    if which in ('first', 'both'):
        fpe = pick('first')
    if which in ('last', 'both'):
        lps = pick('last')
    if which == 'zero':
        c['freq'] = 'zerocoupon'
    if which == 'both' and draw(st.integers(0, 7)) == 0:
        lps = fpe if fpe < c['end'] else None
    c['fpe'], c['lps'] = fpe, lps
    return c


@facet(FACETS, user, 'user-specified first_period_end and/or last_period_start (on or off the regular grid); non-trivial: '
       'at least three periods', quick=1600, shards=2)
def user_periods_honoured(c, r):
    from frm.utils import make_schedule
    from frm.enums.utils import PeriodFreq
    cal, s, e, S_, E_ = setup(c, r)
    rl = (lambda d: cal.roll(d, c['conv'])) if c['rollflag'] else (lambda d: d)
    fpe, lps = (D(x) if x else None for x in (c['fpe'], c['lps']))
    args = S.kwargs(dict(c, freq='monthly'))
    args['freq'] = PeriodFreq(c['freq'])
    for k, v in (('first_period_end', fpe), ('last_period_start', lps)):
        if v:
            args[k] = pd.Timestamp(v)
    one = c['freq'] == 'zerocoupon' or fpe == e or lps == s
    if not one and fpe and lps and fpe > lps:
        check(raises(lambda: make_schedule(**args)), 'first_period_end after last_period_start was accepted')
        return
    pts = [rl(x) for x in ([s, e] if one else [x for x in (s, fpe, lps, e) if x])]
    if fpe and lps and fpe == lps and not one:
        pts.pop(1)
    if any(a >= b for a, b in zip(pts, pts[1:])):
        r.discard()
    got = S.bounds(make_schedule(**args))
    check(got[0] == S_ and got[-1] == E_, 'the schedule does not cover [start, end]', got=fmt(got))
    if one:
        check(len(got) == 2, 'exactly one period was specified', got=fmt(got))
        return
    if fpe:
        check(got[1] == rl(fpe), 'the first period does not end on first_period_end', got=fmt(got), fpe=str(fpe))
    if lps:
        check(got[-2] == rl(lps), 'the last period does not start on last_period_start', got=fmt(got), lps=str(lps))
    if fpe and fpe == lps:
        check(len(got) == 3, 'exactly two periods were specified', got=fmt(got))
        return
    # the dates in between step regularly from one of the specified dates
    cands = []
    a = (c['conv'], c['roll'], c['rollflag'], cal)
    for d in ('forward', 'backward'):
        g = S.gen(s, e, c['freq'], d, *a)
        cands += [g]
        if len(g) > 2:
            # a long stub may be implied by the specified date
            cands += [[g[0]] + g[2:], g[:-2] + [g[-1]]]
        if fpe and lps:
            cands.append([rl(s)] + S.gen(fpe, lps, c['freq'], d, *a) + [rl(e)])
        elif fpe:
            cands.append([rl(s)] + S.gen(fpe, e, c['freq'], d, *a))
        else:
            cands.append(S.gen(s, lps, c['freq'], d, *a) + [rl(e)])
    check(got in cands, 'the dates between the specified periods are not on a regular grid', got=fmt(got),
          candidates=[fmt(x) for x in cands])
    r.label('first' if fpe else '', 'last' if lps else '')
    r.nt(len(got) > 3)


@st.composite
def user_stub(draw):
    c = draw(user())
    if c['freq'] == 'zerocoupon' or bool(c['fpe']) == bool(c['lps']):
        span = (D(c['end']) - D(c['start'])).days
        o = draw(st.integers(1, max(1, int(min(span - 1, 1.8 * 91)))))
        first = draw(st.booleans())
        c['freq'] = 'quarterly' if c['freq'] == 'zerocoupon' else c['freq']
        c['fpe'], c['lps'] = (add_days(c['start'], o), None) if first else (None, add_days(c['end'], -o))
    c['stub'] = draw(st.sampled_from(['short', 'long']))
    return c


@facet(FACETS, user_stub, 'a user-specified period at one end with a short or long stub at the other; non-trivial: a long stub and at '
       'least three periods', quick=900)
def user_period_and_stub(c, r):
    from frm.utils import make_schedule
    from frm.enums.utils import Stub
    cal, s, e, S_, E_ = setup(c, r)
    rl = (lambda d: cal.roll(d, c['conv'])) if c['rollflag'] else (lambda d: d)
    fpe, lps = (D(x) if x else None for x in (c['fpe'], c['lps']))
    x = fpe or lps
    if not s < x < e:
        r.discard()
    a = (c['conv'], c['roll'], c['rollflag'], cal)
    # dates on one of the regular grids may already imply the stub at the other end
    for d in ('forward', 'backward'):
        g = S.gen(s, e, c['freq'], d, *a)
        if x in (g[1], g[-2]) or (len(g) > 2 and x in (g[2], g[-3])):
            r.discard()
    pts = [rl(s), rl(x), rl(e)]
    if not pts[0] < pts[1] < pts[2]:
        r.discard()
    if fpe:
        raw, d = S.raw_dates(fpe, e, c['freq'], 'forward', c['roll']), 'forward'
        b = S.gen(fpe, e, c['freq'], d, *a)
        nxt = S.day_roll(S.step(fpe, c['freq'], len(raw) + 1), c['roll'])
        merge = [rl(s)] + (b[:-2] + [b[-1]] if len(b) > 2 else b)
        b = [rl(s)] + b
    else:
        raw, d = S.raw_dates(s, lps, c['freq'], 'backward', c['roll']), 'backward'
        b = S.gen(s, lps, c['freq'], d, *a)
        nxt = S.day_roll(S.step(lps, c['freq'], -len(raw) - 1), c['roll'])
        merge = ([b[0]] + b[2:] if len(b) > 2 else b) + [rl(e)]
        b = b + [rl(e)]
    if c['stub'] == 'long':
        if nxt in (s, e) or len(raw) + 3 != len(b):
            r.discard()  # no broken period to merge
        b = merge
    args = S.kwargs(c)
    args.update(dict(first_period_end=pd.Timestamp(fpe), last_stub=Stub(c['stub'])) if fpe else
                dict(last_period_start=pd.Timestamp(lps), first_stub=Stub(c['stub'])))
    got = S.bounds(make_schedule(**args))
    check(got == b, 'schedule with one user-specified period and a stub at the other end differs from the reference', got=fmt(got),
          expected=fmt(b), stub=c['stub'])
    r.label('first' if fpe else 'last', c['stub'])
    r.nt(c['stub'] == 'long' and len(b) > 3)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(c=S.sched(), k=st.integers(0, 400), which=st.integers(0, 5))),
       'contradictory inputs; non-trivial: all', quick=400)
def contradictions_rejected(c, r):
    from frm.utils import make_schedule
    from frm.enums.utils import Stub
    k, w, c = c['k'], c['which'], c['c']
    a = S.kwargs(c)
    d = pd.Timedelta(days=k)
    if w == 0:
        a['start_date'] = a['end_date'] + d
    elif w == 1:
        a['first_period_end'] = a['start_date'] - d
    elif w == 2:
        a['last_period_start'] = a['end_date'] + d
    elif w == 3:
        a['first_period_end'] = a['end_date'] + d + pd.Timedelta(days=1)
    elif w == 4:
        a['last_period_start'] = a['start_date'] - d - pd.Timedelta(days=1)
    else:
        a['first_stub'], a['last_stub'] = Stub.SHORT, Stub.LONG if k % 2 else Stub.SHORT
    check(raises(lambda: make_schedule(**a)), 'contradictory schedule inputs were accepted', which=w)
    r.label(f'w{w}')
    r.nt()


@facet(FACETS, lambda: st.fixed_dictionaries(dict(
    c=S.sched(freqs=['monthly', 'quarterly', 'semiannual', 'annual', '28days', 'weekly']), extra=st.integers(0, 60))),
    'the same schedule asked for in equivalent ways; non-trivial: at least three periods', quick=500)
def equivalent_requests(c, r):
    """Asking for the dates the schedule has anyway must not change it; input date types do not matter."""
    from frm.utils import make_schedule
    from frm.utils.schedule import BaseSchedule
    c = c['c']
    c['rollflag'] = False
    a = S.kwargs(c)
    base = S.bounds(make_schedule(**a))
    b2 = S.bounds(make_schedule(**dict(a, start_date=D(c['start']), end_date=a['end_date'].to_datetime64())))
    check(b2 == base, 'the result depends on the date type of the inputs')
    bs = BaseSchedule(**a)
    check(S.bounds(bs.df) == base, 'BaseSchedule differs from make_schedule')
    if len(base) > 3:
        f, l = pd.Timestamp(base[1]), pd.Timestamp(base[-2])
        check(S.bounds(make_schedule(last_period_start=l, **a)) == base,
              'specifying the last_period_start the schedule has anyway changed it', base=fmt(base))
        check(S.bounds(make_schedule(first_period_end=f, last_period_start=l, **a)) == base,
              'specifying the first and last period the schedule has anyway changed it', base=fmt(base))
        r.nt()
