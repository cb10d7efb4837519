"""P02 business-day calendars are the union of the weekends and holidays of the requested places."""
import datetime as dt
import os

import dill
import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, check, raises, fail
from pbt.gen import D, dates

FACETS = []
REPO = os.environ.get('PROJECT_DIR_FRM', '/repo')
_DATA = {}


def data():
    if not _DATA:
        for n in ('CCY_HOLIDAY', 'LOCALE_HOLIDAY'):
            with open(os.path.join(REPO, 'frm', 'utils', n + '.pkl'), 'rb') as f:
                d = dill.load(f)
            for k, v in d.items():
                # currencies take precedence, keys are case-insensitive
                _DATA.setdefault(k.upper(), (k, set(v.weekend), set(v.keys())))
    return _DATA


def warmup():
    data()
    import frm.utils  # noqa


def keys_strategy():
    names = sorted(data())

    @st.composite
    def s(draw):
        n = draw(st.one_of(st.integers(1, 4), st.integers(1, 10)))
        ks = draw(st.lists(st.sampled_from(names), min_size=n, max_size=n))
        out = []
        for k in ks:
            style = draw(st.sampled_from(['upper', 'lower', 'orig', 'mixed']))
            out.append({'upper': k, 'lower': k.lower(), 'orig': data()[k][0], 'mixed': k.title()}[style])
        return out
    return s()


def near_keys():
    """currency pairs, cut, extended and padded keys"""
    k = st.sampled_from(sorted(data()))
    return st.one_of(st.tuples(k, k).map(lambda x: x[0] + x[1]), k.map(lambda x: x[:-1]), k.map(lambda x: x[:2]), k.map(lambda x: x + 'X'),
                     st.tuples(k, k).map(','.join), st.just(''))


def nonbus(ks, d):
    return any(d.weekday() in data()[k.upper()][1] or d in data()[k.upper()][2] for k in ks)


def sample_days(ks, extra):
    """extra random days, plus days next to actual holidays of each requested place."""
    out = [D(x) for x in extra]
    for k in ks:
        h = sorted(data()[k.upper()][2])
        for x in extra:
            hd = h[D(x).toordinal() % len(h)]
            out += [hd, hd + dt.timedelta(1), hd - dt.timedelta(1)]
    return out


@facet(FACETS, lambda: st.fixed_dictionaries(dict(
    keys=keys_strategy(), form=st.sampled_from(['str', 'list']),
    days=st.lists(dates('1990-01-01', '2099-12-31'), min_size=4, max_size=8))),
    'key lists in random case with repeats; non-trivial: at least two different places requested', quick=350)
def union_of_places(c, r):
    from frm.utils import get_busdaycal
    ks = c['keys'] if c['form'] == 'list' else c['keys'][:1]
    arg = list(ks) if c['form'] == 'list' else ks[0]
    before = list(arg) if isinstance(arg, list) else arg
    cal = get_busdaycal(arg)
    check(arg == before, 'get_busdaycal changed its argument')
    for d in sample_days(ks, c['days']):
        exp = not nonbus(ks, d)
        got = bool(np.is_busday(np.datetime64(d), busdaycal=cal))
        if got != exp:
            fail(f'{d} ({d:%a}) is {"" if exp else "not "}a business day for {ks} but the calendar says '
                 f'{"business" if got else "non-business"} day')
    for i in range(7):
        exp = not any(i in data()[k.upper()][1] for k in ks)
        check(bool(cal.weekmask[i]) == exp, f'weekday {i} of the week mask is wrong for {ks}')
    r.label('form_' + c['form'])
    r.nt(len({k.upper() for k in ks}) > 1)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(
    keys=keys_strategy(), perm=st.randoms(use_true_random=False).map(lambda x: x.randint(0, 10 ** 6)))),
    'same places in another order, case and multiplicity; non-trivial: more than one place', quick=200)
def order_and_case_irrelevant(c, r):
    import random
    from frm.utils import get_busdaycal
    ks = c['keys']
    other = [k.lower() if i % 2 else k.upper() for i, k in enumerate(ks + ks[:1])]
    random.Random(c['perm']).shuffle(other)
    a, b = get_busdaycal(ks), get_busdaycal(other)
    check((a.weekmask == b.weekmask).all() and a.holidays.shape == b.holidays.shape and (a.holidays == b.holidays).all(),
          'the calendar depends on the order, case or repetition of the keys', a=ks, b=other)
    # every holiday of the union that can move a date is there: no more, no less
    exp = {h for k in ks for h in data()[k.upper()][2]}
    wk = {w for k in ks for w in data()[k.upper()][1]}
    exp = {h for h in exp if h.weekday() not in wk}
    got = {h for h in a.holidays.astype(object) if h.weekday() not in wk}
    check(got == exp, 'holiday set is not the union of the places\' holidays', keys=ks,
          missing=sorted(exp - got)[:3], extra=sorted(got - exp)[:3])
    r.nt(len({k.upper() for k in ks}) > 1)


@facet(FACETS, lambda: st.fixed_dictionaries(dict(
    day=dates('1950-01-01', '2150-12-31'),
    good=keys_strategy(), bad=st.one_of(st.text('ABCXYZ_-', min_size=1, max_size=12), near_keys()), pos=st.integers(0, 4))),
    'no key / unknown keys; non-trivial: unknown key mixed with known ones', quick=200)
def default_and_unknown(c, r):
    from frm.utils import get_busdaycal
    d = D(c['day'])
    check(bool(np.is_busday(np.datetime64(d), busdaycal=get_busdaycal(None))) == (d.weekday() < 5),
          'the default calendar is not Monday-Friday without holidays', day=c['day'])
    bad = c['bad']
    if bad.upper() in data():
        r.discard()
    ks = list(c['good'])
    ks.insert(min(c['pos'], len(ks)), bad)
    check(raises(lambda: get_busdaycal(bad)), 'an unknown calendar key was accepted', key=bad)
    check(raises(lambda: get_busdaycal(ks)), 'an unknown calendar key was accepted in a list', keys=ks)
    r.nt()
