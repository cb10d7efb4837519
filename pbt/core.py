"""Core of the property-based checking framework.

A *check module* (pbt/checks/pNN.py) declares facets with the ``@facet`` decorator.  A facet is
a Hypothesis strategy producing a JSON-serialisable *case* and an oracle function
``prop(case, r)`` which drives the code under test and raises ``Violation`` (through the helpers
below) when the property does not hold on that case.  Cases being plain JSON is what makes every
shrunk failure a self-contained replay file.
"""
import contextlib
import hashlib
import io
import json
import math
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np


class Violation(AssertionError):
    pass


class BudgetUp(BaseException):
    """Raised to leave Hypothesis' generation loop when a facet's time budget is used up."""


class Hang(BaseException):
    """Raised in the code under test when one case has used CASE_CPU_S seconds of CPU time."""


CASE_CPU_S = 90.0  # the slowest case of any facet takes a few seconds


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Rec:
    """What a property function may record about the case it is judging."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.known = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def discard(self):
        raise Discard()

    def known_finding(self, kf_id):
        self.known.append(kf_id)


class Facet:
    def __init__(self, name, strategy, prop, rule, quick, thorough, shards=1, budget=70.0):
        self.name = name
        self.strategy = strategy  # callable returning a strategy (lazily built)
        self.prop = prop
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.budget = budget


def facet(registry, strategy, rule, quick=300, thorough=None, shards=1, name=None, budget=70.0):
    def deco(fn):
        registry.append(Facet(name or fn.__name__, strategy, fn, rule, quick,
                              thorough if thorough is not None else quick * 25, shards, budget))
        return fn
    return deco


# ----------------------------------------------------------------------------- oracle helpers
def fail(msg, **ctx):
    if ctx:
        msg = msg + ' | ' + ', '.join(f'{k}={short(v)}' for k, v in ctx.items())
    raise Violation(msg)


def check(cond, msg, **ctx):
    ok = bool(np.all(cond)) if not isinstance(cond, bool) else cond
    if not ok:
        fail(msg, **ctx)


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def close(actual, expected, msg, rtol=1e-9, atol=1e-12, **ctx):
    """Elementwise closeness; shapes must agree after squeezing; NaN only equals NaN."""
    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    if a.size != e.size:
        fail(msg + f': size {a.size} != expected size {e.size}', actual=actual, expected=expected, **ctx)
    a = a.reshape(-1)
    e = e.reshape(-1)
    with np.errstate(all='ignore'):
        ok = (np.abs(a - e) <= atol + rtol * np.abs(e)) | (np.isnan(a) & np.isnan(e)) | (a == e)
    if not ok.all():
        i = int(np.flatnonzero(~ok)[0])
        fail(msg + f': got {a[i]!r}, expected {e[i]!r} (index {i} of {a.size}, rtol={rtol}, atol={atol})', **ctx)


def raises(fn, exc=Exception):
    try:
        with quiet():
            fn()
    except exc:
        return True
    except (BudgetUp, Hang):
        raise
    except BaseException:
        return False
    return False


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def frm_frame(tb):
    """Last traceback frame that lies in the code under test."""
    found = None
    for fr in traceback.extract_tb(tb):
        if '/frm/' in fr.filename:
            found = fr
    return found


def _on_timer(signum, frame):
    raise Hang()


@contextlib.contextmanager
def cpu_limit():
    """CPU time, not wall time: a loaded machine does not make a case look endless."""
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 5.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


HANG_MSG = f'one call did not finish within {CASE_CPU_S:.0f} s of CPU time'


def evaluate(fct, case):
    """Run one case. Returns (Rec, None) or (Rec, message)."""
    r = Rec()
    random.seed(12345)
    np.random.seed(12345)
    try:
        with quiet(), np.errstate(all='ignore'), cpu_limit():
            fct.prop(case, r)
    except Discard:
        raise
    except Hang:
        return r, HANG_MSG
    except Violation as e:
        return r, str(e)
    except BudgetUp:
        raise
    except MemoryError:
        raise
    except Exception as e:
        fr = frm_frame(e.__traceback__)
        where = f'{fr.filename}:{fr.lineno} in {fr.name}' if fr else 'the oracle (malformed result)'
        return r, f'unexpected {type(e).__name__}: {short(str(e))} raised in {where}'
    return r, None


def run_facet(fct, seed, n, budget):
    """Generated-input search over one facet. Returns a plain dict (crosses a process boundary)."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    t0 = time.time()
    st = dict(name=fct.name, evaluations=0, discards=0, hashes=set(), nontrivial=0, labels={}, samples=[],
              violation=None, known={}, budget_up=False, rule=fct.rule)
    failing = []
    first_fail = [None]

    def body(case):
        now = time.time()
        if first_fail[0] is None and now - t0 > budget:
            st['budget_up'] = True
            raise BudgetUp()
        if first_fail[0] is not None and now - first_fail[0] > 45:
            raise BudgetUp()
        try:
            r, msg = evaluate(fct, case)
        except Discard:
            st['discards'] += 1
            hypothesis.reject()
        if first_fail[0] is None:
            st['evaluations'] += 1
            for lab in set(r.labels):
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            for k in r.known:
                st['known'][k] = st['known'].get(k, 0) + 1
            if r.nontrivial:
                h = case_hash(case)
                if h not in st['hashes']:
                    st['hashes'].add(h)
                    if len(st['samples']) < 3 or (len(st['samples']) < 6 and random.random() < 0.02):
                        st['samples'].append(case)
        if msg is not None:
            if first_fail[0] is None:
                first_fail[0] = now
            failing.append((len(json.dumps(case)), len(failing), case, msg))
            if msg == HANG_MSG:  # shrinking would take as long again for every candidate
                raise BudgetUp()
            raise Violation(msg)

    wrapped = given(fct.strategy())(body)
    wrapped = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                       report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                       suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        with quiet():
            wrapped()
    except BudgetUp:
        pass
    except Violation:
        pass
    except BaseException as e:
        if not failing:
            st['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if failing:
        # Hypothesis' shrinker proposes ever smaller cases: keep the smallest one seen to fail.
        _, _, case, msg = min(failing, key=lambda x: (x[0], -x[1]))
        st['violation'] = dict(case=case, message=msg)
    st['wall_s'] = time.time() - t0
    st['hashes'] = sorted(st['hashes'])
    return st
