"""What the property modules use: Scenario, Violation, Ctx and small comparison helpers.

A scenario is a Hypothesis strategy that generates JSON-able cases, and a
``run(case, ctx)`` that builds the inputs from the case, runs the code under
test and compares with an independent oracle, raising Violation when they
disagree.  ``run`` is a pure function of the case: bulk numbers come from a
generator seeded by an integer that is part of the case.
"""
import numpy as np


class Violation(AssertionError):
    pass


class Ctx:
    """collects what a case exercised"""

    def __init__(self, tmp):
        self.labels = []
        self.interesting = True
        self.tmp = tmp       # a scratch folder of this worker
        self.n_checks = 0

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def trivial(self):
        self.interesting = False

    def nontrivial(self, cond):
        if not cond:
            self.interesting = False


class Scenario:
    def __init__(self, name, strategy, run, quick=400, thorough=None, weight=1.0):
        self.name = name
        self.strategy = strategy      # a hypothesis strategy, or a function making one
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 60
        self.weight = weight


def short(x, n=300):
    s = np.array2string(x, threshold=20, precision=12) if isinstance(x, np.ndarray) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def check(cond, msg, *details):
    if not cond:
        raise Violation(msg + (': ' + '; '.join(short(d) for d in details) if details else ''))


def values_and_mask(x):
    """(float values, bool mask): masked, and only masked, elements are True"""
    m = np.ma.getmaskarray(np.ma.asanyarray(x))
    v = np.array(np.ma.getdata(np.ma.asanyarray(x)), dtype=np.float64)
    return v, np.broadcast_to(m, v.shape)


def close(got, want, what, rtol=1e-9, atol=1e-9, shape=True):
    """compare unmasked numbers (NaN equal to NaN)"""
    v, m = values_and_mask(got)
    w = np.asarray(want, dtype=np.float64)
    if shape:
        check(v.shape == w.shape, what + ': shape', v.shape, 'expected', w.shape)
    else:
        v, m, w = v.ravel(), m.ravel(), w.ravel()
        check(v.shape == w.shape, what + ': size', v.shape, 'expected', w.shape)
    if m.any():
        raise Violation('%s: masked where a value was expected: %s expected %s' % (what, short(got), short(w)))
    ok = np.isclose(v, w, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = np.argwhere(~ok)[0] if v.ndim else ()
        raise Violation('%s: differs at %s: got %r, expected %r (all: %s vs %s)' % (
            what, tuple(int(k) for k in i), float(v[tuple(i)]), float(w[tuple(i)]), short(v), short(w)))


def close_masked(got, want, want_mask, what, rtol=1e-9, atol=1e-9):
    """compare values where want_mask is False and require masked where it is True"""
    v, m = values_and_mask(got)
    w = np.asarray(want, dtype=np.float64)
    v, m = v.ravel(), m.ravel()
    w, wm = w.ravel(), np.asarray(want_mask, dtype=bool).ravel()
    check(v.shape == w.shape, what + ': size', v.shape, 'expected', w.shape)
    if (m != wm).any():
        raise Violation('%s: mask is %s, expected %s' % (what, short(m), short(wm)))
    ok = np.isclose(v, w, rtol=rtol, atol=atol) | wm
    if not ok.all():
        i = int(np.argwhere(~ok)[0][0])
        raise Violation('%s: differs at %d: got %r, expected %r (all: %s vs %s)' % (
            what, i, float(v[i]), float(w[i]), short(v), short(w)))


def raises(exc, fn, what):
    """fn must raise one of exc"""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: raised %s(%s)' % (what, type(e).__name__, e)) from e
    raise Violation('%s: did not raise, returned %s' % (what, short(r)))


def rng_of(case, salt=0):
    return np.random.default_rng([int(case['seed']), salt])
