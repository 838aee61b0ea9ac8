"""C04: interpolation in time"""
import datetime

import numpy as np
from hypothesis import strategies as st

from gridded import Variable, VectorVariable
from gridded.time import OutOfTimeRangeError, Time
from vlib.core import Scenario, Violation, check, close_masked, raises
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, between, pick, times, times_case, ZONE, zoned

US = datetime.timedelta(microseconds=1)


def query_case():
    return D(what=pick('step', 'between', 'between', 'near', 'before', 'after', 'first', 'last'), k=st.integers(0, 20),
             num=st.integers(1, 99), extrapolate=st.booleans())


def resolve(q, ts):
    """(time, index of the step before, weight of the step after), None for the index when out of range"""
    n = len(ts)
    w = q['what']
    if w == 'first' or (n == 1 and w in ('between', 'near', 'last', 'step')):
        return ts[0], 0, 0.0
    if w == 'last':
        return ts[-1], n - 1, 0.0
    if w == 'step':
        k = q['k'] % n
        return ts[k], k, 0.0
    if w == 'between':
        k = q['k'] % (n - 1)
        t = between(ts[k], ts[k + 1], q['num'], 100)
    elif w == 'near':
        k = q['k'] % (n - 1)
        t = ts[k] + US if q['num'] % 2 else ts[k + 1] - US
    elif w == 'before':
        return ts[0] - (US if q['num'] % 3 == 0 else datetime.timedelta(hours=q['num'])), None, -1
    else:
        return ts[-1] + (US if q['num'] % 3 == 0 else datetime.timedelta(hours=q['num'])), None, 1
    return t, k, ((t - ts[k]) // US) / ((ts[k + 1] - ts[k]) // US)


def run(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    ts = times(case['times'])
    n = len(ts)
    data = r.normal(size=(n,) + f.shape) * case['scale']
    comps = [data]
    axis = {'list': list, 'array': np.array, 'Time': lambda x: Time(np.array(x))}[case['axis']](ts)
    var = Variable(name='v', data=data, grid=f.make_grid(), time=axis, location=f.location)
    if case['vector']:
        data2 = r.normal(size=data.shape)
        comps.append(data2)
        var = VectorVariable(name='w', variables=[var, Variable(name='v2', data=data2, grid=var.grid, time=var.time, location=f.location)])
    moved = False
    for q in case['queries']:
        t, k, w = resolve(q, ts)
        if k is None and n > 1 and not q['extrapolate']:
            raises(OutOfTimeRangeError, lambda: var.at(f.points, t), 'a time out of range (%s)' % q['what'])
            continue
        if k is None:
            cols = [f.ref(d[0 if w < 0 else -1]) for d in comps]
        elif w == 0:
            cols = [f.ref(d[k]) for d in comps]
        else:
            cols = [(1 - w) * f.ref(d[k]) + w * f.ref(d[k + 1]) for d in comps]
            moved = True
        got = var.at(f.points, t, extrapolate=q['extrapolate'])
        check(np.shape(got) == (f.n, len(comps)), 'shape of the result', np.shape(got))
        for c, want in enumerate(cols):
            close_masked(got[:, c], want, f.want_mask, 'value at %s of steps %s' % (t, [str(x) for x in ts]), rtol=1e-9,
                         atol=1e-8 * case['scale'] + 1e-8)
    ctx.label(f.kind, 'steps %d' % min(n, 3), *[q['what'] for q in case['queries']])
    ctx.nontrivial(n > 1 and moved)


def time_case():
    return D(field=field_case(big=True), times=times_case(1, 8), axis=pick('list', 'array', 'Time'), vector=st.booleans(), scale=pick(1.0, 1e4),
             queries=st.lists(query_case(), min_size=1, max_size=5), zone=ZONE, seed=SEED)


def run_mismatch(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    ts = times(case['times'])
    m = len(ts) + (case['d'] if case['d'] != 0 else 1)
    if m < 1:
        return ctx.trivial()
    data = r.normal(size=(m,) + f.shape)
    raises(ValueError, lambda: Variable(name='v', data=data, grid=f.make_grid(), time=ts, location=f.location), 'data and times of different length')


def mismatch_case():
    return D(field=field_case(big=True), times=times_case(2, 6), d=pick(-1, 1, 2, -2), seed=SEED)


SCENARIOS = [
    Scenario('time', time_case, zoned(run), quick=6400),
    Scenario('mismatch', mismatch_case, run_mismatch, quick=400, weight=.1),
]
