"""C05: interpolation between fixed depth levels, and surface-only depth"""
import numpy as np
from hypothesis import strategies as st

from gridded import Variable, VectorVariable
from gridded.depth import Depth, L_Depth
from vlib.core import Scenario, check, close_masked
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, between, pick, times, times_case

Z = st.lists(D(what=pick('in', 'in', 'level', 'above', 'below'), k=st.integers(0, 20), f=st.integers(1, 99)), min_size=1, max_size=7)


def levels(c):
    r = np.random.default_rng([c['seed'], 50])
    if c['kind'] == 'even':
        z = np.arange(c['n']) * c['scale']
    else:
        z = np.cumsum(r.uniform(0.1, 2.0, c['n'])) * c['scale']
        z = z - z[0]
    return z + c['top']


def levels_case(max_n=8):
    return D(n=st.integers(2, max_n), kind=pick('even', 'uneven'), scale=pick(1.0, 0.1, 100.0), top=pick(0.0, 0.0, 1.5, 10.0), seed=SEED)


def resolve(zc, down, layers, surface, bottom):
    """(z, terms [(index in down order, weight)] or None for masked)"""
    n = len(down)
    span = down[-1] - down[0]
    w = zc['what']
    if w == 'level' and (layers or (surface == 'mask' and zc['k'] % n == 0) or (bottom == 'mask' and zc['k'] % n == n - 1)):
        w = 'in'          # on the border between two layers, or exactly on the end that is masked
    if w == 'above':
        z = down[0] - zc['f'] / 50.0 * span - 1e-3
        return z, (None if surface == 'mask' else [(0, 1.0)])
    if w == 'below':
        z = down[-1] + zc['f'] / 50.0 * span + 1e-3
        return z, (None if bottom == 'mask' else [(n - 2 if layers else n - 1, 1.0)])
    if w == 'level':
        k = zc['k'] % n
        return down[k], [(k, 1.0)]
    k = zc['k'] % (n - 1)
    f = zc['f'] / 100.0
    z = down[k] + f * (down[k + 1] - down[k])
    return z, ([(k, 1.0)] if layers else [(k, 1 - f), (k + 1, f)])


def run(case, ctx):
    f = Field(dict(case['field'], n=len(case['z'])))
    r = np.random.default_rng([case['seed'], 0])
    down = levels(case['levels'])
    n = len(down)
    layers = case['layers']
    size = n - 1 if layers else n
    surface, bottom = case['bc']
    up = case['up']
    given = down[::-1].copy() if up else down.copy()
    nt = 0
    ts = None
    if case['time']:
        ts = times(case['times'])
        nt = len(ts)
    data = r.normal(size=((nt,) if nt else ()) + (size,) + f.shape)        # in the order of the levels as given
    dd = data[..., ::-1, :] if len(f.shape) == 1 else data[..., ::-1, :, :]
    dd = dd if up else data                                               # downward
    form = case['form']
    lv = {'array': given, 'masked': np.ma.array(given), 'float32': given}[form]
    depth = L_Depth(terms={'depth_levels': lv})
    check(depth.num_levels == n and depth.num_layers == n - 1, 'number of levels', depth.num_levels)
    check(lv[depth.surface_index] == down[0] and lv[depth.bottom_index] == down[-1], 'surface and bottom index')
    res = [resolve(z, down, layers, surface, bottom) for z in case['z']]
    pts = np.column_stack([f.points, [z for z, t in res]])
    kw, bck = {}, {}
    if (surface, bottom) != ('extrapolate', 'mask') or case['bcby'] != 'default':
        d = dict(surface_boundary_condition=surface, bottom_boundary_condition=bottom)
        if case['bcby'] == 'call':
            bck = d
        else:
            kw = d
    var = Variable(name='v', data=data, grid=f.make_grid(), time=ts, depth=depth, location=f.location, **kw)
    comps = [dd]
    if case['vector']:
        data2 = r.normal(size=data.shape)
        comps.append((data2[..., ::-1, :] if len(f.shape) == 1 else data2[..., ::-1, :, :]) if up else data2)
        v2 = Variable(name='v2', data=data2, grid=var.grid, time=var.time, depth=depth, location=f.location, **kw)
        var = VectorVariable(name='w', variables=[var, v2])
    t, tw = None, [((), 1.0)]
    if nt == 1:
        t, tw = ts[0], [((0,), 1.0)]
    elif nt > 1:
        k = case['tk'] % (nt - 1)
        t = between(ts[k], ts[k + 1], 1, 4)
        a = (t - ts[k]) / (ts[k + 1] - ts[k])
        tw = [((k,), 1 - a), ((k + 1,), a)]
    wm = np.array([q is None for z, q in res]) | f.want_mask
    got = var.at(pts, t, **bck)
    check(np.shape(got) == (f.n, len(comps)), 'shape of the result', np.shape(got))
    for c, d in enumerate(comps):
        want = np.zeros(f.n)
        cols = [sum(w * f.ref(d[ix + (lev,)]) for ix, w in tw) for lev in range(size)]
        for i, (z, q) in enumerate(res):
            if q is not None:
                want[i] = sum(w * cols[lev][i] for lev, w in q)
        close_masked(got[:, c], want, wm, 'depths %s of levels %s (%s, %s%s)' % (
            [float(x) for x in pts[:, 2]], [float(x) for x in given], surface, bottom, ', layers' if layers else ''), atol=1e-8)
    # the indices and weights themselves
    if case['alphas']:
        idx, al = depth.interpolation_alphas(pts, t, (n,), surface_boundary_condition=surface, bottom_boundary_condition=bottom)
        m = np.ma.getmaskarray(idx) | np.ma.getmaskarray(al)
        for i, (z, q) in enumerate(res):
            if not m[i] and down[0] < z < down[-1]:
                k = int(idx[i])
                zz = given[k] + float(al[i]) * (given[k + 1] - given[k]) if k + 1 < n else given[k]
                check(0 <= k < n and 0 <= float(al[i]) <= 1 and abs(zz - z) < 1e-9 * max(1.0, abs(z)),
                      'index and weight give back the depth', k, float(al[i]), 'depth', z, 'levels', given)
    whats = [z['what'] for z in case['z']]
    ctx.label('up' if up else 'down', 'layers' if layers else 'levels', f.kind, 'bc %s/%s' % (surface, bottom), *whats)
    ctx.nontrivial('in' in whats or ('above' in whats and 'below' in whats))


def depth_case():
    return D(field=field_case(big=True), levels=levels_case(), z=Z, up=st.booleans(), layers=st.booleans(), form=pick('array', 'masked', 'float32'),
             bc=st.tuples(pick('extrapolate', 'mask'), pick('extrapolate', 'mask')).map(list), bcby=pick('default', 'variable', 'call'),
             time=st.booleans(), times=times_case(1, 3), tk=st.integers(0, 5), vector=st.booleans(), alphas=st.booleans(), seed=SEED)


def run_surface(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    n = case['n']
    what = case['what']
    t = None
    ts = times(case['times']) if case['time'] else None
    if ts:
        t = ts[case['tk'] % len(ts)]
    lead = (len(ts),) if ts else ()
    ti = (case['tk'] % len(ts),) if ts else ()
    if what == 'base':
        si = case['si'] if case['si'] is not None else -1
        si = max(-n, min(n - 1, si))
        depth = Depth.surface_only() if case['si'] is None else Depth.surface_only(surface_index=si)
        data = r.normal(size=lead + (n,) + f.shape)
        want = f.ref(data[ti + (si,)])
    elif what == 'one':
        depth = L_Depth(terms={'depth_levels': np.array([case['z0']])})
        data = r.normal(size=lead + (1,) + f.shape)
        want = f.ref(data[ti + (0,)])
    else:
        # data without a depth dimension has one value at any depth
        depth = L_Depth(terms={'depth_levels': np.arange(n + 1.0)})
        data = r.normal(size=lead + f.shape)
        want = f.ref(data[ti])
    var = Variable(name='v', data=data, grid=f.make_grid(), time=ts, depth=depth, location=f.location)
    z = r.uniform(-1, 1, f.n) * case['zs']
    pts = np.column_stack([f.points, z])
    if what != 'one' and case['two']:
        pts = f.points
    got = var.at(pts, t)
    check(np.shape(got) == (f.n, 1), 'shape of the result', np.shape(got))
    close_masked(got[:, 0], want, f.want_mask, 'surface only (%s)' % what, atol=1e-8)
    ctx.label(what, f.kind)
    ctx.nontrivial(n > 1)


def surface_case():
    return D(field=field_case(big=True), what=pick('base', 'base', 'one', 'nodepth'), n=st.integers(1, 5), si=pick(None, 0, -1, 1, 2), z0=pick(0.0, 3.0),
             zs=pick(0.0, 1.0, 100.0), two=st.booleans(), time=st.booleans(), times=times_case(1, 3), tk=st.integers(0, 5), seed=SEED)


SCENARIOS = [
    Scenario('levels', depth_case, run, quick=4800),
    Scenario('surface', surface_case, run_surface, quick=1600, weight=.3),
]
