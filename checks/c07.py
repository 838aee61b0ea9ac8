"""C07: time, depth and place combined, for any layout of the data"""
import numpy as np
from hypothesis import strategies as st

from gridded import Variable, VectorVariable
from gridded.depth import L_Depth
from vlib import files
from vlib.core import Scenario, check, close_masked, values_and_mask
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, between, pick, times, times_case

STORE = ['array', 'fortran', 'float32', 'int', 'masked', 'nested', 'strided', 'nc', 'nc32', 'packed']


def setting(case, f, r):
    """times, depths of the points and the weights [(time, level, weight)] of each point"""
    ts = times(case['times'])
    nt, nz = len(ts), case['nz']
    z = np.cumsum(r.uniform(0.5, 2.0, nz))
    z = z - z[0]
    if nt > 1 and case['tq'] % 4:
        k = case['tq'] % (nt - 1)
        t = between(ts[k], ts[k + 1], 1 + case['tq'] % 9, 10)
        a = (t - ts[k]) / (ts[k + 1] - ts[k])
        tw = [(k, 1 - a), (k + 1, a)]
    else:
        k = case['tq'] % nt
        t, tw = ts[k], [(k, 1.0)]
    zs, zw = [], []
    for i in range(f.n):
        k, a = int(r.integers(nz - 1)), float(r.uniform(.05, .95))
        zs.append(z[k] + a * (z[k + 1] - z[k]))
        zw.append([(k, 1 - a), (k + 1, a)])
    return ts, t, tw, z, np.array(zs), zw


def reference(f, data, tw, zw, has_t, has_z):
    """data is (time, depth) + shape"""
    out = np.zeros(f.n)
    for i in range(f.n):
        for k, a in (tw if has_t else [(0, 1.0)]):
            for q, b in (zw[i] if has_z else [(0, 1.0)]):
                out[i] += a * b * sum(float(data[(k, q) + ix]) * w for ix, w in f.terms[i])
    return out


def values(r, shape, store):
    d = r.integers(-5000, 5000, shape) * 2.0 ** -9 + 1.0        # exact in all the storage types
    return np.round(d) if store == 'int' else d


def stored(nc, name, arr, store, dims):
    if store == 'array':
        return arr.copy()
    if store == 'fortran':
        return np.asfortranarray(arr)
    if store == 'float32':
        return arr.astype(np.float32)
    if store == 'int':
        return arr.astype(np.int32)
    if store == 'masked':
        return np.ma.array(arr.copy(), mask=False)
    if store == 'nested':
        return arr.tolist()
    if store == 'strided':
        big = np.full((arr.shape[0] * 2,) + arr.shape[1:], 99.0)
        big[::2] = arr
        return big[::2]
    for nm, size in zip(dims, arr.shape):
        if nm not in nc.dimensions:
            nc.createDimension(nm, size)
    return files.data_var(nc, name, arr, dims, dtype={'nc': 'f8', 'nc32': 'f4', 'packed': 'f8'}[store], packed=store == 'packed')


def run(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    order = case['order']
    c = case
    if order == 'zt':
        c = dict(case, times=dict(case['times'], n=max(2, min(case['nz'], 6))), nz=max(2, min(case['nz'], 6)))
    ts, t, tw, z, zs, zw = setting(c, f, r)
    nt, nz = len(ts), len(z)
    has_t, has_z = 't' in order, 'z' in order
    ncomp = case['ncomp']
    store = [case['store'][k % len(case['store'])] for k in range(ncomp)]
    nc = files.memory()
    try:
        comps, datas = [], []
        grid = f.make_grid()
        depth = L_Depth(terms=dict(depth_levels=z.copy())) if has_z else None
        sp = ('lat', 'lon') if f.kind == 'r' else ('y', 'x')[:len(f.shape)]
        for k in range(ncomp):
            full = values(r, ((nt if has_t else 1), (nz if has_z else 1)) + f.shape, store[k])
            datas.append(full)
            arr = full
            if not has_t:
                arr = arr[0]
                if not has_z:
                    arr = arr[0]
            elif not has_z:
                arr = arr[:, 0]
            if order == 'zt':
                arr = np.swapaxes(arr, 0, 1)
            dims = tuple({'t': 'time', 'z': 'depth'}[o] for o in order) + sp
            d = stored(nc, 'v%d' % k, arr, store[k], dims)
            loc = f.location
            if case['noloc'] and (f.kind == 'r' or f.kind[0] == 'u' and len(f.mesh['nodes']) != len(f.mesh['faces'])):
                # as the size of the last dimension tells
                loc = None
            v = Variable(name='v%d' % k, data=d, grid=grid, time=ts if has_t else None, depth=depth, location=loc)
            if order == 'zt' or case['explicit']:
                v.dimension_ordering = [{'t': 'time', 'z': 'depth'}[o] for o in order] + (['ele'] if f.kind[0] == 'u' else ['lon', 'lat'])
            comps.append(v)
        obj = comps[0] if ncomp == 1 else VectorVariable(name='w', variables=comps)
        pts = np.column_stack([f.points, zs]) if (has_z or case['three']) else f.points
        got = obj.at(pts, t)
        check(np.shape(got) == (f.n, ncomp), 'shape of the result', np.shape(got))
        for k in range(ncomp):
            close_masked(got[:, k], reference(f, datas[k], tw, zw, has_t, has_z), f.want_mask,
                         'order %s, stored as %s, component %d' % (order, store[k], k), rtol=1e-6, atol=1e-5)
        # and the same for each component alone
        if ncomp > 1:
            for k in range(ncomp):
                one = comps[k].at(pts, t)
                check(np.array_equal(np.ma.getmaskarray(one[:, 0]), np.ma.getmaskarray(got)[:, k]) and
                      np.ma.allequal(one[:, 0], got[:, k]), 'column of a vector and its component', one, got)
    finally:
        nc.close()
    ctx.label(f.kind, 'order ' + order, *store)
    ctx.nontrivial(len(order) == 2 and len(tw) == 2)


def layout_case():
    return D(field=field_case(big=True), times=times_case(1, 5), nz=st.integers(2, 5), tq=st.integers(0, 40), order=pick('tz', 'tz', 'zt', 't', 'z', ''),
             store=st.lists(pick(*STORE), min_size=1, max_size=3), ncomp=st.integers(1, 3), explicit=st.booleans(), three=st.booleans(), noloc=st.booleans(), seed=SEED)


def run_file(case, ctx):
    """everything from one file, loaded by name"""
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    pad = case['field']['pad']
    ts, t, tw, z, zs, zw = setting(case, f, r)
    nt, nz = len(ts), len(z)
    has_t, has_z = case['has_t'], case['has_z']
    path = None
    if case['disk']:
        import netCDF4
        import os
        path = os.path.join(ctx.tmp, 'f.nc')
        if os.path.exists(path):
            os.remove(path)
        nc = netCDF4.Dataset(path, 'w')
    else:
        nc = files.memory()
    try:
        dims = files.field_file(nc, f, pad)
        if has_t:
            files.time_var(nc, ts, units='microseconds', dtype='i8')
        if has_z:
            nc.createDimension('depth', nz)
            nc.createVariable('depth', 'f8', ('depth',))[:] = z
        dims = (('time',) if has_t else ()) + (('depth',) if has_z else ()) + dims
        datas = []
        for k in range(2):
            full = values(r, ((nt if has_t else 1), (nz if has_z else 1)) + f.shape, case['store'])
            datas.append(full)
            arr = full if has_t and has_z else full[:, 0] if has_t else full[0] if has_z else full[0, 0]
            files.data_var(nc, 'v%d' % k, arr, dims, dtype='f4' if case['store'] == 'nc32' else 'f8', packed=case['store'] == 'packed', units='m s-1',
                           **(dict(location={'center': 'face'}.get(f.location, f.location)) if case['vector'] else {}))
        if path:
            nc.close()
            nc = None
            where = dict(filename=path)
        else:
            where = dict(dataset=nc)
        kw = dict(load_all=case['load_all'])
        if case['vector']:
            vs = VectorVariable.from_netCDF(varnames=['v0', 'v1'], **where, **kw)
            objs = [vs]
        else:
            objs = [Variable.from_netCDF(varname='v%d' % k, location=f.location, **where, **kw) for k in range(2)]
            check(objs[0].units == 'm s-1', 'units', objs[0].units)
        pts = np.column_stack([f.points, zs]) if has_z else f.points
        got = np.ma.column_stack([o.at(pts, t) for o in objs])
        for k in range(2):
            close_masked(got[:, k], reference(f, datas[k], tw, zw, has_t, has_z), f.want_mask, 'from a file, component %d' % k, rtol=1e-6, atol=1e-5)
        del objs
    finally:
        if nc is not None:
            nc.close()
    ctx.label(f.kind, 'file', case['store'], 'time' if has_t else 'no time', 'depth' if has_z else 'no depth')
    ctx.nontrivial(has_t and has_z)


def file_case():
    return D(field=field_case(big=True), times=times_case(2, 4), nz=st.integers(2, 4), tq=st.integers(0, 40), has_t=pick(True, True, False),
             has_z=st.booleans(), store=pick('nc', 'nc32', 'packed'), load_all=st.booleans(), vector=st.booleans(), disk=pick(False, False, True), seed=SEED)


# ---------------------------------------------------------------- values that are missing at some times and levels
def missing_case():
    return D(field=field_case(), times=times_case(2, 5), nz=st.integers(2, 4), tq=st.integers(0, 40), order=pick('tz', 'tz', 't', 't', 'z'), how=pick('masked', 'masked', 'nc', 'nan'),
             much=pick(.1, .3, .6), whole=pick(None, None, 'step', 'level'), fill=pick(None, None, -5.5, 99.0), ncomp=st.integers(1, 2), seed=SEED)


def run_missing(case, ctx):
    """what is missing at one of the two steps or levels that are used is missing; what is missing at others does not matter"""
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    ts, t, tw, z, zs, zw = setting(case, f, r)
    has_t, has_z = 't' in case['order'], 'z' in case['order']
    for i in range(f.n):
        # exactly at a level, among others between it and the next
        if len(z) > 2 and r.random() < .4:
            k = int(r.integers(1, len(z) - 1))
            zs[i], zw[i] = z[k], [(k, 1.0)]
    shape = (len(ts) if has_t else 1, len(z) if has_z else 1)
    grid = f.make_grid()
    depth = L_Depth(terms=dict(depth_levels=z.copy())) if has_z else None
    fill = [-999.0, 1e20, 0.0][case['seed'] % 3]
    nc = files.memory()
    comps, alone = [], []
    try:
        for k in range(case['ncomp']):
            full = values(r, shape + f.shape, 'array')
            gone = r.random(full.shape) < case['much']
            if case['whole'] == 'step':
                gone[int(r.integers(shape[0]))] = True
            elif case['whole'] == 'level':
                gone[:, int(r.integers(shape[1]))] = True
            if case['how'] == 'nan':
                full = np.where(gone, np.nan, full)
            else:
                full = np.ma.array(full, mask=gone)
            arr = full if has_t and has_z else full[:, 0] if has_t else full[0]
            if case['how'] == 'nc':
                sp = ('lat', 'lon') if f.kind == 'r' else ('y', 'x')[:len(f.shape)]
                dims = (('time',) if has_t else ()) + (('depth',) if has_z else ()) + sp
                for nm, size in zip(dims, arr.shape):
                    if nm not in nc.dimensions:
                        nc.createDimension(nm, size)
                v = nc.createVariable('v%d' % k, 'f8', dims, fill_value=fill)
                v[:] = arr
                arr = v
            elif case['how'] == 'masked':
                arr = np.ma.array(arr, fill_value=fill)
            comps.append(Variable(name='v%d' % k, data=arr, grid=grid, time=ts if has_t else None, depth=depth, location=f.location, **({} if case['fill'] is None else dict(fill_value=case['fill']))))
            # each step and level alone, on a grid of its own
            alone.append([[values_and_mask(Variable(name='one', data=full[i, j].copy(), grid=f.make_grid(), location=f.location).at(f.points, t)) for j in range(shape[1])] for i in range(shape[0])])
        obj = comps[0] if case['ncomp'] == 1 else VectorVariable(name='w', variables=comps)
        pts = np.column_stack([f.points, zs]) if has_z else f.points
        got = obj.at(pts, t)
        filled = obj.at(pts, t, unmask=True)
    finally:
        nc.close()
    check(np.shape(got) == (f.n, case['ncomp']), 'shape of the result', np.shape(got))
    gv, gm = values_and_mask(got)
    differs = False
    for k in range(case['ncomp']):
        for i in range(f.n):
            want, mask = 0.0, False
            masks = set()
            for q, a in (tw if has_t else [(0, 1.0)]):
                for p, b in (zw[i] if has_z else [(0, 1.0)]):
                    v, m = alone[k][q][p]
                    want += a * b * float(v.ravel()[i]) if not m.ravel()[i] else 0.0
                    mask = mask or bool(m.ravel()[i])
                    masks.add(bool(m.ravel()[i]))
            differs = differs or len(masks) == 2 or np.isnan(want)
            check(bool(gm[i, k]) == mask, 'point %d of component %d is %smasked, steps and levels alone: %s' % (i, k, '' if gm[i, k] else 'not ', masks), got, tw, zw[i])
            if not mask:
                check(np.isclose(gv[i, k], want, rtol=1e-7, atol=1e-6, equal_nan=True), 'value of point %d of component %d with values missing elsewhere' % (i, k), got[i, k], want)
                check(np.isclose(filled[i, k], want, rtol=1e-7, atol=1e-6, equal_nan=True), 'the same unmasked', filled[i, k], want)
            else:
                check(filled[i, k] == (case['fill'] or 0), 'what is filled in for a missing value', filled[i, k], case['fill'])
    check(not np.ma.is_masked(filled), 'masked values when unmask is asked for', filled)
    ctx.label(f.kind, 'order ' + case['order'], case['how'], 'masks differ' if differs else 'masks agree')
    ctx.nontrivial(differs)


FAMILY = {'u': ['u_node', 'u_face'], 's': ['s_node', 's_center', 's_edge1', 's_edge2'], 'r': ['r']}


def mixed_case():
    return D(field=field_case(big=True), kinds=st.lists(st.integers(0, 3), min_size=2, max_size=4), times=st.lists(times_case(1, 4), min_size=1, max_size=4), nz=st.integers(2, 4),
             tq=st.integers(0, 40), order=st.lists(pick('tz', 'tz', 't', 'z', ''), min_size=1, max_size=4), store=st.lists(pick('array', 'int', 'float32', 'masked', 'strided'), min_size=1, max_size=4),
             turn=st.booleans(), twice=st.booleans(), seed=SEED)


def run_mixed(case, ctx):
    """a vector of components at different places of the same grid, some with time or depth of their own and some without"""
    family = FAMILY[case['field']['kind'][0]]
    n = len(case['kinds'])
    fs = [Field(dict(case['field'], kind=family[k % len(family)])) for k in case['kinds']]
    f = fs[0]
    r = np.random.default_rng([case['seed'], 0])
    ts, t, tw, z, zs, zw = setting(dict(case, times=case['times'][0]), f, r)
    grid = f.make_grid()
    depth = L_Depth(terms=dict(depth_levels=z.copy()))
    comps, want = [], []
    for k, g in enumerate(fs):
        check(np.array_equal(g.points, f.points), 'harness: the same points for all locations')
        order, store = case['order'][k % len(case['order'])], case['store'][k % len(case['store'])]
        has_t, has_z = 't' in order, 'z' in order
        steps, w = ts, tw
        if case['times'][k % len(case['times'])] is not case['times'][0] and len(tw) == 1:
            # other steps, one of which is the time asked for
            steps = [x for x in times(case['times'][k % len(case['times'])]) if x < t] + [t] + [x for x in ts if x > t]
            w = [(steps.index(t), 1.0)]
        full = values(r, ((len(steps) if has_t else 1), (len(z) if has_z else 1)) + g.shape, store)
        arr = full if has_t and has_z else full[:, 0] if has_t else full[0] if has_z else full[0, 0]
        comps.append(Variable(name='v%d' % k, data=stored(None, 'v', arr, store, ()), grid=grid, time=list(steps) if has_t else None, depth=depth if has_z else None, location=g.location))
        want.append(reference(g, full, w, zw, has_t, has_z))
    pts = np.column_stack([f.points, zs])
    for again in range(1 + case['twice']):
        at = list(range(n))
        if case['turn'] and again:
            at = at[::-1]
        got = VectorVariable(name='w', variables=[comps[k] for k in at]).at(pts, t)
        check(np.shape(got) == (f.n, n), 'shape of the result', np.shape(got))
        for col, k in enumerate(at):
            close_masked(got[:, col], want[k], fs[k].want_mask, 'column %d of a vector: %s' % (col, fs[k].location), rtol=1e-6, atol=1e-5)
    locations = [g.location for g in fs]
    ctx.label(f.kind[0], '%d locations' % len(set(locations)))
    ctx.nontrivial(len(set(locations)) > 1)


SCENARIOS = [
    Scenario('mixed', mixed_case, run_mixed, quick=1600),
    Scenario('layouts', layout_case, run, quick=4000),
    Scenario('missing', missing_case, run_missing, quick=2000),
    Scenario('file', file_case, run_file, quick=1600),
]
