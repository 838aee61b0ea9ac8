"""C24: data of any array-like, read when it is needed and only where"""
import netCDF4
import numpy as np
from hypothesis import strategies as st

import gridded
from gridded import Variable, VectorVariable
from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.depth import FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.utilities import asarraylike, isarraylike
from vlib import files
from vlib.core import Scenario, check, close_masked, values_and_mask
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, pick, times, times_case
from checks.c07 import reference, setting, values

LIKE = ['minimal', 'minimal', 'minimal', 'masked', 'int', 'float32', 'lazy nc']


class Like:
    """what the documentation asks of an array-like, and nothing more; notes what was read"""

    def __init__(self, data):
        self._data = data
        self.dtype, self.shape, self.ndim = data.dtype, tuple(data.shape), len(data.shape)
        self.read = np.zeros(self.shape, bool)

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, key):
        self.read[key] = True
        return self._data[key]


def like(nc, name, arr, how):
    """(array-like, the same as a numpy array)"""
    if how == 'lazy nc':
        dims = []
        for k, n in enumerate(arr.shape):
            d = '%s_%d' % (name, k)
            nc.createDimension(d, n)
            dims.append(d)
        return Like(files.data_var(nc, name, arr, tuple(dims))), arr
    a = np.round(arr).astype(np.int32) if how == 'int' else arr.astype(np.float32) if how == 'float32' else arr
    if how == 'masked':
        a = np.ma.array(a, mask=False)
    return Like(a), a


def steps_needed(tw, read, what):
    """the (at most two) time steps that may be read; at a time step, the one before or after it may be, too"""
    ks = [k for k, a in tw]
    got = [int(k) for k in read]
    check(len(got) <= 2 and all(min(abs(k - q) for q in ks) <= (1 if len(ks) == 1 else 0) for k in got),
          what + ': time steps read where they are not needed', got, ks)
    return sorted(set(ks) | set(got))


def needed(order, tw, zw, a, what):
    """where the data may be read, for data with the dimensions in `order` first"""
    shape = a.shape
    ok = np.zeros(shape, bool)
    ix = []
    for d, (o, n) in enumerate(zip(order, shape)):
        if o == 't':
            ix.append(steps_needed(tw, np.unique(np.nonzero(a.read)[d]), what))
        else:
            ix.append(sorted({k for w in zw for k, a in w}))
    ok[np.ix_(*ix)] = True
    return ok


def run(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    order = case['order']
    c = case
    if order == 'zt':
        k = max(2, min(case['nz'], 6))
        c = dict(case, times=dict(case['times'], n=k), nz=k)
    ts, t, tw, z, zs, zw = setting(c, f, r)
    nt, nz = len(ts), len(z)
    has_t, has_z = 't' in order, 'z' in order
    nc = files.memory()
    try:
        comps, plain, likes, datas = [], [], [], []
        grid = f.make_grid()
        depth = L_Depth(terms=dict(depth_levels=z.copy())) if has_z else None
        for k in range(case['ncomp']):
            how = case['how'][k % len(case['how'])]
            full = values(r, ((nt if has_t else 1), (nz if has_z else 1)) + f.shape, 'int' if how == 'int' else '')
            arr = full if has_t and has_z else full[:, 0] if has_t else full[0] if has_z else full[0, 0]
            if order == 'zt':
                arr = np.swapaxes(arr, 0, 1)
            a, b = like(nc, 'v%d' % k, np.ascontiguousarray(arr), how)
            check(isarraylike(a) and asarraylike(a) is a, 'what has dtype, shape, ndim, len and indexing is an array-like')
            kw = dict(name='v%d' % k, grid=grid, time=ts if has_t else None, depth=depth, location=f.location if case['loc'] else None)
            if not case['loc'] and grid.infer_location(a) != f.location:
                kw['location'] = f.location
            pair = [Variable(data=d, **kw) for d in (a, b)]
            check(pair[0].data is a, 'data of the Variable')
            if order == 'zt':
                for v in pair:
                    v.dimension_ordering = ['depth', 'time'] + (['ele'] if f.kind[0] == 'u' else ['lon', 'lat'])
            comps.append(pair[0])
            plain.append(pair[1])
            likes.append(a)
            datas.append(full)
        obj = comps[0] if len(comps) == 1 else VectorVariable(name='w', variables=comps)
        if case['look']:
            str(obj), repr(obj), comps[0].info, comps[0].data_shape, comps[0].grid_shape, comps[0].dimension_ordering
            if case['ds']:
                ds = gridded.Dataset(grid=grid, variables={'a': comps[0]})
                str(ds), ds.info
                check(ds['a'] is comps[0], 'variable of the dataset')
        for a in likes:
            check(not a.read.any(), 'data was read before it was needed', np.argwhere(a.read)[0] if a.read.any() else None)
        pts = np.column_stack([f.points, zs]) if has_z else f.points
        got = obj.at(pts, t)
        check(np.shape(got) == (f.n, len(comps)), 'shape of the result', np.shape(got))
        for k, a in enumerate(likes):
            what = 'array-like, order %s, component %d' % (order, k)
            close_masked(got[:, k], reference(f, datas[k], tw, zw, has_t, has_z), f.want_mask, what, rtol=1e-6, atol=1e-5)
            same = plain[k].at(pts, t)
            check(np.array_equal(np.ma.getmaskarray(same)[:, 0], np.ma.getmaskarray(got)[:, k]) and
                  np.ma.allequal(same[:, 0], got[:, k]), what + ': not the same as from numpy', got[:, k], same)
            if order:
                extra = a.read & ~needed(order, tw, zw, a, what)
                check(not extra.any(), what + ': read where it was not needed', np.argwhere(extra)[0] if extra.any() else None, a.shape)
    finally:
        nc.close()
    ctx.label(f.kind, 'order ' + order, *case['how'])
    ctx.nontrivial(len(order) > 0)


def layout_case():
    return D(field=field_case(), times=times_case(1, 7), nz=st.integers(2, 6), tq=st.integers(0, 60), order=pick('tz', 't', 't', 'zt', 'z', ''),
             how=st.lists(pick(*LIKE), min_size=1, max_size=2), ncomp=pick(1, 1, 2), loc=st.booleans(), look=st.booleans(), ds=st.booleans(), seed=SEED)


def run_direct(case, ctx):
    """the grid is asked directly"""
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 1])
    lead = tuple(case['lead'])
    arr = values(r, lead + f.shape, '')
    at = tuple(int(r.integers(n)) for n in lead)
    nc = files.memory()
    try:
        grid = f.make_grid()
        want = f.ref(arr[at])
        how = case['how'] if f.kind != 'r' or case['how'] != 'netCDF' else 'minimal'
        for k in range(2):
            if how == 'netCDF':
                dims = tuple('d%d_%d' % (k, i) for i in range(arr.ndim))
                for d, n in zip(dims, arr.shape):
                    nc.createDimension(d, n)
                a, b = files.data_var(nc, 'v%d' % k, arr, dims), arr
            else:
                a, b = like(nc, 'v%d' % k, arr, how if how != 'int' else 'minimal')
            kw = dict(location=f.location)
            if lead or case['empty']:
                kw['slices'] = list(at) if case['aslist'] else at
            if f.kind == 'r':
                kw['slices'] = at
            got = grid.interpolate_var_to_points(f.points, a, **kw)
            close_masked(got, want, f.want_mask, 'grid asked with an array-like (%s)' % how, rtol=1e-6, atol=1e-5)
            same = grid.interpolate_var_to_points(f.points, b, **kw)
            check(np.array_equal(values_and_mask(same)[1], values_and_mask(got)[1]) and np.ma.allequal(same, got),
                  'grid asked with an array-like (%s): not the same as from numpy' % how, got, same)
            if lead and isinstance(a, Like):
                a.read[at] = False
                check(not a.read.any(), 'read where it was not needed', np.argwhere(a.read)[0] if a.read.any() else None)
    finally:
        nc.close()
    ctx.label(f.kind, 'direct', case['how'], 'lead %d' % len(lead))


def direct_case():
    return D(field=field_case(), lead=st.lists(st.integers(1, 4), max_size=2), how=pick('minimal', 'masked', 'float32', 'netCDF', 'netCDF', 'lazy nc'),
             empty=st.booleans(), aslist=st.booleans(), seed=SEED)


def run_terrain(case, ctx):
    """bathymetry, water level and data of terrain-following depths as array-likes"""
    r = np.random.default_rng([case['seed'], 2])
    f = Field(case['field'])
    roms = f.kind[0] == 's'
    node = Field(dict(case['field'], kind='s_node' if roms else 'u_node'))
    ts, t, tw, z, zs, zw = setting(case, f, r)
    nt, n = len(ts), case['nz'] + 1
    h = r.uniform(20.0, 60.0, node.shape)
    zeta = r.uniform(-1.0, 1.0, (nt,) + node.shape)
    size = n - 1 if case['layers'] else n
    data = r.normal(size=(nt, size) + f.shape)
    zs = r.uniform(0.5, 15.0, f.n)
    answers, read = [], {}
    nc = files.memory()
    try:
        for turn in range(2):
            grid = f.make_grid()
            arrays = dict(h=h, zeta=zeta, data=data)
            if turn:
                for nm in arrays:
                    if nm in case['which']:
                        arrays[nm] = like(nc, nm, arrays[nm], 'lazy nc' if case['nc'] else 'minimal')[0]
                        read[nm] = arrays[nm]
            bathymetry = Variable(name='h', data=arrays['h'], grid=grid, location='node')
            zvar = Variable(name='zeta', data=arrays['zeta'], grid=grid, time=ts, location='node')
            if roms:
                sw = np.linspace(-1.0, 0.0, n)
                sr = 0.5 * (sw[1:] + sw[:-1])
                depth = ROMS_Depth(name='d', time=zvar.time, grid=grid, bathymetry=bathymetry, zeta=zvar, vtransform=2,
                                   terms=dict(Cs_r=sr ** 3, Cs_w=sw ** 3, s_rho=sr, s_w=sw, hc=20.0))
            else:
                siglev = np.linspace(0.0, -1.0, n)[:, None] * np.ones(node.shape[0])
                depth = FVCOM_Depth(name='d', time=zvar.time, grid=grid, bathymetry=bathymetry, zeta=zvar,
                                    terms=dict(siglay=0.5 * (siglev[1:] + siglev[:-1]), siglev=siglev))
            var = Variable(name='v', data=arrays['data'], grid=grid, time=ts, depth=depth, location=f.location)
            for nm, a in read.items():
                check(nm == 'h' or not a.read.any(), '%s was read before it was needed' % nm)
            answers.append(var.at(np.column_stack([f.points, zs]), t))
    finally:
        nc.close()
    a, b = answers
    check(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and np.ma.allequal(a, b),
          'bathymetry, water level or data as array-likes: not the same as from numpy', b, a)
    for nm in ('zeta', 'data'):
        if nm in read:
            steps_needed(tw, np.unique(np.nonzero(read[nm].read)[0]), nm)
    ctx.label(f.kind, 'terrain', *sorted(set(case['which'])))
    ctx.nontrivial(len(case['which']) > 0)


def terrain_case():
    return D(field=field_case(kinds=['u_node', 'u_face', 's_node', 's_center']), times=times_case(2, 5), nz=st.integers(2, 4), tq=st.integers(0, 40),
             which=st.lists(pick('h', 'zeta', 'data'), min_size=1, max_size=3), layers=st.booleans(), nc=st.booleans(), seed=SEED)


def run_file(case, ctx):
    """variables of files stay in the files until they are needed, or are read at once when that is asked for"""
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 3])
    ts, t, tw, z, zs, zw = setting(case, f, r)
    nt, nz = len(ts), len(z)
    has_z = case['has_z']
    nc = files.memory()
    try:
        dims = files.field_file(nc, f, case['field']['pad'])
        files.time_var(nc, ts, units='microseconds', dtype='i8')
        if has_z:
            nc.createDimension('depth', nz)
            nc.createVariable('depth', 'f8', ('depth',))[:] = z
        dims = ('time',) + (('depth',) if has_z else ()) + dims
        old, new, vs = [], [], []
        for k in range(2):
            a, b = [values(r, (nt, nz if has_z else 1) + f.shape, '') for _ in range(2)]
            old.append(a)
            new.append(b)
            v = files.data_var(nc, 'v%d' % k, a if has_z else a[:, 0], dims, units='m s-1', standard_name='v%d' % k,
                               location={'center': 'face'}.get(f.location, f.location))
            vs.append(v)
        all_ = case['all']
        kw = dict(load_all=all_) if all_ is not None else {}
        by = case['by']
        if by == 'dataset':
            ds = gridded.Dataset(ncfile=nc)
            objs = [ds['v0'], ds['v1']]
            comps = objs
            all_ = None
            check(set(ds.variables) >= {'v0', 'v1'}, 'variables of the dataset', sorted(ds.variables))
        elif by == 'vector':
            objs = [VectorVariable.from_netCDF(dataset=nc, varnames=['v0', 'v1'], **kw)]
            comps = objs[0].variables
        else:
            objs = [Variable.from_netCDF(dataset=nc, varname='v%d' % k, location=f.location, **kw) for k in range(2)]
            comps = objs
        for k, v in enumerate(comps):
            if all_:
                check(not isinstance(v.data, netCDF4.Variable), 'load_all: the data is still in the file')
            else:
                check(v.data is vs[k] or isinstance(v.data, netCDF4.Variable), 'the data was read when the Variable was made', type(v.data).__name__)
        # values missing in the file are missing, whenever it is read
        gone = np.ma.array(new[0] if has_z else new[0][:, 0], mask=r.random((new[0] if has_z else new[0][:, 0]).shape) < .4)
        files.data_var(nc, 'gaps', gone, dims, units='m s-1', location={'center': 'face'}.get(f.location, f.location))
        at_once, later = [Variable.from_netCDF(dataset=nc, varname='gaps', location=f.location, load_all=x) for x in (True, False)]
        check(np.array_equal(np.ma.getmaskarray(at_once.data[:]), gone.mask), 'missing values after load_all', at_once.data[:], gone.mask)
        pts = np.column_stack([f.points, zs]) if has_z else f.points
        a, b = at_once.at(pts, t), later.at(pts, t)
        check(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and np.ma.allclose(a, b, rtol=1e-12), 'values of data with gaps, read at once and later', a, b)
        # what is read at the query is what is then in the file
        for k in range(2):
            vs[k][:] = new[k] if has_z else new[k][:, 0]
        pts = np.column_stack([f.points, zs]) if has_z else f.points
        got = np.ma.column_stack([o.at(pts, t) for o in objs])
        for k in range(2):
            close_masked(got[:, k], reference(f, (old if all_ else new)[k], tw, zw, True, has_z), f.want_mask,
                         'read %s, component %d' % ('at once' if all_ else 'when needed', k), rtol=1e-6, atol=1e-5)
    finally:
        nc.close()
    ctx.label(f.kind, by, 'load_all %s' % all_)


def file_case():
    return D(field=field_case(), times=times_case(2, 4), nz=st.integers(2, 4), tq=st.integers(0, 40), has_z=st.booleans(), all=pick(True, False, None),
             by=pick('dataset', 'vector', 'variables'), seed=SEED)


FORMS = ['plain', 'big', 'fortran', 'strided', 'negative', 'read-only', 'masked', 'narrow', 'unsigned']


def laid_out(a, how):
    """the same numbers, laid out otherwise in memory"""
    a = np.array(a)
    if how == 'big':
        return a.astype(a.dtype.newbyteorder('>'))
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        return np.repeat(np.repeat(a, 2, axis=0), 3, axis=a.ndim - 1)[(slice(None, None, 2),) + (slice(None),) * (a.ndim - 2) + (slice(1, None, 3),)] \
            if a.ndim > 1 else np.repeat(a, 2)[::2]
    if how == 'negative':
        ix = (slice(None, None, -1),) * a.ndim
        return a[ix].copy()[ix]
    if how == 'read-only':
        a.setflags(write=False)
        return a
    if how == 'masked':
        return np.ma.array(a)
    if a.dtype.kind == 'i' and (how != 'unsigned' or a.min() >= 0):
        return a.astype({'narrow': np.int16, 'unsigned': np.uint32}.get(how, a.dtype))
    return a


def run_memory(case, ctx):
    """the same numbers, however they lie in memory"""
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 4])
    ts, t, tw, z, zs, zw = setting(case, f, r)
    nt, nz = len(ts), len(z)
    has_z = case['has_z']
    lay = dict(zip(('nodes', 'faces', 'data', 'points', 'levels'), case['lay']))
    data = values(r, (nt, nz) + f.shape if has_z else (nt,) + f.shape, 'int' if lay['data'] in ('narrow', 'unsigned') else '')
    if lay['data'] in ('narrow', 'unsigned'):
        data = np.round(data).astype(np.int64)
    pts = np.column_stack([f.points, zs]) if has_z else f.points
    pad = case['field']['pad']

    def build(how):
        if f.kind[0] == 'u':
            g = Grid_U(nodes=laid_out(f.mesh['nodes'], how['nodes']), faces=laid_out(f.mesh['faces'], how['faces']))
        elif f.kind[0] == 's':
            g = Grid_S(node_lon=laid_out(f.xy[..., 0], how['nodes']), node_lat=laid_out(f.xy[..., 1], how['faces']), face_padding=(pad, pad))
        else:
            g = Grid_R(node_lon=laid_out(f.axes[0], how['nodes']), node_lat=laid_out(f.axes[1], how['faces']))
        depth = L_Depth(terms=dict(depth_levels=laid_out(z, how['levels']))) if has_z else None
        d = laid_out(data, how['data'])
        kept = np.array(d)
        v = Variable(name='v', data=d, grid=g, time=ts, depth=depth, location=f.location)
        p = laid_out(pts, how['points'])
        got = v.at(p, t)
        first = d[(0,) * (2 if has_z else 1)]
        direct = g.interpolate_var_to_points(p[:, :2], first, location=f.location)
        near = g.locate_faces(p[:, :2])
        check(np.array_equal(np.array(d), kept) and np.array_equal(np.array(p), pts), 'data or points were changed', how)
        if f.kind[0] == 'u':
            node = np.asarray(g.locate_nodes(p[:, :2]))
        elif f.kind[0] == 's':
            node = np.asarray(g.locate_nearest(p[:, :2], 'node'))
        else:
            node = None
        return got, direct, np.ma.filled(near, -99) if isinstance(near, np.ma.MaskedArray) else np.asarray(near), node

    a = build(dict.fromkeys(lay, 'plain'))
    b = build(lay)
    close_masked(b[0][:, 0], reference(f, data if has_z else data[:, None], tw, zw, True, has_z), f.want_mask,
                 'laid out in memory as %s' % lay, rtol=1e-6, atol=1e-5)
    for x, y, what in zip(a, b, ('at', 'interpolate_var_to_points')):
        mx, my = np.ma.getmaskarray(np.ma.asarray(x)), np.ma.getmaskarray(np.ma.asarray(y))
        check(np.array_equal(mx, my) and np.allclose(np.ma.filled(np.ma.asarray(x), 0.0), np.ma.filled(np.ma.asarray(y), 0.0), rtol=1e-9, atol=1e-9, equal_nan=True),
              '%s: the layout in memory changes the answer' % what, lay, y, x)
    check(np.array_equal(a[2], b[2]), 'locate_faces: the layout in memory changes the answer', lay, b[2], a[2])
    check(np.array_equal(a[3], b[3]), 'nearest nodes: the layout in memory changes the answer', lay, b[3], a[3])
    ctx.label(f.kind, *['%s %s' % kv for kv in lay.items()])
    ctx.nontrivial(any(v != 'plain' for v in lay.values()))


def memory_case():
    return D(field=field_case(), times=times_case(1, 4), nz=st.integers(2, 4), tq=st.integers(0, 40), has_z=st.booleans(),
             lay=st.lists(pick(*FORMS), min_size=5, max_size=5), seed=SEED)


SCENARIOS = [
    Scenario('memory layouts', memory_case, run_memory, quick=1000),
    Scenario('array-likes', layout_case, run, quick=2400),
    Scenario('grid asked directly', direct_case, run_direct, quick=1600),
    Scenario('terrain-following', terrain_case, run_terrain, quick=600),
    Scenario('files', file_case, run_file, quick=1000),
]
