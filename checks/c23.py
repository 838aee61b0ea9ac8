"""C23: input that cannot be right is refused, and what refused it answers as before"""
import datetime
import hashlib
import os
import warnings

import netCDF4
import numpy as np
from hypothesis import strategies as st

from gridded import Dataset, Variable, VectorVariable
from gridded.depth import Depth, FVCOM_Depth, L_Depth, ROMS_Depth, S_Depth
from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
from gridded.io.verdat import load_verdat
from gridded.pysgrid.sgrid import SGrid, load_grid
from gridded.pyugrid.ugrid import UGrid
from gridded.time import Time
from gridded.utilities import get_writable_dataset
from vlib import files
from vlib.core import Scenario, Violation, check, close, close_masked, short, values_and_mask
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, between, convex_ok, curv, curv_case, flexmesh, flexmesh_case, pick, times, times_case, trimesh, trimesh_case

HOUR = datetime.timedelta(hours=1)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def refuses(exc, fn, what):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            got = fn()
        except exc:
            return
        except Exception as e:
            raise Violation('%s: raised %s(%s), not %s' % (what, type(e).__name__, short(e), exc)) from e
    raise Violation('%s: was not refused: %s' % (what, short(got)))


def equal(a, b, what):
    if a is None or b is None:
        check(a is b, what, a, b)
        return
    va, ma = values_and_mask(a)
    vb, mb = values_and_mask(b)
    check(va.shape == vb.shape and (ma == mb).all() and np.array_equal(np.where(ma, 0, va), np.where(mb, 0, vb), equal_nan=True), what, a, b)


def setter(obj, name, value):
    return lambda: setattr(obj, name, value)


# ---------------------------------------------------------------- meshes

MESH = ['high', 'equal', 'low', 'ff', 'fe', 'ff', 'fe', 'method', 'data', 'format', 'both', 'lon', 'new_high', 'new_low', 'new_ff', 'no_faces', 'grid_type', 'location']


def mesh(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    m = {'tri': trimesh, 'flex': flexmesh}[case['kind']](case[case['kind']])
    nodes, faces = m['nodes'], m['faces']
    n = len(nodes)
    cls = Grid_U if case['wrap'] else UGrid
    g = cls(nodes=nodes.copy(), faces=faces.copy())
    flat = np.ma.filled(faces, -1)
    with_ff = case['connected']
    if with_ff:
        quiet(g.build_face_face_connectivity)
        ff = np.array(g.face_face_connectivity)
    pts = np.array([nodes[f[f >= 0]].mean(axis=0) for f in flat])
    data = {'node': r.normal(size=n), 'face': r.normal(size=len(faces))}
    path = os.path.join(ctx.tmp, 'g.nc')
    quiet(g.save, path).close()
    blob = hashlib.sha1(open(path, 'rb').read()).digest()

    def spoiled(value):
        f = faces.copy()
        while True:
            i, j = int(r.integers(f.shape[0])), int(r.integers(f.shape[1]))
            if flat[i, j] >= 0:
                break
        f[i, j] = value
        return f

    def wrong_shape(a):
        how = int(r.integers(4))
        return [a[:-1] if len(a) > 1 else np.concatenate([a, a]), np.concatenate([a, a[:1]]), np.column_stack([a, a[:, 0]]), a[:, :-1]][how]

    for op in case['ops']:
        f = None
        if op == 'high':
            f = spoiled(n + int(r.integers(1, 5)))
            refuses(ValueError, setter(g, 'faces', f), 'faces of nodes beyond the last')
        elif op == 'equal':
            f = spoiled(n)
            if f.min() >= 1:
                ctx.label('no zero')
                continue        # then it may be that the first is called 1
            refuses(ValueError, setter(g, 'faces', f), 'faces with both the numbers 0 and n')
        elif op == 'low':
            f = spoiled(-int(r.integers(2, 6)))
            refuses(ValueError, setter(g, 'faces', f), 'faces of nodes below the first')
        elif op == 'ff':
            refuses(ValueError, setter(g, 'face_face_connectivity', wrong_shape(np.where(flat < 0, -1, 0))), 'face_face_connectivity of another shape')
        elif op == 'fe':
            refuses(ValueError, setter(g, 'face_edge_connectivity', wrong_shape(np.where(flat < 0, -1, 0))), 'face_edge_connectivity of another shape')
        elif op == 'method':
            refuses(ValueError, lambda: g.locate_faces(pts[:2], method=['tree', 'Celltree', '', 'simplex'][int(r.integers(4))], _memo=False), 'unknown method to locate')
        elif op == 'data':
            k = n + len(faces) + int(r.integers(1, 4))
            refuses(ValueError, lambda: g.interpolate_var_to_points(pts, np.zeros(k)), 'data that fits neither nodes nor faces')
            check(g.infer_location(np.zeros(k)) is None, 'location of data that fits nowhere', g.infer_location(np.zeros(k)))
            refuses(ValueError, lambda: Variable(grid=g, data=np.zeros(k)), 'a variable that fits neither nodes nor faces')
        elif op == 'location':
            refuses(ValueError, lambda: Variable(grid=g, data=data['node'], location=['corner', 'nodes', 'Face', ''][int(r.integers(4))]), 'unknown location')
        elif op == 'format':
            fm = ['zip', 'netcdf', 'NETCDF4', ''][int(r.integers(4))]
            refuses(ValueError, lambda: g.save(path, format=fm), 'unknown format')
            check(hashlib.sha1(open(path, 'rb').read()).digest() == blob, 'file that was there when save refused')
            refuses(ValueError, lambda: Dataset(grid=g).save(path, format=fm), 'unknown format of a dataset')
            check(hashlib.sha1(open(path, 'rb').read()).digest() == blob, 'file that was there when save of the dataset refused')
        elif op == 'both':
            refuses(TypeError, lambda: cls(nodes=nodes, faces=faces, **{['node_lon', 'node_lat'][int(r.integers(2))]: nodes[:, 0]}), 'nodes given twice')
        elif op == 'lon':
            refuses(ValueError, lambda: cls(node_lon=nodes[:, 0], faces=faces) if r.random() < .5 else cls(node_lat=nodes[:, 1], faces=faces), 'faces and only one coordinate of the nodes')
        elif op == 'new_high':
            refuses(ValueError, lambda: cls(nodes=nodes, faces=spoiled(n + int(r.integers(1, 5)))), 'a mesh with faces of nodes beyond the last')
        elif op == 'new_low':
            refuses(ValueError, lambda: cls(nodes=nodes, faces=spoiled(-int(r.integers(2, 6)))), 'a mesh with faces of nodes below the first')
        elif op == 'new_ff':
            k = ['face_face_connectivity', 'face_edge_connectivity'][int(r.integers(2))]
            refuses(ValueError, lambda: cls(nodes=nodes, faces=faces, **{k: wrong_shape(np.where(flat < 0, -1, 0))}), 'a mesh with ' + k + ' of another shape')
        elif op == 'no_faces':
            refuses(ValueError, lambda: cls(nodes=nodes).locate_faces(pts), 'locating on a mesh without faces')
        elif op == 'grid_type':
            refuses(ValueError, lambda: Grid.from_netCDF(path, grid_type=['mesh', 'u', ''][int(r.integers(3))]), 'unknown type of grid')
        ctx.label(op)
        # as before
        equal(g.nodes, nodes, op + ': nodes afterwards')
        equal(g.faces, faces, op + ': faces afterwards')
        equal(g.face_face_connectivity, ff if with_ff else None, op + ': face_face_connectivity afterwards')
        equal(g.face_edge_connectivity, None, op + ': face_edge_connectivity afterwards')
        loc = np.asarray(g.locate_faces(pts, _memo=bool(r.integers(2))))
        check((loc == np.arange(len(pts))).all(), op + ': centroids located afterwards', loc)
        close(g.interpolate_var_to_points(pts, data['face'], location='face', _memo=bool(r.integers(2))), data['face'], op + ': data of the faces afterwards')
        if case['kind'] == 'tri':
            close(g.interpolate_var_to_points(pts, data['node'], location='node', _memo=bool(r.integers(2))), data['node'][flat].mean(axis=1), op + ': data of the nodes afterwards', rtol=1e-6, atol=1e-6)
    os.remove(path)
    ctx.label(case['kind'])
    ctx.nontrivial(len(set(case['ops'])) > 1)


def mesh_case():
    return D(kind=pick('tri', 'tri', 'flex'), tri=trimesh_case(4), flex=flexmesh_case(3), wrap=st.booleans(), connected=st.booleans(),
             ops=st.lists(pick(*MESH), min_size=1, max_size=6), seed=SEED)


# ---------------------------------------------------------------- files

def sub(r, *a):
    return a[int(r.integers(len(a)))]


def break_ugrid(nc, r, how):
    """spoils the UGRID file; returns the arguments with which to read it"""
    mv = nc.variables['Mesh2']
    ln, lt = 'Mesh2_node_lon', 'Mesh2_node_lat'
    one = sub(r, ln, lt)
    if how == 'no mesh':
        if r.random() < .5:
            mv.delncattr('cf_role')
        else:
            mv.cf_role = 'mesh'
    elif how == 'two meshes':
        w = nc.createVariable(sub(r, 'other', 'A', 'Mesh3'), 'i4', ())
        w.setncatts({a: mv.getncattr(a) for a in mv.ncattrs()})
    elif how == 'wrong name':
        return dict(mesh_name=sub(r, 'mesh', 'mesh2', ln, 'Mesh2_face_nodes', ''))
    elif how == 'no coordinates':
        mv.delncattr('node_coordinates')
    elif how == 'missing coordinate':
        mv.node_coordinates = sub(r, ln + ' nowhere', 'nowhere ' + lt, 'a b')
    elif how == 'neither':
        nc.variables[one].standard_name = sub(r, 'depth', 'altitude', 'grid_latitude', 'Longitude')
    elif how == 'no units':
        nc.variables[one].delncattr('standard_name')
        if 'units' in nc.variables[one].ncattrs():
            nc.variables[one].delncattr('units')
    elif how == 'bad units':
        nc.variables[one].delncattr('standard_name')
        nc.variables[one].units = sub(r, 'm', 'degrees', 'radians', '1')
    elif how == 'faces high':
        v = nc.variables['Mesh2_face_nodes']
        v[int(r.integers(v.shape[0])), 0] = len(nc.variables[ln]) + int(r.integers(2, 5))
    elif how == 'fine':
        pass
    return {}


BAD_U = ['no mesh', 'two meshes', 'wrong name', 'no coordinates', 'missing coordinate', 'neither', 'no units', 'bad units', 'faces high', 'fine']


def break_sgrid(nc, r, how):
    g = nc.variables['grid']
    if how == 'no topology':
        if r.random() < .5:
            g.delncattr('cf_role')
        else:
            g.cf_role = 'topology'
    elif how == 'two topologies':
        w = nc.createVariable(sub(r, 'other', 'A', 'grid2'), 'i4', ())
        w.setncatts({a: g.getncattr(a) for a in g.ncattrs()})
    elif how == 'dimension':
        if r.random() < .3:
            g.delncattr('topology_dimension')
        else:
            g.topology_dimension = np.int32(sub(r, 1, 3, 0))
    elif how == 'padding':
        a = sub(r, 'face_dimensions', 'edge1_dimensions', 'edge2_dimensions')
        g.setncattr(a, sub(r, 'xi_rho eta_rho', 'xi_rho: xi_psi eta_rho: eta_psi', 'xi_rho: xi_psi [both] eta_rho: eta_psi [both]'))


BAD_S = ['no topology', 'two topologies', 'dimension', 'padding', 'fine']


def broken(case, ctx):
    r = np.random.default_rng([case['seed'], 5])
    path = os.path.join(ctx.tmp, 'b.nc')
    kw = {}
    m = trimesh(case['tri'])
    c = curv(case['curv'])
    how = case['bad_u'] if case['kind'] == 'u' else case['bad_s']
    with netCDF4.Dataset(path, 'w') as nc:
        if case['kind'] == 'u':
            files.ugrid(nc, m['nodes'], m['faces'], start=case['start'], start_attr=True, coord_by=case['by'] if how != 'neither' else 'both')
            for n in ('Mesh2_node_lon', 'Mesh2_node_lat'):
                if how in ('neither', 'no units', 'bad units'):
                    nc.variables[n].standard_name = 'longitude' if n.endswith('lon') else 'latitude'
        else:
            files.sgrid(nc, c['xy'], case['pad'])
    with netCDF4.Dataset(path, 'a') as nc:      # deleted attributes would come back if the file had not been closed
        if case['kind'] == 'u':
            kw = break_ugrid(nc, r, how)
        else:
            break_sgrid(nc, r, how)
    blob = hashlib.sha1(open(path, 'rb').read()).digest()
    cls = {'u': (UGrid, Grid_U), 's': (SGrid, Grid_S)}[case['kind']][case['wrap']]
    ds = netCDF4.Dataset(path) if case['open'] else None
    try:
        if case['kind'] == 'u':
            fns = [lambda: UGrid.from_ncfile(path, **kw), lambda: cls.from_nc_dataset(ds, **kw), lambda: cls.from_ncfile(dataset=ds, **kw)]
            fn = fns[0] if ds is None else fns[1 + int(r.integers(2))]
        else:
            src = path if ds is None else ds
            fn = sub(r, lambda: SGrid.load_grid(src), lambda: load_grid(src), lambda: Grid_S.load_grid(src))
        if how == 'fine':
            g = quiet(fn)
            equal(g.node_lon, m['nodes'][:, 0] if case['kind'] == 'u' else c['xy'][..., 0], 'longitudes of a file that is fine')
        else:
            refuses(ValueError, fn, 'a file with: ' + how)
        if ds is not None:
            check(ds.isopen(), 'the dataset of the caller was closed')
            equal(ds.variables['Mesh2_node_lon' if case['kind'] == 'u' else 'lon_psi'][:], m['nodes'][:, 0] if case['kind'] == 'u' else c['xy'][..., 0],
                  'values of the dataset of the caller')
    finally:
        if ds is not None:
            ds.close()
    check(hashlib.sha1(open(path, 'rb').read()).digest() == blob, 'the file was changed')
    os.remove(path)
    ctx.label(case['kind'] + ': ' + how, 'open' if case['open'] else 'by name')
    ctx.nontrivial(how != 'fine')


def broken_case():
    return D(kind=pick('u', 'u', 's'), tri=trimesh_case(4), curv=curv_case(4), start=pick(0, 1), by=pick('standard_name', 'units', 'both'), pad=pick('none', 'both', 'low', 'high'),
             bad_u=pick(*BAD_U), bad_s=pick(*BAD_S), open=st.booleans(), wrap=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- variables

VAR = ['location', 'time long', 'time short', 'time unsorted', 'time twice', 'time numbers', 'time scalar', 'data', 'no points', 'lons', 'words', 'early', 'late',
       'misfit', 'new location', 'new time', 'few', 'vector time', 'vector none', 'vector early', 'vector uneven', 'four']


class World:
    def __init__(self, case):
        f = self.f = Field(dict(case['field'], out=False))
        r = np.random.default_rng([case['seed'], 1])
        ts = times(case['times'])
        while len(ts) < 3 or len(ts) in f.shape:
            ts = ts + [ts[-1] + HOUR]
        self.ts = ts
        self.data = {n: r.normal(size=(len(ts),) + f.shape) for n in 'uv'}
        self.grid = f.make_grid()
        self.comp = {n: Variable(name=n, units='m', time=Time(list(ts)), data=d.copy(), grid=self.grid, location=f.location) for n, d in self.data.items()}
        self.vec = VectorVariable(name='w', variables=[self.comp['u'], self.comp['v']])

    def want(self, n, t):
        for k in range(len(self.ts) - 1):
            if self.ts[k] <= t <= self.ts[k + 1]:
                a = (t - self.ts[k]) / (self.ts[k + 1] - self.ts[k])
                return self.f.ref(self.data[n][k]) * (1 - a) + self.f.ref(self.data[n][k + 1]) * a


def variable(case, ctx):
    w = World(case)
    f, ts = w.f, w.ts
    r = np.random.default_rng([case['seed'], 2])
    nt = len(ts)
    u, v, vec = w.comp['u'], w.comp['v'], w.vec
    pts = f.points

    def as_is():
        k = int(r.integers(nt - 1))
        t = between(ts[k], ts[k + 1], int(r.integers(9)), 8)
        for n in 'uv':
            c = w.comp[n]
            check(list(c.time.data) == ts, op + ': times of a component afterwards', list(c.time.data), ts)
            check(c.location == f.location and c.grid is w.grid, op + ': location and grid afterwards', c.location)
            equal(c.data, w.data[n], op + ': data afterwards')
            close(quiet(c.at, pts, t, _mem=bool(r.integers(2))).ravel(), w.want(n, t), op + ': answer of a component afterwards', rtol=1e-7, atol=1e-7)
        check(list(vec.time.data) == ts, op + ': times of the vector afterwards', list(vec.time.data), ts)
        close(quiet(vec.at, pts, t, _mem=bool(r.integers(2))), np.column_stack([w.want(n, t) for n in 'uv']), op + ': answer of the vector afterwards', rtol=1e-7, atol=1e-7)

    op = 'before'
    as_is()
    for op in case['ops']:
        c = w.comp[sub(r, 'u', 'v')]
        longer = ts + [ts[-1] + HOUR * (k + 1) for k in range(int(r.integers(1, 3)))]
        shorter = ts[:-1] if r.random() < .5 or nt == 3 else ts[1:-1]
        swapped = [ts[1], ts[0]] + ts[2:]
        double = [ts[0]] + ts[:-1]
        form = sub(r, list, np.array, Time)
        if op == 'location':
            refuses(ValueError, setter(c, 'location', sub(r, 'corner', 'nodes', 'Node', '', 'edge3')), 'unknown location')
        elif op == 'time long':
            refuses(ValueError, setter(c, 'time', form(longer)), 'more times than data')
        elif op == 'time short':
            refuses(ValueError, setter(c, 'time', form(shorter)), 'fewer times than data')
        elif op == 'time unsorted':
            refuses(ValueError, setter(c, 'time', sub(r, list, np.array)(swapped)), 'times out of order')
        elif op == 'time twice':
            refuses(ValueError, setter(c, 'time', sub(r, list, np.array)(double)), 'one time twice')
        elif op == 'time numbers':
            refuses((TypeError, ValueError), setter(c, 'time', sub(r, list, np.array)(np.arange(nt) * 1.0)), 'numbers as times')
        elif op == 'time scalar':
            refuses((TypeError, ValueError), setter(c, 'time', sub(r, 5, 2.5, ts[0])), 'a time that is not a sequence')
        elif op == 'data':
            d = w.data['u']
            refuses(ValueError, setter(c, 'data', sub(r, d[:-1], np.concatenate([d, d[:1]]), d[:1])), 'data of another number of times')
        elif op == 'no points':
            refuses(ValueError, lambda: sub(r, c, vec).at(time=ts[0]), 'no points')
        elif op == 'lons':
            refuses(ValueError, lambda: sub(r, c, vec).at(time=ts[0], **sub(r, dict(lons=pts[:, 0]), dict(lats=pts[:, 1]))), 'half of the coordinates')
        elif op == 'words':
            refuses((TypeError, ValueError), lambda: sub(r, c, vec).at([['a', 'b']], ts[0]), 'points that are not numbers')
        elif op == 'four':
            refuses(ValueError, lambda: sub(r, c, vec).at(np.zeros((5, 4)), ts[0]), 'points of four coordinates')
        elif op in ('early', 'late', 'vector early'):
            t = ts[0] - datetime.timedelta(microseconds=1) * int(10 ** r.uniform(0, 9)) if op != 'late' else ts[-1] + datetime.timedelta(microseconds=1) * int(10 ** r.uniform(0, 9))
            refuses(ValueError, lambda: (vec if op[0] == 'v' else c).at(pts, t), 'a time outside the times of the data')
        elif op == 'misfit':
            shape = tuple(k + 5 + (11 if len(f.shape) == 1 else 0) for k in f.shape)
            if f.kind[0] == 'u' and shape[0] in (len(f.mesh['nodes']), len(f.mesh['faces'])):
                continue
            d = np.zeros((nt,) + shape)
            refuses(ValueError, lambda: Variable(grid=w.grid, data=d), 'data that does not fit the grid')
            refuses(ValueError, lambda: Variable(grid=w.grid, data=d, time=list(ts)), 'timed data that does not fit the grid')
        elif op == 'new location':
            refuses(ValueError, lambda: Variable(grid=w.grid, data=w.data['u'], location=sub(r, 'corner', 'nodes', 'Node', '')), 'unknown location of a new variable')
        elif op == 'new time':
            refuses(ValueError, lambda: Variable(grid=w.grid, data=w.data['u'], location=f.location, time=form(sub(r, longer, shorter))), 'a variable with another number of times')
        elif op == 'few':
            refuses(ValueError, lambda: VectorVariable(name='x', variables=sub(r, None, [], [u])), 'a vector of less than two components')
        elif op == 'vector time':
            bad = sub(r, form(longer), form(shorter), list(swapped), list(double))
            refuses(ValueError, setter(vec, 'time', bad), 'times that do not fit the components')
        elif op == 'vector none':
            refuses((TypeError, ValueError), setter(vec, 'time', sub(r, 7, ts[0], list(range(nt)))), 'something that is not times')
        elif op == 'vector uneven':
            # one component could take the times, the other not
            n2 = nt + int(r.integers(1, 3))
            long_d = np.concatenate([w.data['v'], w.data['v'][:n2 - nt]]) if n2 - nt <= nt else None
            ts2 = ts + [ts[-1] + HOUR * (k + 1) for k in range(n2 - nt)]
            a = Variable(name='a', units='m', time=list(ts), data=w.data['u'], grid=w.grid, location=f.location)
            b = Variable(name='b', units='m', time=list(ts2), data=long_d, grid=w.grid, location=f.location)
            comps = [a, b] if r.random() < .5 else [b, a]
            for k in range(int(r.integers(0, 3))):
                # more that could
                comps.insert(0, Variable(name='more', units='m', time=list(comps[0].time.data), data=comps[0].data, grid=w.grid, location=f.location))
            two = VectorVariable(name='two', variables=comps)
            before = [list(x.time.data) for x in two.variables], list(two.time.data)
            shift = datetime.timedelta(days=int(r.integers(1, 9)))
            bad = form([t + shift for t in (ts if len(comps[0].data) == nt else ts2)])
            refuses(ValueError, setter(two, 'time', bad), 'times that fit one component only')
            check(([list(x.time.data) for x in two.variables], list(two.time.data)) == before, 'times of the components after those that fit one only were refused',
                  [list(x.time.data) for x in two.variables], before)
            ans = quiet(a.at, pts, ts[0]).ravel()
            close(ans, f.ref(w.data['u'][0]), 'answer of the component that could take the times', rtol=1e-7, atol=1e-7)
        ctx.label(op)
        as_is()
    ctx.label(f.kind)
    ctx.nontrivial(len(set(case['ops'])) > 1)


def variable_case():
    return D(field=field_case(max_points=4), times=times_case(3, 5), ops=st.lists(pick(*VAR), min_size=1, max_size=6), seed=SEED)


# ---------------------------------------------------------------- grids of rows and columns, depths, times and the rest

ROWS = ['behavior', 'mirror', 'location', 'slices', 'no nodes', 'padding', 'r 2d', 'r shape', 'r square', 'depth terms', 'no depth', 'two depths', 'bathymetry', 's_depth',
        'tz', 'moved', 'order', 'kind', 'both', 'path', 'file', 'separate', 'verdat', 'verdat numbers', 'grid of nothing', 'vars of nothing']


def rows(case, ctx):
    r = np.random.default_rng([case['seed'], 3])
    c = curv(case['curv'])
    if not convex_ok(c['xy']):
        c = curv(dict(case['curv'], jitter=0.0, shape='plain'))
    xy = c['xy']
    ny, nx = xy.shape[:2]
    g = Grid_S(node_lon=xy[..., 0].copy(), node_lat=xy[..., 1].copy())
    lon, lat = np.arange(3.0 + case['nx']), np.arange(2.0 + case['nx'])
    gr = Grid_R(node_lon=lon.copy(), node_lat=lat.copy())
    d = r.normal(size=(ny, nx))
    dr = r.normal(size=(len(lat), len(lon)))
    quad = np.stack([xy[:-1, :-1], xy[:-1, 1:], xy[1:, :-1], xy[1:, 1:]]).mean(axis=0).reshape(-1, 2)
    want = np.stack([d[:-1, :-1], d[:-1, 1:], d[1:, :-1], d[1:, 1:]]).mean(axis=0).ravel()
    ts = times(case['times'])
    path = os.path.join(ctx.tmp, 'r.nc')
    for op in case['ops']:
        if op == 'behavior':
            vals, al = np.ma.masked_array(r.normal(size=(3, 2)), mask=r.random((3, 2)) < .3), np.full((3, 2), .5)
            refuses(ValueError, lambda: g.compute_interpolant(vals, al, mask_behavior=sub(r, 'average', 'Mask', 'none', '')), 'unknown behavior of masked values')
        elif op == 'mirror':
            vals, al = np.ma.masked_array(r.normal(size=(3, 4)), mask=r.random((3, 4)) < .3), np.full((3, 4), .25)
            refuses(ValueError, lambda: g.compute_interpolant(vals, al, mask_behavior='mirror'), 'mirrored values of four')
            refuses(ValueError, lambda: g.mirror_mask_values(vals), 'mirrored values of four')
        elif op == 'location':
            refuses((TypeError, ValueError), lambda: g.interpolate_var_to_points(quad[:2], d, location=sub(r, 'middle', 'corner', 'Node', '')), 'unknown location')
        elif op == 'slices':
            refuses(ValueError, lambda: g.interpolate_var_to_points(quad[:2], np.stack([d, d]), location='node'), 'data of more than two dimensions')
        elif op == 'no nodes':
            refuses(ValueError, lambda: SGrid(center_lon=xy[..., 0], center_lat=xy[..., 1]).locate_faces(quad[:2]), 'a grid without nodes')
        elif op == 'padding':
            bad = sub(r, 'left', 'Both', 'all', 'center')
            refuses(ValueError, lambda: Grid_S(node_lon=xy[..., 0], node_lat=xy[..., 1], face_padding=sub(r, (bad, 'both'), ('none', bad))).interpolate_var_to_points(
                quad[:2], np.zeros((ny + 1, nx + 1)), location='center'), 'unknown padding')
        elif op == 'r shape':
            refuses(ValueError, lambda: gr.interpolate_var_to_points(np.array([[.5, .5]]), np.zeros((len(lat) + 5, len(lon)))), 'data that does not fit')
        elif op == 'r square':
            k = len(lon)
            refuses(ValueError, lambda: Grid_R(node_lon=lon, node_lat=np.arange(k) * 1.0).interpolate_var_to_points(np.array([[.5, .5]]), np.zeros((k, k))), 'square data without dimensions')
        elif op == 'r 2d':
            with netCDF4.Dataset(path, 'w') as nc:
                nc.createDimension('a', ny)
                nc.createDimension('b', nx)
                flat = int(r.integers(3))          # which one is as it should be
                for n, k in (('lon', 0), ('lat', 1)):
                    if flat == k:
                        nc.createVariable(n, 'f8', ('ab'[1 - k],))[:] = xy[0, :, 0] if k == 0 else xy[:, 0, 1]
                    else:
                        nc.createVariable(n, 'f8', ('a', 'b'))[:] = xy[..., k]
            refuses(ValueError, lambda: Grid_R.from_netCDF(path), 'a rectangular grid with coordinates of two dimensions')
            os.remove(path)
        elif op == 'depth terms':
            refuses(ValueError, lambda: sub(r, L_Depth, ROMS_Depth, FVCOM_Depth)(), 'a depth without terms')
        elif op == 's_depth':
            refuses(NotImplementedError, lambda: S_Depth.from_netCDF(path), 'sigma of no particular kind')
        elif op in ('no depth', 'two depths', 'bathymetry', 'grid of nothing', 'vars of nothing'):
            with netCDF4.Dataset(path, 'w') as nc:
                nc.createDimension('x', 4)
                nc.createDimension('one', 1)
                nc.createVariable('speed', 'f8', ('x',))[:] = 1.0
                if op == 'two depths':
                    v = nc.createVariable('depth_levels', 'f8', ('x',))
                    v[:] = np.arange(4.0)
                if op in ('two depths', 'bathymetry'):
                    for n in ('Cs_r', 'Cs_w', 's_rho', 's_w'):
                        nc.createVariable(n, 'f8', ('x',))[:] = np.linspace(-1, 0, 4)
                    nc.createVariable('hc', 'f8', ())[:] = 1.0
                if op == 'two depths':
                    nc.createVariable('h', 'f8', ('x',))[:] = 1.0
                    nc.createVariable('zeta', 'f8', ('x',))[:] = 1.0
            if op == 'no depth':
                refuses(Exception, lambda: L_Depth.from_netCDF(path), 'a file without levels')
            elif op == 'two depths':
                refuses(ValueError, lambda: Depth.from_netCDF(path), 'a file with two kinds of depth')
            elif op == 'bathymetry':
                refuses(ValueError, lambda: ROMS_Depth.from_netCDF(path, grid=g), 'a sigma depth without bathymetry')
            elif op == 'grid of nothing':
                refuses(ValueError, lambda: Grid.from_netCDF(path), 'a file without a grid')
                refuses(ValueError, lambda: Dataset.from_netCDF(path), 'a dataset without a grid')
            else:
                class Temp(Variable):
                    default_names = ['temp']
                    cf_names = ['sea_water_temperature']
                refuses(ValueError, lambda: Temp.from_netCDF(path, grid=g), 'a variable with none of the default names')
            os.remove(path)
        elif op == 'tz':
            refuses(ValueError, lambda: Time(list(ts), new_tz_offset=sub(r, 0, 5, -3.5)), 'another time zone of times in an unknown one')
        elif op == 'moved':
            t = Time(list(ts), displacement=HOUR)
            refuses(AttributeError, setter(t, 'displacement', sub(r, HOUR, 3, None)), 'a displacement given twice')
            check(list(t.data) == [x + HOUR for x in ts], 'times after a second displacement was refused', list(t.data))
        elif op == 'order':
            if len(ts) > 1:
                a = list(ts)
                i = int(r.integers(len(ts) - 1))
                if r.random() < .5:
                    a[i + 1] = a[i]
                else:
                    a[i], a[i + 1] = a[i + 1], a[i]
                refuses(ValueError, lambda: Time(sub(r, list, np.array)(a)), 'times out of order')
        elif op == 'kind':
            refuses(TypeError, lambda: Time(sub(r, [1, 2], [0.5], ['a', 'b'], [None])), 'times that are not')
        elif op == 'both':
            gu = Grid_U(nodes=[[0, 0], [1, 0], [0, 1.]], faces=[[0, 1, 2]])
            quiet(gu.save, path).close()
            refuses(ValueError, lambda: Dataset(path, **sub(r, dict(grid=gu), dict(variables={}), dict(attributes={}), dict(grid=gu, variables={}))), 'a file and something else')
            os.remove(path)
        elif op == 'path':
            refuses(ValueError, lambda: get_writable_dataset(sub(r, 5, None, [path], 2.5)), 'a path that is not')
        elif op == 'file':
            with open(path, 'w') as out:
                out.write('lon,lat\n1,2\n')
            name = sub(r, path, os.path.join(ctx.tmp, 'nowhere.nc'))
            for fn in (UGrid.from_ncfile, load_grid, Grid.from_netCDF, Dataset.from_netCDF, lambda p: Time.from_netCDF(p, varname='time')):
                refuses((OSError, ValueError), lambda: fn(name), 'a file that is not there or no netCDF file')
            check(open(path).read() == 'lon,lat\n1,2\n' and not os.path.exists(os.path.join(ctx.tmp, 'nowhere.nc')), 'a file was written')
            os.remove(path)
        elif op == 'separate':
            refuses(NotImplementedError, lambda: Dataset.from_netCDF(path, **sub(r, dict(grid_file='a.nc'), dict(variable_files=['a.nc']))), 'separate files')
        elif op in ('verdat', 'verdat numbers'):
            p = os.path.join(ctx.tmp, 'v.verdat')
            rowsv = ['%d,%.3f,%.3f,%.2f' % (k + 1, x, y, 5.0) for k, (x, y) in enumerate(quad)]
            if op == 'verdat':
                tail = ['0,0,0,0', sub(r, 'x', '1.5', '1 2', '2,3')]
            else:
                k = int(r.integers(len(rowsv)))
                rowsv[k] = sub(r, 'a,b,c,d', '1,2,3', '1,2,3,4,5', '1 2 3 4', '1,2,3,deep')
                tail = ['0,0,0,0', '0']
            with open(p, 'w') as out:
                out.write('\n'.join(['DOGS METERS'] + rowsv + tail) + '\n')
            refuses(ValueError, lambda: load_verdat(p), 'a malformed verdat file')
            os.remove(p)
        ctx.label(op)
        got = quiet(g.interpolate_var_to_points, quad, d, location='node')
        close_masked(got, want, np.zeros(len(want), bool), op + ': answer of the grid afterwards', rtol=1e-6, atol=1e-6)
        close(gr.interpolate_var_to_points(np.array([[.5, .5], [1.5, .5]]), dr), [dr[:2, :2].mean(), dr[:2, 1:3].mean()], op + ': answer of the rectangular grid afterwards')
    ctx.nontrivial(len(set(case['ops'])) > 1)


def rows_case():
    return D(curv=curv_case(4), nx=st.integers(0, 3), times=times_case(1, 5), ops=st.lists(pick(*ROWS), min_size=1, max_size=6), seed=SEED)


SCENARIOS = [Scenario('meshes', mesh_case, mesh, quick=700), Scenario('files', broken_case, broken, quick=900), Scenario('variables', variable_case, variable, quick=700),
             Scenario('the rest', rows_case, rows, quick=700)]
