"""C17: forms of points, and inputs that stay as they were"""
import datetime

import numpy as np
from hypothesis import strategies as st

from gridded import Variable, VectorVariable
from gridded.depth import FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.pyugrid.ugrid import UGrid
from gridded.time import Time
from vlib.core import Scenario, Violation, check, close_masked, raises, values_and_mask
from vlib.fields import Field, field_case
from checks.c02 import layout
from vlib.gens import D, SEED, convex_ok, curv, curv_case, curv_points, flex_points, flexmesh, flexmesh_case, pick, times, times_case, tri_points, trimesh, trimesh_case

FORMS = ['list', 'tuple', 'list of arrays', 'list of tuples', 'columns', 'lonlat arrays', 'lonlat lists', 'lonlat tuples', 'fortran', 'view',
         'reversed view', 'readonly', 'masked', 'bigendian', 'float32', 'longdouble', 'int64', 'int32', 'int16', 'transposed', 'extra first', 'extra middle',
         'extra last', 'transposed list', 'one', 'one list', 'one tuple', 'one column', 'one row', 'ints in lists', 'mixed list', 'matrix view',
         'whole lons', 'whole lats', 'whole lons list', 'whole lats list', 'lons float32', 'lats float32']
WHOLE = {'whole lons': 0, 'whole lats': 1, 'whole lons list': 0, 'whole lats list': 1}
INTEGER = set(WHOLE) | {'int64', 'int32', 'int16', 'ints in lists', 'mixed list'}


def dress(pts, form, k):
    """(keyword arguments of at, indexes of the points it has, the points as N x m float64) or None"""
    n, m = pts.shape
    ix = np.arange(n)
    plain = np.array(pts, dtype=np.float64)
    if form.startswith('one'):
        p = plain[k]
        a = {'one': p.copy(), 'one list': p.tolist(), 'one tuple': tuple(p.tolist()), 'one column': p.reshape(-1, 1), 'one row': p.reshape(1, -1)}[form]
        return dict(points=a), np.array([k]), plain[k:k + 1]
    if form.startswith('lonlat'):
        if m != 2:
            return None
        f = {'lonlat arrays': np.array, 'lonlat lists': list, 'lonlat tuples': tuple}[form]
        lon, lat = plain.T.tolist()
        return dict(lons=f(lon), lats=f(lat)), ix, plain
    if form in WHOLE or form.endswith('s float32'):
        # longitudes of one type, latitudes of another
        if m != 2:
            return None
        k = int('lats' in form)
        ll = list(plain.T)
        if form in WHOLE:
            ll[k] = ll[k].astype(int) if 'list' not in form else ll[k].astype(int).tolist()
        else:
            ll[k] = ll[k].astype(np.float32)
        return dict(lons=ll[0], lats=ll[1]), ix, np.column_stack(ll).astype(float)
    if form == 'list':
        return dict(points=plain.tolist()), ix, plain
    if form == 'tuple':
        return dict(points=tuple(tuple(p) for p in plain.tolist())), ix, plain
    if form == 'list of arrays':
        return dict(points=[p.copy() for p in plain]), ix, plain
    if form == 'list of tuples':
        return dict(points=[tuple(p) for p in plain.tolist()]), ix, plain
    if form in ('columns', 'fortran'):
        return dict(points=np.asfortranarray(plain)), ix, plain
    if form in ('view', 'reversed view'):
        wide = np.full((2 * n, m + 2), 99.0)
        wide[::2, 1:1 + m] = plain if form == 'view' else plain[::-1]
        a = wide[::2, 1:1 + m]
        return dict(points=a if form == 'view' else a[::-1]), ix, plain
    if form == 'matrix view':
        return dict(points=plain.view(np.recarray) if False else np.array(plain, ndmin=2, subok=True)), ix, plain
    if form == 'readonly':
        a = plain.copy()
        a.setflags(write=False)
        return dict(points=a), ix, plain
    if form == 'masked':
        return dict(points=np.ma.masked_array(plain.copy(), mask=np.zeros_like(plain, dtype=bool) if k % 2 else np.ma.nomask)), ix, plain
    if form == 'bigendian':
        return dict(points=plain.astype('>f8')), ix, plain
    if form in ('float32', 'longdouble', 'int64', 'int32', 'int16'):
        a = plain.astype(dict(longdouble=np.longdouble).get(form, form))
        return dict(points=a), ix, np.array(a, dtype=np.float64)
    if form in ('ints in lists', 'mixed list'):
        a = plain.astype(int).tolist()
        if form == 'mixed list':
            a[0] = [float(x) for x in a[0]]
        return dict(points=a), ix, np.array(a, dtype=np.float64)
    # shapes: which dimension has the points must be clear
    if form.startswith('transposed'):
        if n < 4:
            return None
        return dict(points=plain.T.copy() if form == 'transposed' else plain.T.tolist()), ix, plain
    if form == 'extra first':
        return dict(points=plain[None]), ix, plain
    if form == 'extra middle':
        return dict(points=plain[:, None, :]), ix, plain
    if form == 'extra last':
        return dict(points=plain[..., None]), ix, plain
    raise KeyError(form)


def scaled(c, by):
    """a Field and its points, as integers if by > 1: (make_grid, location, shape, points)"""
    f = Field(c)
    if by == 1:
        return f, f.make_grid, f.points
    if f.kind[0] == 'u':
        nodes = f.mesh['nodes'] * by
        return f, lambda: Grid_U(nodes=nodes.copy(), faces=f.mesh['faces'].copy()), np.round(f.points * by)
    if f.kind[0] == 's':
        xy, pad = f.xy * by, c['pad']
        return f, lambda: Grid_S(node_lon=xy[..., 0].copy(), node_lat=xy[..., 1].copy(), face_padding=(pad, pad)), np.round(f.points * by)
    lon, lat = f.axes[0] * by, f.axes[1] * by
    return f, lambda: Grid_R(node_lon=lon.copy(), node_lat=lat.copy()), np.round(f.points * by)


def same(got, want, what, rtol=1e-9, atol=1e-9):
    a, m = values_and_mask(got)
    b, w = values_and_mask(want)
    check(a.shape == b.shape, what + ': shape', a.shape, 'expected', b.shape)
    check((m == w).all(), what + ': mask', m, 'expected', w)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True) | m
    check(ok.all(), what, got, 'expected', want)


def run_forms(case, ctx):
    form = case['form']
    integer = form in INTEGER
    f, make_grid, pts = scaled(case['field'], 97.0 if integer else 1)
    if form in WHOLE:
        pts = f.points * 97.0
        pts[:, WHOLE[form]] = np.round(pts[:, WHOLE[form]])
    if form.endswith('float32'):
        pts = pts.astype(np.float32).astype(float)
    r = np.random.default_rng([case['seed'], 0])
    ts = times(case['times'])
    deep = case['deep']
    data = [r.normal(size=(len(ts),) + ((3,) if deep else ()) + f.shape) for k in range(2)]
    n = len(pts)
    if deep or case['z']:
        z = r.choice([1.0, 3.0, 4.0] if integer else [0.7, 2.5, 4.9], n)
        if integer:
            z = np.round(z)
        elif form.endswith('float32'):
            z = z.astype(np.float32).astype(float)
        pts = np.column_stack([pts, z])
    t = ts[0] + (ts[-1] - ts[0]) / 3

    def objs():
        g = make_grid()
        d = L_Depth(terms=dict(depth_levels=np.array([0.0, 2.0, 5.0]))) if deep else None
        vs = [Variable(name='v%d' % k, data=data[k].copy(), grid=g, time=list(ts), depth=d, location=f.location) for k in range(2)]
        return vs + [VectorVariable(name='w', variables=vs)]

    made = dress(pts, form, int(r.integers(n)))
    if made is None:
        ctx.label('%s does not apply' % form)
        ctx.trivial()
        return
    kw, ix, plain = made
    what = '%s of %d points%s on %s' % (form, n, ' with depth' if pts.shape[1] == 3 else '', f.kind)
    live = objs()
    for k, cols in ((0, 1), (1, 1), (2, 2)):
        want = objs()[k].at(points=plain, time=t, unmask=False)
        check(np.shape(want) == (len(ix), cols), 'one row for each point', np.shape(want), (len(ix), cols))
        if not integer:
            # row by row, from the grid itself
            if not deep and k < 2:
                a = 1 / 3 if len(ts) > 1 else 0.0
                i0 = max(j for j in range(len(ts)) if ts[j] <= t)
                i1 = min(i0 + 1, len(ts) - 1)
                a = (t - ts[i0]) / (ts[i1] - ts[i0]) if i1 > i0 else 0.0
                ref = f.ref(data[k][i0]) * (1 - a) + f.ref(data[k][i1]) * a
                wm = f.want_mask
                tol = 1e-3 if form.endswith('float32') else 1e-6
                close_masked(want, ref[ix], wm[ix], 'values of the points of a ' + what, rtol=tol, atol=tol * 10)
        fresh = objs()[k].at(time=t, **kw)
        same(fresh, want, what)
        # the same object, asked in both forms
        if case['first']:
            same(live[k].at(time=t, **kw), want, what + ', asked first')
        same(live[k].at(points=plain, time=t), want, what + ', asked of the same object')
        same(live[k].at(time=t, **kw), want, what + ', asked again')
        un = objs()[k].at(time=t, unmask=True, **kw)
        check(np.shape(un) == np.shape(want), what + ', unmask: shape', np.shape(un), np.shape(want))
    ctx.label(form, f.kind, 'deep' if deep else 'flat', 'points %d' % min(n, 4))
    ctx.nontrivial(True)


def forms_case():
    return D(field=field_case(max_points=7), times=times_case(1, 3), deep=st.booleans(), z=st.booleans(), form=pick(*FORMS), first=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- what cannot be points
BAD = ['none', 'lons only', 'lats only', 'four numbers', 'one number', '4x4', 'objects', 'bools', 'bytes']


def run_bad(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    v = Variable(name='v', data=r.normal(size=f.shape), grid=f.make_grid(), location=f.location)
    v2 = Variable(name='v2', data=r.normal(size=f.shape), grid=v.grid, location=f.location)
    obj = VectorVariable(name='w', variables=[v, v2]) if case['vector'] else v
    kw = {'none': {}, 'lons only': dict(lons=[1.0]), 'lats only': dict(lats=[1.0]),
          'four numbers': dict(points=r.normal(size=int(r.integers(4, 9)))), 'one number': dict(points=1.5),
          '4x4': dict(points=r.normal(size=(int(r.integers(4, 7)), int(r.integers(4, 7))))),
          'objects': dict(points=[[None, 2.0], [1.0, 2.0]]), 'bools': dict(points=[[True, False]]),
          'bytes': dict(points=[[b'a', b'b']])}[case['bad']]
    t = datetime.datetime(2020, 1, 1)
    exc = (ValueError, TypeError, IndexError)
    raises(exc, lambda: obj.at(time=t, **kw), 'points that are %s' % case['bad'])
    # and the object still answers
    got = (obj if not case['vector'] else obj).at(f.points, t)
    check(np.shape(got) == (f.n, 2 if case['vector'] else 1), 'shape after the error', np.shape(got))
    ctx.label(case['bad'])


def bad_case():
    return D(field=field_case(max_points=4), bad=pick(*BAD), vector=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- inputs stay as they were
class Inputs:
    """the arrays given to the library, and how they were"""

    def __init__(self, readonly=False):
        self.arrays = {}
        self.readonly = readonly

    def __call__(self, name, a):
        self.arrays[name] = (a, self.state(a))
        if self.readonly and isinstance(a, np.ndarray):
            a.setflags(write=False)
            if np.ma.isMaskedArray(a) and a.mask is not np.ma.nomask:
                a.mask.setflags(write=False)
        return a

    @staticmethod
    def state(a):
        if isinstance(a, np.ndarray):
            return (a.shape, str(a.dtype), np.array(np.ma.getdata(a)).tobytes(), np.ma.getmaskarray(a).tobytes(),
                    float(a.fill_value) if np.ma.isMaskedArray(a) and a.dtype.kind == 'f' else None)
        if isinstance(a, (list, tuple)):
            return type(a), [Inputs.state(x) for x in a]
        if isinstance(a, dict):
            return sorted((k, Inputs.state(x)) for k, x in a.items())
        return id(a) if isinstance(a, Variable) else repr(a)

    def unchanged(self, after):
        for name, (a, was) in self.arrays.items():
            now = self.state(a)
            if now != was:
                i = [k for k, (x, y) in enumerate(zip(now, was)) if x != y] if isinstance(was, tuple) else []
                raise Violation('the %s given by the caller changed by %s: %s is not %s (now %r)' % (name, after, [now[k] for k in i][:1], [was[k] for k in i][:1], a))


def run_mesh_inputs(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    given = Inputs()
    flex = case['kind'] == 'flex'
    if flex:
        m = flexmesh(case['flex'])
        p = flex_points(m, r, 5)
        faces = m['faces'].copy()
    else:
        m = trimesh(dict(case['tri'], isolated=0))
        p = tri_points(m, r, 5)
        faces = m['faces'].copy()
    n = len(m['nodes'])
    form = case['faces']
    used = np.unique(np.ma.compressed(faces))
    base = case['base'] and used.max() == n - 1
    if base:
        faces = faces + 1
    if flex:
        if form == 'int64':
            faces = faces.astype(np.int64)
    elif form == 'list':
        faces = faces.tolist()
    elif form == 'int64':
        faces = faces.astype(np.int64)
    elif form == 'masked':
        faces = np.ma.masked_array(faces)
    nodes = m['nodes'].copy()
    if case['nodes'] == 'list':
        nodes = nodes.tolist()
    elif case['nodes'] == 'fortran':
        nodes = np.asfortranarray(nodes)
    cls = Grid_U if case['wrap'] else UGrid
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kw = dict(nodes=given('nodes', nodes), faces=given('faces', faces))
        if case['coords']:
            kw['face_coordinates'] = given('face_coordinates', r.normal(size=(len(m['faces']), 2)))
        g = cls(**kw)
    given.unchanged('making the grid')
    # copies made here are of this mesh
    want_faces = m['faces']
    got = np.ma.filled(np.ma.masked_array(g.faces), -9) if flex else np.asarray(g.faces)
    check(np.array_equal(got, np.ma.filled(want_faces, -9) if flex else want_faces), 'faces', got, want_faces)
    if base:
        # the same arrays given once more make the same grid
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            again = cls(**kw)
        a, b = [np.ma.filled(np.ma.masked_array(x.faces), -9) for x in (g, again)]
        check((a == b).all(), 'a second grid of the same arrays has other faces', b, 'first', a)
    for step in case['steps']:
        pts = given('points', p['points'].copy())
        if step == 'locate':
            g.locate_faces(pts)
        elif step == 'simple' and not flex:
            g.locate_faces(pts, method='simple')
        elif step == 'nearest':
            g.locate_nodes(pts)
        elif step == 'alphas' and not flex:
            g.interpolation_alphas(pts)
        elif step == 'interp':
            loc = 'face' if flex else ['face', 'node'][int(r.integers(2))]
            d = r.normal(size=len(m['faces']) if loc == 'face' else n)
            if case['mask']:
                d = np.ma.masked_array(d, mask=r.random(d.shape) < .3)
            g.interpolate_var_to_points(pts, given('data', d), location=loc)
        elif step == 'edges':
            g.build_edges()
        elif step == 'face_face':
            g.build_face_face_connectivity()
        elif step == 'face_edge':
            g.build_edges()
            g.build_face_edge_connectivity()
        elif step == 'boundaries':
            g.build_boundaries()
            g.build_boundary_coordinates()
        elif step == 'coords':
            g.build_face_coordinates()
            g.build_edges()
            g.build_edge_coordinates()
        elif step == 'save':
            import os
            path = os.path.join(ctx.tmp, 'c17.nc')
            g.save(path)
            os.unlink(path)
        elif step == 'eq':
            g == g
        given.unchanged(step)
    ctx.label(case['kind'], 'one based' if base else 'zero based', *sorted(set(case['steps'])))
    ctx.nontrivial(len(case['steps']) > 0)


def mesh_inputs_case():
    return D(kind=pick('tri', 'tri', 'flex'), tri=trimesh_case(), flex=flexmesh_case(), faces=pick('same', 'same', 'list', 'int64', 'masked'),
             nodes=pick('same', 'list', 'fortran'), base=st.booleans(), wrap=st.booleans(), coords=st.booleans(), mask=st.booleans(),
             steps=st.lists(pick('locate', 'simple', 'nearest', 'alphas', 'interp', 'edges', 'face_face', 'face_edge', 'boundaries', 'coords', 'save', 'eq'),
                            max_size=4), seed=SEED)


def run_curv_inputs(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    given = Inputs(case['readonly'])
    while True:
        g0 = curv(case['curv'])
        if convex_ok(g0['xy']):
            break
        case = dict(case, curv=dict(case['curv'], jitter=0.0, shape='plain'))
    xy = g0['xy']
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    # the corners of a water cell have to be known, which is about the cells without padding
    pad = 'none' if case['mask'] == 'both' else case['pad']
    extra = {'none': 0, 'both': 2, 'low': 1, 'high': 1}[pad]
    shapes = dict(node=(ny + 1, nx + 1), center=(ny + extra, nx + extra))
    for loc, own in (('edge1', (pad, None)), ('edge2', (None, pad))):
        shapes[loc] = layout(loc, ny, nx, own)[0]
    lon, lat = xy[..., 0].copy(), xy[..., 1].copy()
    if case['mask'] in ('nodes', 'both'):
        m = r.random(lon.shape) < .2
        lon, lat = np.ma.masked_array(lon, mask=m), np.ma.masked_array(lat, mask=m.copy())
    kw = dict(node_lon=given('node_lon', lon), node_lat=given('node_lat', lat), face_padding=(pad, pad))
    if case['mask'] in ('center', 'both'):
        cm = r.random(shapes['center']) < .3
        if case['mask'] == 'both':
            cm |= m[:-1, :-1] | m[1:, :-1] | m[:-1, 1:] | m[1:, 1:]
        kw['center_mask'] = given('center_mask', cm if case['bool'] else cm.astype(float))
    if case['mask'] == 'node mask':
        kw['node_mask'] = given('node_mask', r.random(lon.shape) < .2)
    if case['centers']:
        kw['center_lon'] = given('center_lon', r.normal(size=shapes['center']))
        kw['center_lat'] = given('center_lat', r.normal(size=shapes['center']))
    g = Grid_S(**kw)
    given.unchanged('making the grid')
    p = curv_points(xy, g0['outside'], r, 5)
    for step in case['steps']:
        pts = given('points', p['points'].copy())
        if step == 'locate':
            g.locate_faces(pts)
        elif step == 'nearest':
            if case['mask'] in ('nodes', 'both'):
                continue
            g.locate_nearest(pts, 'node')
        elif step == 'logical':
            if case['mask'] != 'none':
                continue
            g.geo_to_logical(pts)
        else:
            loc = step
            d = r.normal(size=shapes[loc])
            if case['data mask']:
                d = np.ma.masked_array(d, mask=r.random(d.shape) < .3)
            d = given('data', d)
            kw = {}
            if case['indices']:
                kw['indices'] = given('indices', g.locate_faces(p['points']).copy())
                if kw['indices'].mask.all():
                    continue
            vals = g.interpolate_var_to_points(pts, d, location=loc, _memo=bool(r.integers(2)), **kw)
            if kw:
                same(vals, g.interpolate_var_to_points(pts, d, location=loc), 'values at %s, with the indices given' % loc)
            given.unchanged('interpolating')
            if np.ma.isMaskedArray(vals) and vals.flags.writeable and case['spoil']:
                # what the caller does to a result stays in the result
                vals[...] = 5.0
        given.unchanged(step)
    ctx.label('mask ' + case['mask'], *sorted(set(case['steps'])))
    ctx.nontrivial(len(case['steps']) > 0)


def curv_inputs_case():
    return D(curv=curv_case(5), pad=pick('none', 'both', 'low', 'high'), mask=pick('none', 'nodes', 'center', 'both', 'node mask'), bool=st.booleans(),
             centers=st.booleans(), readonly=st.booleans(), spoil=st.booleans(), indices=st.booleans(),
             steps=st.lists(pick('locate', 'nearest', 'logical', 'node', 'center', 'edge1', 'edge2'), min_size=1, max_size=4), seed=SEED, **{'data mask': st.booleans()})


def run_var_inputs(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    given = Inputs(case['readonly'])
    ts = times(case['times'])
    nt = len(ts)
    # the sigma of FVCOM is on nodes
    deep = 'roms' if case['deep'] == 'fvcom' and f.kind != 'u_node' else case['deep']
    n = f.n
    g = f.make_grid()
    stamp = {'list': list, 'tuple': tuple, 'array': np.array, 'time': lambda x: Time(given('data of the time', np.array(x)), tz_offset=0)}[case['stamps']]
    tt = given('times', stamp(ts)) if case['stamps'] != 'time' else stamp(ts)
    time = tt if isinstance(tt, Time) else Time(tt) if case['as time'] else tt
    nz = 3
    depth = None
    if deep == 'levels':
        lev = np.array([0.0, 2.0, 5.0])
        depth = L_Depth(terms=dict(depth_levels=given('levels', lev)))
    elif deep in ('roms', 'fvcom'):
        bathy = Variable(name='h', data=given('bathymetry', r.uniform(8, 12, f.shape)), grid=g, location=f.location)
        zeta = Variable(name='z', data=given('surface', r.uniform(-.5, .5, (nt,) + f.shape)), grid=g, time=time, location=f.location)
        if deep == 'roms':
            terms = dict(Cs_w=given('Cs_w', np.array([-1.0, -.6, -.2, 0.0])), s_w=given('s_w', np.linspace(-1, 0, 4)), hc=given('hc', np.array([2.0])),
                         Cs_r=given('Cs_r', np.array([-.8, -.4, -.1])), s_rho=given('s_rho', np.array([-.8, -.5, -.2])))
            depth = ROMS_Depth(bathymetry=bathy, zeta=zeta, terms=terms, grid=g, time=time)
        else:
            nn = f.shape[0]
            siglev = np.array([0.0, -.2, -.6, -1.0])[:, None] * np.ones(nn)
            terms = dict(siglev=given('siglev', siglev), siglay=given('siglay', 0.5 * (siglev[1:] + siglev[:-1])))
            depth = FVCOM_Depth(bathymetry=bathy, zeta=zeta, terms=terms, grid=g, time=time)
    d = r.normal(size=(nt,) + ((nz,) if deep != 'none' else ()) + f.shape)
    if case['mask']:
        d = np.ma.masked_array(d, mask=r.random(d.shape) < .2)
    v = Variable(name='v', data=given('data', d), grid=g, time=time, depth=depth, location=f.location, fill_value=-5.0)
    d2 = given('second data', r.normal(size=d.shape))
    w = Variable(name='w', data=d2, grid=g, time=time, depth=depth, location=f.location)
    vec = VectorVariable(name='vec', variables=given('list of variables', [v, w]))
    given.unchanged('making variables')
    t = ts[0] + (ts[-1] - ts[0]) / 3
    for step in case['steps']:
        pts = f.points.copy()
        if deep != 'none':
            pts = np.column_stack([pts, r.choice([-1.0, .7, 3.0, 20.0], n)])
        pts = given('points', pts)
        obj = [v, w, vec][int(r.integers(3))]
        what = step
        if step == 'at':
            res = obj.at(pts, t, unmask=bool(r.integers(2)))
            if isinstance(res, np.ndarray) and res.flags.writeable:
                res[...] = 77.0
        elif step == 'lonlat' and deep == 'none':
            lons, lats = given('lons', f.points[:, 0].copy()), given('lats', f.points[:, 1].copy())
            obj.at(lons=lons, lats=lats, time=t)
        elif step == 'list':
            obj.at(given('list of points', pts.tolist()), t)
        elif step == 'profile' and deep in ('roms', 'fvcom'):
            depth.get_depth_profile(pts, t)
        elif step == 'alphas' and deep != 'none':
            depth.interpolation_alphas(pts, t, (depth.num_levels,))
        elif step == 'offset' and isinstance(time, Time):
            time.tz_offset = float(r.integers(-5, 6))
            t = time.data[0]
        elif step == 'new data':
            v.data = given('new data', r.normal(size=d.shape))
        elif step == 'info':
            str(v), repr(vec), v.info
        given.unchanged(what)
    ctx.label(f.kind, 'depth ' + deep, case['stamps'], *sorted(set(case['steps'])))
    ctx.nontrivial(len(case['steps']) > 0)


def var_inputs_case():
    return D(field=field_case(max_points=5), times=times_case(1, 3), deep=pick('none', 'levels', 'roms', 'fvcom'), mask=st.booleans(),
             stamps=pick('list', 'tuple', 'array', 'time'), readonly=st.booleans(),
             steps=st.lists(pick('at', 'at', 'lonlat', 'list', 'profile', 'alphas', 'offset', 'new data', 'info'), min_size=1, max_size=5), seed=SEED,
             **{'as time': st.booleans()})


def run_rect_inputs(case, ctx):
    f = Field(dict(case['field'], kind='r'))
    r = np.random.default_rng([case['seed'], 0])
    given = Inputs(case['readonly'])
    lon, lat = given('node_lon', f.axes[0].copy()), given('node_lat', f.axes[1].copy())
    g = Grid_R(node_lon=lon, node_lat=lat)
    given.unchanged('making the grid')
    for step in case['steps']:
        pts = given('points', f.points.copy())
        if step == 'locate':
            g.locate_faces(pts)
        else:
            d = r.normal(size=((2,) if step == 'slice' else ()) + f.shape)
            if step == 'transposed' and f.shape[0] != f.shape[1]:
                d = d.T
            if case['mask']:
                d = np.ma.masked_array(d, mask=r.random(d.shape) < .3)
            d = given('data', d)
            res = g.interpolate_var_to_points(pts, d, slices=(1,) if step == 'slice' else None)
            if isinstance(res, np.ndarray) and res.flags.writeable:
                res[...] = 77.0
        given.unchanged(step)
    ctx.label('masked' if case['mask'] else 'not masked', *sorted(set(case['steps'])))
    ctx.nontrivial(len(case['steps']) > 0)


def rect_inputs_case():
    return D(field=field_case(max_points=5), mask=st.booleans(), readonly=st.booleans(), steps=st.lists(pick('locate', 'plain', 'slice', 'transposed'), min_size=1, max_size=3), seed=SEED)


SCENARIOS = [
    Scenario('forms', forms_case, run_forms, quick=1500),
    Scenario('rejected', bad_case, run_bad, quick=300),
    Scenario('mesh inputs', mesh_inputs_case, run_mesh_inputs, quick=900),
    Scenario('curvilinear inputs', curv_inputs_case, run_curv_inputs, quick=900),
    Scenario('rectangular inputs', rect_inputs_case, run_rect_inputs, quick=300),
    Scenario('variable inputs', var_inputs_case, run_var_inputs, quick=900),
]
