"""C18: vector and array helpers"""
import math

import numpy as np
from hypothesis import strategies as st

from gridded import utilities
from gridded.pysgrid.processing_2d import avg_to_cell_center, rotate_vectors, vector_sum
from gridded.pysgrid.sgrid import SGrid, load_grid
from gridded.pysgrid.utils import (calculate_angle_from_true_east, calculate_bearing, check_element_equal, does_intersection_exist, pair_arrays,
                                   points_in_polys)
from gridded.pyugrid import util
from gridded.pyugrid.util import point_in_tri
from vlib import files
from vlib.core import Scenario, check, close, raises, short, values_and_mask
from vlib.gens import D, SEED, convex_ok, curv, curv_case, flex_points, flexmesh, flexmesh_case, pick, tri_points, trimesh, trimesh_case


def numbers(case, r, shape):
    """an array of that shape: plain or masked, of the type and layout of the case"""
    a = r.normal(size=shape) * case['size']
    if case['zeros']:
        a[r.random(shape) < .3] = 0.0
    if case['dtype'] == 'f4':
        a = a.astype(np.float32)
    elif case['dtype'] == 'int':
        a = np.round(a * 10).astype(int)
    elif case['dtype'] != 'f8':
        # small integers, the largest among them
        i = np.iinfo(case['dtype'])
        a = np.where(r.random(shape) < .3, i.max, r.integers(i.min, i.max + 1, shape)).astype(case['dtype'])
    if case['fortran']:
        a = np.asfortranarray(a)
    if case['mask']:
        m = r.random(shape) < .3
        a = np.ma.array(a, mask=m)
    return a


def numbers_case():
    return dict(shape=st.lists(st.integers(1, 5), min_size=1, max_size=4), size=pick(1.0, 1.0, 1e-3, 300.0), zeros=st.booleans(), dtype=pick('f8', 'f8', 'f4', 'int', 'i2', 'u1', 'i1'),
                fortran=st.booleans(), mask=st.booleans(), seed=SEED)


def agree(got, want, mask, what, tol):
    v, m = values_and_mask(got)
    check(v.shape == want.shape, what + ': shape', v.shape, want.shape)
    check(np.array_equal(m, mask), what + ': mask', m, mask)
    bad = ~(np.abs(v - want) <= tol) & ~mask
    check(not bad.any(), what, got, 'expected', want)


def run_vectors(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    shape = tuple(case['shape'])
    x, y = numbers(case, r, shape), numbers(case, r, shape)
    a = r.uniform(-10, 10, shape)
    b = r.uniform(-10, 10, shape)
    if case['right']:
        a = np.round(a) * (np.pi / 2)
    xv, xm = values_and_mask(x)
    yv, ym = values_and_mask(y)
    mask = xm | ym
    am = np.zeros(shape, bool)
    if case['angle mask']:
        am = r.random(shape) < .2
        a = np.ma.array(a, mask=am)
    z = xv + 1j * yv
    want = z * np.exp(1j * np.ma.getdata(a))
    top = max(1.0, np.abs(z).max()) if z.size else 1.0
    tol = top * (1e-6 if case['dtype'] == 'f4' else 1e-12)
    p, q = rotate_vectors(x, y, a)
    agree(p, want.real, mask | am, 'east component of the rotated vectors', tol)
    agree(q, want.imag, mask | am, 'north component of the rotated vectors', tol)
    m = vector_sum(p, q)
    agree(m, np.abs(z), mask | am, 'magnitude after rotating', tol * 4)
    agree(vector_sum(x, y), np.hypot(xv, yv), mask, 'magnitude', tol)
    # two rotations are one by the sum of the angles, and back is where it was
    p2, q2 = rotate_vectors(*rotate_vectors(x, y, a), b)
    s, t = rotate_vectors(x, y, a + b)
    agree(p2, values_and_mask(s)[0], values_and_mask(s)[1], 'two rotations', tol * 10)
    agree(q2, values_and_mask(t)[0], values_and_mask(t)[1], 'two rotations', tol * 10)
    p3, q3 = rotate_vectors(p, q, -a)
    agree(p3, xv, mask | am, 'rotated back', tol * 10)
    agree(q3, yv, mask | am, 'rotated back', tol * 10)
    ctx.label('%d dimensions' % len(shape), case['dtype'], 'masked' if mask.any() else 'not masked')
    ctx.nontrivial(z.size > 1)


def vectors_case():
    return D(right=st.booleans(), **numbers_case(), **{'angle mask': st.booleans()})


def run_average(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    ny, nx = case['ny'], case['nx']
    a = numbers(case, r, (ny, nx))
    v, m = values_and_mask(a)
    for dim in (0, 1):
        got = avg_to_cell_center(a, dim)
        if dim == 1:
            w = np.array([[(v[j, i] + v[j, i + 1]) / 2 for i in range(nx - 1)] for j in range(ny)]).reshape(ny, nx - 1)
            wm = np.array([[m[j, i] or m[j, i + 1] for i in range(nx - 1)] for j in range(ny)], dtype=bool).reshape(ny, nx - 1)
        else:
            w = np.array([[(v[j, i] + v[j + 1, i]) / 2 for i in range(nx)] for j in range(ny - 1)]).reshape(ny - 1, nx)
            wm = np.array([[m[j, i] or m[j + 1, i] for i in range(nx)] for j in range(ny - 1)], dtype=bool).reshape(ny - 1, nx)
        agree(got, w, wm, 'averages in dimension %d of %d x %d' % (dim, ny, nx), 1e-4 * case['size'] if case['dtype'] == 'f4' else 1e-9)
    ctx.label(case['dtype'], 'masked' if m.any() else 'not masked')
    ctx.nontrivial(ny > 1 and nx > 1)


def average_case():
    c = numbers_case()
    c.pop('shape')
    return D(ny=st.integers(1, 6), nx=st.integers(1, 6), **c)


# ---------------------------------------------------------------- velocities on the edges of a file to vectors at the centers
def run_file(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    pad = case['pad']
    while True:
        g0 = curv(case['curv'])
        if convex_ok(g0['xy']):
            break
        case = dict(case, curv=dict(case['curv'], jitter=0.0, shape='plain'))
    xy = g0['xy']
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    nc = files.memory()
    try:
        dims = files.sgrid(nc, xy, pad)
        lead = ('time', 's')[:case['lead']] if case['lead'] < 3 else ('s',)
        for d, n in zip(('time', 's'), (2, 3)):
            nc.createDimension(d, n)
        data, variables = {}, {}
        for name, loc in (('u', 'edge1'), ('v', 'edge2'), ('c', 'center')):
            v = nc.createVariable(name, 'f8', lead + dims[loc])
            v.grid = 'grid'
            a = r.normal(size=v.shape)
            if case['mask']:
                a = np.ma.array(a, mask=r.random(a.shape) < .1)
            v[:] = a
            if case['location']:
                v.location = {'center': 'face'}.get(loc, loc)
            data[name], variables[name] = a, v
        ang = None
        if case['angle']:
            v = nc.createVariable('angle', 'f8', dims['center'])
            ang = r.uniform(-3, 3, v.shape)
            v[:] = ang
        if case['centers']:
            v = nc.createVariable('lon_rho', 'f8', dims['center'])
            clon = np.cumsum(r.uniform(.05, .5, v.shape), axis=1) - 80.0
            v[:] = clon
            w = nc.createVariable('lat_rho', 'f8', dims['center'])
            clat = np.cumsum(r.uniform(-.2, .5, v.shape), axis=0) + r.uniform(-.2, .2, v.shape) + 10.0
            w[:] = clat
            nc.variables['grid'].face_coordinates = 'lon_rho lat_rho'
        g = load_grid(nc)
        lo = {'none': 0, 'both': 1, 'low': 1, 'high': 0}[pad]
        out = []
        for name, want_axis in (('u', 1), ('v', 0)):
            o = getattr(g, name)
            a = o[o.center_slicing]
            full = data[name]
            # the part of the data with the cells, by the convention
            cut = (Ellipsis, slice(lo, lo + ny), slice(None)) if name == 'u' else (Ellipsis, slice(None), slice(lo, lo + nx))
            full = full[cut]
            check(np.shape(a) == np.shape(full), 'shape of %s without its padding' % name, np.shape(a), np.shape(full))
            check(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(full)), 'mask of %s without its padding' % name)
            check(np.ma.allequal(a, full), '%s without its padding' % name, a, full)
            check(o.center_axis == want_axis, 'axis to average %s in' % name, o.center_axis, want_axis)
            a2 = a.reshape((-1,) + np.shape(a)[-2:])[-1]
            f2 = np.ma.asarray(full).reshape((-1,) + np.shape(full)[-2:])[-1]
            c = avg_to_cell_center(a2, o.center_axis)
            if name == 'u':
                v, m = [(x[:, :-1] + x[:, 1:]) / k if k == 2 else x[:, :-1] | x[:, 1:] for x, k in ((np.ma.getdata(f2), 2), (np.ma.getmaskarray(f2), 0))]
            else:
                v, m = [(x[:-1] + x[1:]) / k if k == 2 else x[:-1] | x[1:] for x, k in ((np.ma.getdata(f2), 2), (np.ma.getmaskarray(f2), 0))]
            check(np.shape(c) == (ny, nx), '%s at the centers: one for each cell' % name, np.shape(c), (ny, nx))
            agree(c, v, m, '%s at the centers' % name, 1e-12)
            out.append(c)
            check(o.node_axis == 1 - want_axis, 'axis to average %s to the nodes' % name, o.node_axis)
        o = g.c
        full = data['c'][..., lo:lo + ny, lo:lo + nx]
        a = o[o.center_slicing]
        check(np.ma.allequal(a, full) and np.shape(a) == np.shape(full), 'centers without padding', a, full)
        if ang is not None:
            check(np.array_equal(g.angles[:], ang), 'angles of the file', g.angles[:])
        elif case['centers'] and clon.shape[1] < 2:
            pass          # no direction between centers in a row
        elif case['centers']:
            want = reference_angles(clon, clat)
            check(np.shape(g.angles) == np.shape(clon), 'angles: one for each center', np.shape(g.angles))
            same_direction(np.asarray(g.angles), want, 'angles from the centers')
        else:
            check(g.angles is None, 'angles without centers', g.angles)
        if ang is not None:
            e, n = rotate_vectors(out[0], out[1], ang[lo:lo + ny, lo:lo + nx])
            check(np.ma.allclose(vector_sum(e, n), vector_sum(*out), atol=1e-12), 'speed after rotating')
    finally:
        nc.close()
    ctx.label(pad, 'lead %d' % case['lead'], 'angle' if case['angle'] else 'centers' if case['centers'] else 'no angle')
    ctx.nontrivial(ny > 1 or nx > 1)


def file_case():
    return D(curv=curv_case(5), pad=pick('both', 'none', 'low', 'high'), lead=st.integers(0, 3), mask=st.booleans(), angle=st.booleans(), centers=st.booleans(),
             location=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- directions on the sphere
def bearing(lon1, lat1, lon2, lat2):
    """degrees clockwise from north of the great circle from 1 to 2, from unit vectors"""
    a, b, c, d = [math.radians(x) for x in (lon1, lat1, lon2, lat2)]
    p = np.array([math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)])
    q = np.array([math.cos(d) * math.cos(c), math.cos(d) * math.sin(c), math.sin(d)])
    east = np.array([-math.sin(a), math.cos(a), 0.0])
    north = np.cross(p, east)
    t = q - p
    return math.degrees(math.atan2(t @ east, t @ north)) % 360.0


def reference_angles(lon, lat):
    ny, nx = lon.shape
    w = np.zeros((ny, nx))
    for j in range(ny):
        for i in range(nx - 1):
            w[j, i] = math.radians(90.0 - bearing(lon[j, i], lat[j, i], lon[j, i + 1], lat[j, i + 1]))
        w[j, -1] = w[j, -2]
    return w


def same_direction(got, want, what, tol=1e-7):
    d = np.abs(np.exp(1j * np.asarray(got)) - np.exp(1j * np.asarray(want)))
    check((d < tol).all(), what, got, want)


def run_bearing(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    shape = tuple(case['shape']) or (1,)
    lon = r.uniform(-180, 180, shape)
    lat = r.uniform(-80, 80, shape)
    if case['near']:
        lon2, lat2 = lon + r.uniform(-1, 1, shape) * case['step'], lat + r.uniform(-1, 1, shape) * case['step']
    else:
        lon2, lat2 = r.uniform(-180, 180, shape), r.uniform(-80, 80, shape)
    if case['wrap']:
        lon2 = lon2 + 360.0 * r.integers(-1, 2, shape)
    # each of its own type
    ints = np.round(lon).astype([np.int32, np.int64, np.float32][case['seed'] % 3])
    for q in (pair_arrays(ints, lat), pair_arrays(lat, ints)[..., ::-1]):
        check(q.shape == shape + (2,) and (q[..., 0] == ints).all() and (q[..., 1] == lat).all(), 'pairs of arrays of different types', q, ints, lat)
    a = pair_arrays(lon, lat)
    b = pair_arrays(lon2, lat2)
    check(a.shape == shape + (2,) and (a[..., 0] == lon).all() and (a[..., 1] == lat).all(), 'pairs', a, lon, lat)
    got = calculate_bearing(a, b)
    want = np.array([bearing(*q) for q in zip(lon.ravel(), lat.ravel(), lon2.ravel(), lat2.ravel())]).reshape(shape)
    check(np.shape(got) == shape, 'one bearing for each pair', np.shape(got))
    check((got >= 0).all() and (got <= 360).all(), 'bearings from 0 to 360', got)
    same_direction(np.radians(got), np.radians(want), 'bearings', 1e-6)
    ang = calculate_angle_from_true_east(a, b)
    check(np.shape(ang) == shape[:-1] + (shape[-1] + 1,), 'one more angle in each row', np.shape(ang))
    same_direction(ang[..., :-1], np.radians(90 - want), 'angles from east', 1e-6)
    check(np.array_equal(ang[..., -1], ang[..., -2]), 'the last angle again', ang)
    ctx.label('near' if case['near'] else 'far')
    ctx.nontrivial(got.size > 1)


def bearing_case():
    return D(shape=st.lists(st.integers(1, 4), min_size=1, max_size=3), near=st.booleans(), step=pick(1.0, .1, 5.0), wrap=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- points and polygons
def run_polys(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    if case['tri']:
        m = trimesh(case['mesh'])
        p = tri_points(m, r, case['n'])
        polys = m['faces'].tolist()
        k = 3
    else:
        m = flexmesh(dict(case['flex'], split=case['split'], pent=False))
        p = flex_points(m, r, case['n'])
        k = len(m['polys'][0])
        polys = [q for q in m['polys'] if len(q) == k]
    n = case['n']
    corners = m['nodes'][np.array(polys)]
    full = m['faces'].tolist() if case['tri'] else m['polys']
    where = [tuple(full[f]) if f >= 0 else None for f in p['face']]
    # each point against a polygon of its own or another
    pick_ = r.integers(len(polys), size=n)
    for i in range(n):
        if where[i] is not None and r.random() < .6 and list(where[i]) in polys:
            pick_[i] = polys.index(list(where[i]))
    want = np.array([where[i] == tuple(polys[pick_[i]]) for i in range(n)])
    c = corners[pick_]
    pts = p['points']
    if case['masked']:
        pts, c = np.ma.array(pts), np.ma.array(c)
    got = points_in_polys(pts, c)
    check(np.array_equal(got, want), 'points in polygons', got, want)
    got = points_in_polys(pts, c[..., 0], c[..., 1])
    check(np.array_equal(got, want), 'points in polygons given by x and y', got, want)
    got = np.array([points_in_polys(pts[i:i + 1], c[i:i + 1])[0] for i in range(n)])
    check(np.array_equal(got, want), 'points in polygons one by one', got, want)
    if k == 3:
        for i in range(n):
            check(bool(point_in_tri(np.asarray(c[i]), np.asarray(pts[i]))) == want[i], 'point in a triangle', pts[i], c[i])
    ctx.label('%d corners' % k)
    ctx.nontrivial(want.any() and not want.all())


def run_star(case, ctx):
    """polygons with any number of corners, seen from a point inside of them"""
    r = np.random.default_rng([case['seed'], 0])
    n, k = case['n'], case['corners']
    turn = np.arange(k) + r.uniform(-.2, .2, (n, k))
    ang = turn * 2 * np.pi / k * case['way'] + r.uniform(0, 7, (n, 1))
    rad = r.uniform(case['least'], 1, (n, k))
    mid = r.uniform(-50, 50, (n, 2))
    corner = np.stack([rad * np.cos(ang), rad * np.sin(ang)], axis=-1)
    j, t = r.integers(k, size=n), r.uniform(0, 1, (n, 1))
    a = np.arange(n)
    rim = (1 - t) * corner[a, j] + t * corner[a, (j + 1) % k]
    inside = r.random(n) < .5
    s = np.where(inside, r.uniform(.01, .98, n), r.uniform(1.02, 3, n))[:, None]
    pts, c = mid + s * rim, mid[:, None] + corner
    if case['level']:
        # just as high (or as far east) as a corner; inside if it sees the polygon turn around it
        x = pts.copy()
        axis = case['level'] % 2
        x[:, axis] = c[a, r.integers(k, size=n), axis]
        p, q = c - x[:, None], np.roll(c, -1, axis=1) - x[:, None]
        d = q - p
        u = np.clip(-(p * d).sum(-1) / (d * d).sum(-1), 0, 1)[..., None]
        clear = (np.hypot(*np.moveaxis(p + u * d, -1, 0)) > 1e-3).all(axis=1)
        turned = np.arctan2(p[..., 0] * q[..., 1] - p[..., 1] * q[..., 0], (p * q).sum(-1)).sum(axis=1)
        pts = np.where(clear[:, None], x, pts)
        inside = np.where(clear, abs(turned) > 3, inside)
    for got in (points_in_polys(pts, c), points_in_polys(pts, c[..., 0], c[..., 1])):
        check(np.array_equal(got, inside), 'points in polygons of %d corners' % k, got, inside)
    ctx.label('%d corners' % k)
    ctx.nontrivial(inside.any() and not inside.all())


def star_case():
    return D(n=st.integers(1, 12), corners=st.integers(4, 12), level=pick(0, 1, 2), way=pick(1, -1), least=pick(.2, .9), seed=SEED)


def polys_case():
    return D(tri=st.booleans(), mesh=trimesh_case(4), flex=flexmesh_case(4), split=pick(0.0, 1.0), n=st.integers(1, 8), masked=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- padding and picking of values
def run_padding(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    pads = case['pads']
    ny, nx = case['ny'], case['nx']
    size = {'none': (0, 0), None: (0, 0), 'both': (1, 1), 'low': (1, 0), 'high': (0, 1)}
    (a, b), (c, d) = size[pads[0]], size[pads[1]]
    full = np.arange((ny + a + b) * (nx + c + d)).reshape(ny + a + b, nx + c + d)
    y, x = np.meshgrid(np.arange(ny + 1.0), np.arange(nx + 1.0), indexing='ij')
    g = SGrid(node_lon=x, node_lat=y)
    got = full[g.get_padding_slices(pads)]
    check(np.array_equal(got, full[a:a + ny, c:c + nx]), 'data without the padding %s' % (pads,), got, full)
    n = case['n']
    cells = np.column_stack([r.integers(ny, size=n), r.integers(nx, size=n)])
    masked = r.random(n) < .3 if case['masked'] else np.zeros(n, bool)
    ix = np.ma.array(cells, mask=np.repeat(masked[:, None], 2, axis=1)) if case['masked'] else cells
    moved = g.apply_padding_to_idxs(ix.copy(), padding=pads)
    want = full[a:a + ny, c:c + nx][cells[:, 0], cells[:, 1]]
    m = np.asarray(np.ma.getdata(moved))[~masked]
    check(np.array_equal(full[m[:, 0], m[:, 1]], want[~masked]), 'indexes into padded data %s' % (pads,), moved, cells)
    check(np.array_equal(np.ma.getmaskarray(moved)[:, 0], masked), 'mask of the indexes', moved)
    raises(ValueError, lambda: g.apply_padding_to_idxs(cells.copy(), padding=('upper', 'none')), 'a padding that is none')
    # values at these, and of the four corners (counterclockwise in index space)
    data = r.normal(size=full.shape)
    dm = r.random(full.shape) < .2 if case['data mask'] else np.zeros(full.shape, bool)
    arr = np.ma.array(data, mask=dm)
    got = g.get_variable_at_index(arr, moved)
    check(np.shape(got) == (n, 1), 'one value for each index', np.shape(got))
    v, gm = values_and_mask(got)
    w = np.array([data[j + a, i + c] for j, i in cells])
    wm = np.array([dm[j + a, i + c] for j, i in cells]) | masked
    check(np.array_equal(gm[:, 0], wm), 'mask of values at indexes', got, wm)
    check((v[~wm, 0] == w[~wm]).all(), 'values at indexes', got, w)
    nodes = np.ma.array(r.normal(size=(ny + 1, nx + 1)), mask=r.random((ny + 1, nx + 1)) < .2 if case['data mask'] else False)
    q = np.ma.array(cells, mask=np.repeat(masked[:, None], 2, axis=1))
    got = g.get_variable_by_index(nodes, q)
    v, gm = values_and_mask(got)
    for k in range(n):
        for e, (dj, di) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
            j, i = cells[k] + (dj, di)
            mm = np.ma.getmaskarray(nodes)[j, i] or masked[k]
            check(gm[k, e] == mm, 'mask of corner %d of cell %s' % (e, cells[k]), got[k])
            check(mm or v[k, e] == np.ma.getdata(nodes)[j, i], 'corner %d of cell %s' % (e, cells[k]), got[k], np.ma.getdata(nodes)[j, i])
    ctx.label(str(pads[0]), str(pads[1]))
    ctx.nontrivial(n > 1)


def padding_case():
    return D(pads=st.tuples(pick('none', 'both', 'low', 'high', None), pick('none', 'both', 'low', 'high', None)).map(list), ny=st.integers(1, 5), nx=st.integers(1, 5),
             n=st.integers(1, 8), masked=st.booleans(), seed=SEED, **{'data mask': st.booleans()})


# ---------------------------------------------------------------- small ones
class Fake:
    """what is needed of an array, and no more"""
    dtype, shape, ndim = np.dtype(float), (2,), 1

    def __len__(self):
        return 2

    def __getitem__(self, i):
        return [1.0, 2.0][i]


def run_small(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    a, b = case['a'], case['b']
    for kind in (tuple, list):
        check(does_intersection_exist(kind(a), kind(b)) is bool(set(a) & set(b)), 'intersection', a, b)
        check(bool(check_element_equal(kind(a))) == (len(set(a)) <= 1), 'all equal', a)
    check(does_intersection_exist(tuple(a), 5) is False, 'intersection with a number')
    for mod in (util, utilities):
        x = r.normal(size=(2, 3))
        f = Fake()
        for o, want in ((x, True), (np.ma.array(x), True), (f, True), ([1, 2], False), ((1.0,), False), (3.0, False), ('ab', False)):
            check(mod.isarraylike(o) is want, 'isarraylike', o)
            got = mod.asarraylike(o)
            check(got is o if want else isinstance(got, np.ndarray) and np.array_equal(got, np.array(o)), 'asarraylike', o, got)
    # results next to their points
    n, m, c = case['n'], 2 + case['m'], case['c']
    pts = r.normal(size=(n, m))
    pts = (pts * 100).astype(case['dtype'])
    res = r.normal(size=(n, c)) if c else r.normal(size=n)
    small = n <= 3
    got = utilities._align_results_to_spatial_data(res, pts)
    want = res if n == 1 or small or c else res[:, None]
    check(np.array_equal(got, want) and np.shape(got) == np.shape(want), 'results for points in rows', got, want)
    if not small:
        got = utilities._align_results_to_spatial_data(res, pts.T.tolist())
        check(np.array_equal(got, res.T), 'results for points in columns', got, res)
        got = utilities._reorganize_spatial_data(pts.T.tolist())
        check(np.array_equal(got, pts), 'points in columns', got, pts)
    got = utilities._reorganize_spatial_data(pts.tolist())
    check(np.array_equal(got, pts), 'points in rows', got, pts)
    for x in [pts] + [pts.T] * (not small):
        got = utilities._reorganize_spatial_data(x)
        check(np.array_equal(got, pts), 'points of type ' + case['dtype'], got, pts)
    check(utilities._reorganize_spatial_data(None) is None and utilities._align_results_to_spatial_data(res, None) is res, 'no points')
    ctx.label('points %d' % min(n, 4))
    ctx.nontrivial(len(set(a)) > 1)


def small_case():
    return D(a=st.lists(st.integers(0, 4), max_size=5), b=st.lists(st.integers(0, 9), max_size=5), n=st.integers(1, 8), m=st.integers(0, 1), c=st.integers(0, 3), dtype=pick('f8', 'f4', 'i4', 'i2', 'f2'), seed=SEED)


SCENARIOS = [
    Scenario('vectors', vectors_case, run_vectors, quick=1200),
    Scenario('averages', average_case, run_average, quick=800),
    Scenario('velocities of a file', file_case, run_file, quick=700),
    Scenario('bearings', bearing_case, run_bearing, quick=600),
    Scenario('polygons', polys_case, run_polys, quick=800),
    Scenario('polygons of many corners', star_case, run_star, quick=500),
    Scenario('padding', padding_case, run_padding, quick=1000),
    Scenario('small helpers', small_case, run_small, quick=500),
]
