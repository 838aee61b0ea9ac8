"""C09: locating points"""
import numpy as np
from hypothesis import strategies as st

from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.pysgrid.sgrid import SGrid
from gridded.pyugrid.ugrid import UGrid
from gridded.pyugrid.util import point_in_tri
from checks.c24 import laid_out
from vlib.core import Scenario, check
from vlib.large import cells_case, run_cells
from vlib.gens import (D, SEED, convex_ok, curv, curv_case, curv_points, delaunay, delaunay_case, flex_points, flexmesh, flexmesh_case, pick,
                       tri_points, trimesh, trimesh_case)

FORM = pick('array', 'array', 'list', 'tuples', 'one', 'one row', 'fortran', 'view')


def shaped(points, form, k=0):
    """(argument, indexes of the points in it, whether it is one point)"""
    n = len(points)
    if form == 'list':
        return points.tolist(), np.arange(n), False
    if form == 'tuples':
        return tuple(tuple(p) for p in points.tolist()), np.arange(n), False
    if form == 'one':
        return points[k].copy(), np.array([k]), True
    if form == 'one row':
        return points[k:k + 1].copy(), np.array([k]), False
    if form == 'fortran':
        return np.asfortranarray(points), np.arange(n), False
    if form == 'view':
        wide = np.full((2 * n, 3), 99.0)
        wide[::2, :2] = points
        return wide[::2, :2], np.arange(n), False
    return points.copy(), np.arange(n), False


def bary(tri, p):
    (x1, y1), (x2, y2), (x3, y3) = tri
    d = (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3)
    a = ((y2 - y3) * (p[0] - x3) + (x3 - x2) * (p[1] - y3)) / d
    b = ((y3 - y1) * (p[0] - x3) + (x1 - x3) * (p[1] - y3)) / d
    return min(a, b, 1 - a - b)


def one_or_many(res, is_one, n, what):
    if is_one:
        check(np.ndim(res) == 0, what + ': one index for one point', res)
        return np.array([int(res)])
    res = np.asarray(res)
    check(res.shape == (n,), what + ': an array with one index per point', res.shape, n)
    return res


def run_mesh(case, ctx):
    kind = case['kind']
    r = np.random.default_rng([case['seed'], 0])
    if kind == 'flex':
        m = flexmesh(case['flex'])
        p = flex_points(m, r, case['n'])
    else:
        m = trimesh(case['tri']) if kind == 'tri' else delaunay(case['del'])
        p = tri_points(m, r, case['n'])
    pts, face = p['points'], p['face']
    if kind == 'del':
        # anywhere in the box around the mesh, by brute force
        lo, hi = m['nodes'].min(axis=0), m['nodes'].max(axis=0)
        more = lo + (hi - lo) * r.random((6, 2))
        tris = m['nodes'][m['faces']]
        for q in more:
            b = np.array([bary(t, q) for t in tris])
            if (np.abs(b) < 1e-4).any():
                continue
            inside = np.flatnonzero(b > 0)
            if len(inside) > 1:
                continue
            pts = np.vstack([pts, q])
            face = np.append(face, inside[0] if len(inside) else -1)
    cls = Grid_U if case['wrap'] else UGrid
    nodes, faces = m['nodes'].copy(), m['faces'].copy()
    g = cls(nodes=nodes, faces=faces)
    k = int(r.integers(len(pts)))
    for rep, (form, memo) in enumerate([(case['form'], case['memo'][0])] * 2 + list(zip(case['forms'], case['memo'][1:]))):
        arg, ix, is_one = shaped(pts, form, k)
        want = face[ix]
        kw = {} if memo is None else dict(_memo=memo)
        for how in case['how']:
            if how == 'simple' and kind == 'flex':
                continue
            what = '%s (%s), query %d' % (how, form, rep + 1)
            if how == 'default':
                got = g.locate_faces(arg, **kw)
            elif how == 'index_of':
                got = g.index_of(arg, **kw)
            else:
                got = cls(nodes=nodes, faces=faces).locate_faces(arg, method=how) if how == 'simple' else g.locate_faces(arg, method=how, **kw)
            got = one_or_many(got, is_one, len(ix), what)
            bad = got != want
            if how == 'simple':
                # points_in_tri has a tolerance of 1e-5 of the area of the triangle
                for k in np.flatnonzero(bad):
                    if got[k] >= 0 and bary(m['nodes'][m['faces'][got[k]]], pts[ix[k]]) > -1e-4:
                        bad[k] = False
            check(not bad.any(), 'face by ' + what, got, 'expected', want)
    ctx.label(kind, case['form'], 'inside' if (want >= 0).any() else 'outside')
    ctx.nontrivial((want >= 0).any())


def mesh_case():
    return D(kind=pick('tri', 'flex', 'del', 'del'), tri=trimesh_case(), flex=flexmesh_case(), n=st.integers(1, 8), form=FORM, wrap=st.booleans(),
             forms=st.lists(FORM, max_size=2), memo=st.lists(pick(None, True, False), min_size=4, max_size=4), how=st.lists(pick('default', 'celltree', 'simple', 'index_of'), min_size=1, max_size=3), seed=SEED, **{'del': delaunay_case()})


def run_big(case, ctx):
    """larger meshes: all the centroids, and points next to them, are located"""
    m = delaunay(case['mesh'])
    r = np.random.default_rng([case['seed'], 0])
    f = np.arange(len(m['faces']))
    w = r.dirichlet([1.0, 1.0, 1.0], len(f)) * 0.94 + 0.02
    pts = (w[:, :, None] * m['nodes'][m['faces']]).sum(axis=1)
    got = np.asarray(UGrid(nodes=m['nodes'], faces=m['faces']).locate_faces(pts))
    bad = np.flatnonzero(got != f)
    check(len(bad) == 0, 'points in faces', bad[:5], 'were located in', got[bad[:5]])
    ctx.label(case['mesh']['kind'], 'faces %d' % (len(f) // 100 * 100))


def big_case():
    return D(mesh=delaunay_case(400), seed=SEED)


def run_curv(case, ctx):
    c = curv(case['grid'])
    if not convex_ok(c['xy']):
        return ctx.trivial()
    r = np.random.default_rng([case['seed'], 0])
    xy = c['xy']
    p = curv_points(xy, c['outside'], r, case['n'], margin=0.02)
    cls = Grid_S if case['wrap'] else SGrid
    lon, lat = xy[..., 0].copy(), xy[..., 1].copy()
    if case['masked']:
        lon, lat = np.ma.array(lon), np.ma.array(lat)
    g = cls(node_lon=lon, node_lat=lat)
    k = int(r.integers(case['n']))
    for rep, (form, memo) in enumerate([(case['form'], case['memo'][0])] * 2 + list(zip(case['forms'], case['memo'][1:]))):
        arg, ix, is_one = shaped(p['points'], form, k)
        want = p['ji'][ix]
        got = (g.index_of if case['how'] == 'index_of' else g.locate_faces)(arg, **({} if memo is None else dict(_memo=memo)))
        if is_one:
            check(np.shape(got) == (2,), 'one pair of indexes for one point', got)
            got = np.ma.getdata(got)[None]
        else:
            check(np.shape(got) == (len(ix), 2), 'a pair of indexes per point', np.shape(got))
            masked = np.ma.getmaskarray(np.ma.asanyarray(got))
            check((masked == (want < 0)).all(), 'indexes of points outside are masked, others not', masked, want)
            got = np.ma.getdata(got)
        check((got == want).all(), 'cell, query %d' % (rep + 1), form, memo, got, 'expected', want)
    ctx.label(case['grid']['shape'], case['form'], 'inside' if (want >= 0).any() else 'outside')
    ctx.nontrivial((want >= 0).any())


def c_case():
    return D(grid=curv_case(8), n=st.integers(1, 8), form=FORM, forms=st.lists(FORM, min_size=3, max_size=3),
             memo=st.lists(pick(None, True, True, False), min_size=4, max_size=4), wrap=st.booleans(), masked=st.booleans(), how=pick('locate', 'index_of'), seed=SEED)


def run_rect(case, ctx):
    r = np.random.default_rng([case['seed'], 0])

    def axis(n, even, down, start):
        d = np.full(n - 1, 0.25) if even else r.uniform(0.05, 2.0, n - 1)
        a = start + np.concatenate([[0.0], np.cumsum(d)])
        return a[::-1].copy() if down else a
    lon = axis(case['nx'], case['even'], case['down'][0], case['origin'][0])
    lat = axis(case['ny'], case['even'], case['down'][1], case['origin'][1])
    g = Grid_R(node_lon=lon.copy(), node_lat=lat.copy())
    pts, want = [], []
    for k in range(case['n']):
        u = r.random()
        i, j = int(r.integers(len(lon) - 1)), int(r.integers(len(lat) - 1))
        a, b = r.uniform(0.02, 0.98, 2)
        x, y = lon[i] + a * (lon[i + 1] - lon[i]), lat[j] + b * (lat[j + 1] - lat[j])
        w = (i, j)
        if u < .4:
            s = 1 + int(r.integers(15))
            dx, dy = r.uniform(0.01, 3.0, 2)
            if s & 1:
                x, w = lon.min() - dx, (-1, -1)
            elif s & 2:
                x, w = lon.max() + dx, (-1, -1)
            if s & 4:
                y, w = lat.min() - dy, (-1, -1)
            elif s & 8:
                y, w = lat.max() + dy, (-1, -1)
        pts.append((x, y))
        want.append(w)
    pts, want = np.array(pts), np.array(want)
    arg, ix, is_one = shaped(pts, case['form'], int(r.integers(len(pts))))
    got = np.asarray(g.locate_faces(arg))
    want = want[ix]
    if is_one:
        check(got.shape == (2,), 'one pair of indexes for one point', got)
        got = got[None]
    check(got.shape == want.shape, 'a pair of indexes per point', got.shape)
    check((got == want).all(), 'cell (longitude, latitude)', got, 'expected', want)
    ctx.label('lon down' if case['down'][0] else 'lon up', 'lat down' if case['down'][1] else 'lat up', case['form'])
    ctx.nontrivial((want >= 0).any())


def rect_case():
    return D(nx=st.integers(2, 8), ny=st.integers(2, 8), even=st.booleans(), down=st.tuples(st.booleans(), st.booleans()).map(list),
             origin=pick([0.0, 0.0], [-90.0, 28.0], [350.0, -70.0]), n=st.integers(1, 8), form=FORM, seed=SEED)


def run_nearest(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    n = case['n']
    if case['kind'] == 'mesh':
        m = trimesh(case['tri'])
        ref = m['nodes']
        g = (Grid_U if case['wrap'] else UGrid)(nodes=laid_out(ref, case['lay']), faces=m['faces'])
        names = ['node']
        refs = dict(node=ref)
    else:
        c = curv(case['grid'])
        xy = c['xy']
        ce = (xy[:-1, :-1] + xy[1:, :-1] + xy[:-1, 1:] + xy[1:, 1:]) / 4
        e1, e2 = (xy[:, :-1] + xy[:, 1:]) / 2, (xy[:-1] + xy[1:]) / 2
        refs = dict(node=xy, center=ce, edge1=e1, edge2=e2)
        g = (Grid_S if case['wrap'] else SGrid)(
            **{n + k: laid_out(a[..., i], case['lay']) for n, a in (('node', xy), ('center', ce), ('edge1', e1), ('edge2', e2)) for i, k in ((0, '_lon'), (1, '_lat'))})
        names = case['names']
    lo, hi = refs['node'].reshape(-1, 2).min(axis=0), refs['node'].reshape(-1, 2).max(axis=0)
    pts = lo + (hi - lo) * r.uniform(-0.3, 1.3, (n, 2))
    for name in names:
        ref = refs[name]
        if case['kind'] == 'mesh':
            # forms other than one point per row
            got = np.asarray(g.locate_nodes(pts.tolist() if case['list'] else pts))
            check(got.shape == (n,), 'one node per point', got.shape)
            one = g.locate_nodes(pts[0])
            check(np.ndim(one) == 0 and int(one) == int(got[0]), 'the node nearest to one point', one, got)
            check((got >= 0).all() and (got < len(ref)).all(), 'indexes', got)
            at = ref[got]
        else:
            got = np.asarray(g.locate_nearest(pts.tolist() if case['list'] else pts, name))
            check(got.shape == (n, 2), 'a pair of indexes per point', got.shape)
            check((got >= 0).all() and (got < ref.shape[:2]).all(), 'indexes of ' + name, got)
            at = ref[got[:, 0], got[:, 1]]
        d = np.hypot(*(at - pts).T)
        best = np.sqrt(((ref.reshape(1, -1, 2) - pts[:, None]) ** 2).sum(axis=2)).min(axis=1)
        scale = np.abs(refs['node']).max()
        check((d <= best + 1e-12 * scale).all(), 'distance to the nearest ' + name, d, 'least', best)
    ctx.label(case['kind'], *names)


def near_case():
    return D(kind=pick('mesh', 'grid'), lay=pick('plain', 'plain', 'fortran', 'strided', 'negative'), tri=trimesh_case(), grid=curv_case(6), wrap=st.booleans(), list=st.booleans(), n=st.integers(1, 8),
             names=st.lists(pick('node', 'center', 'edge1', 'edge2'), min_size=1, max_size=4), seed=SEED)


def run_tri(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    t = r.normal(size=(3, 2)) * case['scale'] + np.array(case['origin'])
    e = np.ptp(t, axis=0).max()
    d = np.abs(np.linalg.det(t[1:] - t[0]))
    if d / e ** 2 < 1e-2:
        return ctx.trivial()
    w = r.dirichlet([1.0, 1.0, 1.0])
    if case['where'] == 'inside':
        w = 0.97 * w + 0.01
    else:
        # clearly on the other side of one edge, or beyond a node
        k = int(r.integers(3))
        w = w * 0.9 + 0.03
        w[k] = -r.uniform(0.01, 3.0)
        w[(k + 1) % 3] = 1 - w[k] - w[(k + 2) % 3]
    p = w @ t
    want = bool((w > 0).all())
    got = point_in_tri(t, p)
    check(bool(got) == want, 'point_in_tri', t, p, 'weights', w, 'answered', got)
    ctx.label(case['where'], 'clockwise' if np.linalg.det(t[1:] - t[0]) < 0 else 'counterclockwise')


def tri_case():
    return D(where=pick('inside', 'outside'), scale=pick(1.0, 0.01, 100.0), origin=pick([0.0, 0.0], [-88.0, 29.0]), seed=SEED)


SCENARIOS = [
    Scenario('many cells', lambda: cells_case(['u_node', 's_center']), run_cells, quick=16),
    Scenario('mesh', mesh_case, run_mesh, quick=2400),
    Scenario('larger meshes', big_case, run_big, quick=700),
    Scenario('curvilinear', c_case, run_curv, quick=2000),
    Scenario('rectangular', rect_case, run_rect, quick=2000),
    Scenario('nearest', near_case, run_nearest, quick=1600),
    Scenario('point_in_tri', tri_case, run_tri, quick=1600),
]
