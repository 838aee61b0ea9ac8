"""C01: interpolation on triangular meshes"""
import warnings

import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from gridded.grids import Grid_U
from gridded.pyugrid.ugrid import UGrid
from vlib.core import Scenario, Violation, check, close, values_and_mask
from vlib.large import cells_case, large_case, run_cells, run_large
from vlib.gens import (D, SEED, delaunay, delaunay_case, flex_points, flexmesh, flexmesh_case, pick, tri_points, trimesh, trimesh_case)


def _data(r, kind, shape):
    if kind == 'const':
        return np.full(shape, float(r.integers(-5, 6)))
    if kind == 'big':
        return r.normal(size=shape) * 1e6
    return r.normal(size=shape)


def quiet(f, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(**kw)


def _call(via, m, pts, data, location, slices=None):
    """the interpolated values as a flat array, by way of the grid or a Variable"""
    faces = m.get('given', m['faces'])
    if via == 'grid':
        g = quiet(UGrid, nodes=m['nodes'], faces=faces)
        return g.interpolate_var_to_points(pts, data, location=location, slices=slices)
    if via == 'infer':
        g = quiet(UGrid, node_lon=m['nodes'][:, 0], node_lat=m['nodes'][:, 1], faces=faces)
        return g.interpolate(pts, data, slices=slices)
    g = quiet(Grid_U, nodes=m['nodes'], faces=faces)
    v = Variable(name='v', data=data, grid=g, location=location)
    res = v.at(pts, None)
    check(np.shape(res) == (len(pts), 1), 'Variable.at gives one row per point', np.shape(res))
    return res[:, 0]


def run_node(case, ctx):
    m = delaunay(case['mesh']) if 'kind' in case['mesh'] else trimesh(case['mesh'])
    r = np.random.default_rng([case['seed'], 0])
    p = tri_points(m, r, case['n'])
    via, location = case['via'], case['loc']
    nn, nf = len(m['nodes']), len(m['faces'])
    if via == 'infer' and nn == nf:
        via = 'grid'          # the sizes do not say where the data is
    n = nn if location == 'node' else nf
    slices = None
    data = _data(r, case['data'], (n,))
    if case['extra'] and via != 'variable':
        full = _data(r, case['data'], (3, 4, n) if case['extra'] == 2 else (3, n))
        slices = (2, 1) if case['extra'] == 2 else [1]
        full[(2, 1) if case['extra'] == 2 else 1] = data
        arg = full
    else:
        arg = data
    if case['dtype'] == 'f4':
        arg = arg.astype('f4')
        data = data.astype('f4').astype('f8')
    before = arg.copy()
    if case['base'] and m['faces'].max() == nn - 1:
        # counted from one, which shows by the last node
        m = dict(m, given=m['faces'] + 1)
    got = _call(via, m, p['points'], arg, location, slices)
    want = ((p['weights'] * data[m['faces'][p['face']]]).sum(axis=1) if location == 'node'
            else np.where(p['face'] < 0, 0.0, data[p['face']]))
    scale = np.abs(data).max() + 1.0
    # alphas are computed from differences of coordinates, a few ulp of the coordinates over the size of a triangle
    nodes = m['nodes']
    a = nodes[m['faces']]
    area = np.abs((a[:, 1, 0] - a[:, 0, 0]) * (a[:, 2, 1] - a[:, 0, 1]) - (a[:, 2, 0] - a[:, 0, 0]) * (a[:, 1, 1] - a[:, 0, 1]))
    height = (area / np.ptp(a, axis=1).max(axis=1)).min()
    tol = (1e-9 + 1e-14 * np.abs(nodes).max() / height * 20) * scale
    if case['dtype'] == 'f4':
        tol = max(tol, 1e-5 * scale)
    close(got, want, '%s data interpolated to points (%s)' % (location, via), rtol=0, atol=tol)
    check(np.array_equal(before, arg), 'the data was modified')
    # each point has its value whatever the other points are
    k = int(r.integers(len(p['points'])))
    one = _call(via, m, p['points'][k:k + 1], arg, location, slices)
    close(one, want[k:k + 1], 'one of the points on its own', rtol=0, atol=tol)
    ctx.label(via, location, 'hole' if len(m['holes']) else 'no hole',
              'outside' if (p['face'] < 0).any() else 'inside')
    ctx.nontrivial((p['face'] >= 0).any() and case['data'] != 'const')


def node_case():
    return D(mesh=trimesh_case(6, [1e-4, 1e-5]), n=st.integers(1, 12), base=pick(0, 0, 1), via=pick('grid', 'infer', 'variable'), loc=pick('node', 'node', 'face'),
             data=pick('normal', 'normal', 'const', 'big'), extra=pick(0, 0, 1, 2), dtype=pick('f8', 'f8', 'f4'), seed=SEED)


def irregular_case():
    return D(mesh=delaunay_case(), base=pick(0, 0, 1), n=st.integers(4, 40), via=pick('grid', 'infer', 'variable'), loc=pick('node', 'node', 'face'),
             data=pick('normal', 'big'), extra=pick(0), dtype=pick('f8'), seed=SEED)


def run_isolated_bad(case, ctx):
    """NaN or masked values in some faces or nodes only matter to the points in (or next to) them"""
    m = trimesh(case['mesh'])
    r = np.random.default_rng([case['seed'], 0])
    p = tri_points(m, r, case['n'])
    location = case['loc']
    nf = len(m['faces'])
    n = len(m['nodes']) if location == 'node' else nf
    data = r.normal(size=n)
    bad_face = [0, nf - 1, int(r.integers(nf))][case['which']]
    bad = m['faces'][bad_face] if location == 'node' else np.array([bad_face])
    if case['bad'] == 'nan':
        arg = data.copy()
        arg[bad] = np.nan
    else:
        mask = np.zeros(n, bool)
        mask[bad] = True
        d = data.copy()
        d[bad] = 1e30
        arg = np.ma.array(d, mask=mask)
    got = _call(case['via'], m, p['points'], arg, location)
    touched = np.array([f >= 0 and (f == bad_face if location == 'face' else
                                    bool(np.intersect1d(m['faces'][f], bad).size)) for f in p['face']])
    want = ((p['weights'] * data[m['faces'][p['face']]]).sum(axis=1) if location == 'node'
            else np.where(p['face'] < 0, 0.0, data[p['face']]))
    nodes = m['nodes']
    spread = np.abs(nodes).max() / (np.ptp(nodes, axis=0).min() / 20)
    v, mk = values_and_mask(got)
    v, mk = v.ravel(), mk.ravel()
    check(v.shape == want.shape, 'one value per point', v.shape)
    ok = ~touched
    check(not mk[ok].any(), 'a value is masked at a point away from the masked data', mk, touched)
    check(np.allclose(v[ok], want[ok], rtol=0, atol=1e-8 + 1e-11 * spread), 'values away from %s data' % case['bad'], v, want, touched)
    if case['bad'] == 'mask':
        # what is under the mask is seen nowhere
        check((np.abs(v[~mk]) <= np.abs(data).max() * (1 + 1e-6)).all(), 'what is behind the mask shows', v, mk)
    t = p['face'] == bad_face
    if t.any():
        check((mk[t] | np.isnan(v[t])).all(), 'a point in a face with a missing value got a number', v, mk, touched)
    ctx.label(case['bad'], location, 'outside' if (p['face'] < 0).any() else 'inside', 'touched' if touched.any() else 'untouched')
    ctx.nontrivial((p['face'] < 0).any() or (ok.any() and touched.any()))


def bad_case():
    return D(mesh=trimesh_case(5), n=st.integers(2, 10), via=pick('grid', 'variable'), loc=pick('node', 'face'),
             bad=pick('nan', 'mask'), which=pick(0, 1, 1, 2), seed=SEED)


def run_flex(case, ctx):
    """face data on a mesh of triangles, quads and pentagons"""
    m = flexmesh(case['mesh'])
    r = np.random.default_rng([case['seed'], 0])
    p = flex_points(m, r, case['n'])
    nf = len(m['polys'])
    data = r.normal(size=nf)
    faces = m['faces'] if case['faces'] == 'masked' else m['faces'].filled(-1)
    got = _call(case['via'], dict(nodes=m['nodes'], faces=faces), p['points'], data, 'face')
    close(got, np.where(p['face'] < 0, 0.0, data[p['face']]), 'face data of a flexible mesh', rtol=0, atol=0)
    sizes = {len(q) for q in m['polys']}
    ctx.label('sizes %s' % sorted(sizes))
    ctx.nontrivial((p['face'] >= 0).any() and len(sizes) > 1)


def flex_case():
    return D(mesh=flexmesh_case(), n=st.integers(1, 12), via=pick('grid', 'variable'), faces=pick('masked', 'filled'), seed=SEED)


def run_edge(case, ctx):
    """points exactly on the edge shared by two triangles: no gap, and no jump for node data"""
    nx, ny = case['nx'], case['ny']
    r = np.random.default_rng([case['seed'], 0])
    xy = np.array([(i, j) for j in range(ny) for i in range(nx)], dtype=float) * case['unit'] + np.array(case['origin'])
    tris = []
    inner = {}
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, d, e = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            tris += [[a, b, d], [a, d, e]] if r.random() < .5 else [[a, b, e], [b, d, e]]
    for k, t in enumerate(tris):
        for q in range(3):
            inner.setdefault(tuple(sorted((t[q], t[(q + 1) % 3]))), []).append(k)
    inner = {k: v for k, v in inner.items() if len(v) == 2}
    keys = sorted(inner)
    sel = [keys[int(k)] for k in r.integers(len(keys), size=case['n'])]
    w = r.integers(1, 8, size=case['n']) / 8.0
    pts = np.array([xy[a] * (1 - f) + xy[b] * f for (a, b), f in zip(sel, w)])
    data = r.integers(-100, 100, len(xy)).astype(float)
    m = dict(nodes=xy, faces=np.array(tris, dtype=np.int32))
    got = _call(case['via'], m, pts, data, 'node')
    close(got, [data[a] * (1 - f) + data[b] * f for (a, b), f in zip(sel, w)], 'node data on a shared edge', rtol=0, atol=1e-9)
    fd = r.permutation(len(tris)).astype(float) + 1.0
    gotf, mk = values_and_mask(_call(case['via'], m, pts, fd, 'face'))
    for k, s in enumerate(sel):
        check(gotf.ravel()[k] in [fd[f] for f in inner[s]], 'face data on a shared edge is that of one of the two faces',
              gotf, k, [fd[f] for f in inner[s]])
    ctx.label('edge')


def edge_case():
    return D(nx=st.integers(2, 5), ny=st.integers(2, 5), n=st.integers(1, 10), unit=pick(1.0, 0.5, 4.0),
             origin=pick([0.0, 0.0], [-90.0, 30.0], [128.0, -64.0]), via=pick('grid', 'variable'), seed=SEED)


SCENARIOS = [
    Scenario('many cells', lambda: cells_case(['u_node', 'u_face']), run_cells, quick=16),
    Scenario('many points', lambda: large_case(['u_node', 'u_face']), run_large, quick=240),
    Scenario('node_and_face', node_case, run_node, quick=9600),
    Scenario('irregular', irregular_case, run_node, quick=4800),
    Scenario('bad_values', bad_case, run_isolated_bad, quick=4800),
    Scenario('flexible', flex_case, run_flex, quick=3200),
    Scenario('shared_edge', edge_case, run_edge, quick=1200, weight=.5),
]
