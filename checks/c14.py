"""C14: topology derived from the faces"""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from gridded.grids import Grid_U
from gridded.pyugrid.ugrid import UGrid
from vlib.core import Scenario, check, raises
from vlib.gens import D, SEED, delaunay, delaunay_case, flexmesh, flexmesh_case, pick, trimesh, trimesh_case

STEPS = ['edges', 'face_face', 'boundaries', 'face_edge', 'face_coordinates', 'edge_coordinates', 'boundary_coordinates', 'edges', 'boundaries']


def model(polys):
    """edges -> faces"""
    e = {}
    for i, p in enumerate(polys):
        for a, b in zip(p, p[1:] + p[:1]):
            e.setdefault((min(a, b), max(a, b)), []).append(i)
    return e


def pairs(a):
    a = np.asarray(a)
    check(a.ndim == 2 and a.shape[1] == 2, 'an array of pairs', a.shape)
    return [tuple(sorted(int(x) for x in p)) for p in a]


def run(case, ctx):
    kind = case['kind']
    if kind == 'tri':
        m = trimesh(case['tri'])
        polys = [[int(k) for k in f] for f in m['faces']]
    elif kind == 'flex':
        m = flexmesh(case['flex'])
        polys = m['polys']
    else:
        m = delaunay(case['del'])
        polys = [[int(k) for k in f] for f in m['faces']]
    nodes = m['nodes']
    if case['before']:
        # large indices: nodes without faces
        nodes = np.concatenate([np.zeros((case['before'], 2)) + nodes[0], nodes])
        polys = [[k + case['before'] for k in p] for p in polys]
    width = max(map(len, polys))
    r = np.random.default_rng([case['seed'], 0])
    uneven = any(len(p) < width for p in polys)
    full = max(map(max, polys)) == len(nodes) - 1
    how = case['how']
    if how == 'one-based' and (not full or len(nodes) < 2):
        how = 'plain'
    arr = np.full((len(polys), width), -1)
    for i, p in enumerate(polys):
        arr[i, :len(p)] = p
    if how == 'masked' or (uneven and how == 'one-based'):
        arr = np.ma.masked_less(arr, 0)
    if how == 'one-based':
        arr = arr + 1
    faces = arr.tolist() if how == 'list' else arr.astype('i4' if case['before'] else case['dtype'])
    cls = Grid_U if case['grid_u'] else UGrid
    g = cls(nodes=nodes.copy(), faces=faces)
    e = model(polys)
    shared = {k: v for k, v in e.items() if len(v) == 2}
    single = [k for k, v in e.items() if len(v) == 1]
    given = None
    if case['given']:
        # edges of the caller: in any order and direction, perhaps not all of them, or more
        given = [k if r.random() < .5 else k[::-1] for k in e]
        given = [given[k] for k in r.permutation(len(given))]
        if case['given'] == 'some' and len(given) > 2:
            given = given[:-2]
        if case['given'] == 'more':
            given.insert(int(r.integers(len(given))), (0, 0))
        g.edges = np.array(given)

    def edges():
        g.build_edges()
        got = pairs(g.edges)
        check(sorted(got) == sorted(e), 'edges', sorted(got), sorted(e))

    def face_face():
        g.build_face_face_connectivity()
        ff = np.asarray(g.face_face_connectivity)
        check(ff.shape == (len(polys), width), 'shape of face_face_connectivity', ff.shape)
        for i in range(len(polys)):
            want = Counter(v[1] if v[0] == i else v[0] for v in shared.values() if i in v)
            got = Counter(int(x) for x in ff[i] if x != -1)
            check(got == want, 'neighbors of %d' % i, ff[i], want)

    def boundaries():
        g.build_boundaries()
        got = pairs(g.boundaries)
        check(sorted(got) == sorted(single), 'boundaries', sorted(got), sorted(single))
        check(g.face_face_connectivity is not None, 'neighbors are known after finding the boundaries')

    def face_edge():
        if g.edges is None:
            g.build_edges()
        g.build_face_edge_connectivity()
        known = pairs(g.edges)
        fe = g.face_edge_connectivity
        check(fe.shape == (len(polys), width), 'shape of face_edge_connectivity', fe.shape)
        mask = np.ma.getmaskarray(fe)
        fe = np.ma.getdata(fe)
        for i, p in enumerate(polys):
            for j in range(width):
                if j >= len(p):
                    check(mask[i, j] or fe[i, j] == -1, 'edge %d of face %d, which has none' % (j, i), fe[i, j])
                    continue
                k = tuple(sorted((p[j], p[(j + 1) % len(p)])))
                if k not in known:
                    check(mask[i, j] or fe[i, j] == -1, 'edge %d of face %d, which is not in edges' % (j, i), fe[i, j])
                else:
                    check(not mask[i, j] and known[fe[i, j]] == k, 'edge %d of face %d' % (j, i), fe[i, j], known, k)

    def mean(got, groups, what):
        want = np.array([nodes[list(p)].mean(axis=0) for p in groups]).reshape(-1, 2)
        scale = abs(nodes).max() + 1e-300
        check(np.shape(got) == want.shape and np.all(abs(np.asarray(got) - want) <= 1e-12 * scale), what, got, want)

    def face_coordinates():
        g.build_face_coordinates()
        mean(g.face_coordinates, polys, 'face_coordinates')

    def edge_coordinates():
        if g.edges is None:
            g.build_edges()
        g.build_edge_coordinates()
        mean(g.edge_coordinates, pairs(g.edges), 'edge_coordinates')
        lines = g.get_lines()
        want = np.array([nodes[list(p)] for p in np.asarray(g.edges)])
        check(np.array_equal(np.asarray(lines), want), 'lines', lines, want)

    def boundary_coordinates():
        if g.boundaries is None:
            g.build_boundaries()
        g.build_boundary_coordinates()
        mean(g.boundary_coordinates, pairs(g.boundaries), 'boundary_coordinates')

    f = dict(edges=edges, face_face=face_face, boundaries=boundaries, face_edge=face_edge, face_coordinates=face_coordinates, edge_coordinates=edge_coordinates,
             boundary_coordinates=boundary_coordinates)
    if given:
        face_edge()
        edge_coordinates()
    steps = [STEPS[k] for k in r.permutation(len(STEPS))]
    # before something is deleted, perhaps not everything was derived
    for s in steps[:int(r.integers(len(steps) + 1)) if case['gone'] and r.random() < .5 else None]:
        f[s]()
    # deriving topology leaves the mesh as it was
    check(np.array_equal(np.asarray(g.nodes), nodes), 'nodes changed')
    got = [[int(k) for k in np.ma.filled(row, -1) if k >= 0] for row in g.faces]
    check(got == polys, 'faces changed', got, polys)
    check(g.num_vertices == width, 'num_vertices', g.num_vertices, width)
    if case['gone']:
        # what was derived goes with what it was derived from, and can be derived again
        gone = case['gone']
        delattr(g, gone)
        left = dict(nodes=['edges', 'faces', 'boundaries'], faces=['face_face_connectivity', 'face_edge_connectivity', 'edge_coordinates'],
                    edges=['face_edge_connectivity', 'edge_coordinates'], boundaries=['boundary_coordinates'])[gone]
        check(all(getattr(g, k) is None for k in left + ([gone] if gone != 'nodes' else [])) and (gone != 'nodes' or len(g.nodes) == 0), 'what is left after the %s were deleted' % gone,
              [k for k in left if getattr(g, k) is not None])
        if gone == 'nodes':
            g.nodes = nodes.copy()
        if gone in ('nodes', 'faces'):
            g.faces = np.ma.masked_less(np.array([p + [-1] * (width - len(p)) for p in polys], dtype='i4'), 0)
        if given:
            given = None
            del g.edges
        for s in steps:
            f[s]()
    ctx.label(kind, how, 'uneven' if uneven else 'even', 'edges given' if given else 'edges built')
    ctx.nontrivial(len(polys) > 1)


def case():
    return D(kind=pick('tri', 'flex', 'flex', 'del'), tri=trimesh_case(5), flex=flexmesh_case(4), **{'del': delaunay_case(20)},
             how=pick('plain', 'masked', 'list', 'one-based'), dtype=pick('i4', 'i8', 'i2'), grid_u=st.booleans(), before=pick(*[0] * 9, 300, 1003, 66000), given=pick(None, None, 'all', 'some', 'more'), gone=pick(None, None, 'nodes', 'faces', 'edges', 'boundaries'), seed=SEED)


def bad_case():
    return D(tri=trimesh_case(4), by=st.integers(-5, 5), seed=SEED)


def run_bad(case, ctx):
    """indices that are not of nodes are refused"""
    m = trimesh(case['tri'])
    f = m['faces'].copy()
    n = len(m['nodes'])
    k = case['seed'] % len(f)
    if case['by'] >= 0:
        f[k, 0] = n + case['by']
        if case['by'] == 0 and f.min() >= 1:
            ctx.trivial = True
            return
    else:
        f[k, 0] = case['by'] - 1
    raises(ValueError, lambda: UGrid(nodes=m['nodes'], faces=f), 'faces with an index of %d for %d nodes' % (f[k, 0], n))
    ctx.label('too large' if case['by'] >= 0 else 'negative')


SCENARIOS = [
    Scenario('topology', case, run, quick=3000),
    Scenario('bad indices', bad_case, run_bad, quick=500),
]
