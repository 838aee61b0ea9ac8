"""Large grids and many points: the scenario that the properties of each kind of grid share."""
import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from vlib.core import check, close_masked, values_and_mask
from vlib.fields import Field
from vlib.gens import D, SEED, pick


def large_case(kinds):
    return D(field=D(kind=pick(*kinds), a=pick(2, 7, 16, 33, 41), b=pick(2, 6, 15, 32, 65), jitter=st.booleans(), pad=pick('none', 'both', 'low', 'high'),
                     n=pick(1, 7, 64, 257, 1030, 2500), out=st.booleans(), seed=SEED),
             again=pick(0, 1, 3), variable=st.booleans(), nowhere=pick(None, None, 'nan', 'nan', 'inf', 'one nan'), seed=SEED)


def run_large(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 99])
    data = r.normal(size=f.shape)
    g = f.make_grid()
    # some of the points more than once, in any order
    ix = r.permutation(np.repeat(np.arange(f.n), 1 + case['again'])) if case['again'] else np.arange(f.n)
    pts = f.points[ix]
    nowhere = np.zeros(len(pts), bool)
    if case.get('nowhere'):
        # positions that are not known
        nowhere = r.random(len(pts)) < .2
        pts[nowhere, 0] = np.inf if case['nowhere'] == 'inf' else np.nan
        if case['nowhere'] != 'one nan':
            pts[nowhere, 1] = pts[nowhere, 0]
    if case['variable']:
        var = Variable(name='v', data=data, grid=g, location=f.location)
        ask = lambda p: var.at(p, None)
    else:
        ask = lambda p: g.interpolate_var_to_points(p, data, location=f.location)
    got = ask(pts)
    what = '%d points on %s of %s' % (len(pts), f.kind, f.shape)
    v, m = [x.ravel() for x in values_and_mask(got)]
    check(v.shape == (len(pts),), what + ': one value per point', np.shape(got))
    check((m | (v == 0) | np.isnan(v))[nowhere].all(), what + ': values for positions that are not known', v[nowhere])
    known = ~nowhere
    close_masked(np.ma.array(v, mask=m)[known], f.ref(data)[ix][known], f.want_mask[ix][known], what, rtol=1e-6, atol=1e-6)
    # in pieces
    k = int(r.integers(len(pts) + 1))
    for s in (slice(0, k), slice(k, None)):
        if len(pts[s]):
            a, m = values_and_mask(ask(pts[s]))
            b, w = values_and_mask(got)
            check((m.ravel() == w.ravel()[s]).all() and np.allclose(np.where(m, 0, a).ravel(), np.where(w, 0, b).ravel()[s], atol=1e-9, equal_nan=True), what + ': in pieces', s)
    where = np.ma.filled(np.ma.asarray(g.locate_faces(pts)), -1)
    found = where.reshape(len(pts), -1)[:, 0] >= 0
    inside = ~f.outside[ix] & known
    check((found == inside).all(), what + ': located', found, inside)
    ctx.label(f.kind, '%d points' % len(pts) if len(pts) < 100 else 'many points')
    ctx.nontrivial(len(pts) > 50)


# ---------------------------------------------------------------- many cells
def cells_case(kinds):
    return D(kind=pick(*kinds), rows=pick(3, 40, 190), cells=pick(33000, 40000, 66000), n=pick(20, 400), rot=st.integers(0, 7), land=st.booleans(), far=st.booleans(), seed=SEED)


def run_cells(case, ctx):
    """more cells than small integers can count, on a grid of parallelograms"""
    from gridded.grids import Grid_R, Grid_S, Grid_U
    r = np.random.default_rng([case['seed'], 98])
    kind = case['kind']
    ny = case['rows']
    nx = case['cells'] // ny + 1
    if kind[0] == 'u':
        nx = nx // 2 + 1
    phi = case['rot'] * 0.7
    a = np.array([[np.cos(phi), np.sin(phi)], [-np.sin(phi), np.cos(phi)]]) @ np.diag([0.01, 0.013]) if kind != 'r' else np.diag([0.01, 0.013])
    y, x = np.meshgrid(np.arange(ny + 1.0), np.arange(nx + 1.0), indexing='ij')
    o = np.array([-88.0, 29.0])
    xy = np.stack([x, y], axis=-1) @ a + o
    n = case['n']
    # where the numbers are largest, or anywhere
    j, i = (r.integers(ny, size=n), r.integers(nx, size=n)) if not case['far'] else (ny - 1 - r.integers(min(ny, 9), size=n), nx - 1 - r.integers(min(nx, 99), size=n))
    l, m = r.uniform(.05, .95, (2, n))
    if kind[0] == 'u':
        l, m = np.where(abs(l - m) < .02, .9, l), np.where(abs(l - m) < .02, .1, m)
    pts = np.column_stack([i + l, j + m]) @ a + o
    w4 = [(1 - l) * (1 - m), l * (1 - m), l * m, (1 - l) * m]
    dry = np.zeros(n, bool)
    if kind[0] == 'u':
        k = np.arange((ny + 1) * (nx + 1)).reshape(ny + 1, nx + 1)
        p = [k[:-1, :-1].ravel(), k[:-1, 1:].ravel(), k[1:, 1:].ravel(), k[1:, :-1].ravel()]
        turn = r.permutation(k.size)
        faces = np.concatenate([np.column_stack([p[0], p[1], p[2]]), np.column_stack([p[0], p[2], p[3]])])
        nodes = np.empty((k.size, 2))
        nodes[turn] = xy.reshape(-1, 2)
        faces = turn[faces]
        g = Grid_U(nodes=nodes, faces=faces)
        cell = j * nx + i + np.where(m > l, ny * nx, 0)
        loc = kind[2:]
        data = r.normal(size=len(nodes) if loc == 'node' else len(faces))
        if loc == 'node':
            q = faces[cell]
            # the barycentric weights in the lower and upper triangle
            w = np.where((m > l)[:, None], np.column_stack([1 - m, l, m - l]), np.column_stack([1 - l, l - m, m]))
            want = (data[q] * w).sum(axis=1)
        else:
            want = data[cell]
        where = np.asarray(g.locate_faces(pts)).ravel()
        check(np.array_equal(where, cell), 'faces of points on a mesh of %d faces' % len(faces), where, cell)
    else:
        loc = kind[2:] if kind[0] == 's' else 'node'
        data = r.normal(size=(ny + 1, nx + 1) if loc == 'node' else (ny, nx))
        if kind[0] == 's':
            kw = {}
            if case['land']:
                land = r.random((ny, nx)) < .3
                kw = dict(center_mask=land, face_padding=('none', 'none'))
                dry = land[j, i]
            g = Grid_S(node_lon=xy[..., 0].copy(), node_lat=xy[..., 1].copy(), **kw)
        else:
            g = Grid_R(node_lon=xy[0, :, 0].copy(), node_lat=xy[:, 0, 1].copy())
        want = data[j, i] if loc == 'center' else data[j, i] * w4[0] + data[j, i + 1] * w4[1] + data[j + 1, i + 1] * w4[2] + data[j + 1, i] * w4[3]
        where = g.locate_faces(pts)
        v, gone = values_and_mask(where)
        if kind[0] == 's':
            gone = gone.any(axis=1) | (v < 0).any(axis=1)
            check((gone == dry).all(), 'points on land, of a grid of %d cells' % (ny * nx), gone, dry)
            check((v[~dry] == np.column_stack([j, i])[~dry]).all(), 'cells of points on a grid of %d x %d cells' % (ny, nx), v, np.column_stack([j, i]))
    got = g.interpolate_var_to_points(pts, data, location=loc)
    close_masked(got, want, dry, '%s values of a grid of many cells' % kind, rtol=1e-6, atol=1e-6)
    ctx.label(kind, 'land' if dry.any() else 'no land', 'many cells')
