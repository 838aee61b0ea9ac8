"""Strategies for JSON-able cases, and the builders that make meshes, grids and points of them."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2 ** 31 - 1)


def D(**kw):
    return st.fixed_dictionaries(kw)


def pick(*a):
    return st.sampled_from(list(a))


# ---------------------------------------------------------------- affine maps
def affine_case(scales=()):
    return D(rot=pick(0, 1, 2, 3, 4, 5, 6, 7), scale=pick(1.0, 1.0, 0.01, 20.0, 1e-3, *scales), aspect=pick(1.0, 1.0, 3.0, 0.25),
             shear=pick(0.0, 0.0, 0.5, -0.7), flip=st.booleans(), tilt=pick(0.0, 0.0, 0.0, 0.0, 1e-12, 1e-10, -1e-9, 1e-7, 1e-5),
             origin=pick([0.0, 0.0], [-88.0, 29.0], [179.0, -60.0], [500.0, 1000.0], [-0.3, 0.4]))


IDENTITY = dict(rot=0, scale=1.0, aspect=1.0, shear=0.0, flip=False, origin=[0.0, 0.0])


def affine(case, xy):
    a = case
    # almost, but not exactly, along the axes
    t = a['rot'] * np.pi / 4 + (0.1 if a['rot'] % 2 else 0.0) + a.get('tilt', 0.0)
    m = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    m = m @ np.array([[1.0, a['shear']], [0.0, 1.0]]) @ np.diag([a['aspect'], -1.0 if a['flip'] else 1.0])
    return (xy @ m.T) * a['scale'] + np.array(a['origin'])


# ---------------------------------------------------------------- triangular meshes
def trimesh_case(max_n=6, scales=()):
    return D(nx=st.integers(2, max_n), ny=st.integers(2, max_n), jitter=pick(0.0, 0.1, 0.1, 0.3, 0.3, 1e-10, 1e-6), drop=pick(0, 0, 1, 2, 5),
             diag=pick('a', 'b', 'random'), wind=pick('ccw', 'cw', 'random'), perm=st.booleans(),
             isolated=pick(0, 0, 1), affine=affine_case(scales), seed=SEED)


def trimesh(c):
    """dict(nodes (N,2), faces (M,3), holes: centroids of the dropped triangles (H,2), box, scale)

    Triangles of a jittered lattice do not overlap: the jitter is at most .3 of
    the spacing in each direction, which keeps all the triangles the same way around.
    """
    r = np.random.default_rng([c['seed'], 1])
    nx, ny = c['nx'], c['ny']
    x, y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    x = x + r.uniform(-1, 1, x.shape) * c['jitter'] * 0.8
    y = y + r.uniform(-1, 1, x.shape) * c['jitter'] * 0.8
    xy = np.column_stack([x.ravel(), y.ravel()])
    tris = []
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, d, e = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            diag = c['diag'] if c['diag'] != 'random' else ('a' if r.random() < .5 else 'b')
            t = [[a, b, d], [a, d, e]] if diag == 'a' else [[a, b, e], [b, d, e]]
            # a cell may not be convex: use the diagonal for which both triangles are ccw
            if min(_area(xy[k]) for k in t) < 0.05:
                t = [[a, b, e], [b, d, e]] if diag == 'a' else [[a, b, d], [a, d, e]]
            tris += t
    tris = np.array(tris)
    drop = min(c['drop'], len(tris) - 1)
    out = r.permutation(len(tris))[:drop]
    holes = xy[tris[out]].mean(axis=1) if drop else np.zeros((0, 2))
    keep = np.setdiff1d(np.arange(len(tris)), out)
    if c['perm']:
        keep = r.permutation(keep)
    tris = tris[keep]
    # rotation of the nodes of a face and its winding do not matter
    tris = np.array([np.roll(t, k) for t, k in zip(tris, r.integers(0, 3, len(tris)))])
    if c['wind'] != 'ccw':
        for k in range(len(tris)):
            if c['wind'] == 'cw' or r.random() < .5:
                tris[k] = tris[k][::-1]
    if c['isolated']:
        xy = np.vstack([xy, [[nx + 3.0, ny + 3.0]]])
    if c['perm']:
        p = r.permutation(len(xy))           # new position of node k
        new = np.empty_like(xy)
        new[p] = xy
        xy, tris = new, p[tris]
    box = np.array([[-1.0, -1.0], [nx, ny]])
    outside = np.array([[-2.0, -1.5], [nx + 1.0, 0.3], [0.2, ny + 1.5], [-5.0, ny * 3.0], [nx * 10.0, -ny * 4.0]])
    # unmapped coordinates stay available, to make points with known positions
    return dict(nodes=affine(c['affine'], xy), faces=tris.astype(np.int32), holes=affine(c['affine'], holes),
                outside=affine(c['affine'], outside), box=box)


def _area(t):
    return 0.5 * ((t[1, 0] - t[0, 0]) * (t[2, 1] - t[0, 1]) - (t[2, 0] - t[0, 0]) * (t[1, 1] - t[0, 1]))


def tri_points(mesh, r, n, holes=True):
    """n points with known answers: dict(points, face (-1 outside), weights (n,3))"""
    pts, face, w = [], [], []
    nodes, faces = mesh['nodes'], mesh['faces']
    for k in range(n):
        u = r.random()
        if u < 0.75:
            f = int(r.integers(len(faces)))
            b = r.dirichlet([1.0, 1.0, 1.0]) * 0.91 + 0.03
            pts.append(b @ nodes[faces[f]])
            face.append(f)
            w.append(b)
        else:
            h = mesh['holes'] if (holes and len(mesh['holes']) and r.random() < .6) else mesh['outside']
            pts.append(h[int(r.integers(len(h)))])
            face.append(-1)
            w.append([0.0, 0.0, 0.0])
    return dict(points=np.array(pts, dtype=float).reshape(-1, 2), face=np.array(face, dtype=int),
                weights=np.array(w, dtype=float).reshape(-1, 3))


# ---------------------------------------------------------------- flexible meshes (triangles and quads, some pentagons)
def flexmesh_case(max_n=5):
    return D(nx=st.integers(2, max_n), ny=st.integers(2, max_n), jitter=pick(0.0, 0.08, 0.15), drop=pick(0, 0, 1, 3),
             split=pick(0.0, 0.3, 0.5, 1.0), pent=st.booleans(), wind=pick('ccw', 'cw', 'random'), perm=st.booleans(),
             affine=affine_case(), seed=SEED)


def flexmesh(c):
    """dict(nodes, polys: list of lists of node numbers, faces: masked array (M, max))"""
    r = np.random.default_rng([c['seed'], 2])
    nx, ny = c['nx'], c['ny']
    x, y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    x = x + r.uniform(-1, 1, x.shape) * c['jitter']
    y = y + r.uniform(-1, 1, x.shape) * c['jitter']
    xy = np.column_stack([x.ravel(), y.ravel()]).tolist()
    polys = []
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, d, e = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            if r.random() < c['split']:
                if r.random() < .5:
                    polys += [[a, b, d], [a, d, e]]
                else:
                    polys += [[a, b, e], [b, d, e]]
            else:
                q = [a, b, d, e]
                if c['pent'] and j == ny - 2 and r.random() < .6:
                    # a convex pentagon: one more node above the upper edge (on the border of the mesh)
                    xy.append([0.5 * (xy[d][0] + xy[e][0]), max(xy[d][1], xy[e][1]) + 0.3])
                    q = [a, b, d, len(xy) - 1, e]
                polys.append(q)
    xy = np.array(xy)
    drop = min(c['drop'], len(polys) - 1)
    order = r.permutation(len(polys))
    out, keep = order[:drop], order[drop:]
    holes = np.array([xy[polys[k]].mean(axis=0) for k in out]).reshape(-1, 2)
    keep = keep if c['perm'] else np.sort(keep)
    polys = [polys[k] for k in keep]
    new = []
    for p in polys:
        k = int(r.integers(len(p)))
        p = p[k:] + p[:k]
        if c['wind'] == 'cw' or (c['wind'] == 'random' and r.random() < .5):
            p = p[::-1]
        new.append([int(q) for q in p])
    polys = new
    m = max(len(p) for p in polys)
    faces = np.ma.masked_all((len(polys), m), dtype=np.int32)
    for k, p in enumerate(polys):
        faces[k, :len(p)] = p
    outside = np.array([[-2.0, -1.5], [nx + 1.0, 0.3], [0.2, ny + 1.5], [nx * 10.0, -ny * 4.0]])
    return dict(nodes=affine(c['affine'], xy), polys=polys, faces=faces, holes=affine(c['affine'], holes),
                outside=affine(c['affine'], outside))


def flex_points(mesh, r, n):
    pts, face = [], []
    for k in range(n):
        if r.random() < .75:
            f = int(r.integers(len(mesh['polys'])))
            p = mesh['nodes'][mesh['polys'][f]]
            w = r.dirichlet(np.ones(len(p))) * 0.85 + 0.15 / len(p)
            pts.append(w @ p)
            face.append(f)
        else:
            h = mesh['holes'] if (len(mesh['holes']) and r.random() < .6) else mesh['outside']
            pts.append(h[int(r.integers(len(h)))])
            face.append(-1)
    return dict(points=np.array(pts, dtype=float).reshape(-1, 2), face=np.array(face, dtype=int))


# ---------------------------------------------------------------- curvilinear grids
def curv_case(max_n=7):
    return D(ny=st.integers(2, max_n), nx=st.integers(2, max_n), jitter=pick(0.0, 0.1, 0.1, 0.2, 0.2, 1e-11, 1e-9, 1e-6), shape=pick('plain', 'polar', 'wave'),
             transpose=st.booleans(), rev0=st.booleans(), rev1=st.booleans(), affine=affine_case(), seed=SEED)


def curv(c):
    """node coordinates (ny, nx, 2) of a grid of convex cells; outside points"""
    r = np.random.default_rng([c['seed'], 3])
    ny, nx = c['ny'], c['nx']
    x, y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    j = c['jitter'] * 0.9
    x = x + r.uniform(-1, 1, x.shape) * j
    y = y + r.uniform(-1, 1, x.shape) * j
    out = np.array([[-3.0, -2.5], [nx + 2.0, 0.3], [0.2, ny + 2.5], [nx * 8.0, -ny * 4.0]])
    if c['shape'] == 'polar':
        # angle over at most 3/4 of a circle, radius away from 0
        def f(px, py):
            t = (px + 1.0) / (nx + 1.0) * 1.5 * np.pi
            if c['nx'] < 4:
                t = t / 3.0
            rad = py + 6.0
            return np.stack([rad * np.cos(t), rad * np.sin(t)], axis=-1)
        xy = f(x, y)
        out = np.array([[0.1, -0.1], [50.0, 3.0], [-60.0, -80.0], [0.3, 300.0]])
    elif c['shape'] == 'wave':
        xy = np.stack([x + 0.4 * np.sin(0.5 * y), y + 0.3 * np.cos(0.6 * x)], axis=-1)
    else:
        xy = np.stack([x, y], axis=-1)
    if c['transpose']:
        xy = xy.transpose(1, 0, 2)
    if c['rev0']:
        xy = xy[::-1]
    if c['rev1']:
        xy = xy[:, ::-1]
    xy = np.ascontiguousarray(xy)
    shp = xy.shape
    return dict(xy=affine(c['affine'], xy.reshape(-1, 2)).reshape(shp), outside=affine(c['affine'], out))


def convex_ok(xy):
    """every cell strictly convex, all with the same orientation"""
    a, b, d, e = xy[:-1, :-1], xy[:-1, 1:], xy[1:, 1:], xy[1:, :-1]
    signs = []
    q = [a, b, d, e]
    for k in range(4):
        u, v = q[(k + 1) % 4] - q[k], q[(k + 2) % 4] - q[(k + 1) % 4]
        signs.append((u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]) /
                     (np.hypot(u[..., 0], u[..., 1]) * np.hypot(v[..., 0], v[..., 1])))
    s = np.array(signs)
    return bool((s > 0.05).all() or (s < -0.05).all())


def curv_points(xy, outside, r, n, cells=None, margin=0.05, p_in=0.8):
    """points from known (row, column, l, m): l along dimension 1, m along dimension 0.

    index is (-1, -1) outside
    """
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    pts, ji, lm = [], [], []
    for k in range(n):
        if r.random() < p_in:
            if cells is not None:
                j, i = cells[int(r.integers(len(cells)))]
            else:
                j, i = int(r.integers(ny)), int(r.integers(nx))
            l, m = r.uniform(margin, 1 - margin, 2)
            p = ((1 - m) * ((1 - l) * xy[j, i] + l * xy[j, i + 1]) + m * ((1 - l) * xy[j + 1, i] + l * xy[j + 1, i + 1]))
            pts.append(p)
            ji.append((j, i))
            lm.append((l, m))
        else:
            pts.append(outside[int(r.integers(len(outside)))])
            ji.append((-1, -1))
            lm.append((0.0, 0.0))
    return dict(points=np.array(pts, dtype=float).reshape(-1, 2), ji=np.array(ji, dtype=int).reshape(-1, 2),
                lm=np.array(lm, dtype=float).reshape(-1, 2))


# ---------------------------------------------------------------- times
def times_case(min_n=1, max_n=6):
    return D(n=st.integers(min_n, max_n), step=pick(1, 60, 3600, 86400, 12345), irregular=st.booleans(),
             year=pick(1900, 1970, 2000, 2012, 2015, 2024), micro=st.booleans(), seed=SEED)


def times(c):
    import datetime
    r = np.random.default_rng([c['seed'], 4])
    t = datetime.datetime(c['year'], int(r.integers(1, 13)), int(r.integers(1, 29)), int(r.integers(0, 24)))
    if c['seed'] % 4 == 0:
        # around a change of the clocks
        t = {2012: datetime.datetime(2012, 3, 11), 2015: datetime.datetime(2015, 11, 1), 2024: datetime.datetime(2024, 3, 10)}.get(c['year'], t)
    out = [t]
    for k in range(c['n'] - 1):
        s = c['step'] * (int(r.integers(1, 6)) if c['irregular'] else 1)
        us = int(r.integers(0, 1000)) * 1000 if c['micro'] else 0
        out.append(out[-1] + datetime.timedelta(seconds=s, microseconds=us))
    return out


ZONE = pick(None, None, 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0')


def zoned(run):
    """run in the local time zone case['zone']: nothing depends on it"""
    def go(case, ctx):
        import os
        import time
        if not case['zone']:
            return run(case, ctx)
        was = os.environ.get('TZ')
        os.environ['TZ'] = case['zone']
        time.tzset()
        try:
            return run(case, ctx)
        finally:
            if was is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = was
            time.tzset()
    return go


def between(t0, t1, num, den):
    """the datetime num/den of the way from t0 to t1, rounded to a microsecond"""
    import datetime
    us = (t1 - t0) // datetime.timedelta(microseconds=1)
    return t0 + datetime.timedelta(microseconds=us * num // den)


# ---------------------------------------------------------------- Delaunay meshes: irregular, with very different sizes of triangles
def delaunay_case(max_n=60):
    return D(n=st.integers(4, max_n), kind=pick('uniform', 'clustered', 'flat', 'ring'), wind=pick('ccw', 'cw', 'random'),
             origin=pick([0.0, 0.0], [-88.0, 29.0]), seed=SEED)


def delaunay(c):
    from scipy.spatial import Delaunay
    r = np.random.default_rng([c['seed'], 5])
    x = r.random((c['n'], 2))
    if c['kind'] == 'clustered':
        x = r.normal(size=(c['n'], 2)) ** 3
    elif c['kind'] == 'flat':
        x = x * [1.0, 0.01]
    elif c['kind'] == 'ring':
        x = np.column_stack([np.cos(x[:, 0] * 5) * (x[:, 1] + .3), np.sin(x[:, 0] * 5) * (x[:, 1] + .3)])
    f = Delaunay(x).simplices
    a = x[f]
    area = np.abs((a[:, 1, 0] - a[:, 0, 0]) * (a[:, 2, 1] - a[:, 0, 1]) - (a[:, 2, 0] - a[:, 0, 0]) * (a[:, 1, 1] - a[:, 0, 1]))
    size = np.ptp(a, axis=1).max(axis=1)
    f = f[(area / size ** 2 > 1e-3) & (size > 1e-3)]
    if len(f) == 0:
        x, f = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]), np.array([[0, 1, 2]])
    f = f[r.permutation(len(f))]
    if c['wind'] != 'ccw':
        for k in range(len(f)):
            if c['wind'] == 'cw' or r.random() < .5:
                f[k] = f[k][::-1]
    span = np.abs(x).max()
    out = np.array([[2.0, 3.0], [-5.0, 0.2], [0.1, -7.0]]) * span
    o = np.array(c['origin'])
    return dict(nodes=x + o, faces=np.ascontiguousarray(f.astype(np.int32)), holes=np.zeros((0, 2)), outside=out + o)
