"""A grid of any kind, the shape of its data, points on it, and the reference interpolation to them."""
import numpy as np
from hypothesis import strategies as st

from vlib.gens import (D, IDENTITY, SEED, curv, curv_points, convex_ok, flex_points, flexmesh, pick, tri_points, trimesh)

KINDS = ['u_node', 'u_face', 's_node', 's_center', 's_edge1', 's_edge2', 'r']


def field_case(kinds=KINDS, max_points=6, big=False):
    """big: some with more cells and many more points"""
    side = pick(*[2, 3, 4, 5] * 6, 9, 17) if big else st.integers(2, 5)
    n = pick(*list(range(1, max_points + 1)) * 6, 70, 300) if big else st.integers(1, max_points)
    return D(kind=pick(*kinds), a=side, b=side, jitter=st.booleans(), pad=pick('none', 'both', 'low', 'high'),
             n=n, out=st.booleans(), seed=SEED)


class Field:
    """grid, shape (of the data on it), points (n, 2), outside (n,), location, ref(data) -> (values, mask)"""

    def __init__(self, c, base=False):
        from gridded.grids import Grid_R, Grid_S, Grid_U
        r = np.random.default_rng([c['seed'], 77])
        kind = c['kind']
        a, b, n = c['a'], c['b'], c['n']
        aff = dict(IDENTITY, rot=int(r.integers(8)) if c['jitter'] else 0, origin=[-88.0, 29.0] if c['jitter'] else [0.0, 0.0])
        p_out = 0.25 if c['out'] else 0.0
        self.kind = kind
        if kind[0] == 'u':
            m = trimesh(dict(nx=a, ny=b, jitter=0.3 if c['jitter'] else 0.0, drop=int(r.integers(3)), diag='random', wind='random',
                             perm=True, isolated=0, affine=aff, seed=c['seed']))
            self.mesh = m
            p = tri_points(m, r, n)
            keep = p['face'] >= 0
            if not c['out']:
                p = tri_points(dict(m, outside=m['nodes'][m['faces'][0]].mean(axis=0)[None], holes=np.zeros((0, 2))), r, n)
                # the "outside" points are in face 0
                o = p['face'] < 0
                p['face'][o] = 0
                p['weights'][o] = 1 / 3.
            self.make_grid = lambda: Grid_U(nodes=m['nodes'].copy(), faces=m['faces'].copy())
            self.location = 'node' if kind == 'u_node' else 'face'
            self.shape = (len(m['nodes']),) if kind == 'u_node' else (len(m['faces']),)
            self.outside = p['face'] < 0
            self.points = p['points']
            f, w = p['face'], p['weights']
            if kind == 'u_node':
                self.terms = [[((int(k),), float(x)) for k, x in zip(m['faces'][fi], wi)] if fi >= 0 else [] for fi, wi in zip(f, w)]
            else:
                self.terms = [[((int(fi),), 1.0)] if fi >= 0 else [] for fi in f]
            self.mask_outside = False
        elif kind[0] == 's':
            while True:
                g = curv(dict(ny=a, nx=b, jitter=0.15 if c['jitter'] else 0.0, shape='plain', transpose=bool(r.integers(2)), rev0=bool(r.integers(2)),
                              rev1=bool(r.integers(2)), affine=aff, seed=c['seed']))
                if convex_ok(g['xy']):
                    break
                c = dict(c, jitter=False)
            xy = self.xy = g['xy']
            p = curv_points(xy, g['outside'], r, n, p_in=1 - p_out)
            loc = kind[2:]
            from checks.c02 import corners, layout
            pad = c['pad']
            own = {'node': (None, None), 'center': (pad, pad), 'edge1': (pad, None), 'edge2': (None, pad)}[loc]
            self.shape, off = layout(loc, xy.shape[0] - 1, xy.shape[1] - 1, own)
            self.make_grid = lambda: Grid_S(node_lon=xy[..., 0].copy(), node_lat=xy[..., 1].copy(), face_padding=(pad, pad))
            self.location = loc
            self.points = p['points']
            self.outside = p['ji'][:, 0] < 0
            self.terms = [[((i, j), w) for i, j, w in corners(loc, ji, lm, off)] if ji[0] >= 0 else [] for ji, lm in zip(p['ji'], p['lm'])]
            self.mask_outside = True
        else:
            ny, nx = a, b
            if ny == nx:
                nx += 1
            lon = np.cumsum(r.uniform(0.5, 1.5, nx))
            lat = np.cumsum(r.uniform(0.5, 1.5, ny))
            if c['jitter']:
                lon, lat = lon - 90.0, lat[::-1] + 30.0
            self.axes = (lon, lat)
            self.make_grid = lambda: Grid_R(node_lon=lon.copy(), node_lat=lat.copy())
            self.location = 'node'
            self.shape = (ny, nx)
            pts, terms, outside = [], [], []
            for k in range(n):
                if r.random() < p_out:
                    pts.append((lon.max() + 5.0, lat.mean()))
                    terms.append([])
                    outside.append(True)
                    continue
                j, i = int(r.integers(ny - 1)), int(r.integers(nx - 1))
                l, m = r.uniform(0.03, 0.97, 2)
                pts.append((lon[i] + l * (lon[i + 1] - lon[i]), lat[j] + m * (lat[j + 1] - lat[j])))
                terms.append([((j, i), (1 - l) * (1 - m)), ((j, i + 1), l * (1 - m)), ((j + 1, i), (1 - l) * m), ((j + 1, i + 1), l * m)])
                outside.append(False)
            self.points = np.array(pts, dtype=float)
            self.terms = terms
            self.outside = np.array(outside)
            self.mask_outside = False
        self.n = n

    def ref(self, data):
        """values at the points (0 outside) of data of shape self.shape"""
        return np.array([sum(float(data[ix]) * w for ix, w in t) for t in self.terms], dtype=float)

    @property
    def want_mask(self):
        return self.outside if self.mask_outside else np.zeros(self.n, bool)
