"""C02: interpolation on curvilinear grids"""
import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from gridded.grids import Grid_S
from gridded.pysgrid.sgrid import SGrid
from vlib.core import Scenario, check, close_masked
from vlib.large import cells_case, large_case, run_cells, run_large
from vlib.gens import D, SEED, convex_ok, curv, curv_case, curv_points, pick

PAD = {'none': (0, 0), None: (0, 0), 'low': (1, 0), 'high': (0, 1), 'both': (1, 1)}
NAMES = {'node': ['node', 'nodes', 'psi', 'vertex', 'vertices', 'point', 'points'],
         'center': ['center', 'centers', 'face', 'faces', 'cell', 'cells'],
         'edge1': ['edge1', 'u'], 'edge2': ['edge2', 'v']}


def layout(loc, ny, nx, pads):
    """shape of the data of a grid of ny x nx cells, and the offset of cell (0, 0)'s own (first) value"""
    p0, p1 = PAD[pads[0]], PAD[pads[1]]
    base = {'node': (ny + 1, nx + 1), 'center': (ny, nx), 'edge1': (ny, nx + 1), 'edge2': (ny + 1, nx)}[loc]
    return (base[0] + sum(p0), base[1] + sum(p1)), (p0[0], p1[0])


def corners(loc, ji, lm, off):
    """[(row, column, weight)] of the values a point is made of"""
    j, i = ji[0] + off[0], ji[1] + off[1]
    l, m = lm
    if loc == 'center':
        return [(j, i, 1.0)]
    if loc == 'edge1':
        return [(j, i, 1 - l), (j, i + 1, l)]
    if loc == 'edge2':
        return [(j, i, 1 - m), (j + 1, i, m)]
    return [(j, i, (1 - l) * (1 - m)), (j, i + 1, l * (1 - m)), (j + 1, i, (1 - l) * m), (j + 1, i + 1, l * m)]


def spread(xy):
    a = np.hypot(*(xy[1:] - xy[:-1]).reshape(-1, 2).T).min()
    b = np.hypot(*(xy[:, 1:] - xy[:, :-1]).reshape(-1, 2).T).min()
    return np.abs(xy).max() / min(a, b)


def geometry(case, r, cells=None):
    g = curv(case['grid'])
    xy = g['xy']
    check_ok = convex_ok(xy)
    p = curv_points(xy, g['outside'], r, case['n'], cells=cells)
    return g, xy, p, check_ok


def pads_of(case, loc):
    """(center, edge1, edge2, node) paddings, and those of loc"""
    c = tuple(case['pad'])
    if loc == 'node':
        npad = tuple(case['npad'])
        return c, None, None, npad, npad
    if loc == 'center':
        return c, None, None, None, c
    e = case['epad']           # None: follow the padding of the centers
    if loc == 'edge1':
        return c, (None if e is None else (e, None)), None, None, ((c[0] if e is None else e), None)
    return c, None, (None if e is None else (None, e)), None, (None, (c[1] if e is None else e))


def build(cls, xy, case, loc, **kw):
    c, e1, e2, npad, own = pads_of(case, loc)
    kw.setdefault('masked_interpolant_behavior', 'zero')
    return cls(node_lon=xy[..., 0].copy(), node_lat=xy[..., 1].copy(), face_padding=c, edge1_padding=e1, edge2_padding=e2,
               node_padding=npad, **kw), own


def ask(case, g, xy_pts, data, loc, r):
    name = NAMES[loc][int(r.integers(len(NAMES[loc])))] if case['alias'] else loc
    if case['via'] == 'grid':
        if case['extra']:
            full = np.ma.array(r.normal(size=(3,) + data.shape))
            full[1] = data
            if not np.ma.isMA(data):
                full = full.filled()
            return g.interpolate_var_to_points(xy_pts, full, location=name, slices=(1,))
        return g.interpolate(xy_pts, data, location=name)
    v = Variable(name='v', data=data, grid=g, location=name if name in ('node', 'face', 'center', 'edge1', 'edge2') else loc)
    res = v.at(xy_pts, None)
    check(np.shape(res) == (len(xy_pts), 1), 'Variable.at gives one row per point', np.shape(res))
    return res


def run_plain(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    g, xy, p, ok = geometry(case, r)
    if not ok:
        ctx.label('not convex')
        return ctx.trivial()
    loc = case['loc']
    cls = SGrid if case['via'] == 'grid' else Grid_S
    grid, own = build(cls, xy, case, loc)
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    shape, off = layout(loc, ny, nx, own)
    data = r.normal(size=shape) * case['scale']
    outside = p['ji'][:, 0] < 0
    want = np.array([0.0 if o else sum(data[a, b] * w for a, b, w in corners(loc, ji, lm, off))
                     for ji, lm, o in zip(p['ji'], p['lm'], outside)])
    before = data.copy()
    got = ask(case, grid, p['points'], data, loc, r)
    tol = (1e-8 + 2e-11 * spread(xy)) * (np.abs(data).max() + 1e-300)
    close_masked(got, want, outside, '%s data on a curvilinear grid' % loc, rtol=0, atol=tol)
    check(np.array_equal(data, before), 'the data was modified')
    k = int(r.integers(len(want)))
    one = ask(case, grid, p['points'][k:k + 1], data, loc, r)
    close_masked(one, want[k:k + 1], outside[k:k + 1], '%s data, one of the points on its own' % loc, rtol=0, atol=tol)
    if case['via'] == 'grid' and (~outside).any():
        # cells that were located before may be passed
        ind = grid.locate_faces(p['points'])
        keep = ind.copy()
        pre = grid.interpolate_var_to_points(p['points'], data, location=loc, indices=ind)
        close_masked(pre, want, outside, '%s data, with indices given' % loc, rtol=0, atol=tol)
        check(np.array_equal(ind.data, keep.data) and np.array_equal(np.ma.getmaskarray(ind), np.ma.getmaskarray(keep)),
              'the indices given were modified')
    if case['via'] == 'grid':
        un = grid.interpolate_var_to_points(p['points'], data, location=loc, unmask=True, fill_value=-77.0)
        check(not np.ma.is_masked(un), 'unmask gives no masked values')
        close_masked(un, np.where(outside, -77.0, want), np.zeros(len(want), bool), 'unmask', rtol=0, atol=tol)
    ctx.label(loc, case['via'], 'outside' if outside.any() else 'inside', 'padded' if any(sum(PAD[q]) for q in own) else 'unpadded')
    ctx.nontrivial((~outside).any())


def run_inferred(case, ctx):
    """location and padding found from the shapes of the data and the coordinates"""
    r = np.random.default_rng([case['seed'], 0])
    g, xy, p, ok = geometry(case, r)
    if not ok:
        return ctx.trivial()
    loc = case['loc']
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    pad = case['pad']
    if loc in ('edge1', 'edge2'):
        pad = 'both'          # only these can be told apart by their shapes
    cshape, _ = layout('center', ny, nx, (pad, pad))
    kw = dict(center_lon=np.zeros(cshape), center_lat=np.zeros(cshape))
    own = {'node': (None, None), 'center': (pad, pad), 'edge1': (pad, None), 'edge2': (None, pad)}[loc]
    shape, off = layout(loc, ny, nx, own)
    for e in ('edge1', 'edge2'):
        eshape, _ = layout(e, ny, nx, {'edge1': (pad, None), 'edge2': (None, pad)}[e])
        kw[e + '_lon'] = np.zeros(eshape)
        kw[e + '_lat'] = np.zeros(eshape)
    cls = SGrid if case['via'] == 'grid' else Grid_S
    grid = cls(node_lon=xy[..., 0].copy(), node_lat=xy[..., 1].copy(), **kw)
    data = r.normal(size=shape)
    check(grid.infer_location(data) == loc, 'inferred location', grid.infer_location(data), loc)
    outside = p['ji'][:, 0] < 0
    want = np.array([0.0 if o else sum(data[a, b] * w for a, b, w in corners(loc, ji, lm, off))
                     for ji, lm, o in zip(p['ji'], p['lm'], outside)])
    if case['via'] == 'grid':
        got = grid.interpolate_var_to_points(p['points'], data)
    else:
        v = Variable(name='v', data=data, grid=grid)
        check(v.location == loc, 'location of the Variable', v.location, loc)
        got = v.at(p['points'], None)
    close_masked(got, want, outside, '%s data, location inferred' % loc, rtol=0, atol=(1e-8 + 2e-11 * spread(xy)) * 10)
    ctx.label(loc, pad)
    ctx.nontrivial((~outside).any())


def inferred_case():
    return D(grid=curv_case(5), n=st.integers(1, 8), loc=pick('node', 'center', 'edge1', 'edge2'), pad=pick('none', 'both'),
             via=pick('grid', 'variable'), seed=SEED)


PADS = pick('none', 'low', 'high', 'both')


def plain_case():
    return D(grid=curv_case(), n=st.integers(1, 10), loc=pick('node', 'node', 'center', 'edge1', 'edge2'),
             pad=st.tuples(PADS, PADS).map(list), epad=pick(None, 'none', 'low', 'high', 'both'),
             npad=pick([None, None], [None, None], ['low', 'low'], ['none', 'both'], ['high', 'none']),
             via=pick('grid', 'variable'), alias=st.booleans(), extra=st.booleans(), scale=pick(1.0, 1e5, 1e-4), seed=SEED)


def run_masked(case, ctx):
    """masked values, and land in the center mask, on edges; masked nodes and centers"""
    r = np.random.default_rng([case['seed'], 0])
    g = curv(case['grid'])
    xy = g['xy']
    if not convex_ok(xy):
        ctx.label('not convex')
        return ctx.trivial()
    loc = case['loc']
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    cpad = tuple(case['pad'])
    cshape, coff = layout('center', ny, nx, cpad)
    kw = {'masked_interpolant_behavior': case['behavior']}
    land = np.zeros(cshape, bool)
    if case['land'] > 0:
        land = r.random(cshape) < case['land']
        kw['center_mask'] = land.copy() if case['land_kind'] == 'bool' else np.where(land, 1, 0)
    cells = [(j, i) for j in range(ny) for i in range(nx) if not land[j + coff[0], i + coff[1]]]
    if not cells:
        return ctx.trivial()
    p = curv_points(xy, g['outside'], r, case['n'], cells=cells)
    cls = SGrid if case['via'] == 'grid' else Grid_S
    grid, own = build(cls, xy, case, loc, **kw)
    shape, off = layout(loc, ny, nx, own)
    mask = r.random(shape) < case['frac']
    data = r.normal(size=shape)
    junk = np.where(mask, 1e20, data)
    arg = np.ma.array(junk, mask=mask)
    want, wmask = [], []
    for ji, lm in zip(p['ji'], p['lm']):
        if ji[0] < 0:
            want.append(0.0)
            wmask.append(True)
            continue
        parts = corners(loc, ji, lm, off)
        vals = [data[a, b] for a, b, w in parts]
        ws = [w for a, b, w in parts]
        ms = [bool(mask[a, b]) for a, b, w in parts]
        if loc in ('edge1', 'edge2'):
            cj, ci = ji[0] + coff[0], ji[1] + coff[1]
            d = (0, 1) if loc == 'edge1' else (1, 0)
            for k, s in ((0, -1), (1, 1)):
                nj = min(max(cj + s * d[0], 0), cshape[0] - 1)
                ni = min(max(ci + s * d[1], 0), cshape[1] - 1)
                # the edge between water and land
                ms[k] = ms[k] or (land[nj, ni] != land[cj, ci])
            if case['behavior'] == 'mask' and any(ms):
                want.append(0.0)
                wmask.append(True)
                continue
            if case['behavior'] == 'mirror':
                if all(ms):
                    return ctx.trivial()     # there is nothing to mirror
                vals = [(-vals[1 - k] if ms[k] else vals[k]) for k in (0, 1)]
            else:
                vals = [0.0 if q else v for v, q in zip(vals, ms)]
        else:
            if all(ms):
                want.append(0.0)
                wmask.append(True)
                continue
            vals = [0.0 if q else v for v, q in zip(vals, ms)]
        want.append(sum(v * w for v, w in zip(vals, ws)))
        wmask.append(False)
    before = (arg.data.copy(), mask.copy())
    got = ask(case, grid, p['points'], arg, loc, r)
    tol = (1e-8 + 2e-11 * spread(xy)) * 10
    close_masked(got, want, wmask, '%s data with masked values (%s)' % (loc, case['behavior']), rtol=0, atol=tol)
    check(np.array_equal(arg.data, before[0]) and np.array_equal(np.ma.getmaskarray(arg), before[1]), 'the data was modified')
    ctx.label(loc, case['behavior'], 'land' if land.any() else 'no land', 'masked result' if any(wmask) else 'no masked result')
    ctx.nontrivial(mask.any() or land.any())


def masked_case():
    return D(grid=curv_case(6), n=st.integers(1, 6), loc=pick('edge1', 'edge2', 'edge1', 'edge2', 'node', 'center'),
             pad=st.tuples(PADS, PADS).map(list), epad=pick(None, None, 'none', 'both', 'low'), npad=pick([None, None]),
             behavior=pick('zero', 'mask', 'mirror'), land=pick(0.0, 0.2, 0.5), land_kind=pick('bool', 'int'), frac=pick(0.0, 0.2, 0.5),
             via=pick('grid', 'variable'), alias=st.booleans(), extra=pick(False), seed=SEED)


def run_constant(case, ctx):
    """a constant variable has its value everywhere"""
    v = Variable.constant(case['value'])
    r = np.random.default_rng([case['seed'], 0])
    pts = np.column_stack([r.uniform(-360, 360, case['n']), r.uniform(-90, 90, case['n'])])
    # also where longitudes and latitudes end, or grids are joined
    for k in range(case['n']):
        if r.random() < .4:
            pts[k, 0] = r.choice([-360.0, -180.0, 0.0, 180.0, 360.0])
        if r.random() < .4:
            pts[k, 1] = r.choice([-90.0, -89.97, 0.0, 45.0, 90.0])
    got = v.at(pts, None)
    close_masked(got, np.full(case['n'], case['value']), np.zeros(case['n'], bool), 'Variable.constant', rtol=1e-9, atol=1e-12)


def constant_case():
    return D(value=pick(0.0, 1.0, -3.5, 1e6, 0.001), n=st.integers(1, 6), seed=SEED)


SCENARIOS = [
    Scenario('many cells', lambda: cells_case(['s_node', 's_center']), run_cells, quick=16),
    Scenario('many points', lambda: large_case(['s_node', 's_center', 's_edge1', 's_edge2']), run_large, quick=240),
    Scenario('plain', plain_case, run_plain, quick=8000),
    Scenario('inferred', inferred_case, run_inferred, quick=2400, weight=.5),
    Scenario('masked', masked_case, run_masked, quick=9600),
    Scenario('constant', constant_case, run_constant, quick=160, weight=.2),
]
