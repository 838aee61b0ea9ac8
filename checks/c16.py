"""C16: land"""
import datetime

import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from gridded.grids import Grid, Grid_S
from gridded.pysgrid.sgrid import SGrid
from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
from vlib import files
from vlib.core import Scenario, check, values_and_mask
from vlib.large import cells_case, run_cells
from vlib.gens import D, SEED, convex_ok, curv, curv_case, curv_points, pick
from checks.c02 import PAD, corners, layout

T = datetime.datetime(2020, 1, 1)
MEANINGS = [('land', 'water'), ('Land', 'Water'), ('LAND', 'Sea_Water'), ('dry_land', 'lake'), ('island', 'inland_Lake'), ('bank', 'river'), ('land', 'deep_water')]


def land(case, r, shape):
    """True on land"""
    d = case['density']
    if d == 'all':
        return np.ones(shape, bool)
    if d == 'none':
        return np.zeros(shape, bool)
    if d == 'half':
        a = np.zeros(shape, bool)
        k = int(r.integers(shape[1] + 1))
        a[:, :k] = True
        return a
    return r.random(shape) < {'some': .3, 'much': .7}[d]


def dress(kind, a, r, nc, name, dims):
    """the mask a (True on land) as an object of that kind"""
    if kind == 'bool':
        return a.copy()
    if kind == 'int':
        return np.where(a, r.integers(1, 5, a.shape), 0)
    if kind == 'float':
        return np.where(a, r.choice([1.0, 2.5, -1.0], a.shape), 0.0)
    # the fill value may as well be one of the flags: what is missing is still missing
    fill = 77 if kind == 'option' else int(r.choice([77, 77, 12, -1]))
    dt = 'f8' if kind in ('flags f8', 'flags text f8') else r.choice(['i4', 'i4', 'i1', 'i2'])
    v = nc.createVariable(name, dt, dims, fill_value=fill)
    if kind == 'option':
        v.option_0 = 'land'
        v.option_1 = 'water'
        v[:] = ~a
        return v
    lw = MEANINGS[int(r.integers(len(MEANINGS)))]
    lv, wv = [(0, 1), (1, 0), (-2, 1), (2, 7)][int(r.integers(4))]
    # more flags, in any order
    flags = [(lv, lw[0]), (wv, lw[1]), (9, 'mountain'), (12, 'open_water')]
    flags = [flags[k] for k in r.permutation(4)]
    if kind == 'flags text':
        v.flag_values = ' '.join(str(x) for x, m in flags)
    elif kind == 'flags text f8':
        form = ['%.1f', '%d', '%d.'][int(r.integers(3))]
        v.flag_values = ' '.join(form % x for x, m in flags)
    else:
        v.flag_values = np.array([x for x, m in flags], dtype=v.dtype)
    if kind == 'flags list':
        v.setncattr_string('flag_meanings', [m for x, m in flags])
    else:
        v.flag_meanings = ' '.join(m for x, m in flags)
    # 55 is no flag, the fill value is missing: not known to be water
    v[:] = np.where(a, r.choice([lv, lv, 9, 55, fill], a.shape), r.choice([wv, wv, 12] if fill != 12 else [wv], a.shape))
    return v


KINDS = ['bool', 'int', 'float', 'flags', 'flags text', 'flags list', 'flags f8', 'flags text f8', 'option']


def ask_values(case, g, pts, data, loc):
    if case['via'] == 'grid':
        return g.interpolate_var_to_points(pts, data, location=loc)
    if case['via'] == 'memo':
        g.interpolate_var_to_points(pts, data, location=loc, _memo=True)
        return g.interpolate_var_to_points(pts, data, location=loc, _memo=True)
    return Variable(name='v', data=data, grid=g, location=loc).at(pts, T)


def check_values(case, g, pts, p, dry, cm, pads, loc, data, behavior, ctx):
    """dry: per point, True in a land cell; cm: the mask of the centers with its padding (or None)"""
    own = {'node': (None, None), 'center': pads, 'edge1': (pads[0], None), 'edge2': (None, pads[1])}[loc]
    ny, nx = g.node_lon.shape[0] - 1, g.node_lon.shape[1] - 1
    shape, off = layout(loc, ny, nx, own)
    res = ask_values(case, g, pts, data, loc)
    v, m = [x.ravel() for x in values_and_mask(res)]
    check(v.shape == (len(pts),), 'one value per point', np.shape(res))
    dm = np.ma.getmaskarray(data)
    dv = np.ma.filled(data, 0)
    for k in range(len(pts)):
        ji = p['ji'][k]
        if ji[0] < 0 or dry[k]:
            check(m[k], 'a value on land, or outside of the grid: %s data, cell %s' % (loc, ji), res)
            continue
        terms = corners(loc, ji, p['lm'][k], off)
        gone = [bool(dm[i, j]) for i, j, w in terms]
        if cm is not None and loc in ('edge1', 'edge2'):
            # an edge between water and land
            d = (0, 1) if loc == 'edge1' else (1, 0)
            c = (ji[0] + PAD[pads[0]][0], ji[1] + PAD[pads[1]][0])
            for q, sgn in ((0, -1), (1, 1)):
                o = tuple(min(max(c[x] + sgn * d[x], 0), cm.shape[x] - 1) for x in (0, 1))
                gone[q] = gone[q] or bool(cm[o]) != bool(cm[c])
        w = sum(wt * (0.0 if out else dv[i, j]) for (i, j, wt), out in zip(terms, gone))
        if loc in ('edge1', 'edge2'):
            if behavior == 'mask' and any(gone):
                check(m[k], 'masked edge values', res, k)
                continue
            if behavior == 'mirror' and any(gone):
                if all(gone):
                    continue
                (i0, j0, w0), (i1, j1, w1) = terms
                a, b = dv[i0, j0], dv[i1, j1]
                a, b = (a, -a) if gone[1] else (-b, b)
                w = a * w0 + b * w1
        elif all(gone):
            check(m[k], 'all values masked', res, k)
            continue
        check(not m[k] and abs(v[k] - w) < 1e-7 * (1 + abs(dv).max()), '%s value in the water' % loc, res, w, k)


def run(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    grid = curv(case['grid'])
    xy = grid['xy']
    ok = convex_ok(xy)
    if not ok:
        grid = curv(dict(case['grid'], jitter=0.0, shape='plain'))
        xy = grid['xy']
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    p = curv_points(xy, grid['outside'], r, case['n'])
    pts = p['points']
    pads = tuple(case['pad'])
    nc = files.memory()
    try:
        lon, lat = xy[..., 0].copy(), xy[..., 1].copy()
        kw = {}
        cm = None
        what = case['what']
        cells = np.zeros((ny, nx), bool)
        shape, off = layout('center', ny, nx, pads)
        inner = np.s_[off[0]:off[0] + ny, off[1]:off[1] + nx]
        if what in ('center', 'both', 'center junk'):
            cm = land(case, r, shape)
            for n, k in zip('yx', shape):
                nc.createDimension(n, k)
            kw['center_mask'] = dress(case['kind'], cm, r, nc, 'mask_rho', ('y', 'x'))
            cells = cm[inner]
        if what in ('node', 'both', 'coords node'):
            nm = land(case, r, (ny + 1, nx + 1))
            for n, k in zip('vu', nm.shape):
                nc.createDimension(n, k)
            kw['node_mask'] = dress(case['kind'], nm, r, nc, 'mask_psi', ('v', 'u'))
            if what != 'both':       # the mask of the centers counts
                cells = cells | nm[:-1, :-1] | nm[1:, :-1] | nm[:-1, 1:] | nm[1:, 1:]
        if what in ('coords', 'coords node'):
            km = land(case, r, (ny + 1, nx + 1))
            cells = cells | km[:-1, :-1] | km[1:, :-1] | km[:-1, 1:] | km[1:, 1:]
        elif what == 'center junk':
            # nodes with nothing but land around
            km = np.ones((ny + 1, nx + 1), bool)
            for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
                km[a:a + ny, b:b + nx] &= cells
        if what in ('coords', 'coords node', 'center junk'):
            junk = [np.nan, 1e37, 0.0, -999.0][case['seed'] % 4]
            which = case['seed'] // 4 % 3
            # values under the mask mean nothing
            if what != 'center junk' or km.any():
                if which != 1:
                    lon[km] = junk
                    lon = np.ma.array(lon, mask=km)
                if which != 0:
                    lat[km] = junk
                    lat = np.ma.array(lat, mask=km)
        behavior = case['behavior']
        kw['masked_interpolant_behavior'] = behavior

        def make():
            return (Grid_S if case['grid_s'] or case['via'] == 'variable' else SGrid)(node_lon=lon.copy(), node_lat=lat.copy(), face_padding=pads, **kw)
        g = make()
        dry = np.array([ji[0] >= 0 and cells[tuple(ji)] for ji in p['ji']])
        want = np.where((dry | (p['ji'][:, 0] < 0))[:, None], -1, p['ji'])
        got = g.locate_faces(pts)
        check(np.array_equal(np.ma.filled(got, -1), want), 'cells', got, want)
        check(np.array_equal(np.ma.getmaskarray(got), want < 0), 'masked where there is no cell', got)
        one = g.locate_faces(pts[0])
        check(np.array_equal(np.ma.filled(one, -1), want[0]), 'one point', one, want[0])
        ix = g.index_of(pts)
        check(np.array_equal(np.ma.filled(ix, -1), want), 'index_of', ix, want)
        if cm is not None:
            sub = gen_celltree_mask_from_center_mask(kw['center_mask'], inner)
            check(np.array_equal(sub, cells), 'gen_celltree_mask_from_center_mask', sub, cells)
        for loc in case['locs']:
            own = {'node': (None, None), 'center': pads, 'edge1': (pads[0], None), 'edge2': (None, pads[1])}[loc]
            dshape, doff = layout(loc, ny, nx, own)
            data = r.normal(size=dshape)
            if case['missing']:
                data = np.ma.array(data, mask=r.random(dshape) < .2)
            g2 = make() if case['fresh'] else g
            check_values(case, g2, pts, p, dry, cm, pads, loc, data, behavior, ctx)
        if case['ignore'] and what in ('center', 'node', 'both'):
            a = make().locate_faces(pts, use_mask=False)
            check(np.array_equal(np.ma.filled(a, -1), p['ji']), 'cells when masks are not used', a, p['ji'])
        if cm is not None:
            check(np.array_equal(convert_mask_to_numpy_mask(kw['center_mask']), cm), 'the mask', kw['center_mask'][:], cm)
    finally:
        nc.close()
    inside = p['ji'][:, 0] >= 0
    ctx.label(what, case['kind'] if what[:6] != 'coords' else '', *case['locs'], 'pad %s %s' % pads, case['behavior'], case['via'])
    ctx.nontrivial(cells.any() and not cells.all() and inside.any())


LOCS = ['node', 'center', 'edge1', 'edge2']
P = ['none', 'both', 'low', 'high']


def case():
    return D(grid=curv_case(6), n=st.integers(1, 12), pad=st.tuples(pick(*P), pick(*P)), what=pick('center', 'center', 'node', 'both', 'coords', 'coords node', 'center junk'), kind=pick(*KINDS),
             density=pick('some', 'some', 'some', 'much', 'much', 'half', 'half', 'all', 'none'), behavior=pick('zero', 'zero', 'mask', 'mirror'), grid_s=st.booleans(),
             locs=st.lists(pick(*LOCS), min_size=1, max_size=3, unique=True), missing=pick(False, False, True), fresh=st.booleans(), via=pick('grid', 'variable', 'memo'), ignore=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- from files
def file_case():
    return D(grid=curv_case(5), n=st.integers(1, 10), pad=pick('both', 'none'), how=pick('sgrid', 'roms', 'topology'), kind=pick(*[k for k in KINDS if k not in ('bool', 'int', 'float')]),
             what=pick('center', 'center', 'node'), density=pick('some', 'some', 'some', 'much', 'much', 'half', 'half', 'all', 'none'), locs=st.lists(pick(*LOCS), min_size=1, max_size=2, unique=True),
             via=pick('grid', 'variable'), seed=SEED)


def run_file(case, ctx):
    r = np.random.default_rng([case['seed'], 1])
    grid = curv(case['grid'])
    if not convex_ok(grid['xy']):
        grid = curv(dict(case['grid'], jitter=0.0, shape='plain'))
    xy = grid['xy']
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    p = curv_points(xy, grid['outside'], r, case['n'])
    pts = p['points']
    pad = case['pad']
    pads = (pad, pad)
    how = case['how']
    shape, off = layout('center', ny, nx, pads)
    nc = files.memory()
    try:
        if how == 'sgrid':
            dims = files.sgrid(nc, xy, pad)
            nc.variables['grid'].face_coordinates = 'lon_rho lat_rho'
        else:
            for d, n in (('xn', nx + 1), ('yn', ny + 1), ('xc', shape[1]), ('yc', shape[0])):
                nc.createDimension(d, n)
            dims = dict(node=('yn', 'xn'), center=('yc', 'xc'))
            for n, k in (('lon_psi', 0), ('lat_psi', 1)):
                nc.createVariable(n, 'f8', dims['node'])[:] = xy[..., k]
        for n, sn in (('lon_rho', 'longitude'), ('lat_rho', 'latitude')):
            v = nc.createVariable(n, 'f8', dims['center'])
            v[:] = r.normal(size=shape)
            v.standard_name = sn
        cm = None
        name = {'center': 'mask_rho', 'node': 'mask_psi'}[case['what']]
        if case['what'] == 'center':
            cm = land(case, r, shape)
            dress(case['kind'], cm, r, nc, name, dims['center'])
            cells = cm[off[0]:off[0] + ny, off[1]:off[1] + nx]
        else:
            nm = land(case, r, (ny + 1, nx + 1))
            dress(case['kind'], nm, r, nc, name, dims['node'])
            cells = nm[:-1, :-1] | nm[1:, :-1] | nm[:-1, 1:] | nm[1:, 1:]
        topo = None
        if how == 'topology':
            topo = dict(node_lon='lon_psi', node_lat='lat_psi', center_lon='lon_rho', center_lat='lat_rho')
            topo[case['what'] + '_mask'] = name
        g = Grid.from_netCDF(dataset=nc, grid_topology=topo)
        check(type(g) is Grid_S, 'type of the grid', type(g))
        dry = np.array([ji[0] >= 0 and cells[tuple(ji)] for ji in p['ji']])
        want = np.where((dry | (p['ji'][:, 0] < 0))[:, None], -1, p['ji'])
        got = g.locate_faces(pts)
        check(np.array_equal(np.ma.filled(got, -1), want), 'cells', got, want)
        for loc in case['locs']:
            own = {'node': (None, None), 'center': pads, 'edge1': (pad, None), 'edge2': (None, pad)}[loc]
            data = r.normal(size=layout(loc, ny, nx, own)[0])
            check_values(case, g, pts, p, dry, cm, pads, loc, data, 'zero', ctx)
    finally:
        nc.close()
    ctx.label(how, case['what'], case['kind'], 'pad ' + pad)
    ctx.nontrivial(cells.any() and not cells.all() and (p['ji'][:, 0] >= 0).any())


SCENARIOS = [
    Scenario('many cells', lambda: cells_case(['s_center', 's_node']).map(lambda c: dict(c, land=True)), run_cells, quick=16),
    Scenario('masks', case, run, quick=4000),
    Scenario('files', file_case, run_file, quick=1500),
]
