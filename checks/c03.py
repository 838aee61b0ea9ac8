"""C03: interpolation on rectangular grids"""
import netCDF4
import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from gridded.grids import Grid_R
from vlib.core import Scenario, check, close, raises
from vlib.large import cells_case, large_case, run_cells, run_large
from vlib.gens import D, SEED, pick


def axis(r, n, kind, lo, desc, scale):
    if kind == 'even':
        a = np.arange(n) * scale
    else:
        a = np.cumsum(r.uniform(0.2, 2.0, n)) * scale
    a = a + lo
    return a[::-1].copy() if desc else a


def reference(lon, lat, data, p):
    """data is [lat, lon]"""
    out = []
    for x, y in p:
        i = [k for k in range(len(lon) - 1) if min(lon[k], lon[k + 1]) <= x <= max(lon[k], lon[k + 1])]
        j = [k for k in range(len(lat) - 1) if min(lat[k], lat[k + 1]) <= y <= max(lat[k], lat[k + 1])]
        if not i or not j:
            out.append(0.0)
            continue
        i, j = i[0], j[0]
        a = (x - lon[i]) / (lon[i + 1] - lon[i])
        b = (y - lat[j]) / (lat[j + 1] - lat[j])
        out.append((1 - b) * ((1 - a) * data[j, i] + a * data[j, i + 1]) + b * ((1 - a) * data[j + 1, i] + a * data[j + 1, i + 1]))
    return np.array(out)


def points(r, lon, lat, n):
    p = []
    for k in range(n):
        u = r.random()
        if u < .6:
            x, y = [a.min() + r.uniform(0.0005, 0.9995) * np.ptp(a) for a in (lon, lat)]
        elif u < .75:
            x, y = lon[r.integers(len(lon))], lat[r.integers(len(lat))]
        else:
            x, y = [a.min() + r.uniform(0.1, 0.9) * np.ptp(a) for a in (lon, lat)]
            d = r.choice([-1, 1]) * r.choice([0.02, 0.5, 30.0])
            if r.random() < .5:
                x = (lon.max() if d > 0 else lon.min()) + d * np.ptp(lon)
            else:
                y = (lat.max() if d > 0 else lat.min()) + d * np.ptp(lat)
            if r.random() < .2:
                x, y = lon.max() + np.ptp(lon), lat.min() - np.ptp(lat)
        p.append((x, y))
    return np.array(p, dtype=float)


def run(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    nlat, nlon = case['nlat'], case['nlon']
    lon = axis(r, nlon, case['kind'], case['lo'][0], case['desc'][0], case['scale'])
    lat = axis(r, nlat, case['kind'], case['lo'][1], case['desc'][1], case['scale'])
    data = r.normal(size=(nlat, nlon))
    dtype = case['dtype']
    if dtype[0] == 'i':
        data = np.round(data * 1000)
    data = data.astype(dtype).astype('f8')
    fill = -9999 if dtype[0] == 'i' else 1e20
    mask = (r.random(data.shape) < .3) if case['masked'] else np.zeros(data.shape, bool)
    ref = np.where(mask, 0.0, data)
    junk = np.where(mask, fill, data).astype(dtype)
    p = points(r, lon, lat, case['n'])
    # positions are exact to a few ulp, whatever the type of the data is
    tol = (1e-9 + (1e-5 if dtype == 'f4' else 0) + 1e-14 * max(np.abs(lon).max() / np.abs(np.diff(lon)).min(), np.abs(lat).max() / np.abs(np.diff(lat)).min())) * (np.abs(data).max() + 1)
    want = reference(lon, lat, ref, p)
    swap = case['order'] == 'lonlat'
    arr = np.ma.array(junk, mask=mask) if case['masked'] else junk
    arr = arr.T if swap else arr
    storage = case['storage']
    if nlat == nlon:
        storage = 'nc'            # without names the order of the dimensions is not known
    extra = case['extra']
    slices = None
    nc = None
    if extra:
        full = np.ma.array((r.normal(size=(2, 3)[:extra] + arr.shape) * 100).astype(dtype))
        sl = (1, 2)[:extra]
        full[sl] = arr
        if case['list']:
            sl = list(sl)
        slices = sl
        arr = full if case['masked'] else full.filled()
    try:
        if storage == 'nc':
            nc = netCDF4.Dataset('rect.nc', 'w', diskless=True, persist=False)
            names = ['t', 'k'][:extra]
            for nm, size in zip(names, (2, 3)):
                nc.createDimension(nm, size)
            nc.createDimension('lat', nlat)
            nc.createDimension('lon', nlon)
            v = nc.createVariable('v', dtype, tuple(names) + (('lon', 'lat') if swap else ('lat', 'lon')), fill_value=fill)
            v[:] = arr
            arr = v
        g = Grid_R(node_lon=lon, node_lat=lat)
        keep = (lon.copy(), lat.copy())
        if case['via'] == 'grid' or extra:
            got = g.interpolate_var_to_points(p, arr, slices=slices) if (slices or case['n'] % 2) else \
                g.interpolate_var_to_points(p, arr, slices=())
            check(np.shape(got) == (len(p),), 'one value per point', np.shape(got))
            one = g.interpolate_var_to_points(p[0], arr, slices=slices)
            check(np.ndim(one) == 0, 'one value for one point', one)
            close(one, want[0], 'one point', rtol=1e-9, atol=tol)
        else:
            v = Variable(name='v', data=arr, grid=g, location='node')
            got = v.at(p, None)
            check(np.shape(got) == (len(p), 1), 'one row per point', np.shape(got))
            got = got[:, 0]
        close(got, want, 'rectangular grid', rtol=1e-9, atol=tol)
        check(np.array_equal(lon, keep[0]) and np.array_equal(lat, keep[1]), 'the axes were modified')
    finally:
        if nc is not None:
            nc.close()
    ctx.label(case['order'], storage, 'masked' if mask.any() else 'plain', 'desc %s' % case['desc'],
              'outside' if (want == 0).any() else 'inside')
    ctx.nontrivial((want != 0).any())


def rect_case():
    return D(nlat=st.integers(2, 7), nlon=st.integers(2, 7), kind=pick('even', 'uneven'), lo=pick([0.0, 0.0], [-98.0, 20.0], [170.0, -80.0]),
             desc=st.tuples(st.booleans(), st.booleans()).map(list), scale=pick(1.0, 0.01, 10.0, 1e-3), dtype=pick('f8', 'f8', 'f4', 'i2', 'i4'), masked=st.booleans(),
             order=pick('latlon', 'lonlat'), storage=pick('memory', 'memory', 'nc'), extra=pick(0, 0, 1, 2), n=st.integers(1, 8), list=st.booleans(),
             via=pick('grid', 'variable'), seed=SEED)


def run_parts(case, ctx):
    """the nodes and centers of the grid, and data that fits them"""
    r = np.random.default_rng([case['seed'], 0])
    lon = axis(r, case['nlon'], case['kind'], -98.0, case['desc'][0], 0.5)
    lat = axis(r, case['nlat'], case['kind'], 20.0, case['desc'][1], 0.25)
    ny, nx = len(lat), len(lon)
    g = Grid_R(node_lon=lon, node_lat=lat)
    n = np.asarray(g.nodes)
    check(n.shape == (ny, nx, 2), 'shape of the nodes', n.shape)
    c = np.asarray(g.centers)
    check(c.shape == (ny - 1, nx - 1, 2), 'shape of the centers', c.shape)
    for j in range(ny):
        for i in range(nx):
            check(tuple(n[j, i]) == (lon[i], lat[j]), 'node %d, %d' % (j, i), n[j, i], (lon[i], lat[j]))
            if i and j:
                close(c[j - 1, i - 1], n[j - 1:j + 1, i - 1:i + 1].mean(axis=(0, 1)), 'center %d, %d' % (j, i), rtol=1e-12)
    close(g.center_lon, .5 * (lon[1:] + lon[:-1]), 'longitudes of the centers', rtol=1e-12)
    close(g.center_lat, .5 * (lat[1:] + lat[:-1]), 'latitudes of the centers', rtol=1e-12)
    # the center of a cell is in that cell
    got = np.asarray(g.locate_faces(c.reshape(-1, 2)))
    at = sorted(tuple(x) for x in got.tolist())
    check(len(set(at)) == len(at) == (ny - 1) * (nx - 1), 'a cell for each center', at)
    back = got.reshape(ny - 1, nx - 1, 2)
    check((back[:, :, 0] == back[:1, :, 0]).all() and (back[:, :, 1] == back[:, :1, 1]).all(), 'cells of centers in a row and column', back)
    for d0 in (-2, -1, 0, 1, 2):
        for d1 in (-2, -1, 0, 1, 2):
            if ny + d0 < 1 or nx + d1 < 1:
                continue
            want = {(0, 0): 'node', (-1, -1): 'center', (1, 1): 'center'}.get((d0, d1))
            a = np.zeros((3,) * case['lead'] + (ny + d0, nx + d1))
            check(g.infer_location(a) == want, 'place of data of shape %s on a grid of %s' % (a.shape, (ny, nx)), g.infer_location(a), want)
    check(g.infer_location(np.zeros(nx)) is None, 'data with one dimension')
    if nx != ny:
        check(str(nx) in g.info and str(ny) in g.info, 'sizes in the description', g.info)
    ctx.label('desc %s' % case['desc'])
    ctx.nontrivial(nx != ny)


def parts_case():
    return D(nlat=st.integers(2, 7), nlon=st.integers(2, 7), kind=pick('even', 'uneven'), desc=st.tuples(st.booleans(), st.booleans()).map(list), lead=st.integers(0, 2), seed=SEED)


def run_reject(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    lon = axis(r, case['n'], 'uneven', 0.0, False, 1.0)
    lat = axis(r, case['n'] if case['what'] == 'square' else case['n'] + 1, 'uneven', 0.0, False, 1.0)
    g = Grid_R(node_lon=lon, node_lat=lat)
    p = np.array([[lon.mean(), lat.mean()]])
    if case['what'] == 'square':
        data = r.normal(size=(case['n'], case['n']))
        raises(ValueError, lambda: g.interpolate_var_to_points(p, data), 'square data without dimension names')
    elif case['what'] == 'size':
        data = r.normal(size=(case['n'] + 1, case['n'] + 3))
        raises(ValueError, lambda: g.interpolate_var_to_points(p, data), 'data that does not fit the grid')
    else:
        nc = netCDF4.Dataset('rect.nc', 'w', diskless=True, persist=False)
        try:
            nc.createDimension('a', len(lat))
            nc.createDimension('b', len(lon))
            v = nc.createVariable('v', 'f8', ('a', 'b'))
            v[:] = 1.0
            raises(ValueError, lambda: g.interpolate_var_to_points(p, v), 'data with other dimensions')
        finally:
            nc.close()
    ctx.label(case['what'])


def reject_case():
    return D(n=st.integers(2, 8), what=pick('square', 'size', 'names'), seed=SEED)


SCENARIOS = [
    Scenario('many cells', lambda: cells_case(['r']), run_cells, quick=16),
    Scenario('many points', lambda: large_case(['r']), run_large, quick=240),
    Scenario('parts of the grid', parts_case, run_parts, quick=300),
    Scenario('bilinear', rect_case, run, quick=8000),
    Scenario('rejected', reject_case, run_reject, quick=800, weight=.3),
]
