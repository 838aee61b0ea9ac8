"""C11: SGRID files"""
import os

import netCDF4
import numpy as np
from hypothesis import strategies as st

from gridded.grids import Grid, Grid_S
from gridded.pysgrid.read_netcdf import find_grid_topology_var, parse_axes, parse_padding, parse_vector_axis
from gridded.pysgrid.sgrid import SGrid, load_grid
from gridded import Variable
from gridded.utilities import convert_mask_to_numpy_mask
from vlib import files
from vlib.core import Scenario, check, close, raises, values_and_mask
from vlib.gens import D, IDENTITY, SEED, curv, curv_points, pick
from checks.c02 import corners, layout

PAD = ['none', 'both', 'low', 'high']
ADD = dict(none=-1, both=1, low=0, high=0)
CUT = dict(none=(None, None), both=(1, -1), low=(1, None), high=(None, -1))

# names of the dimensions by location (x, y), and of the coordinates (lon, lat)
STYLES = dict(
    roms=dict(node=('xi_psi', 'eta_psi'), face=('xi_rho', 'eta_rho'), edge1=('xi_u', 'eta_u'), edge2=('xi_v', 'eta_v'),
              cn=('lon_psi', 'lat_psi'), cf=('lon_rho', 'lat_rho'), c1=('lon_u', 'lat_u'), c2=('lon_v', 'lat_v')),
    shared=dict(node=('xn', 'yn'), face=('xc', 'yc'), edge1=('xn', 'yc'), edge2=('xc', 'yn'),
                cn=('lon_node', 'lat_node'), cf=('lon_center', 'lat_center'), c1=('lon_e1', 'lat_e1'), c2=('lon_e2', 'lat_e2')),
    own=dict(node=('x1', 'y1'), face=('x2', 'y2'), edge1=('x3', 'y3'), edge2=('x4', 'y4'),
             cn=('node_lon', 'node_lat'), cf=('center_lon', 'center_lat'), c1=('edge1_lon', 'edge1_lat'), c2=('edge2_lon', 'edge2_lat')),
    digits=dict(node=('MMAX', 'NMAX'), face=('MMAXZ1', 'NMAXZ2'), edge1=('MMAX_U1', 'NMAX_U1'), edge2=('M2V', 'N2V'),
                cn=('XCOR', 'YCOR'), cf=('XZ', 'YZ'), c1=('XU1', 'YU1'), c2=('XV1', 'YV1')),
)
STANDARD = [None, 'sea_water_x_velocity', 'sea_water_y_velocity', 'upward_sea_water_z_velocity_of_x', 'eastward_sea_water_velocity', 'sea_surface_height',
            'barotropic_sea_water_z_velocity']
VECTOR = {None: None, 'sea_water_x_velocity': 'X', 'sea_water_y_velocity': 'Y', 'upward_sea_water_z_velocity_of_x': 'Z', 'eastward_sea_water_velocity': None,
          'sea_surface_height': None, 'barotropic_sea_water_z_velocity': 'Z'}


class File:
    """writes the file and knows what is in it"""

    def __init__(self, nc, case):
        r = np.random.default_rng([case['seed'], 1])
        self.r = r
        self.case = case
        s = self.s = STYLES[case['style']]
        g = curv(dict(ny=case['ny'], nx=case['nx'], jitter=0.1, shape='plain', transpose=False, rev0=False, rev1=False,
                      affine=dict(IDENTITY, rot=case['rot'], origin=[-80.0, 20.0]), seed=case['seed']))
        self.xy = g['xy']
        self.outside = g['outside']
        ny, nx = self.xy.shape[:2]
        px, py = case['pad']
        self.size = {}
        sizes = dict(node=(nx, ny), face=(nx + ADD[px], ny + ADD[py]), edge1=(nx, ny + ADD[py]), edge2=(nx + ADD[px], ny))
        for loc, (dx, dy) in sizes.items():
            for d, n in zip(s[loc], (dx, dy)):
                if d not in nc.dimensions:
                    nc.createDimension(d, n)
        self.sizes = sizes
        nc.createDimension('time', 2)
        nc.createDimension('s_rho', 3)
        nc.createDimension('s_w', 4)
        # dimensions of the data: y first, as the arrays are
        self.dims = {loc: (s[loc][1], s[loc][0]) for loc in sizes}
        topo = nc.createVariable(case['topo'], 'i4', ())
        topo.cf_role = 'grid_topology'
        topo.topology_dimension = np.int32(2)
        order = (0, 1) if case['x_first'] else (1, 0)
        n, f, e1, e2 = s['node'], s['face'], s['edge1'], s['edge2']
        topo.node_dimensions = ' '.join(n[k] for k in order)
        topo.face_dimensions = ' '.join('%s: %s (padding: %s)' % (f[k], n[k], (px, py)[k]) for k in order)
        self.edges = case['edges']
        if self.edges:
            topo.edge1_dimensions = ' '.join(['%s: %s' % (e1[0], n[0]), '%s: %s (padding: %s)' % (e1[1], n[1], py)][k] for k in order)
            topo.edge2_dimensions = ' '.join(['%s: %s (padding: %s)' % (e2[0], n[0], px), '%s: %s' % (e2[1], n[1])][k] for k in order)
        if case['vertical']:
            topo.vertical_dimensions = 's_rho: s_w (padding: none)'
        self.coords = {}
        shape = {loc: (sz[1], sz[0]) for loc, sz in sizes.items()}
        self.shape = shape
        dt = case['dtype']

        def coord(loc, names, attr):
            if loc == 'node':
                arr = [self.xy[..., 0], self.xy[..., 1]]
            else:
                arr = [r.uniform(-80, -70, shape[loc]), r.uniform(20, 30, shape[loc])]
            arr = [a.astype(dt) for a in arr]
            std = ('longitude', 'latitude') if case['style'] != 'digits' else ('projection_x_coordinate', 'projection_y_coordinate')
            for name, a, sn in zip(names, arr, std):
                v = nc.createVariable(name, dt, self.dims[loc])
                v[:] = a
                v.standard_name = sn
            if attr:
                setattr(topo, attr, ' '.join(names))
            self.coords[loc] = arr
        coord('node', s['cn'], 'node_coordinates' if case['name_nodes'] else None)
        if case['faces']:
            coord('face', s['cf'], 'face_coordinates')
        if self.edges and case['edge_coords']:
            coord('edge1', s['c1'], 'edge1_coordinates')
            coord('edge2', s['c2'], 'edge2_coordinates')
        if case['angle'] and case['faces']:
            a = nc.createVariable('angle', 'f8', self.dims['face'])
            self.angle = r.uniform(-3, 3, shape['face'])
            a[:] = self.angle
        # a mask is known by its name or long name, and belongs where its shape fits
        self.masks = {}
        alone = {loc for loc in self.coords if list(shape.values()).count(shape[loc]) == 1}
        for loc in case['masks']:
            if loc not in alone or (loc == 'face' and 'none' in case['pad']):
                continue
            plain = {'node': 'mask_psi', 'face': 'mask_rho', 'edge1': 'mask_u', 'edge2': 'u_mask2'}[loc]
            named = case['mask_by'] == 'name'
            v = nc.createVariable(plain if named else 'wet_' + loc, 'f8', self.dims[loc])
            if not named:
                v.long_name = 'mask on the points ' + loc
            land = r.random(shape[loc]) < {'node': .15}.get(loc, .3)
            v.flag_values = np.array([0.0, 1.0])
            v.flag_meanings = 'land water'
            if case['inverse']:
                v.flag_meanings = 'water land'
            v[:] = (land == case['inverse']).astype(float)
            self.masks[loc] = (v.name, land, v[:])
        if case['decoy']:
            # of no shape that fits
            v = nc.createVariable('mask_of_time', 'f8', ('time',) + self.dims['node'])
            v[:] = 1.0
        self.mask = None
        if 'face' in self.masks:
            self.mask = self.masks['face'][1][slice(*CUT[py]), slice(*CUT[px])]
        elif 'node' in self.masks:
            k = self.masks['node'][1]
            self.mask = k[:-1, :-1] | k[1:, :-1] | k[:-1, 1:] | k[1:, 1:]
        self.vars = {}
        for k, spec in enumerate(case['variables']):
            loc = spec['loc']
            if loc[:4] == 'edge' and not self.edges:
                continue
            lead = ('time',) * spec['time'] + ('s_rho',) * spec['z']
            name = spec['name'] + str(k)
            dims = lead + self.dims[loc]
            v = nc.createVariable(name, 'f8', dims)
            data = r.normal(size=v.shape)
            v[:] = data
            if spec['grid'] or loc[:4] == 'edge' or spec['standard']:
                v.grid = case['topo']
            if spec['standard']:
                v.standard_name = spec['standard']
            if spec['axes']:
                v.axes = 'X: %s Y: %s' % (self.dims[loc][1], self.dims[loc][0]) + (' Z: s_rho' if spec['z'] else '')
            names = dict(node='cn', face='cf', edge1='c1', edge2='c2')[loc]
            coords = None
            if spec['coords'] and loc in self.coords:
                coords = s[names]
                v.coordinates = ' '.join(coords)
            if spec['location']:
                v.location = loc
            self.vars[name] = dict(spec, dims=dims, data=data, coords=coords)
        nc.Conventions = 'CF-1.6, SGRID-0.3'

    def verify(self, g, what, saved=False):
        s, case = self.s, self.case
        px, py = case['pad']
        for loc, pre in (('node', 'node'), ('face', 'center'), ('edge1', 'edge1'), ('edge2', 'edge2')):
            for k, ax in enumerate(('lon', 'lat')):
                got = getattr(g, '%s_%s' % (pre, ax))
                if loc not in self.coords:
                    check(got is None, '%s: %s_%s is not in the file' % (what, pre, ax), got)
                    continue
                v, m = values_and_mask(got)
                want = self.coords[loc][k]
                check(v.shape == want.shape and not m.any() and (v == want).all(), '%s: %s_%s' % (what, pre, ax), got, want)
        for loc, pre in (('node', 'node'), ('face', 'center'), ('edge1', 'edge1'), ('edge2', 'edge2')):
            got = getattr(g, pre + '_mask')
            check((got is None) == (loc not in self.masks), '%s: mask of %s' % (what, pre), got)
            if got is not None:
                name, land, v = self.masks[loc]
                check(got.name == name and got.dimensions == self.dims[loc] and np.array_equal(got[:], v), '%s: mask of %s' % (what, pre), got[:], v)
                check(np.array_equal(convert_mask_to_numpy_mask(got), land), '%s: land of %s' % (what, pre), got[:], land)
        names = dict(node_coordinates=s['cn'], face_coordinates=s['cf'] if case['faces'] else None)
        for n, want in names.items():
            got = getattr(g, n)
            check((got is None) == (want is None) and (got is None or tuple(got) == want), what + ': ' + n, got, want)
        check(g.grid_topology_var == case['topo'], what + ': topology variable', g.grid_topology_var)
        check(tuple(g.node_dimensions.split()) == tuple(s['node'][k] for k in ((0, 1) if case['x_first'] else (1, 0))), what + ': node_dimensions', g.node_dimensions)
        check(tuple(g.face_padding) == (py, px), what + ': padding of the faces in the order of the dimensions of the data', g.face_padding, (py, px))
        check(tuple(g.center_padding) == (py, px), what + ': padding of the centers', g.center_padding, (py, px))
        if self.edges:
            check(tuple(g.edge1_padding) == (py, None), what + ': padding of edge1', g.edge1_padding, (py, None))
            check(tuple(g.edge2_padding) == (None, px), what + ': padding of edge2', g.edge2_padding, (None, px))
        want = dict([(d, n) for loc in self.sizes for d, n in zip(s[loc], self.sizes[loc])], time=2, s_rho=3, s_w=4)
        check(dict(g.dimensions) == want, what + ': dimensions', g.dimensions, want)
        if self.case['angle'] and case['faces']:
            close(np.asarray(g.angles[:]), self.angle, what + ': angles')
        check(set(self.vars) <= set(g.variables), what + ': variables', g.variables)
        with_grid = {n for n, v in self.vars.items() if v['grid'] or v['loc'][:4] == 'edge' or v['standard']}
        check(set(g.grid_variables) == with_grid, what + ': grid variables', g.grid_variables, sorted(with_grid))
        check(set(g.non_grid_variables) == set(g.variables) - with_grid, what + ': other variables', g.non_grid_variables)
        for name, v in self.vars.items():
            o = getattr(g, name)
            loc = v['loc']
            check(tuple(o.dimensions) == v['dims'], '%s: dimensions of %s' % (what, name), o.dimensions)
            cut = (slice(None),) * (len(v['dims']) - 2)
            cut += tuple({'node': (slice(None), slice(None)), 'face': (slice(*CUT[py]), slice(*CUT[px])), 'edge1': (slice(*CUT[py]), slice(None)),
                          'edge2': (slice(None), slice(*CUT[px]))}[loc])
            got = o.center_slicing
            full = np.arange(v['data'].size).reshape(v['data'].shape)
            check(np.array_equal(full[tuple(got)], full[cut]), '%s: slices of %s on %s' % (what, name, loc), got, cut)
            check(o.vector_axis == VECTOR[v['standard']], '%s: vector axis of %s' % (what, v['standard']), o.vector_axis)
            check(o.standard_name == v['standard'], '%s: standard name' % what, o.standard_name)
            axes = (v['dims'][-1], v['dims'][-2], 's_rho' if v['z'] else None) if v['axes'] else (None, None, None)
            check((o.x_axis, o.y_axis, o.z_axis) == axes, '%s: axes of %s' % (what, name), (o.x_axis, o.y_axis, o.z_axis), axes)
            check((None if o.coordinates is None else tuple(o.coordinates)) == v['coords'], '%s: coordinates of %s' % (what, name), o.coordinates, v['coords'])
            where = loc if (loc != 'node' or (v['location'] and not saved)) else None
            check(o.location == where, '%s: location of %s' % (what, name), o.location, where)
            if not saved:
                check(np.array_equal(o[:], v['data']), '%s: data of %s' % (what, name))
                check(o.shape == v['data'].shape and o.ndim == v['data'].ndim, '%s: shape of %s' % (what, name))

    def verify_points(self, g, nc, what):
        """cells, and values of variables at points, with the paddings of the file"""
        case = self.case
        if self.mask is not None:
            p = curv_points(self.xy, self.outside, self.r, 6)
            water = np.array([j >= 0 and not self.mask[j, i] for j, i in p['ji']])
            got = np.ma.getdata(g.locate_faces(p['points']))
            want = np.where(water[:, None], p['ji'], -1)
            check((got == want).all(), what + ': cells of water', got, want)
            return
        p = curv_points(self.xy.astype(case['dtype']).astype('f8'), self.outside, self.r, 4)
        ins = p['ji'][:, 0] >= 0
        got = np.ma.getdata(g.locate_faces(p['points']))
        check((got == p['ji']).all(), what + ': cells', got, p['ji'])
        px, py = case['pad']
        for name, v in self.vars.items():
            if v['time'] or v['z']:
                continue
            loc = 'center' if v['loc'] == 'face' else v['loc']
            own = {'node': (None, None), 'center': (py, px), 'edge1': (py, None), 'edge2': (None, px)}[loc]
            ny, nx = self.xy.shape[0] - 1, self.xy.shape[1] - 1
            shape, off = layout(loc, ny, nx, own)
            check(shape == v['data'].shape, 'own shapes', shape, v['data'].shape)
            want = np.array([sum(v['data'][i, j] * w for i, j, w in corners(loc, ji, lm, off)) if ji[0] >= 0 else 0.0 for ji, lm in zip(p['ji'], p['lm'])])
            val = g.interpolate_var_to_points(p['points'], nc.variables[name], location=loc)
            vv, mm = [a.ravel() for a in values_and_mask(val)]
            check((mm == ~ins).all(), '%s: mask of %s' % (what, name), mm, ~ins)
            tol = 1e-8 if case['dtype'] == 'f8' else 1e-3
            close(np.where(ins, vv, 0), want, '%s: %s interpolated' % (what, name), rtol=tol, atol=tol)


def run(case, ctx):
    path = os.path.join(ctx.tmp, 's.nc')
    if case['disk']:
        nc = netCDF4.Dataset(path, 'w')
    else:
        nc = files.memory()
    f = File(nc, case)
    if case['disk']:
        nc.close()
        nc = netCDF4.Dataset(path)
    try:
        g = {'cls': SGrid.load_grid, 'fn': load_grid, 'grid_s': Grid_S.load_grid, 'grid': lambda n: Grid.from_netCDF(dataset=n)}[case['loader']](nc)
        if case['loader'] != 'grid':
            f.verify(g, 'loaded')
        f.verify_points(g, nc, 'loaded')
        if case['loader'] != 'grid':
            p2 = os.path.join(ctx.tmp, 's2.nc')
            g.save_as_netcdf(p2)
            with netCDF4.Dataset(p2) as nc2:
                check(find_grid_topology_var(nc2) == case['topo'], 'topology variable of the saved file')
                h = SGrid.load_grid(nc2)
                f.verify(h, 'saved and loaded', saved=True)
                if f.mask is not None:
                    f.verify_points(h, nc2, 'saved and loaded')
                for a in ('edge1_dimensions', 'edge2_dimensions', 'face_dimensions', 'vertical_dimensions', 'node_dimensions'):
                    check(getattr(g, a) == getattr(h, a), a + ' saved and loaded', getattr(h, a), getattr(g, a))
            os.remove(p2)
    finally:
        nc.close()
        if case['disk']:
            os.remove(path)
    ctx.label(case['style'], case['loader'], 'pad %s %s' % tuple(case['pad']), 'mask' if f.mask is not None else 'no mask')
    ctx.nontrivial(case['pad'] != ['none', 'none'])


def case():
    var = D(name=pick('u', 'temp_', 'V1_'), loc=pick('node', 'face', 'face', 'edge1', 'edge2'), time=pick(0, 0, 1), z=pick(0, 0, 1), grid=st.booleans(),
            standard=pick(*STANDARD), axes=st.booleans(), coords=st.booleans(), location=st.booleans())
    return D(style=pick(*STYLES), ny=st.integers(2, 5), nx=st.integers(2, 5), rot=st.integers(0, 7), pad=st.tuples(pick(*PAD), pick(*PAD)).map(list),
             topo=pick('grid', 'sgrid_topology', 'G1'), x_first=st.booleans(), edges=st.booleans(), edge_coords=st.booleans(), vertical=st.booleans(),
             dtype=pick('f8', 'f8', 'f4'), name_nodes=pick(True, True, False), faces=st.booleans(), angle=st.booleans(), masks=st.lists(pick('node', 'face', 'face', 'edge1', 'edge2'), unique=True),
             mask_by=pick('name', 'long name'), inverse=st.booleans(), decoy=st.booleans(),
             variables=st.lists(var, max_size=4), disk=st.booleans(), loader=pick('cls', 'fn', 'grid_s', 'grid'), seed=SEED)


# ---------------------------------------------------------------- the attributes themselves
NAME = st.text('abcdxyzAZ_0189', min_size=1, max_size=6).filter(lambda s: not s[0].isdigit())


def run_parse(case, ctx):
    text = ' '.join('%s: %s%s' % (d['dim'], d['node'], '' if d['pad'] is None else ' (padding: %s)' % d['pad']) for d in case['dims'])
    want = [(d['dim'], d['node'], d['pad']) for d in case['dims'] if d['pad'] is not None]
    if want:
        got = parse_padding(text, case['topo'])
        check([(p.face_dim, p.node_dim, p.padding) for p in got] == want, 'paddings of ' + text, got, want)
        check(all(p.mesh_topology_var == case['topo'] for p in got), 'topology variable', got)
    else:
        raises(ValueError, lambda: parse_padding(text, case['topo']), 'no padding in ' + text)
    axes = ' '.join('%s: %s' % (a, n) for a, n in case['axes'].items())
    got = parse_axes(axes)
    want = tuple(case['axes'].get(a, case['axes'].get(a.lower())) for a in 'XYZ')
    check(tuple(got) == want, 'axes of ' + axes, got, want)
    parts = case['words']
    name = '_'.join(parts[:2] + ([case['xyz']] if case['xyz'] else []) + parts[2:])
    got = parse_vector_axis(name)
    check(got == (case['xyz'].upper() if case['xyz'] else None), 'vector axis of ' + name, got)
    ctx.nontrivial(any(d['pad'] for d in case['dims']))


def parse_case():
    word = st.text('abcdefgh', min_size=2, max_size=5)
    return D(dims=st.lists(D(dim=NAME, node=NAME, pad=pick(None, *PAD)), min_size=1, max_size=3), topo=NAME,
             axes=st.dictionaries(pick('X', 'Y', 'Z'), NAME, max_size=3), words=st.lists(word, min_size=3, max_size=5), xyz=pick(None, 'x', 'y', 'z'))


# ---------------------------------------------------------------- coordinates the topology does not name
LON = [('lon_%s', None), ('X_%s', None), ('Longitude_%s', 'longitude'), ('c1_%s', 'longitude'), ('c1_%s', 'Longitude'), ('GRID_LON_%s', 'longitude')]
LAT = [('lat_%s', None), ('Y_%s', None), ('Latitude_%s', 'latitude'), ('c2_%s', 'latitude'), ('c2_%s', 'Latitude'), ('GRID_LAT_%s', 'latitude')]
NODE_LON = LON + [('p1_%s', 'projection_x_coordinate'), ('XCOR_%s', 'Projection_X_Coordinate')]
NODE_LAT = LAT + [('p2_%s', 'projection_y_coordinate'), ('YCOR_%s', 'Projection_Y_Coordinate')]


def run_found(case, ctx):
    """the coordinates of the nodes by their dimensions and names, those of the other locations by the variables there"""
    r = np.random.default_rng([case['seed'], 2])
    nc = files.memory()
    try:
        ny, nx = case['ny'], case['nx']
        size = dict(nodes=(ny, nx), face=(ny - 1, nx - 1), edge1=(ny - 1, nx), edge2=(ny, nx - 1))
        dims = dict(nodes=('jn', 'in'), face=('jc', 'ic'), edge1=('j1', 'i1'), edge2=('j2', 'i2'))
        for loc in size:
            for d, n in zip(dims[loc], size[loc]):
                nc.createDimension(d, n)
        nc.createDimension('t', 2)
        nc.createDimension('k', 3)
        nc.createDimension('d', 6)
        topo = nc.createVariable('grid', 'i4', ())
        topo.cf_role = 'grid_topology'
        topo.topology_dimension = np.int32(2)
        topo.node_dimensions = 'in jn'
        topo.face_dimensions = 'ic: in (padding: none) jc: jn (padding: none)'
        topo.edge1_dimensions = 'i1: in (padding: none) j1: jn (padding: none)'
        topo.edge2_dimensions = 'i2: in (padding: none) j2: jn (padding: none)'
        todo = []                       # variables, in any order
        want = {}
        for loc in size:
            c = case['locs'][loc]
            via = c['via'] if loc != 'nodes' else 'names'
            pools = (NODE_LON, NODE_LAT) if loc == 'nodes' else (LON, LAT)
            names = []
            for ax in (0, 1):
                pat, std = pools[ax][c['names'][ax] % len(pools[ax])]
                at = {}
                if via == 'coordinates':
                    # names with lon or lat, or told by their standard names or descriptions
                    pat, std = [(('lon_%s', 'lat_%s')[ax], None), (('LONG_%s', 'LATI_%s')[ax], None), (('c1_%s', 'c2_%s')[ax], ('longitude', 'latitude')[ax]),
                                (('q1_%s', 'q2_%s')[ax], 'DESC')][c['names'][ax] % 4]
                    if std == 'DESC':
                        at['description'] = CASES[c['case']](('longitude', 'latitude')[ax] + ' of the points')
                        std = None
                if std:
                    at['standard_name'] = CASES[c['case']](std) if c['case'] else std
                name = pat % loc[-1]
                names.append(name)
                todo.append((name, dims[loc], at, True))
            want[loc] = tuple(names)
            if loc == 'nodes':
                continue
            for k in range(c['several'] if via != 'none' else 0):
                at = dict(location=loc)
                if via == 'coordinates' and not (k and c['mix']):
                    at['coordinates'] = ' '.join((names[::-1] if c['lat_first'] else names) + ['when'] * c['third'])
                if c['grid']:
                    at['grid'] = 'grid'
                todo.append(('x_velocity_%s%d' % (loc, k), (('t',) + ('k',) * c['deep'] if c['time'] or c['third'] else ()) + dims[loc], at, False))
            if c['twin'] and via != 'none':
                # data on the grid is no coordinate, whatever its name
                todo.append(('lon_velocity_%s' % loc, dims[loc], dict(grid='grid'), False))
                todo.append(('y_velocity_%s' % loc, dims[loc], dict(location=loc) if via == 'names' else dict(location=loc, coordinates=' '.join(names)), False))
            if via == 'coordinates' and c['several'] == 2 and c['mix']:
                # what one variable names goes before what others look like
                todo += [('old_lon_%s' % loc, dims[loc], {}, False), ('old_lat_%s' % loc, dims[loc], {}, False)]
            if via == 'none':
                want[loc] = None
        todo.append(('when', ('t',), {}, False))
        for k in range(case['decoys']):
            todo.append([('h', dims['nodes'], {}, False), ('lon_of_drifter', ('d',), {}, False), ('lat_of_data', ('t',) + dims['nodes'], {}, False),
                         ('longest', ('k',) + dims['nodes'], dict(standard_name='longitude'), False), ('row_lat', ('jn',), {}, False)][k])
        order = r.permutation(len(todo))
        val = {}
        for k in order:
            name, d, at, is_coord = todo[k]
            v = nc.createVariable(name, 'f8', d)
            v.setncatts(at)
            val[name] = r.uniform(-80, 80, v.shape)
            v[:] = val[name]
        g = SGrid.load_grid(nc)
        for loc, pre in (('nodes', 'node'), ('face', 'center'), ('edge1', 'edge1'), ('edge2', 'edge2')):
            for ax, l in enumerate(('lon', 'lat')):
                got = getattr(g, '%s_%s' % (pre, l))
                if want[loc] is None:
                    check(got is None, 'coordinates of %s are not known' % loc, got)
                else:
                    check(got is not None and np.array_equal(got, val[want[loc][ax]]), '%s of %s, which is %s' % (l, loc, want[loc][ax]),
                          got, {n: nc.variables[n].dimensions for n in nc.variables})
        for loc, a in (('nodes', 'node_coordinates'), ('face', 'face_coordinates'), ('edge1', 'edge1_coordinates'), ('edge2', 'edge2_coordinates')):
            got = getattr(g, a)
            check((None if got is None else tuple(got)) == want[loc], a, got, want[loc])
    finally:
        nc.close()
    ctx.label(*['%s by %s' % (loc, case['locs'][loc]['via']) for loc in ('face', 'edge1', 'edge2')])
    ctx.nontrivial(any(case['locs'][loc]['via'] != 'none' for loc in ('face', 'edge1', 'edge2')))


CASES = [str, str.title, str.upper]


def found_case():
    loc = D(via=pick('names', 'coordinates', 'none'), names=st.tuples(st.integers(0, 23), st.integers(0, 23)), case=st.integers(0, 2), several=st.integers(1, 2), lat_first=st.booleans(),
            third=st.booleans(), grid=st.booleans(), time=st.booleans(), deep=st.booleans(), mix=st.booleans(), twin=st.booleans())
    return D(ny=st.integers(2, 4), nx=st.integers(5, 7), locs=D(nodes=loc, face=loc, edge1=loc, edge2=loc), decoys=st.integers(0, 5), seed=SEED)


SCENARIOS = [
    Scenario('coordinates not named', found_case, run_found, quick=1200),
    Scenario('files', case, run, quick=2400),
    Scenario('attributes', parse_case, run_parse, quick=1200),
]
