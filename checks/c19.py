"""C19: files loaded as datasets, and datasets saved and loaded"""
import contextlib
import datetime
import os
import pathlib
import warnings

import netCDF4
import numpy as np
from hypothesis import strategies as st

from checks.c10 import make_var, parts_of, polygons, quiet, read_ugrid, same
from gridded import Dataset
from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
from gridded.pyugrid.ugrid import UGrid
from vlib import files
from vlib.core import Scenario, check, raises, values_and_mask
from vlib.gens import D, SEED, curv, curv_case, flexmesh, flexmesh_case, pick, times, times_case, trimesh, trimesh_case

NAMES = ['temp', 'data', 'of', 'unstructured', 'Topology', 'salt', 'zonal_velocity', 'bathy', '2D', 'u', 'the']
# a name that the description of the mesh ("Topology data of 2D unstructured mesh") happens to contain is a name like any other


def some_attrs(r):
    out = {}
    for k, v in dict(units='m s-1', comment='of the mesh', count=np.int32(r.integers(100)), ratio=float(np.round(r.normal(), 6)), levels=np.arange(3) + int(r.integers(9)),
                     note='', flag_meanings='a b  c', text='été ☃').items():
        if r.random() < .4:
            out[k] = v
    return out


def same_attrs(got, want, what):
    check(set(got) == set(want), what + ': attributes', sorted(got), 'expected', sorted(want))
    for k, v in want.items():
        same_attr(got[k], v, '%s: attribute %s' % (what, k))


def same_attr(a, b, what):
    if isinstance(b, str):
        check(isinstance(a, str) and a == b, what, a, b)
    else:
        check(np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(b).dtype.kind == 'f'), what, a, b)


def same_values(got, want, what):
    va, ma = values_and_mask(got)
    vb, mb = values_and_mask(want)
    check(va.shape == vb.shape, what + ': shape', va.shape, 'expected', vb.shape)
    check((ma == mb).all(), what + ': which are missing', ma, 'expected', mb)
    check(np.array_equal(np.where(ma, 0, va), np.where(mb, 0, vb), equal_nan=True), what + ': values', va, 'expected', vb)


# ---------------------------------------------------------------- loading

KINDS = ['f8', 'f4', 'i4', 'i2', 'i1', 'masked', 'packed', 'packed_masked', 'missing_value', 'nan', 'big']


def values(kind, shape, r):
    """(values as they are meant, keywords of createVariable, attributes that make them so)"""
    d = r.normal(size=shape)
    if kind in ('f8', 'f4'):
        return d.astype(kind), dict(datatype=kind), {}
    if kind == 'big':
        return d, dict(datatype='>f8', endian='big'), {}
    if kind in ('i4', 'i2', 'i1'):
        return r.integers(-100, 100, shape).astype(kind), dict(datatype=kind), {}
    if kind == 'nan':
        return np.where(r.random(shape) < .3, np.nan, d), dict(datatype='f8'), {}
    if kind == 'masked':
        return np.ma.array(d, mask=r.random(shape) < .4), dict(datatype='f8', fill_value=-1e34), {}
    if kind == 'missing_value':
        return np.ma.array(d, mask=r.random(shape) < .4), dict(datatype='f8'), dict(missing_value=-9999.0)
    d = r.integers(-1000, 1000, shape) * 2.0 ** -4 + 3.0
    if kind == 'packed_masked':
        return np.ma.array(d, mask=r.random(shape) < .4), dict(datatype='i2', fill_value=-32767), dict(scale_factor=2.0 ** -4, add_offset=3.0)
    return d, dict(datatype='i2'), dict(scale_factor=2.0 ** -4, add_offset=3.0)


class Setup:
    """a grid of the case: write(nc) -> {location: dims}; inferred(location) -> whether the shapes tell it"""

    def __init__(self, case):
        self.kind = case['grid']
        self.case = case
        if self.kind in ('tri', 'flex'):
            m = self.m = trimesh(case['tri']) if self.kind == 'tri' else flexmesh(case['flex'])
            nodes, faces = m['nodes'], m['faces']
            polys = polygons(m)
            edges = sorted({tuple(sorted((p[k], p[(k + 1) % len(p)]))) for p in polys for k in range(len(p))})
            self.edges = np.array(edges, dtype=np.int32)
            self.nb = 1 + case['seed'] % len(edges)
            self.shapes = dict(node=(len(nodes),), face=(len(faces),))
            if case['edges']:
                self.shapes['edge'] = (len(edges),)
            if case['bounds']:
                self.shapes['boundary'] = (self.nb,)
            sizes = [n for (n,) in self.shapes.values()]
            n, f, b = len(nodes), len(faces), self.nb if case['bounds'] else None
            self.can_infer = dict(node=True, face=f != n, boundary=b not in (n, f), edge=False)
            self.cls = Grid_U
        elif self.kind == 's':
            self.xy = curv(case['curv'])['xy']
            ny, nx = self.xy.shape[:2]
            e = files.EXTRA[case['pad']]
            self.shapes = dict(node=(ny, nx), center=(ny + e, nx + e), edge1=(ny + e, nx), edge2=(ny, nx + e))
            full = case['pad'] == 'both'
            self.can_infer = dict(node=True, center=case['coords'] and case['pad'] in ('both', 'none'), edge1=full and case['coords'], edge2=full and case['coords'])
            self.cls = Grid_S
        else:
            r = np.random.default_rng([case['seed'], 5])
            ny, nx = case['ny'], case['nx']
            self.lon, self.lat = np.cumsum(r.uniform(.5, 1, nx)) - 90, np.cumsum(r.uniform(.5, 1, ny)) + 20
            self.shapes = dict(node=(ny, nx))
            self.can_infer = dict(node=True)
            self.cls = Grid_R
        self.sizes = {n for s in self.shapes.values() for n in s}

    def write(self, nc):
        case = self.case
        self.topology = None
        if self.kind in ('tri', 'flex'):
            m = self.m
            mesh = case['mesh']
            start = case['start']
            dn, df, dm = files.ugrid(nc, m['nodes'], m['faces'], mesh=mesh, start=start)
            v = nc.variables[mesh]
            v.long_name = 'Topology data of 2D unstructured mesh'
            dims = dict(node=(dn,), face=(df,))
            if case['edges'] or case['bounds']:
                nc.createDimension('Two', 2)
            for have, what, a in ((case['edges'], 'edge', self.edges), (case['bounds'], 'boundary', self.edges[:self.nb])):
                if have:
                    nc.createDimension('n_' + what, len(a))
                    c = nc.createVariable(what + '_nodes', 'i4', ('n_' + what, 'Two'))
                    c[:] = a + start
                    c.cf_role = what + '_node_connectivity'
                    c.start_index = np.int32(start)
                    v.setncattr(what + '_node_connectivity', what + '_nodes')
                    dims[what] = ('n_' + what,)
            if case['coords']:
                v.face_coordinates = 'cx cy'
                for n, k, s in (('cx', 0, 'longitude'), ('cy', 1, 'latitude')):
                    c = nc.createVariable(n, 'f8', (df,))
                    c[:] = [m['nodes'][p].mean(axis=0)[k] for p in polygons(m)]
                    c.standard_name = s
            return dims
        if self.kind == 's':
            dims = files.sgrid(nc, self.xy, case['pad'])
            g = nc.variables['grid']
            if case['coords']:
                for what, attr in (('center', 'face'), ('edge1', 'edge1'), ('edge2', 'edge2')):
                    names = ['lon_' + what, 'lat_' + what]
                    g.setncattr(attr + '_coordinates', ' '.join(names))
                    for n, s in zip(names, ('longitude', 'latitude')):
                        v = nc.createVariable(n, 'f8', dims[what])
                        v[:] = np.zeros(self.shapes[what])
                        v.standard_name = s
            return dims
        names = ('lon', 'lat')
        if case['topology']:
            names = ('across', 'along')
            self.topology = dict(node_lon=names[0], node_lat=names[1], grid_type='rectangular')
        return dict(node=files.rect(nc, self.lon, self.lat, names))


def load(case, ctx):
    r = np.random.default_rng([case['seed'], 1])
    s = Setup(case)
    ts = times(case['times'])
    while len(ts) in s.sizes:       # else the times look like data of the grid
        ts = ts + [ts[-1] + datetime.timedelta(hours=1)]
    several = case['source'] == 'several' and len(ts) > 1
    paths = [os.path.join(ctx.tmp, '%s.nc' % k) for k in (('a1', 'a0') if case['seed'] // 7 % 2 else ('a0', 'a1'))[:2 if several else 1]]
    cut = [0, 1 + case['seed'] % (len(ts) - 1), len(ts)] if several else [0, len(ts)]
    glob = some_attrs(np.random.default_rng([case['seed'], 2]))
    if s.kind == 's' or case['seed'] % 3:
        glob['Conventions'] = 'CF-1.6, SGRID-0.3' if s.kind == 's' else 'CF-1.8 UGRID-1.0 ACDD-1.3'
    specs = []
    used = set()
    layers = max(list(s.sizes) + [len(ts)]) + 1 + case['seed'] % 2
    for k, spec in enumerate(case['variables']):
        loc = sorted(s.shapes)[spec['where'] % len(s.shapes)]
        name = spec['name']
        if name in used:
            name = '%s_%d' % (name, k)
        used.add(name)
        say = spec['say']
        if not s.can_infer[loc] and say != 'location':
            say = 'location'
        if say == 'bad' and s.kind == 'r':
            say = None       # an attribute 'location' of any kind is believed there
        shape = ((len(ts),) if spec['timed'] else ()) + ((layers,) if spec['timed'] == 'layers' else ()) + s.shapes[loc]
        d, kw, attrs = values(spec['kind'], shape, r)
        attrs = dict(attrs, **some_attrs(r))
        if spec['long']:
            attrs['long_name'] = ['the ' + name, 'temp', 'x y z'][spec['where'] % 3]
        if say:
            attrs['location'] = loc if say == 'location' else 'here'
        specs.append((name, loc, say, spec['timed'], d, kw, attrs))
    for k, p in enumerate(paths):
        memory = case['source'] == 'memory'
        nc = netCDF4.Dataset('nowhere.nc' if memory else p, 'w', format='NETCDF4_CLASSIC', diskless=memory, persist=False)
        with contextlib.nullcontext() if memory else nc:
            nc.setncatts(glob)
            dims = s.write(nc)
            nc.createDimension('time', None)
            t = nc.createVariable('time', 'f8', ('time',))
            t.units = 'seconds since 2000-01-01 00:00:00'
            part = ts[cut[k]:cut[k + 1]]
            t[:] = [(x - datetime.datetime(2000, 1, 1)).total_seconds() for x in part]
            # things that are not on the grid
            other = max(s.sizes) + 7
            nc.createDimension('other', other)
            nc.createDimension('layer', layers)
            nc.createVariable('crs', 'i4', ())
            if case['extra']:
                nc.createVariable('list', 'f8', ('other',))[:] = 1.0
                nc.createVariable('bounds', 'f8', ('time', 'other'))[:] = np.zeros((len(part), other))
                nc.createVariable('text', 'S1', ('other',))
            for name, loc, say, timed, d, kw, attrs in specs:
                v = nc.createVariable(name, dimensions=(('time',) if timed else ()) + (('layer',) if timed == 'layers' else ()) + dims[loc], **kw)
                v.setncatts(attrs)
                v[:] = d[cut[k]:cut[k + 1]] if timed else d
    how = case['source']
    if several:
        src = paths if case['seed'] % 2 else [pathlib.Path(p) for p in paths]
    elif how == 'path':
        src = pathlib.Path(paths[0])
    elif how == 'list':
        src = [paths[0]]
    elif how == 'memory':
        src = nc
    elif how == 'open':
        src = netCDF4.Dataset(paths[0])
    else:
        src = paths[0]
    if case['old_way'] and s.topology is None:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            ds = Dataset(src)
        check(any(issubclass(x.category, DeprecationWarning) for x in w), 'Dataset(file) warns that it is deprecated')
        raises(ValueError, lambda: Dataset(src, grid=ds.grid), 'a file and a grid')
        raises(ValueError, lambda: Dataset(src, variables={}), 'a file and variables')
        raises(ValueError, lambda: Dataset(src, attributes={}), 'a file and attributes')
    else:
        ds = Dataset.from_netCDF(src, grid_topology=s.topology)
    try:
        check(isinstance(ds.grid, s.cls), 'kind of the grid', type(ds.grid), s.cls)
        if s.kind in ('tri', 'flex'):
            same(ds.grid.nodes, s.m['nodes'], 'nodes')
            same(ds.grid.faces, s.m['faces'], 'faces')
            same(ds.grid.edges if case['edges'] else None, s.edges if case['edges'] else None, 'edges')
            same(ds.grid.boundaries, s.edges[:s.nb] if case['bounds'] else None, 'boundaries')
        elif s.kind == 's':
            same(ds.grid.node_lon[:], s.xy[..., 0], 'longitudes')
            same(ds.grid.node_lat[:], s.xy[..., 1], 'latitudes')
        else:
            same(ds.grid.node_lon[:], s.lon, 'longitudes')
            same(ds.grid.node_lat[:], s.lat, 'latitudes')
        same_attrs(ds.attributes, glob, 'dataset')
        if not several and how != 'memory':
            check(os.path.samefile(ds.filename, paths[0]), 'filename', ds.filename)
        check(set(ds.variables) == used, 'variables of the dataset', sorted(ds.variables), 'in the file', sorted(used))
        for name, loc, say, timed, d, kw, attrs in specs:
            v = ds[name]
            check(v is ds.variables[name], name + ': by name')
            check(v.name == attrs.get('long_name', name), name + ': its name', v.name, attrs.get('long_name', name))
            check(v.varname == name, name + ': varname', v.varname)
            check(v.location == loc, name + ': location', v.location, loc)
            check(v.grid is ds.grid, name + ': is on the grid of the dataset', v.grid)
            check(v.units == attrs.get('units'), name + ': units', v.units, attrs.get('units'))
            same_values(v.data[:], d, name)
            want = dict(attrs)
            if 'fill_value' in kw:
                want['_FillValue'] = kw['fill_value']
            same_attrs(v.attributes, want, name)
            if timed:
                same_times(v.time.data, ts, name)
            else:
                check(len(v.time) == 1, name + ': is constant', v.time.data)
            check(len(v.info) > 0 and name in ds.info and name in str(ds), name + ': in the descriptions of the dataset')
        for attr in ('units', 'count', 'location', 'no_such', 'text'):
            known = [a[attr] for *_, a in specs if attr in a]
            for value in known + [str(x) for x in known] + ['?']:
                got = ds.get_variables_by_attribute(attr, value)
                want = [n for n, *_, a in specs if attr in a and isinstance(value, str) == isinstance(a[attr], str) and a[attr] == value]
                check(sorted(v.varname for v in got) == sorted(want), 'variables with %s=%r' % (attr, value), [v.varname for v in got], want)
        saved = False
        if s.kind in ('tri', 'flex') and all(not timed for _, _, _, timed, *_ in specs) and not several:
            # save what was loaded
            p2 = os.path.join(ctx.tmp, 'b.nc')
            quiet(ds.save, p2)
            saved = True
            with netCDF4.Dataset(p2) as nc:
                same_attrs({a: nc.getncattr(a) for a in nc.ncattrs()}, glob, 'global attributes of the saved file')
                got = read_ugrid(nc, ds.grid.mesh_name)
                same(got['nodes'], s.m['nodes'], 'nodes in the saved file')
                same(got['faces'], s.m['faces'], 'faces in the saved file')
                for name, loc, say, timed, d, kw, attrs in specs:
                    check(name in nc.variables, 'variable of the saved file', name, list(nc.variables))
                    same_values(nc.variables[name][:], d, name + ' in the saved file')
                    check(nc.variables[name].dtype == np.dtype(kw['datatype']).newbyteorder('='), name + ': type in the saved file', nc.variables[name].dtype)
                    for a, b in attrs.items():
                        if a not in ('location', 'mesh', 'coordinates'):
                            same_attr(nc.variables[name].getncattr(a), b, '%s: attribute %s in the saved file' % (name, a))
            e = Dataset.from_netCDF(p2)
            check(set(e.variables) == used, 'variables saved and loaded again', sorted(e.variables), sorted(used))
            for name, loc, say, timed, d, kw, attrs in specs:
                if say != 'bad':      # a file cannot say two locations
                    check(e[name].location == loc, name + ': location after saving', e[name].location, loc)
                same_values(e[name].data[:], d, name + ' saved and loaded again')
                check(e[name].name == ds[name].name, name + ': name after saving', e[name].name)
                check(e[name].units == ds[name].units, name + ': units after saving', e[name].units)
            e.nc_dataset.close()
            os.remove(p2)
    finally:
        ds.nc_dataset.close()
        for p in paths if how != 'memory' else ():
            os.remove(p)
    ctx.label(s.kind, how if how != 'several' or several else 'str', 'saved again' if saved else 'not saved')
    for name, loc, say, timed, d, kw, attrs in specs:
        ctx.label('on ' + loc, 'location given' if say == 'location' else 'location inferred', 'in time and layers' if timed == 'layers' else 'timed' if timed else 'static')
    ctx.label(*{spec['kind'] for spec in case['variables']})
    ctx.nontrivial(len(specs) > 1 or any(np.ma.is_masked(d) for *_, d, kw, a in specs))


def same_times(got, ts, what):
    got = [datetime.datetime(*x.timetuple()[:6], getattr(x, 'microsecond', 0)) for x in got]
    check(len(got) == len(ts), what + ': number of times', got, ts)
    check(all(abs((a - b).total_seconds()) < 1e-3 for a, b in zip(got, ts)), what + ': times', got, ts)


def load_case():
    var = D(name=pick(*NAMES), where=st.integers(0, 11), say=pick(None, 'location', 'bad'), timed=pick(False, False, True, 'layers'), kind=pick(*KINDS), long=st.booleans())
    return D(grid=pick('tri', 'flex', 's', 'r'), tri=trimesh_case(4), flex=flexmesh_case(3), curv=curv_case(4), ny=st.integers(2, 5), nx=st.integers(2, 5),
             pad=pick('both', 'none', 'low', 'high'), coords=st.booleans(), edges=st.booleans(), bounds=st.booleans(), topology=st.booleans(),
             start=pick(0, 1), mesh=pick('Mesh2', 'mesh'), times=times_case(1, 5), source=pick('str', 'path', 'list', 'open', 'memory', 'several'), extra=st.booleans(),
             old_way=pick(False, False, False, True), variables=st.lists(var, min_size=0, max_size=4), seed=SEED)


# ---------------------------------------------------------------- saving

def save(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    m = trimesh(case['tri']) if case['kind'] == 'tri' else flexmesh(case['flex'])
    faces = m['faces']
    parts = parts_of(m, case['parts'], r)
    g = {'Grid_U': Grid_U, 'UGrid': UGrid}[case['cls']](nodes=m['nodes'].copy(), faces=faces.copy(), mesh_name=case['mesh'], **{k: v.copy() for k, v in parts.items()})
    glob = some_attrs(r)
    variables, known = {}, {}
    for k, spec in enumerate(case['variables']):
        where = [w for w, ok in (('node', True), ('face', True), ('edge', 'edges' in parts), ('boundary', 'boundaries' in parts)) if ok]
        loc = where[int(r.integers(len(where)))]
        n = dict(node=len(m['nodes']), face=len(faces), edge=len(parts.get('edges', ())), boundary=len(parts.get('boundaries', ())))[loc]
        name = spec['name'] if spec['name'] not in variables else '%s_%d' % (spec['name'], k)
        v, d, attrs = make_var(dict(spec, cls='Variable'), name, n, loc, r, g)
        variables[name] = v
        known[name] = (loc, d.copy(), dict(attrs))
    ds = Dataset(grid=g, variables=variables, attributes=dict(glob))
    path = os.path.join(ctx.tmp, 's.nc')
    if case['again']:
        quiet(Dataset(grid=g, variables={}, attributes=dict(old='x')).save, path)
    if case['format'] == 'bad':
        raises(ValueError, lambda: quiet(ds.save, path, format='zip'), 'unknown format')
    fmt = {} if case['format'] in ('ok', 'bad') else dict(format=case['format'])
    quiet(ds.save, path, **fmt)
    same_attrs(ds.attributes, glob, 'dataset after saving')
    e = None
    try:
        with netCDF4.Dataset(path) as nc:
            model = 'NETCDF3' if case['format'] == 'netcdf3' else 'NETCDF4'
            check(nc.data_model.startswith(model), 'format of the file', nc.data_model, 'asked for', fmt)
            same_attrs({a: nc.getncattr(a) for a in nc.ncattrs()}, glob, 'global attributes in the file')
            for name, (loc, d, attrs) in known.items():
                check(name in nc.variables, 'variable of the file', name)
                same_values(nc.variables[name][:], d, name + ' in the file')
                check(nc.variables[name].location == loc and nc.variables[name].mesh == case['mesh'], name + ': location and mesh in the file')
        e = Dataset.from_netCDF(path)
        want = dict(parts, nodes=m['nodes'], faces=faces)
        for k in ('nodes', 'faces', 'edges', 'boundaries', 'face_face_connectivity', 'face_coordinates', 'edge_coordinates', 'boundary_coordinates'):
            if k == 'edges' and k not in want:
                continue        # found from the faces
            same(getattr(e.grid, k), want.get(k), k + ' saved and loaded')
        check(e.grid.mesh_name == case['mesh'], 'name of the mesh', e.grid.mesh_name)
        same_attrs(e.attributes, glob, 'dataset saved and loaded')
        check(set(e.variables) == set(known), 'variables saved and loaded', sorted(e.variables), sorted(known))
        for name, (loc, d, attrs) in known.items():
            v = e[name]
            check(v.location == loc, name + ': location', v.location, loc)
            check(v.data.dtype == d.dtype, name + ': type', v.data.dtype, d.dtype)
            same_values(v.data[:], d, name + ' saved and loaded')
            for a, b in attrs.items():
                check(a in v.attributes, '%s: attribute %s' % (name, a), sorted(v.attributes))
                same_attr(v.attributes[a], b, '%s: attribute %s' % (name, a))
            check(v.units == attrs['units'] and v.name == attrs['long_name'], name + ': units and name', v.units, v.name)
            same_values(variables[name].data, d, name + ' of the saved dataset')
    finally:
        if e is not None:
            e.nc_dataset.close()
        os.remove(path)
    ctx.label(case['kind'], *sorted(parts), *('var on ' + k[0] for k in known.values()), *(s['values'] for s in case['variables']))
    ctx.nontrivial(len(known) > 1 or any(np.ma.is_masked(k[1]) for k in known.values()))


def save_case():
    return D(kind=pick('tri', 'flex'), tri=trimesh_case(4), flex=flexmesh_case(3),
             parts=st.lists(pick('edges', 'boundaries', 'face_face_connectivity', 'face_coordinates', 'edge_coordinates', 'boundary_coordinates'), max_size=6, unique=True),
             cls=pick('UGrid', 'Grid_U'), mesh=pick('mesh', 'Mesh2', 'fvcom'), variables=st.lists(D(name=pick(*NAMES), values=pick('f8', 'f4', 'i4', 'i2', 'masked', 'nan')), max_size=4),
             again=st.booleans(), format=pick('ok', 'ok', 'bad', 'netcdf4', 'netcdf3'), seed=SEED)


SCENARIOS = [Scenario('load', load_case, load, quick=1200), Scenario('save', save_case, save, quick=900)]
