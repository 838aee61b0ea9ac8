"""C10: round trip of meshes through UGRID files, and an independent reader of the files"""
import contextlib
import io
import os

import netCDF4
import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from gridded.grids import Grid, Grid_U
from gridded.pyugrid.ugrid import UGrid
from gridded.pyugrid.uvar import UVar
from vlib.core import Scenario, check, values_and_mask
from vlib.gens import D, SEED, delaunay, delaunay_case, flexmesh, flexmesh_case, pick, trimesh, trimesh_case

PARTS = ['edges', 'boundaries', 'face_face_connectivity', 'face_edge_connectivity', 'face_coordinates', 'edge_coordinates', 'boundary_coordinates']


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def polygons(m):
    return m['polys'] if 'polys' in m else [list(map(int, f)) for f in m['faces']]


def parts_of(m, names, r):
    """arrays of the optional parts; arbitrary, but consistent in shape, as a caller may have them"""
    polys = polygons(m)
    nf, nv = m['faces'].shape
    edges = sorted({tuple(sorted((p[k], p[(k + 1) % len(p)]))) for p in polys for k in range(len(p))})
    edges = np.array(edges, dtype=np.int32)
    edges = edges[r.permutation(len(edges))]
    nb = int(r.integers(1, len(edges) + 1))
    mask = np.ma.getmaskarray(np.ma.asanyarray(m['faces']))
    out = {}
    if 'edges' in names:
        out['edges'] = edges
    if 'boundaries' in names:
        out['boundaries'] = edges[:nb]
    if 'face_face_connectivity' in names:
        a = r.integers(-1, nf, (nf, nv)).astype(np.int32)
        out['face_face_connectivity'] = np.ma.array(a, mask=mask) if mask.any() else a
    if 'face_edge_connectivity' in names and 'edges' in names:
        a = r.integers(0, len(edges), (nf, nv)).astype(np.int32)
        out['face_edge_connectivity'] = np.ma.array(a, mask=mask) if mask.any() else a
    if 'face_coordinates' in names:
        out['face_coordinates'] = r.uniform(-180, 180, (nf, 2))
    if 'edge_coordinates' in names and 'edges' in names:
        out['edge_coordinates'] = r.uniform(-180, 180, (len(edges), 2))
    if 'boundary_coordinates' in names and 'boundaries' in names:
        out['boundary_coordinates'] = r.uniform(-180, 180, (nb, 2))
    return out


def same(a, b, what):
    check((a is None) == (b is None), what + ': there or not', a, b)
    if a is None:
        return
    va, ma = values_and_mask(a)
    vb, mb = values_and_mask(b)
    check(va.shape == vb.shape, what + ': shape', va.shape, 'saved', vb.shape)
    check((ma == mb).all(), what + ': which are missing', ma, 'saved', mb)
    check((np.where(ma, 0, va) == np.where(mb, 0, vb)).all(), what, va, 'saved', vb)


ROLES = dict(faces='face_node_connectivity', edges='edge_node_connectivity', boundaries='boundary_node_connectivity',
             face_face_connectivity='face_face_connectivity', face_edge_connectivity='face_edge_connectivity')
LOCS = dict(nodes='node_coordinates', face_coordinates='face_coordinates', edge_coordinates='edge_coordinates', boundary_coordinates='boundary_coordinates')


def read_ugrid(nc, mesh_name):
    """what the file says, by the UGRID convention and nothing else"""
    check(mesh_name in nc.variables, 'the mesh variable', mesh_name, list(nc.variables))
    mesh = nc.variables[mesh_name]
    check(mesh.cf_role == 'mesh_topology' and int(mesh.topology_dimension) == 2, 'the mesh variable is a 2-D mesh_topology', mesh.cf_role)
    out = {}
    for part, role in LOCS.items():
        if not hasattr(mesh, role):
            continue
        names = getattr(mesh, role).split()
        check(len(names) == 2 and all(n in nc.variables for n in names), role + ' names two variables of the file', names, list(nc.variables))
        cols = {}
        for n in names:
            v = nc.variables[n]
            check(v.ndim == 1, role + ' are one-dimensional', n)
            sn, un = getattr(v, 'standard_name', None), getattr(v, 'units', None)
            check((sn, un) in (('longitude', 'degrees_east'), ('latitude', 'degrees_north')), role + ': standard name and units', n, sn, un)
            cols[sn] = v[:]
        check(len(cols) == 2, role + ' are a longitude and a latitude', names)
        out[part] = np.ma.column_stack([cols['longitude'], cols['latitude']])
    fdim = getattr(mesh, 'face_dimension', None)
    for part, role in ROLES.items():
        if not hasattr(mesh, role):
            continue
        name = getattr(mesh, role)
        check(name in nc.variables, role + ' names a variable of the file', name, list(nc.variables))
        v = nc.variables[name]
        check(v.cf_role == role, name + ': cf_role', v.cf_role)
        a = v[:]
        start = int(getattr(v, 'start_index', 0))
        a = np.ma.where(a >= start, a - start, a) if start else a
        first = dict(faces=fdim, face_face_connectivity=fdim, face_edge_connectivity=fdim).get(part) or v.dimensions[0]
        out[part] = a if v.dimensions[0] == first else a.T
    return out


VALUES = pick('f8', 'f4', 'i4', 'i2', 'masked', 'nan')


def make_var(spec, name, n, location, r, grid):
    kind = spec['values']
    attrs = dict(long_name='the ' + name, units='m s-1', flag=np.int32(r.integers(10)), ratio=float(r.normal()))
    if kind in ('f8', 'f4'):
        d = r.normal(size=n).astype(kind)
    elif kind in ('i4', 'i2'):
        d = r.integers(-1000, 1000, n).astype(kind)
    elif kind == 'nan':
        d = r.normal(size=n)
        d[r.random(n) < .3] = np.nan
    else:
        d = np.ma.array(r.normal(size=n), mask=r.random(n) < .4)
        attrs['_FillValue'] = -9999.0
    if spec['cls'] == 'UVar':
        return UVar(name, location, data=d, attributes=dict(attrs)), d, attrs
    return Variable(name=name, data=d, grid=grid, location=location, attributes=dict(attrs)), d, attrs


def run(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    m = {'tri': trimesh, 'flex': flexmesh, 'del': delaunay}[case['kind']](case[case['kind']])
    faces = m['faces']
    flex = case['kind'] == 'flex' and np.ma.getmaskarray(faces).any()
    if flex and case['minus']:
        faces = np.ma.filled(faces, -1)
    parts = parts_of(m, case['parts'], r)
    cls = Grid_U if case['wrap'] else UGrid
    name = case['mesh_name']
    kw = {} if name is None else dict(mesh_name=name)
    g = cls(nodes=m['nodes'].copy(), faces=faces.copy(), **kw, **{k: v.copy() for k, v in parts.items()})
    name = name or 'mesh'
    variables, known = {}, {}
    for k, spec in enumerate(case['variables']):
        where = [w for w, ok in (('node', True), ('face', True), ('edge', 'edges' in parts), ('boundary', 'boundaries' in parts)) if ok]
        loc = where[int(r.integers(len(where)))]
        n = dict(node=len(m['nodes']), face=len(faces), edge=len(parts.get('edges', ())), boundary=len(parts.get('boundaries', ())))[loc]
        vn = 'var_%d' % k
        v, d, attrs = make_var(spec, vn, n, loc, r, g)
        variables[vn] = v
        known[vn] = (loc, d, attrs)
    path = os.path.join(ctx.tmp, 'm.nc')
    if case['before']:
        # a larger mesh, in the same file, before
        old = UGrid(nodes=r.normal(size=(90, 2)), faces=r.integers(0, 90, (70, 3)), edges=r.integers(0, 90, (30, 2)), mesh_name='other')
        quiet(old.save, path).close()
    elif os.path.exists(path):
        os.remove(path)
    model = 'NETCDF4'
    if variables or case['how'] == 'save':
        kw = {} if case['format'] is None else dict(format=case['format'])
        nc = quiet(g.save, path, variables=variables, **kw)
        nc.close()
        if case['format'] == 'netcdf3':
            model = 'NETCDF3'
    elif case['how'] == 'dataset':
        nc = netCDF4.Dataset(path, 'w')
        quiet(g.save, nc)
        nc.close()
    else:
        kw = {} if case['format'] is None else dict(format=case['format'])
        quiet(g.save_as_netcdf, path, **kw)
        if case['format'] == 'netcdf3':
            model = 'NETCDF3'
    # the object is as before
    same(g.nodes, m['nodes'], 'nodes of the saved object')
    same(g.faces, faces, 'faces of the saved object')
    with netCDF4.Dataset(path) as nc:
        check(nc.data_model.startswith(model), 'format of the file', nc.data_model, 'asked for', case['format'])
        got = read_ugrid(nc, name)
        want = dict(parts, nodes=m['nodes'], faces=faces)
        check(set(got) == set(want), 'parts described in the file', sorted(got), 'saved', sorted(want))
        for k in want:
            same(got[k], want[k], k + ' in the file')
        for vn, (loc, d, attrs) in known.items():
            check(vn in nc.variables, 'variable of the file', vn)
            v = nc.variables[vn]
            va, ma = values_and_mask(v[:])
            vb, mb = values_and_mask(d)
            check(va.shape == vb.shape and (ma == mb).all(), vn + ': shape and missing values', ma, mb)
            check(np.array_equal(np.where(ma, 0, va), np.where(mb, 0, vb), equal_nan=True), vn + ': values', va, vb)
            check(v.dtype == d.dtype, vn + ': type', v.dtype, d.dtype)
            check(v.location == loc and v.mesh == name, vn + ': location and mesh', v.location, v.mesh)
            for a, b in attrs.items():
                check(v.getncattr(a) == b, '%s: attribute %s' % (vn, a), v.getncattr(a), b)
            if hasattr(v, 'coordinates'):
                cn = v.coordinates.split()
                check(all(c in nc.variables for c in cn), vn + ': coordinates name variables of the file', cn)
                check(all(nc.variables[c].dimensions == v.dimensions for c in cn), vn + ': coordinates are on the same dimension', cn)
    for reader in case['readers']:
        if reader == 'file':
            h = UGrid.from_ncfile(path)
        elif reader == 'named':
            h = UGrid.from_ncfile(path, mesh_name=name)
        elif reader == 'dataset':
            with netCDF4.Dataset(path) as nc:
                h = UGrid.from_nc_dataset(nc)
        else:
            with netCDF4.Dataset(path) as nc:
                h = Grid.from_netCDF(dataset=nc)
        check(h.mesh_name == name, reader + ': mesh name', h.mesh_name, name)
        for k, v in want.items():
            if k != 'face_edge_connectivity':      # not read
                same(getattr(h, k), v, '%s by %s' % (k, reader))
        for k in PARTS:
            if k not in want and k != 'face_edge_connectivity':
                check(getattr(h, k) is None, '%s by %s: was not saved' % (k, reader), getattr(h, k))
        pts = np.array([m['nodes'][p].mean(axis=0) for p in polygons(m)])
        if case['kind'] != 'del':
            loc = np.asarray(h.locate_faces(pts))
            check((loc == np.arange(len(pts))).all(), 'centroids located on the mesh loaded by ' + reader, loc)
        if case['again']:
            p2 = os.path.join(ctx.tmp, 'm2.nc')
            quiet(h.save, p2).close()
            h2 = UGrid.from_ncfile(p2)
            for k, v in want.items():
                if k != 'face_edge_connectivity':
                    same(getattr(h2, k), v, k + ' saved and loaded twice')
            os.remove(p2)
    os.remove(path)
    ctx.label(case['kind'], 'flexible' if flex else 'one shape', *sorted(parts), *('var on ' + k[0] for k in known.values()))
    if len(faces) == 3:
        ctx.label('3 faces')
    ctx.nontrivial(bool(parts) or flex or bool(variables))


def case():
    return D(kind=pick('tri', 'flex', 'del'), tri=trimesh_case(5), flex=flexmesh_case(4), parts=st.lists(pick(*PARTS), max_size=7, unique=True),
             minus=st.booleans(), wrap=st.booleans(), mesh_name=pick(None, 'mesh', 'Mesh2', 'fvcom_mesh', 'a'), how=pick('save', 'save', 'dataset', 'save_as_netcdf'), format=pick(None, None, 'netcdf4', 'netcdf3'),
             variables=st.lists(D(values=VALUES, cls=pick('UVar', 'Variable')), max_size=3), before=st.booleans(), again=st.booleans(),
             readers=st.lists(pick('file', 'named', 'dataset', 'grid'), min_size=1, max_size=2, unique=True), seed=SEED, **{'del': delaunay_case(30)})


SCENARIOS = [Scenario('round trip', case, run, quick=1600)]
