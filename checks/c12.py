"""C12: one grid, described in many ways"""
import datetime
import os

import netCDF4
import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
from vlib import files
from vlib.core import Scenario, check, raises, values_and_mask
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, pick

T = datetime.datetime(2020, 1, 1)
CASE = dict(same=lambda s: s, upper=str.upper, title=str.title)
TYPES = dict(u=['ugrid', 'pygrid_u', 'triangular', 'unstructured'], s=['sgrid', 'pygrid_s', 'staggered', 'curvilinear', 'roms'],
             r=['rgrid', 'regular', 'rectangular', 'rectilinear'])
CLS = dict(u=Grid_U, s=Grid_S, r=Grid_R)
NODE_NAMES = [('node_lon', 'node_lat'), ('lon', 'lat'), ('lon_psi', 'lat_psi'), ('longitude', 'latitude')]
EXTRA = dict(none=-1, both=1, low=0, high=0)


def write_u(nc, f, case, how):
    """the mesh; returns dims of the data and grid_topology"""
    m = f.mesh
    nodes, faces = m['nodes'], m['faces']
    start, order = case['start'], case['order']
    up = CASE[case['case']]
    full = faces.max() == len(nodes) - 1          # otherwise nothing but the attribute tells the first index
    three = len(faces) == 3                       # then the order of the array is not to be seen from its shape
    if how == 'standard':
        mesh = case['mesh']
        start_attr = case['start_attr'] or not full
        face_dim = case['face_dim'] or (three and order == 'F')
        dn, df, dm = files.ugrid(nc, nodes, faces, mesh=mesh, start=start, order=order, start_attr=start_attr, face_dim=face_dim,
                                 coord_by=case['coord_by'], dtype=case['dtype'], names=case['names'] and list(case['names']))
        v = nc.variables[mesh]
        if case['lat_first']:
            v.node_coordinates = ' '.join(v.node_coordinates.split()[::-1])
        if case['spaces']:
            v.node_coordinates = ' ' + v.node_coordinates.replace(' ', '  ') + ' '
        topo = None
        if case['as_dict']:
            topo = dict(v.__dict__)
        return (dn,) if f.kind == 'u_node' else (df,), topo
    if not full and not case['start_attr']:
        start = 0
    if case['start_attr']:
        start *= case['far']        # counting from anything
    nc.createDimension('node', len(nodes))
    nc.createDimension('cell', len(faces))
    nc.createDimension('three', 3)
    nc.createDimension('two', 2)
    ln, lt = NODE_NAMES[case['which'] % 4]
    fn = ['faces', 'tris', 'nv', 'ele', 'nele'][case['which'] % 5]
    if how == 'given':
        ln, lt, fn = 'XX_node', 'yCoord', 'Conn'
    both = case['which'] % 3 == 0
    topo = {}
    if both:
        n = up('Points' if how == 'given' else ['nodes', 'node'][case['which'] % 2])
        v = nc.createVariable(n, 'f8', ('node', 'two'))
        v[:] = nodes
        topo[['nodes', 'node'][case['which'] % 2]] = n
    else:
        for n, k, a in ((ln, 0, 'node_lon'), (lt, 1, 'node_lat')):
            v = nc.createVariable(up(n), 'f8', ('node',))
            v[:] = nodes[:, k]
            topo[a] = up(n)
    dims = ('three', 'cell') if order == 'F' else ('cell', 'three')
    v = nc.createVariable(up(fn), case['dtype'], dims)
    v[:] = (faces + start).T if order == 'F' else faces + start
    if case['start_attr']:
        v.start_index = np.int32(start)
    topo['faces'] = up(fn)
    if how == 'usual' and case['decoy']:
        # numbers of the elements, as some models write them: the connectivity is known by a name that goes before
        later = [n for n in ('faces', 'tris', 'nv', 'ele', 'nele') if n != fn]
        later = [n for n in ('nele',) if n in later and ['faces', 'tris', 'nv', 'ele', 'nele'].index(fn) < 4]
        for n in later:
            nc.createVariable(up(n), 'i4', ('cell',))[:] = np.arange(len(faces)) + 1
    return ('node',) if f.kind == 'u_node' else ('cell',), topo if how == 'given' else None


def write_s(nc, f, case, how):
    pad = case['field']['pad']
    up = CASE[case['case']]
    xy = f.xy
    if how == 'standard':
        coords = [('lon_psi', 'lat_psi'), ('X1', 'Y1'), ('node_lon', 'node_lat')][case['which'] % 3]
        dims = files.sgrid(nc, xy, pad, topo=case['mesh'], dims=[('xi', 'eta'), ('m', 'n')][case['which'] % 2], coords=coords,
                           conventions=case['face_dim'])
        topo = dict(nc.variables[case['mesh']].__dict__) if case['as_dict'] else None
        return dims[f.location], topo
    ny, nx = xy.shape[:2]
    e = EXTRA[pad]
    for d, n in (('xn', nx), ('yn', ny), ('xc', nx + e), ('yc', ny + e)):
        nc.createDimension(d, n)
    dims = dict(node=('yn', 'xn'), center=('yc', 'xc'), edge1=('yc', 'xn'), edge2=('yn', 'xc'))
    names = dict(node=NODE_NAMES[case['which'] % 4], center=[('center_lon', 'center_lat'), ('lon_rho', 'lat_rho'), ('lonc', 'latc')][case['which'] % 3],
                 edge1=[('edge1_lon', 'edge1_lat'), ('lon_u', 'lat_u')][case['which'] % 2], edge2=[('edge2_lon', 'edge2_lat'), ('lon_v', 'lat_v')][case['which'] % 2])
    if how == 'given':
        names = {k: ('A' + k + '_x', 'b' + k + '_Y') for k in names}
    topo = {}
    rng = np.random.default_rng([case['seed'], 9])
    f.other = {}
    for loc, (n1, n2) in names.items():
        for n, k, ax in ((n1, 0, 'lon'), (n2, 1, 'lat')):
            v = nc.createVariable(up(n), 'f8', dims[loc])
            a = xy[..., k] if loc == 'node' else rng.uniform(0, 1, v.shape)
            v[:] = a
            f.other['%s_%s' % (loc, ax)] = a
            topo['%s_%s' % (loc, ax)] = up(n)
    # masks, of water alone
    f.masks = {}
    for k, (loc, n) in enumerate(dict(node='mask_psi', center='mask_rho', edge1='mask_u', edge2='mask_v').items()):
        if case['masks'] >> k & 1:
            n = up('wet_' + loc if how == 'given' else n)
            v = nc.createVariable(n, 'i4', dims[loc])
            v.flag_values = np.array([0, 1, 2], dtype='i4')
            v.flag_meanings = 'land water lake'
            v[:] = f.masks[loc + '_mask'] = rng.integers(1, 3, v.shape)
            topo[loc + '_mask'] = n
    if case['typed']:
        topo['grid_type'] = TYPES['s'][case['which'] % 5]
    return dims[f.location], topo if how == 'given' else None


def write_r(nc, f, case, how):
    up = CASE[case['case']]
    names = [up(n) for n in (NODE_NAMES[case['which'] % 4] if how != 'given' else ('XX', 'yy'))]
    lat, lon = files.rect(nc, *f.axes, names=names)
    topo = dict(node_lon=names[0], node_lat=names[1], grid_type=CASE[case['case']](TYPES['r'][case['which'] % 4]))
    return (lat, lon) if not case['swap'] else (lon, lat), topo if how == 'given' else None


def name_of_first(nc, kind, case):
    return next(n for n, v in nc.variables.items() if v.ndim)


def run(case, ctx):
    up = CASE[case['case']]
    c = dict(case['field'])
    kind = c['kind']
    how = case['how']
    if kind == 'r' and how == 'standard':
        how = 'usual'
    if kind[0] == 's' and how != 'standard':
        c['pad'] = {'low': 'both', 'high': 'none'}.get(c['pad'], c['pad'])
    f = Field(c)
    if kind[0] == 'u' and len(f.mesh['faces']) == 3:
        how = 'standard'             # the order of such an array can not be told otherwise
    case = dict(case, field=c)
    nc = files.memory()
    split = None
    try:
        dims, topo = {'u': write_u, 's': write_s, 'r': write_r}[kind[0]](nc, f, case, how)
        data = np.random.default_rng([case['seed'], 1]).normal(size=f.shape)
        store = data.T if kind == 'r' and case['swap'] else data
        where = nc
        if case['split']:
            split = where = files.memory()
            for d in dims:
                split.createDimension(d, len(nc.dimensions[d]))
        v = where.createVariable('val', 'f8', dims)
        v[:] = store
        if kind[0] != 'u' and how != 'given' and case['decoy'] and 1 <= case['typed'] <= 4:
            # named like the faces of a mesh, so that only the type tells
            w = nc.createVariable(up('ele'), 'f8', nc.variables[name_of_first(nc, kind, case)].dimensions)
            w[:] = 1.0
        if how == 'usual' and case['half']:
            # one of a pair of coordinates does not make a pair
            have = {n.lower() for n in nc.variables}
            pairs = NODE_NAMES + [('center_lon', 'center_lat'), ('lon_rho', 'lat_rho'), ('lonc', 'latc')] * (kind[0] == 's')
            for k, (n1, n2) in enumerate(pairs):
                if n1 in have or n2 in have:
                    continue
                n = up((n1, n2)[(case['half'] + k) % 2])
                if 'DHALF' not in nc.dimensions:
                    nc.createDimension('DHALF', 7)
                nc.createVariable(n, 'f8', nc.variables[name_of_first(nc, kind, case)].dimensions if case['half'] < 3 else ('DHALF',))[:] = 3.0
        kw = {}
        if topo is not None:
            kw['grid_topology'] = topo
        elif case['typed'] == 1:
            kw['grid_type'] = CASE[case['case']](TYPES[kind[0]][case['which'] % len(TYPES[kind[0]])])
        elif case['typed'] == 2:
            nc.grid_type = CASE[case['case']](TYPES[kind[0]][case['which'] % len(TYPES[kind[0]])])
        elif case['typed'] == 3:
            kw['grid_type'] = CLS[kind[0]]
        path = None
        if case['disk'] or (case['split'] and not case['pass_grid']):      # the grid_file of a variable is a name
            path = os.path.join(ctx.tmp, 'c12.nc')
            # a copy of the file on disk
            with netCDF4.Dataset(path, 'w') as out:
                for n, d in nc.dimensions.items():
                    out.createDimension(n, len(d))
                for n, w in nc.variables.items():
                    at = {a: w.getncattr(a) for a in w.ncattrs()}
                    o = out.createVariable(n, w.dtype, w.dimensions, fill_value=at.pop('_FillValue', None))
                    o.setncatts(at)
                    o[...] = w[...]
                out.setncatts({a: nc.getncattr(a) for a in nc.ncattrs()})
            src = dict(filename=path)
        else:
            src = dict(dataset=nc)
        if case['typed'] == 4 and topo is None:
            g = CLS[kind[0]].from_netCDF(**src)
        elif case['split'] and path:
            g = Grid.from_netCDF(data_file=split, grid_file=path, **kw)
        else:
            g = Grid.from_netCDF(**src, **kw)
        check(type(g) is CLS[kind[0]], 'type of the grid', type(g))
        # the nodes and cells
        if kind[0] == 'u':
            check(np.array_equal(np.asarray(g.nodes), f.mesh['nodes']), 'nodes', g.nodes, f.mesh['nodes'])
            check(np.array_equal(np.asarray(g.faces), f.mesh['faces']), 'faces', g.faces, f.mesh['faces'])
        elif kind[0] == 's':
            check(np.array_equal(np.asarray(g.node_lon), f.xy[..., 0]) and np.array_equal(np.asarray(g.node_lat), f.xy[..., 1]), 'nodes')
            for n, a in getattr(f, 'other', {}).items():
                check(np.array_equal(np.asarray(getattr(g, n)), a), n, getattr(g, n), a)
        else:
            check(np.array_equal(np.asarray(g.node_lon), f.axes[0]) and np.array_equal(np.asarray(g.node_lat), f.axes[1]), 'axes', g.node_lon, g.node_lat)
        ref = f.make_grid()
        a, b = [np.ma.filled(x.locate_faces(f.points), -1) for x in (g, ref)]
        check(np.array_equal(a, b), 'cells of points', a, b)
        for n, a in getattr(f, 'masks', {}).items():
            got = getattr(g, n)
            check(got is not None and np.shape(got) == a.shape and np.array_equal(got[:], a), n, got, a)
        for n in ('node_mask', 'center_mask', 'edge1_mask', 'edge2_mask') if kind[0] == 's' and hasattr(f, 'masks') else ():
            check(n in f.masks or getattr(g, n) is None, n + ' is not in the file', getattr(g, n))
        if 'filename' in src and not (case['split'] and path and not (case['typed'] == 4 and topo is None)):
            check(g.filename == path, 'name of the file', g.filename, path)
        if how == 'standard':
            for k, w in nc.variables[case['mesh']].__dict__.items() if not topo else topo.items():
                check(k in g.grid_topology and np.array_equal(g.grid_topology[k], w), 'attribute of the topology: ' + k, g.grid_topology, w)
        if topo is None and case['typed'] in (0, 2):
            # kinds of grid the caller brings
            own = {k: type('My' + c.__name__, (c,), {}) for k, c in (('ugrid', Grid_U), ('sgrid', Grid_S), ('rgrid', Grid_R))}
            mine = Grid.from_netCDF(**src, _default_types=tuple(own.items()), **kw)
            check(type(mine) is own[{'u': 'ugrid', 's': 'sgrid', 'r': 'rgrid'}[kind[0]]], 'kind of grid of the caller', type(mine))
        # values
        vkw = dict(varname='val', location=f.location)
        if case['split']:
            vkw.update(data_file=split, grid_file=path or nc)
        else:
            vkw.update(src)
        own = dict(grid=g) if case['pass_grid'] or 'grid_type' in kw or (case['decoy'] and case['typed'] == 4) else dict(grid_topology=topo)
        var = Variable.from_netCDF(**vkw, **own)
        check(type(var.grid) is CLS[kind[0]], 'type of the grid of the variable', type(var.grid))
        res = var.at(f.points, T)
        vv, mm = [x.ravel() for x in values_and_mask(res)]
        check(vv.shape == (f.n,), 'one value per point', np.shape(res))
        check((mm == f.want_mask).all(), 'mask', mm, f.want_mask)
        want = f.ref(data)
        ok = np.isclose(vv, want, rtol=1e-8, atol=1e-8) | mm
        check(ok.all(), 'values', vv, want)
    finally:
        nc.close()
        if split is not None:
            split.close()
    if path:
        os.remove(path)
    ctx.label(kind, how, 'start %d' % case['start'] if kind[0] == 'u' else '', case['order'] if kind[0] == 'u' else '', 'disk' if case['disk'] else 'memory',
              'split' if case['split'] else 'one file')


def case():
    return D(field=field_case(max_points=5), how=pick('standard', 'usual', 'given'), start=pick(0, 1), order=pick('C', 'F'), case=pick(*CASE), mesh=pick('Mesh2', 'm', 'Topology1'),
             start_attr=st.booleans(), face_dim=st.booleans(), coord_by=pick('standard_name', 'units', 'both'), dtype=pick('i4', 'i8', 'i2'),
             names=pick(None, None, ['lo', 'la', 'tri_conn'], ['Y', 'X', 'F']), lat_first=st.booleans(), spaces=st.booleans(), as_dict=pick(False, False, True),
             which=st.integers(0, 59), far=pick(1, 1, 4), masks=st.integers(0, 15), typed=st.integers(0, 4), half=st.integers(0, 4), swap=st.booleans(), split=st.booleans(), decoy=st.booleans(), disk=pick(False, False, True), pass_grid=st.booleans(), seed=SEED)


def flex_case():
    from vlib.gens import flexmesh_case
    return D(mesh=flexmesh_case(4), start=pick(0, 1, 7), order=pick('C', 'F'), fill=pick(None, -999, -1), seed=SEED)


def run_flex(case, ctx):
    """mixed meshes: the order of the array from face_dimension, the fill value, and the first index"""
    from vlib.gens import flex_points, flexmesh
    m = flexmesh(case['mesh'])
    r = np.random.default_rng([case['seed'], 0])
    p = flex_points(m, r, 6)
    nc = files.memory()
    try:
        dn, df, dm = files.ugrid(nc, m['nodes'], m['faces'], start=case['start'], order=case['order'])
        g = Grid.from_netCDF(dataset=nc)
        got, mask = values_and_mask(g.faces)
        want, wm = values_and_mask(m['faces'])
        check(got.shape == want.shape and (mask == wm).all() and (np.where(mask, 0, got) == np.where(wm, 0, want)).all(), 'faces', g.faces, m['faces'])
        a = np.asarray(g.locate_faces(p['points']))
        check((a == p['face']).all(), 'cells', a, p['face'])
        data = r.normal(size=len(m['faces']))
        v = nc.createVariable('val', 'f8', (df,))
        v[:] = data
        if len(data) == len(m['nodes']):
            v.location = 'face'
        var = Variable.from_netCDF(dataset=nc, varname='val', location='face')
        res = np.ma.filled(var.at(p['points'], T), 0)[:, 0]
        want = np.where(p['face'] >= 0, data[p['face']], 0.0)
        check(np.allclose(res, want, rtol=1e-12, atol=0), 'values', res, want)
    finally:
        nc.close()
    ctx.label('start %d' % case['start'], case['order'], 'mixed' if wm.any() else 'one shape')
    ctx.nontrivial(wm.any() or case['start'] or case['order'] == 'F')


# ---------------------------------------------------------------- the parts of a UGRID topology
LON_UNITS = ['degrees_east', 'degree_east', 'degree_E', 'degrees_E', 'degreeE', 'degreesE']
LAT_UNITS = ['degrees_north', 'degree_north', 'degree_N', 'degrees_N', 'degreeN', 'degreesN']
COORD = D(by=pick('geographic', 'projection', 'units', 'wrong units'), dtype=pick('f8', 'f8', 'f4', 'i4', 'i2', 'packed'))


def run_parts(case, ctx):
    """coordinates of any type, told by any of the names of the conventions, and connectivity in either order, from any first index, with flags"""
    from vlib.gens import trimesh
    m = trimesh(case['mesh'])
    faces = m['faces']
    r = np.random.default_rng([case['seed'], 0])
    sides = {}
    for i, f in enumerate(faces.tolist()):
        for a, b in zip(f, f[1:] + f[:1]):
            sides.setdefault((min(a, b), max(a, b)), []).append((i, (a, b)))
    edges = np.array([v[0][1] for v in sides.values()])
    bounds = np.array([v[0][1] for v in sides.values() if len(v) == 1])
    ff = np.full((len(faces), 3), -1)
    for v in sides.values():
        if len(v) == 2:
            for (i, e), (j, _) in (v, v[::-1]):
                ff[i, [tuple(sorted(q)) for q in zip(faces[i], np.roll(faces[i], -1))].index(tuple(sorted(e)))] = j
    nc = files.memory()
    try:
        for d, n in (('n', len(m['nodes'])), ('f', len(faces)), ('e', len(edges)), ('b', len(bounds)), ('Two', 2), ('Three', 3)):
            nc.createDimension(d, n)
        mesh = nc.createVariable('Mesh', 'i4', ())
        mesh.cf_role = 'mesh_topology'
        mesh.topology_dimension = np.int32(2)
        mesh.face_dimension = 'f'
        want = {}
        for k, (part, d) in enumerate([('node', 'n'), ('face', 'f'), ('edge', 'e'), ('boundary', 'b')]):
            if part != 'node' and part not in case['parts']:
                continue
            c = case['coords'][k]
            n = len(nc.dimensions[d])
            xy = np.empty((n, 2))
            names = []
            for ax in (0, 1):
                dt = c['dtype'] if ax == case['mixed'] or case['mixed'] == 2 else 'f8'
                a = m['nodes'][:, ax] if part == 'node' else r.uniform(-90, 90, n)
                a = np.round(a * 100) / 64 if dt == 'packed' else a.astype(np.float32).astype(float) if dt == 'f4' else np.round(a) if dt[0] == 'i' else a
                nm = '%s_%s' % (part, 'xy'[ax])
                v = nc.createVariable(nm, 'i4' if dt == 'packed' else dt, (d,))
                if dt == 'packed':
                    v.scale_factor = 1 / 64
                v[:] = a
                if c['by'] in ('geographic', 'wrong units'):
                    v.standard_name = ('longitude', 'latitude')[ax]
                if c['by'] == 'projection':
                    v.standard_name = ('projection_x_coordinate', 'projection_y_coordinate')[ax]
                    v.units = 'm'
                if c['by'] == 'wrong units':
                    # the standard name tells
                    v.units = (LAT_UNITS, LON_UNITS)[ax][case['unit']]
                elif c['by'] == 'units':
                    v.units = (LON_UNITS, LAT_UNITS)[ax][case['unit']]
                xy[:, ax] = a
                names.append(nm)
            mesh.setncattr(part + '_coordinates', ' '.join(names[::-1] if case['lat_first'] else names))
            want['nodes' if part == 'node' else part + '_coordinates'] = xy
        conn = dict(faces=('face_node_connectivity', faces, ('f', 'Three')), edges=('edge_node_connectivity', edges, ('e', 'Two')),
                    boundaries=('boundary_node_connectivity', bounds, ('b', 'Two')), face_face_connectivity=('face_face_connectivity', ff, ('f', 'Three')))
        for k, (attr, (role, a, dims)) in enumerate(conn.items()):
            if attr != 'faces' and attr not in case['conn']:
                continue
            c = case['how'][k]
            start = c['start']
            a = a.copy()
            fill, kw = c['none'], {}
            gone = a < 0
            unsaid = c['unsaid']
            if unsaid:
                # without the attribute, counting from one shows if the last one is there
                last = len(faces) if attr == 'face_face_connectivity' else len(m['nodes'])
                start = 1 if start and a.max() == last - 1 else 0
            if fill == 'fill':
                kw['fill_value'] = -999
            out = np.where(gone, {'fill': -999, 'flag -1': -1, 'flag -999': -999, '-1': -1}[fill], a + start)
            turn = c['turn'] and not (len(dims) == 2 and dims[1] == 'Two' and len(a) == 2)
            v = nc.createVariable('c%d' % k, c['dtype'], dims[::-1] if turn else dims, **kw)
            v.set_auto_maskandscale(False)
            v[:] = out.T if turn else out
            v.set_auto_maskandscale(True)
            if not unsaid:
                v.start_index = np.int32(start)
            v.cf_role = role
            if fill.startswith('flag') and attr == 'face_face_connectivity':
                v.flag_values = np.int32(fill.split()[1])
                v.flag_meanings = 'out_of_mesh'
            mesh.setncattr(role, 'c%d' % k)
            want[attr] = (a, gone, fill)
        g = Grid.from_netCDF(dataset=nc)
        check(type(g) is Grid_U, 'type of grid', type(g))
        for k, w in want.items():
            got = getattr(g, k)
            check(got is not None, k + ' is in the file', k)
            v, mask = values_and_mask(got)
            if isinstance(w, tuple):
                a, gone, fill = w
                check(v.shape == a.shape and (v[~gone] == a[~gone]).all() and not mask[~gone].any(), k, got, a)
                if gone.any():
                    check((mask | (v < 0))[gone].all(), k + ': no neighbors', got, a)
                    if fill.startswith('flag'):
                        check((v[gone] == int(fill.split()[1])).all(), k + ': the flag', got, fill)
            else:
                check(v.shape == w.shape and (v == w).all(), k, got, w)
        for k in ('face_coordinates', 'edge_coordinates', 'boundary_coordinates', 'edges', 'boundaries', 'face_face_connectivity'):
            if k not in want:
                check(getattr(g, k) is None, k + ' is not in the file', getattr(g, k))
    finally:
        nc.close()
    ctx.label('parts', *sorted(want))
    ctx.nontrivial(len(want) > 2)


def parts_case():
    from vlib.gens import trimesh_case
    return D(mesh=trimesh_case(4), coords=st.lists(COORD, min_size=4, max_size=4), mixed=st.integers(0, 2), lat_first=st.booleans(), unit=st.integers(0, 5),
             parts=st.lists(pick('face', 'edge', 'boundary'), unique=True), conn=st.lists(pick('edges', 'boundaries', 'face_face_connectivity'), unique=True),
             how=st.lists(D(start=pick(0, 1, 1, 2, 5), unsaid=pick(False, False, True), dtype=pick('i4', 'i8', 'i2'), turn=st.booleans(), none=pick('fill', 'flag -1', 'flag -999', '-1')), min_size=4, max_size=4),
             seed=SEED)


# ---------------------------------------------------------------- several meshes in one file
MESH = D(name=pick('Mesh2', 'mesh', 'm', 'Mesh2_b', 'A'), what=pick('mesh', 'mesh', 'mesh', 'network', 'three dimensions', 'no role', 'other role', 'no dimension'), spaces=st.booleans(),
         dim=pick('i4', 'i8', 'text', 'f8'), start=pick(0, 1), order=pick('C', 'F'))


def run_meshes(case, ctx):
    """the mesh that is asked for by its name, or the only one"""
    from gridded.pyugrid.read_netcdf import find_mesh_names, is_valid_mesh
    from gridded.pyugrid.ugrid import UGrid
    from vlib.gens import trimesh
    r = np.random.default_rng([case['seed'], 5])
    path = os.path.join(ctx.tmp, 'meshes.nc')
    nc = netCDF4.Dataset(path, 'w') if case['disk'] else files.memory()
    good, all_ = {}, []
    try:
        for k, spec in enumerate(case['meshes']):
            m = trimesh(dict(case['mesh'], seed=int(r.integers(1000))))
            nodes, faces = m['nodes'] + 10 * k, m['faces']
            name = spec['name']
            n = {'network': 1, 'three dimensions': 3}.get(spec['what'], 2)
            dim = None if spec['what'] == 'no dimension' else str(n) if spec['dim'] == 'text' else np.dtype(spec['dim']).type(n)
            role = {'other role': 'mesh_topology_3d', 'no role': None}.get(spec['what'], 'mesh_topology')
            if spec['spaces'] and role:
                role = ' ' + role + '  '
            files.ugrid(nc, nodes, faces, mesh=name, start=spec['start'], order=spec['order'], names=['lo%d' % k, 'la%d' % k, 'tri%d' % k],
                        role=role, dim=dim, conn=spec['what'] != 'network')
            v = nc.variables[name]
            edges = None
            if spec['what'] == 'network':
                edges = np.array([(a, b) for a, b in zip(faces[0], np.roll(faces[0], 1))] + [(faces[0][0], len(nodes) - 1)])
                nc.createDimension('e%d' % k, len(edges))
                nc.createDimension('two%d' % k, 2)
                nc.createVariable('edge%d' % k, 'i4', ('e%d' % k, 'two%d' % k))[:] = edges + spec['start']
                nc.variables['edge%d' % k].start_index = np.int32(spec['start'])
                v.edge_node_connectivity = 'edge%d' % k
                faces = None
            all_.append(name)
            if spec['what'] in ('mesh', 'network'):
                good[name] = nodes, faces, edges
        if case['disk']:
            nc.close()
            nc = netCDF4.Dataset(path)
        check(find_mesh_names(nc) == list(good), 'names of the meshes', find_mesh_names(nc), list(good))
        for n in all_ + ['tri0', 'lo0', 'nothing', '']:
            check(bool(is_valid_mesh(nc, n)) == (n in good), 'whether %r is a mesh' % n, is_valid_mesh(nc, n))
        ways = [lambda **k: UGrid.from_nc_dataset(nc, **k), lambda **k: UGrid.from_ncfile(dataset=nc, **k), lambda **k: Grid_U.from_nc_dataset(nc, **k)]
        if case['disk']:
            ways += [lambda **k: UGrid.from_ncfile(path, **k), lambda **k: Grid_U.from_ncfile(filename=path, **k)]
        load = ways[case['way'] % len(ways)]

        def verify(g, name):
            nodes, faces, edges = good[name]
            check(g.mesh_name == name, 'name of the mesh', g.mesh_name, name)
            check(np.array_equal(g.nodes, nodes), 'nodes of ' + name, g.nodes, nodes)
            check((g.faces is None) == (faces is None) and (faces is None or np.array_equal(g.faces, faces)), 'faces of ' + name, g.faces, faces)
            check((g.edges is None) == (edges is None) and (edges is None or np.array_equal(g.edges, edges)), 'edges of ' + name, g.edges, edges)
        for n in all_ + ['tri0', 'nothing']:
            if n in good:
                verify(load(mesh_name=n), n)
            else:
                raises(ValueError, lambda: load(mesh_name=n), '%r is no mesh' % n)
        if len(good) == 1:
            verify(load(), list(good)[0])
        else:
            raises(ValueError, load, '%d meshes' % len(good))
    finally:
        nc.close()
        if case['disk']:
            os.remove(path)
    ctx.label('%d meshes' % len(good), *[x['what'] for x in case['meshes']])
    ctx.nontrivial(len(all_) > 1)


def meshes_case():
    from vlib.gens import trimesh_case
    return D(mesh=trimesh_case(2), meshes=st.lists(MESH, min_size=1, max_size=3, unique_by=lambda m: m['name']), disk=pick(False, False, True), way=st.integers(0, 4), seed=SEED)


SCENARIOS = [
    Scenario('several meshes', meshes_case, run_meshes, quick=800),
    Scenario('parts of a topology', parts_case, run_parts, quick=1200),
    Scenario('descriptions', case, run, quick=4000),
    Scenario('mixed meshes', flex_case, run_flex, quick=800),
]
