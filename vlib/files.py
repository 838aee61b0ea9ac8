"""Writes grids to netCDF files with netCDF4 alone, under the conventions the library reads."""
import datetime
import itertools

import netCDF4
import numpy as np


_count = itertools.count()


def memory():
    """an open file that is nowhere; two of one name cannot be open together"""
    return netCDF4.Dataset('m%d.nc' % next(_count), 'w', diskless=True, persist=False)


def ugrid(nc, nodes, faces, mesh='Mesh2', start=0, order='C', start_attr=True, face_dim=True, coord_by='standard_name',
          names=None, dims=None, dtype='i4',
          role='mesh_topology', dim=np.int32(2), conn=True):
    """a UGRID mesh. faces may be masked; names: (lon, lat, face_nodes); dims: (node, face, max)"""
    ln, lt, fn = names or (mesh + '_node_lon', mesh + '_node_lat', mesh + '_face_nodes')
    dn, df, dm = dims or ('n' + mesh + '_node', 'n' + mesh + '_face', 'n' + mesh + '_max')
    nc.createDimension(dn, len(nodes))
    nc.createDimension(df, faces.shape[0])
    nc.createDimension(dm, faces.shape[1])
    m = nc.createVariable(mesh, 'i4', ())
    if role is not None:
        m.cf_role = role
    if dim is not None:
        m.topology_dimension = dim
    m.node_coordinates = ln + ' ' + lt
    if conn:
        m.face_node_connectivity = fn
    if face_dim:
        m.face_dimension = df
    for name, k, sn, un in ((ln, 0, 'longitude', 'degrees_east'), (lt, 1, 'latitude', 'degrees_north')):
        v = nc.createVariable(name, 'f8', (dn,))
        v[:] = nodes[:, k]
        if coord_by in ('standard_name', 'both'):
            v.standard_name = sn
        if coord_by in ('units', 'both'):
            v.units = un
    flex = np.ma.isMaskedArray(faces) and np.ma.getmaskarray(faces).any()
    kw = dict(fill_value=-999) if flex else {}
    v = nc.createVariable(fn, dtype, (df, dm) if order == 'C' else (dm, df), **kw)
    a = faces + start
    v[:] = a if order == 'C' else a.T
    v.cf_role = 'face_node_connectivity'
    if start_attr:
        v.start_index = np.int32(start)
    return dn, df, dm


EXTRA = {None: 1, 'none': -1, 'both': 1, 'low': 0, 'high': 0}


def sgrid(nc, xy, pad='both', topo='grid', dims=('xi', 'eta'), coords=('lon_psi', 'lat_psi'), conventions=True):
    """an SGRID topology with the same padding everywhere; data is (eta, xi). Returns the dimensions of the data by location"""
    x, y = dims
    ny, nx = xy.shape[:2]
    add = {'none': -1, 'both': 1, 'low': 0, 'high': 0}[pad]
    nc.createDimension(x + '_psi', nx)
    nc.createDimension(y + '_psi', ny)
    nc.createDimension(x + '_rho', nx + add)
    nc.createDimension(y + '_rho', ny + add)
    g = nc.createVariable(topo, 'i4', ())
    g.cf_role = 'grid_topology'
    g.topology_dimension = np.int32(2)
    g.node_dimensions = '%s_psi %s_psi' % (x, y)
    g.face_dimensions = '%s_rho: %s_psi (padding: %s) %s_rho: %s_psi (padding: %s)' % (x, x, pad, y, y, pad)
    g.edge1_dimensions = '%s_psi: %s_psi %s_rho: %s_psi (padding: %s)' % (x, x, y, y, pad)
    g.edge2_dimensions = '%s_rho: %s_psi (padding: %s) %s_psi: %s_psi' % (x, x, pad, y, y)
    g.node_coordinates = ' '.join(coords)
    for name, k, sn in zip(coords, (0, 1), ('longitude', 'latitude')):
        v = nc.createVariable(name, 'f8', (y + '_psi', x + '_psi'))
        v[:] = xy[..., k]
        v.standard_name = sn
    if conventions:
        nc.Conventions = 'CF-1.6, SGRID-0.3'
    return {'node': (y + '_psi', x + '_psi'), 'center': (y + '_rho', x + '_rho'), 'edge1': (y + '_rho', x + '_psi'), 'edge2': (y + '_psi', x + '_rho')}


def rect(nc, lon, lat, names=('lon', 'lat')):
    for n, a in zip(names, (lon, lat)):
        nc.createDimension(n, len(a))
        v = nc.createVariable(n, 'f8', (n,))
        v[:] = a
    return names[1], names[0]


def time_var(nc, ts, name='time', units='seconds', epoch=None, dtype='f8', offset=''):
    """a time dimension and variable with the instants ts exactly (to the microsecond for 'microseconds')"""
    epoch = epoch or datetime.datetime(ts[0].year, 1, 1)
    nc.createDimension(name, len(ts))
    v = nc.createVariable(name, dtype, (name,))
    per = {'microseconds': 1, 'milliseconds': 1000, 'seconds': 10 ** 6, 'minutes': 60 * 10 ** 6, 'hours': 3600 * 10 ** 6, 'days': 86400 * 10 ** 6}[units]
    us = [(t - epoch) // datetime.timedelta(microseconds=1) for t in ts]
    v[:] = [u // per for u in us] if all(u % per == 0 for u in us) else [u / per for u in us]
    v.units = '%s since %s%s' % (units, epoch.strftime('%Y-%m-%d %H:%M:%S'), offset)
    return name


def data_var(nc, name, data, dims, dtype='f8', packed=False, fill=None, **attrs):
    kw = {} if fill is None else dict(fill_value=fill)
    if packed:
        v = nc.createVariable(name, 'i2', dims, fill_value=-32768)
        v.scale_factor = 2.0 ** -9
        v.add_offset = 1.0
    else:
        v = nc.createVariable(name, dtype, dims, **kw)
    for k, a in attrs.items():
        v.setncattr(k, a)
    v[:] = data
    return v


def field_file(nc, f, pad):
    """the grid of a Field (see fields.py) in its usual convention; returns the dimensions of its data"""
    if f.kind[0] == 'u':
        dn, df, dm = ugrid(nc, f.mesh['nodes'], f.mesh['faces'])
        return (dn,) if f.kind == 'u_node' else (df,)
    if f.kind[0] == 's':
        return sgrid(nc, f.xy, pad)[f.location]
    return rect(nc, *f.axes)


def split(path, dim, cut, labels='ab'):
    """two files (classic model) with the steps of dim before, and from, cut; everything else in both"""
    out = []
    with netCDF4.Dataset(path) as src:
        for k, part in enumerate((slice(None, cut), slice(cut, None))):
            out.append('%s_%s.nc' % (path[:-3], labels[k]))
            with netCDF4.Dataset(out[-1], 'w', format='NETCDF4_CLASSIC') as nc:
                nc.setncatts(src.__dict__)
                for n, d in src.dimensions.items():
                    nc.createDimension(n, None if n == dim else len(d))
                for n, v in src.variables.items():
                    atts = {a: v.getncattr(a) for a in v.ncattrs() if a != '_FillValue'}
                    w = nc.createVariable(n, v.dtype, v.dimensions, fill_value=getattr(v, '_FillValue', None))
                    w.setncatts(atts)
                    v.set_auto_maskandscale(False)
                    w.set_auto_maskandscale(False)
                    w[:] = v[(part,) if v.dimensions[:1] == (dim,) else ...]
    return out
