"""C22: what the caller gives is used instead of what the file says"""
import datetime
import os
import pathlib
import warnings

import netCDF4
import numpy as np
from hypothesis import strategies as st

from checks.c06 import sigma, stretch
from checks.c19 import same_times
from gridded import Variable, VectorVariable
from gridded.depth import DepthBase, Depth, FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
from gridded.time import Time
from vlib import files
from vlib.core import Scenario, Violation, check, close, close_masked
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, pick, times, times_case

HOUR = datetime.timedelta(hours=1)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


class Temp(Variable):
    default_names = ['temperature', 'temp']
    cf_names = ['sea_water_temperature']


class Wind(VectorVariable):
    default_names = {'u': ['temp'], 'v': ['salt']}
    cf_names = {}
    comp_order = ['u', 'v']


class World:
    """a file with temp and salt on a grid, with levels and times or not"""

    def __init__(self, case, ctx, name='w.nc'):
        r = self.r = np.random.default_rng([case['seed'], 31])
        f = self.f = Field(dict(case['field'], out=False))
        ts = times(case['times'])
        while len(ts) < 2:
            ts = ts + [ts[-1] + HOUR]
        self.deep, self.timed = case['deep'], case['timed']
        nz = 3
        while self.deep and (nz in f.shape or nz == len(ts)):
            nz += 1
        while self.timed and len(ts) in f.shape + ((nz,) if self.deep else ()):
            ts = ts + [ts[-1] + HOUR]
        self.ts, self.nt, self.nz = ts, len(ts), nz
        self.levels = np.concatenate([[0.0], np.cumsum(r.uniform(1, 4, nz - 1))])
        self.path = os.path.join(ctx.tmp, name)
        shape = ((self.nt,) if self.timed else ()) + ((nz,) if self.deep else ()) + f.shape
        self.data = {n: r.normal(size=shape) for n in ('temp', 'salt')}
        self.odd = case['odd_names']
        with netCDF4.Dataset(self.path, 'w') as nc:
            self.gt = None
            if self.odd and f.kind[0] == 'u' and len(f.mesh['faces']) != 3:
                # names that only the topology given by the caller tells about
                nc.createDimension('p', len(f.mesh['nodes']))
                nc.createDimension('q', len(f.mesh['faces']))
                nc.createDimension('c', 3)
                for n, k in (('east', 0), ('north', 1)):
                    nc.createVariable(n, 'f8', ('p',))[:] = f.mesh['nodes'][:, k]
                v = nc.createVariable('cells', 'i4', ('q', 'c'))
                v[:] = f.mesh['faces']
                self.gt = dict(node_lon='east', node_lat='north', faces='cells')
                dims = ('p',) if f.kind == 'u_node' else ('q',)
            else:
                self.odd = False
                dims = files.field_file(nc, f, case['field']['pad'])
            if self.timed:
                nc.createDimension('time', self.nt)
                v = nc.createVariable('time', 'f8', ('time',))
                v.units = 'seconds since 2000-01-01 00:00:00'
                v[:] = [(t - datetime.datetime(2000, 1, 1)).total_seconds() for t in ts]
            if self.deep:
                nc.createDimension('lev', nz)
                nc.createVariable('depth', 'f8', ('lev',))[:] = self.levels
            dd = (('time',) if self.timed else ()) + (('lev',) if self.deep else ()) + dims
            for n, u in (('temp', 'degC'), ('salt', case['salt_units'])):
                v = nc.createVariable(n, 'f8', dd)
                v[:] = self.data[n]
                if u:
                    v.units = u
                if case['loc_attr'] == 'wrong':
                    v.location = 'face' if f.location == 'node' else 'node'
                elif case['loc_attr']:
                    v.location = f.location
        self.tw = r.uniform(.1, .9)

    def at(self, v, name, levels=None, ts=None, what='', component=None, grid_f=None):
        """values at a time between two steps and depths between two levels; a time axis shared by all of the data if it is constant"""
        f = grid_f or self.f
        a = self.data[name]
        r = self.r
        t = datetime.datetime(2001, 2, 3)
        if self.timed:
            ts = self.ts if ts is None else ts
            if len(ts) == 1:
                a, t = a[0], ts[0]
            else:
                k = int(r.integers(self.nt - 1))
                us = int((ts[k + 1] - ts[k]) / datetime.timedelta(microseconds=1) * self.tw)
                t = ts[k] + datetime.timedelta(microseconds=us)
                al = datetime.timedelta(microseconds=us) / (ts[k + 1] - ts[k])
                a = a[k] * (1 - al) + a[k + 1] * al
        pts = f.points
        if self.deep:
            if levels is None:
                a, z = a[-1], 0.0           # surface only: the last level
            else:
                q, al = int(r.integers(self.nz - 1)), r.uniform(.1, .9)
                z = levels[q] * (1 - al) + levels[q + 1] * al
                a = a[q] * (1 - al) + a[q + 1] * al
            pts = np.column_stack([pts, np.full(f.n, z)])
        got = v.at(pts, t)
        if component is not None:
            got = got[:, component:component + 1]
        want = f.ref(a)
        close_masked(got[:, 0], want, f.want_mask, what or name, rtol=1e-6, atol=1e-6)


def source(w, case):
    """how the file is given"""
    how = case['src']
    if how == 0:
        return dict(filename=w.path)
    if how == 1:
        return dict(filename=pathlib.Path(w.path))
    if how == 2:
        return dict(data_file=w.path, grid_file=w.path)
    nc = netCDF4.Dataset(w.path)
    return dict(dataset=nc)


def release(kw):
    d = kw.get('dataset')
    if d is not None:
        d.close()


def shifted(w, case):
    """(arguments, expected instants) of the time of the file as the caller wants it"""
    kw, ts = {}, list(w.ts)
    if not w.timed:
        return kw, None
    # the offset only says which zone the times are of
    if case['shift'] in ('tz', 'both'):
        h = case['hours']
        kw['tz_offset'] = datetime.timedelta(hours=h) if case['as_delta'] else h
    if case['shift'] in ('displacement', 'both'):
        d = datetime.timedelta(minutes=37 * case['hours'] + 5)
        kw['displacement'] = d
        ts = [t + d for t in ts]
    if case['shift'] == 'origin':
        o = datetime.datetime(1999, 5, 6, 7, 8, 9)
        kw['time_origin'] = o
        ts = [o + (t - ts[0]) for t in ts]
    return kw, ts


def given_time(w, case):
    """(argument, instants)"""
    if case['time'] is None:
        return None, None
    if not w.timed:
        # no dimension of the data is the time: a constant one may be given
        t = datetime.datetime(2001, 2, 3)
        return (Time([t]) if case['time'] != 'list' else [t]), [t]
    ts = [t + 11 * HOUR for t in w.ts]
    if case['time'] == 'Time':
        return Time(list(ts)), ts
    if case['time'] == 'list':
        return list(ts), ts
    return Time(np.array(ts)), ts


def given_depth(w, case):
    """(argument, levels or None)"""
    if case['depth'] is None:
        return None, (w.levels if w.deep else None)
    if case['depth'] == 'levels':
        lv = w.levels * 1.7
        return L_Depth(terms=dict(depth_levels=lv.copy())), lv if w.deep else None
    return Depth.surface_only(), None


def given_grid(w, case):
    """(argument, Field or None): the same cells somewhere else, so that values tell which grid is used"""
    if not case['grid']:
        return None, None
    f = w.f
    off = np.array([3.0, -2.0])
    if f.kind[0] == 'u':
        g = Grid_U(nodes=f.mesh['nodes'] + off, faces=f.mesh['faces'].copy())
    elif f.kind[0] == 's':
        pad = case['field']['pad']
        g = Grid_S(node_lon=f.xy[..., 0] + off[0], node_lat=f.xy[..., 1] + off[1], face_padding=(pad, pad))
    else:
        g = Grid_R(node_lon=f.axes[0] + off[0], node_lat=f.axes[1] + off[1])
    m = Field.__new__(Field)
    m.__dict__.update(f.__dict__)
    m.points = f.points + off
    return g, m


def arguments(w, case):
    kw, exp = {}, {}
    if case['name']:
        kw['name'] = exp['name'] = 'my name'
    if case['units']:
        kw['units'] = exp['units'] = ['kelvin', 'K', 'mm'][case['seed'] % 3]
    t, exp['ts'] = given_time(w, case)
    if t is not None:
        kw['time'] = t
    else:
        k, exp['ts'] = shifted(w, case)
        kw.update(k)
    d, exp['levels'] = given_depth(w, case)
    if d is not None:
        kw['depth'] = d
    g, exp['field'] = given_grid(w, case)
    if g is not None:
        kw['grid'] = g
    if w.odd:
        kw['grid_topology'] = dict(w.gt)
    if case['load_all']:
        kw['load_all'] = True
    return kw, exp


# ---------------------------------------------------------------- one variable
def run_variable(case, ctx):
    w = World(case, ctx)
    f = w.f
    kw, exp = arguments(w, case)
    ambiguous = f.kind[0] == 's' or f.kind[0] == 'u' and len(f.mesh['nodes']) == len(f.mesh['faces'])
    if case['location'] or case['loc_attr'] == 'wrong' or ambiguous and not case['loc_attr']:
        kw['location'] = f.location
    if case['fill']:
        kw['fill_value'] = -77.0
    if case['bcs']:
        kw['surface_boundary_condition'], kw['bottom_boundary_condition'] = 'mask', 'extrapolate'
    src = source(w, case)
    before = {k: list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    if case['default_name']:
        v = quiet(Temp.from_netCDF, **src, **kw)
    else:
        v = quiet(Variable.from_netCDF, varname='temp', **src, **kw)
    try:
        for k, a in before.items():
            check(kw[k] == a if isinstance(a, (list, dict)) else kw[k] is a, 'argument %s changed' % k, kw[k])
        check(v.varname == 'temp', 'varname', v.varname)
        check(v.units == exp.get('units', 'degC'), 'units', v.units)
        if 'name' in exp:
            check(v.name == exp['name'], 'name', v.name)
        if 'grid' in kw:
            check(v.grid is kw['grid'], 'grid', v.grid)
        if 'depth' in kw:
            check(v.depth is kw['depth'], 'depth', v.depth)
        elif w.deep:
            check(isinstance(v.depth, L_Depth), 'depth', v.depth)
            close(v.depth.depth_levels, w.levels, 'levels of the file')
        else:
            check(v.depth is None, 'depth of data without one', v.depth)
        if isinstance(kw.get('time'), Time):
            check(v.time is kw['time'], 'time', v.time)
        if w.timed:
            same_times(v.time.data, exp['ts'], 'time')
            if 'tz_offset' in kw:
                check(v.time.tz_offset == case['hours'], 'offset of the time zone', v.time.tz_offset)
        check(v.location == f.location, 'location', v.location, f.location)
        check(v.surface_boundary_condition == ('mask' if case['bcs'] else 'extrapolate'), 'surface boundary condition', v.surface_boundary_condition)
        check(v.bottom_boundary_condition == ('extrapolate' if case['bcs'] else 'mask'), 'bottom boundary condition', v.bottom_boundary_condition)
        check(v.fill_value == (-77.0 if case['fill'] else 0), 'fill value', v.fill_value)
        check(isinstance(v.data, netCDF4.Variable) == (not case['load_all']), 'load_all', type(v.data))
        if not case['load_all']:
            check(v.attributes['units'] == 'degC', 'attributes', v.attributes)
        close(np.ma.getdata(v.data[:]), w.data['temp'], 'data')
        if src.get('filename') is not None:
            check(v.data_file == src['filename'] and v.grid_file == src['filename'], 'files', v.data_file, v.grid_file)
        if not (w.deep and exp['levels'] is None and 'depth' not in kw):
            w.at(v, 'temp', exp['levels'], exp['ts'], 'values', grid_f=exp['field'])
        if w.deep and exp['levels'] is not None:
            lv = exp['levels']
            fld = exp['field'] or f
            t = exp['ts'][0] if w.timed else w.ts[0]
            a = w.data['temp'][0] if w.timed else w.data['temp']
            # above the first, and below the last level
            for z, bc, i in ((lv[0] - 1.0, v.surface_boundary_condition, 0), (lv[-1] + 1.0, v.bottom_boundary_condition, -1)):
                got = v.at(np.column_stack([fld.points, np.full(fld.n, z)]), t)
                mask = fld.want_mask | (bc == 'mask')
                close_masked(got[:, 0], fld.ref(a[i]), mask, 'values out of the levels, %s' % bc, rtol=1e-6, atol=1e-6)
    finally:
        release(src)
    ctx.label(f.kind, 'deep' if w.deep else 'flat', *sorted(kw))
    ctx.nontrivial(len(kw) > 1)


# ---------------------------------------------------------------- two variables
def run_vector(case, ctx):
    w = World(dict(case, loc_attr=True), ctx)
    f = w.f
    kw, exp = arguments(w, case)
    src = source(w, case)
    names = ['temp', 'salt'] if case['order'] else ['salt', 'temp']
    cls = VectorVariable
    if case['default_name']:
        cls, names = Wind, ['temp', 'salt']
        vv = quiet(cls.from_netCDF, **src, **kw)
    else:
        vv = quiet(cls.from_netCDF, varnames=list(names), **src, **kw)
    try:
        check(list(vv.varnames) == names, 'varnames', vv.varnames)
        file_units = {'temp': 'degC', 'salt': case['salt_units']}
        want = [exp['units']] * 2 if 'units' in exp else [file_units[n] for n in names]
        check([v.units for v in vv.variables] == want, 'units of the components', [v.units for v in vv.variables], want)
        check(vv.units == (want[0] if want[0] == want[1] else want), 'units', vv.units, want)
        if 'name' in exp:
            check(vv.name == exp['name'], 'name', vv.name)
        for v in vv.variables:
            check(v.grid is vv.grid and v.depth is vv.depth and v.time is vv.time, 'grid, depth and time are shared')
            check(v.location == f.location, 'location', v.location)
            check(isinstance(v.data, netCDF4.Variable) == (not case['load_all']), 'load_all', type(v.data))
        check(vv.location == [f.location] * 2, 'locations', vv.location)
        if 'grid' in kw:
            check(vv.grid is kw['grid'], 'grid')
        if 'depth' in kw:
            check(vv.depth is kw['depth'], 'depth')
        if isinstance(kw.get('time'), Time):
            check(vv.time is kw['time'], 'time')
        if w.timed:
            same_times(vv.time.data, exp['ts'], 'time')
        if cls is Wind:
            check(vv.u is vv.variables[0] and vv.v is vv.variables[1], 'components by name')
        if src.get('filename') is not None:
            check(vv.data_file == src['filename'] and vv.grid_file == src['filename'], 'files', vv.data_file, vv.grid_file)
        if not (w.deep and exp['levels'] is None and 'depth' not in kw):
            for k, n in enumerate(names):
                w.at(vv, n, exp['levels'], exp['ts'], 'component ' + n, component=k, grid_f=exp['field'])
                w.at(vv.variables[k], n, exp['levels'], exp['ts'], 'variable ' + n, grid_f=exp['field'])
        # put together by hand: what is not given is that of the variables
        a, b = vv.variables
        g2, t2, d2 = f.make_grid(), Time(list(exp['ts'] or w.ts)), DepthBase()
        by = dict(variables=[a, b])
        wish = dict(name='hand', units='m', grid=g2, time=t2, depth=d2, data_file='d', grid_file='g')
        mine = {k: x for k, x in wish.items() if k in case['hand']}
        hand = VectorVariable(**by, **mine)
        for k, x in wish.items():
            got = getattr(hand, k)
            if k in mine:
                check(got is x or got == x, 'given ' + k, got, x)
            elif k == 'name':
                check(got is None, 'name', got)
            elif k == 'units':
                check(got == a.units, 'units of the variables', got, a.units)
            else:
                check(got is getattr(a, k) or got == getattr(a, k), k + ' of the variables', got)
        check(hand.variables == [a, b], 'variables', hand.variables)
        check(a.units == want[0] and b.units == want[1], 'units of the variables after', a.units, b.units)
        if 'time' in case['hand']:
            lst = VectorVariable(**by, time=list(exp['ts'] or w.ts))
            same_times(lst.time.data, exp['ts'] or w.ts, 'time given as a list')
    finally:
        release(src)
    ctx.label(f.kind, 'deep' if w.deep else 'flat', *sorted(kw))
    ctx.nontrivial(len(kw) > 0)


COMMON = dict(field=field_case(max_points=3), times=times_case(2, 4), deep=st.booleans(), timed=pick(True, True, False), odd_names=pick(False, False, True),
              salt_units=pick('degC', 'psu'), loc_attr=pick(False, True, 'wrong'), src=st.integers(0, 3), shift=pick(None, 'tz', 'displacement', 'both', 'origin'),
              hours=st.integers(-11, 12), as_delta=st.booleans(), depth=pick(None, None, 'levels', 'surface'), grid=pick(False, False, True),
              name=st.booleans(), units=st.booleans(), load_all=st.booleans(), default_name=st.booleans(), seed=SEED)


def variable_case():
    return D(time=pick(None, None, 'Time', 'list', 'array'), location=st.booleans(), fill=st.booleans(), bcs=st.booleans(), **COMMON)


def vector_case():
    return D(time=pick(None, None, 'Time', 'array'), order=st.booleans(), hand=st.lists(pick('name', 'units', 'grid', 'time', 'depth', 'data_file', 'grid_file'), unique=True), **COMMON)


# ---------------------------------------------------------------- terrain following depths
def run_sigma(case, ctx):
    r = np.random.default_rng([case['seed'], 32])
    roms = case['kind'] == 'roms'
    f = Field(dict(case['field'], kind='s_node' if roms else 'u_node', pad='both', out=False, n=3))
    ts = times(case['times'])
    while len(ts) < 2 or len(ts) in f.shape:
        ts = ts + [ts[-1] + HOUR]
    nt, nw = len(ts), case['levels']
    while nw in f.shape or nw - 1 in f.shape or nw == nt or nw - 1 == nt:
        nw += 1
    sw = sigma(r, nw, 'uneven')
    cw, sr = stretch(sw, 2.0), .5 * (sw[1:] + sw[:-1])
    cr, hc = stretch(sr, 2.0), 12.0
    h, zeta = r.uniform(20, 60, f.shape), r.uniform(-1, 1, (nt,) + f.shape)
    path = os.path.join(ctx.tmp, 's.nc')
    with netCDF4.Dataset(path, 'w') as nc:
        dims = files.field_file(nc, f, 'both')
        nc.createDimension('time', nt)
        v = nc.createVariable('time', 'f8', ('time',))
        v.units = 'seconds since 2000-01-01 00:00:00'
        v[:] = [(t - datetime.datetime(2000, 1, 1)).total_seconds() for t in ts]
        nc.createDimension('lev', nw)
        nc.createDimension('lay', nw - 1)
        if roms:
            vals = dict(Cs_r=(('lay',), cr), Cs_w=(('lev',), cw), s_rho=(('lay',), sr), s_w=(('lev',), sw), hc=((), hc))
        else:
            sl = np.repeat(sw[:, None], f.shape[0], 1) * r.uniform(.9, 1.0, f.shape[0])
            vals = dict(siglay=(('lay',) + dims, .5 * (sl[1:] + sl[:-1])), siglev=(('lev',) + dims, sl))
        kept = dict(vals)
        kw, other = {}, {}
        for i, (k, (dd, a)) in enumerate(sorted(vals.items())):
            how = case['terms'][i % len(case['terms'])]
            if how == 'file':
                nc.createVariable(k, 'f8', dd)[...] = a
                continue
            if how == 'name' or how == 'name over':
                # the variable is called something else; perhaps another has its name
                nc.createVariable('my_' + k, 'f8', dd)[...] = a
                other[k] = 'my_' + k
                if how == 'name over':
                    nc.createVariable(k, 'f8', dd)[...] = np.asarray(a) * .5
            else:
                other[k] = np.array(a)
                if how == 'array over':
                    nc.createVariable(k, 'f8', dd)[...] = np.asarray(a) * .5
        hz, zz = 'h', 'zeta'
        if case['bathymetry'] == 'name':
            hz = other['bathymetry'] = 'my_h'
        if case['zeta'] == 'name':
            zz = other['zeta'] = 'my_z'
        nc.createVariable(hz, 'f8', dims)[:] = h
        if case['zeta'] != 'none':
            nc.createVariable(zz, 'f8', ('time',) + dims)[:] = zeta
    if other:
        kw['terms'] = dict(other)
    g = None
    if case['grid']:
        g = kw['grid'] = f.make_grid()
    want_ts = list(ts)
    if case['bathymetry'] == 'given':
        h = h * 1.3
        kw['bathymetry'] = Variable(name='b', data=h.copy(), grid=g if g is not None else f.make_grid(), location='node')
    if case['zeta'] == 'given':
        zeta = zeta * .5
        want_ts = [t + 3 * HOUR for t in ts]
        kw['zeta'] = Variable(name='z', data=zeta.copy(), time=list(want_ts), grid=g if g is not None else f.make_grid(), location='node')
    elif case['zeta'] == 'constant':
        kw['zeta'] = Variable.constant(.25)
        zeta = np.full(zeta.shape, .25)
    elif case['zeta'] == 'none':
        zeta = np.zeros(zeta.shape)
    if case['time'] == 'Time' and case['zeta'] in ('file', 'name'):
        want_ts = [t + 5 * HOUR for t in ts]
        kw['time'] = Time(list(want_ts))
    elif case['time'] == 'shift' and case['zeta'] in ('file', 'name'):
        kw['displacement'] = 2 * HOUR
        want_ts = [t + 2 * HOUR for t in ts]
    elif case['time'] == 'origin' and case['zeta'] in ('file', 'name'):
        kw['time_origin'] = datetime.datetime(2031, 2, 3, 4)
        want_ts = [t - ts[0] + kw['time_origin'] for t in ts]
    if case['time'] in ('shift', 'origin') and case['zeta'] in ('file', 'name') and case['levels'] % 2:
        kw['tz_offset'] = 4
    vt = 2
    if roms and case['vt'] is not None:
        vt = kw['vtransform'] = case['vt']
    if case['name']:
        kw['name'] = 'my depth'
    if case['bcs']:
        kw['surface_boundary_condition'], kw['bottom_boundary_condition'] = 'mask', 'extrapolate'
    arrays = {k: np.array(a) for k, a in other.items() if not isinstance(a, str)}
    cls = ROMS_Depth if roms else FVCOM_Depth
    # what is not in the file is only found by the class itself
    src = dict(filename=path) if case['src'] else dict(dataset=netCDF4.Dataset(path))
    try:
        # a file with all that is needed tells its own kind
        with netCDF4.Dataset(path) as nc:
            complete = all(k in nc.variables for k in kept)
        via = Depth if case['via'] and complete and case['bathymetry'] != 'name' else cls
        d = quiet(via.from_netCDF, **src, **kw)
        check(type(d) is cls, 'class', type(d))
        for k, (dd, a) in kept.items():
            close(np.asarray(d.terms[k]), a, 'term ' + k)
            close(np.asarray(getattr(d, k)), a, 'term ' + k)
        for k, a in arrays.items():
            close(other[k], a, 'argument changed: ' + k)
        if 'terms' in kw:
            check(set(kw['terms']) == set(other), 'terms of the caller', kw['terms'])
        if case['name']:
            check(d.name == 'my depth', 'name', d.name)
        if g is not None:
            check(d.grid is g, 'grid')
        for k in ('bathymetry', 'zeta', 'time'):
            if k in kw:
                check(getattr(d, k) is kw[k], k)
        check(d.default_surface_boundary_condition == ('mask' if case['bcs'] else 'extrapolate'), 'surface boundary condition', d.default_surface_boundary_condition)
        check(d.default_bottom_boundary_condition == ('extrapolate' if case['bcs'] else 'mask'), 'bottom boundary condition', d.default_bottom_boundary_condition)
        if case['zeta'] not in ('none', 'constant'):
            same_times(d.zeta.time.data, want_ts, 'surface height')
            same_times(d.time.data, want_ts, 'depth')
            if 'tz_offset' in kw:
                check(d.zeta.time.tz_offset == 4 and d.time.tz_offset == 4, 'offset of the time zone', d.zeta.time.tz_offset, d.time.tz_offset)
        k = int(r.integers(nt))
        hp, zp = f.ref(h), f.ref(zeta[k])
        pts = np.column_stack([f.points, np.full(f.n, 1.0)])
        if roms:
            hh, zz = hp[:, None], zp[:, None]
            if vt == 1:
                S = hc * sw[None] + (hh - hc) * cw[None]
                want = -(S + zz * S / hh)
            else:
                S = (hc * sw[None] + hh * cw[None]) / (hc + hh)
                want = -(zz + hh) * S
        else:
            want = -(zp + hp)[:, None] * np.array([f.ref(x) for x in kept['siglev'][1]]).T
        got = d.get_depth_profile(pts, want_ts[k])
        check(np.shape(got)[-1] == nw, 'profile', np.shape(got))
        close(np.ma.getdata(got), want, 'profile', rtol=1e-7, atol=1e-7)
    finally:
        release(src)
    ctx.label(case['kind'], *sorted(kw))
    ctx.nontrivial(len(kw) > 0)


def sigma_case():
    return D(kind=pick('roms', 'fvcom'), field=field_case(), times=times_case(2, 4), levels=st.integers(3, 6),
             terms=st.lists(pick('file', 'name', 'name over', 'array', 'array over'), min_size=1, max_size=5), bathymetry=pick('file', 'name', 'given'),
             zeta=pick('file', 'name', 'given', 'constant', 'none'), time=pick(None, 'Time', 'shift', 'origin'), via=st.booleans(), grid=st.booleans(), vt=pick(None, 1, 2), name=st.booleans(),
             bcs=st.booleans(), src=st.booleans(), seed=SEED)


# ---------------------------------------------------------------- constants and levels
def run_given(case, ctx):
    r = np.random.default_rng([case['seed'], 33])
    value = case['value']
    v = (Temp if case['sub'] else Variable).constant(value)
    pts = np.column_stack([r.uniform(-359, 359, case['n']), r.uniform(-89.9, 89.9, case['n'])])
    if case['edge']:
        pts[0] = [(-360.0, 360.0, -180.0, 0.0)[case['seed'] % 4], (-90.0, 90.0, 0.0)[case['seed'] % 3]]
    if case['three']:
        pts = np.column_stack([pts, r.uniform(-5, 5000, case['n'])])
    t = datetime.datetime(case['year'], 3, 4)
    kw = dict(unmask=True) if case['unmask'] else {}
    if case['extrapolate']:
        kw['extrapolate'] = True
    close_masked(v.at(pts, t, **kw)[:, 0], np.full(case['n'], float(value)), np.zeros(case['n'], bool), 'constant')
    if case['two']:
        vv = VectorVariable(variables=[v, Variable.constant(-value)])
        got = vv.at(pts, t, **kw)
        for k, x in enumerate((value, -value)):
            close_masked(got[:, k], np.full(case['n'], float(x)), np.zeros(case['n'], bool), 'constant component')
    # levels of the caller, in a file with other levels or none
    nz = case['nz']
    lv = np.cumsum(r.uniform(1, 9, nz))[::-1 if case['flip'] else 1]
    nc = files.memory()
    try:
        nc.createDimension('z', 4)
        nc.createVariable('depth', 'f8', ('z',))[:] = [0, 1, 2, 3]
        terms = dict(depth_levels=lv.tolist() if case['list'] else lv.copy())
        up, down = case['bcs']
        d = quiet((Depth if case['via'] else L_Depth).from_netCDF, dataset=nc, terms=terms, name='lv', default_surface_boundary_condition=up, default_bottom_boundary_condition=down)
        check((d.default_surface_boundary_condition, d.default_bottom_boundary_condition) == (up, down), 'boundary conditions of levels', d.default_surface_boundary_condition, d.default_bottom_boundary_condition)
        want = lv.copy()
        want[np.argmin(lv)] = 0.0                # documented to be taken for the surface
        close(np.asarray(d.depth_levels), want, 'levels')
        close(np.asarray(d.terms['depth_levels']), want, 'levels')
        close(np.asarray(terms['depth_levels']), lv, 'levels of the caller')
        check(d.name == 'lv' and d.num_levels == nz and d.num_layers == nz - 1, 'levels', d.name, d.num_levels)
        check((d.surface_index, d.bottom_index) == (int(np.argmin(lv)), int(np.argmax(lv))), 'surface and bottom', d.surface_index, d.bottom_index)
    finally:
        nc.close()
    # boundary conditions of the levels themselves
    up, down = case['bcs']
    d = L_Depth(terms=dict(depth_levels=want.copy()), default_surface_boundary_condition=up, default_bottom_boundary_condition=down)
    q = np.array([[0.0, 0.0, -1.0], [0.0, 0.0, want.max() * .5], [0.0, 0.0, want.max() + 1.0]])
    i, a = d.interpolation_alphas(q, t, (nz,))
    m = np.ma.getmaskarray(i)
    check(m.tolist() == [up == 'mask', False, down == 'mask'], 'points beyond the levels, %s and %s' % (up, down), m)
    s = Depth.surface_only(**({} if case['index'] is None else dict(surface_index=case['index'])))
    check(s.surface_index == (-1 if case['index'] is None else case['index']) and s.num_levels == 1, 'surface only', s.surface_index)
    # a field of three levels: the one that was said to be the surface
    f = Field(dict(case['field'], out=False))
    data = r.normal(size=(3,) + f.shape)
    w = Variable(data=data, grid=f.make_grid(), depth=s, location=f.location)
    close_masked(w.at(np.column_stack([f.points, np.full(f.n, case['z'])]), t)[:, 0], f.ref(data[s.surface_index]), f.want_mask, 'surface only', rtol=1e-6, atol=1e-6)


def given_case():
    return D(value=pick(0, 1, -3.5, 1e6, 17), sub=st.booleans(), n=st.integers(1, 6), three=st.booleans(), edge=st.booleans(), via=st.booleans(), year=pick(1800, 2000, 2300), unmask=st.booleans(), extrapolate=st.booleans(),
             two=st.booleans(), nz=st.integers(2, 5), flip=st.booleans(), bcs=st.tuples(pick('mask', 'extrapolate'), pick('mask', 'extrapolate')).map(list), list=st.booleans(), index=pick(None, 0, 1, 2, -1), field=field_case(max_points=3), z=pick(0.0, 3.0, -1.0), seed=SEED)


# ---------------------------------------------------------------- variables found by the names a class knows
class Salt(Variable):
    default_names = ['salt', 'salinity', 'S']
    cf_names = ['sea_water_salinity', 'sea_water_practical_salinity']


class Current(VectorVariable):
    default_names = {'u': ['water_u', 'u'], 'v': ['water_v', 'v']}
    cf_names = {'u': ['eastward_sea_water_velocity'], 'v': ['northward_sea_water_velocity']}
    comp_order = ['u', 'v']


POOL = ['salt', 'salinity', 'S', 'SALT', 'temp', 'x1', 'sea_water_salinity']
WORDS = [None, None, 'sea_water_salinity', 'sea_water_practical_salinity', 'Sea_Water_Salinity', 'salt']


def run_names(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    f = Field(dict(case['field'], out=False))
    nc = files.memory()
    try:
        dims = files.field_file(nc, f, case['field']['pad'])
        arrs, by = {}, {}

        def var(name, std, long):
            v = nc.createVariable(name, 'f8', dims)
            arrs[name] = r.normal(size=f.shape)
            v[:] = arrs[name]
            v.location = {'center': 'face'}.get(f.location, f.location)
            if std:
                v.standard_name = std
            if long:
                v.long_name = long
            by[name] = (std, long)
        if case['vector']:
            want = []
            for k, (c, cf) in enumerate((('u', 'eastward'), ('v', 'northward'))):
                how = case['vars'][k % len(case['vars'])]['how']
                want.append({'name': c, 'other name': 'water_' + c}.get(how, 'x' + c))
            for k in (1, 0) if case['swap'] else (0, 1):
                how = case['vars'][k % len(case['vars'])]['how']
                cf = ('eastward', 'northward')[k] + '_sea_water_velocity'
                var(want[k], cf if how == 'std' else None, cf if how == 'long' else 'speed')
            var('w', 'upward_sea_water_velocity', None)
            got = Current.from_netCDF(dataset=nc)
            check([v.varname for v in got.variables] == want, 'names of the components', [v.varname for v in got.variables], want)
            res = got.at(f.points, None)
            for k, n in enumerate(want):
                close(np.ma.getdata(res)[:, k], f.ref(arrs[n]), 'component ' + n, rtol=1e-6, atol=1e-6)
            check(got.u is got.variables[0] and got.v is got.variables[1], 'components by name')
            ctx.label('vector')
            return
        for q in case['vars']:
            if q['name'] not in arrs:
                var(q['name'], q['std'], q['long'])
        want = next((n for n in Salt.default_names if n in arrs), None)
        if want is None:
            # the first variable of the file with the first of the standard names that is there
            want = next((n for cf in Salt.cf_names for n in arrs if cf in by[n]), None)
        if want is None:
            try:
                v = Salt.from_netCDF(dataset=nc)
            except (ValueError, NameError):
                pass
            else:
                raise Violation('a variable was found: %s in %s' % (v.varname, by))
        else:
            v = Salt.from_netCDF(dataset=nc)
            check(v.varname == want, 'variable found by the names of the class', v.varname, want, by)
            close(np.ma.getdata(v.at(f.points, None))[:, 0], f.ref(arrs[want]), 'values of the variable that was found', rtol=1e-6, atol=1e-6)
    finally:
        nc.close()
    ctx.label('found' if want else 'nothing')
    ctx.nontrivial(len(arrs) > 1)


def names_case():
    return D(field=field_case(), vector=pick(False, False, True), swap=st.booleans(),
             vars=st.lists(D(name=pick(*POOL), std=pick(*WORDS), long=pick(*WORDS), how=pick('name', 'other name', 'std', 'long')), min_size=1, max_size=5), seed=SEED)


SCENARIOS = [Scenario('variable', variable_case, run_variable, quick=900, weight=1.0),
             Scenario('vector', vector_case, run_vector, quick=700, weight=1.0),
             Scenario('sigma', sigma_case, run_sigma, quick=700, weight=1.0),
             Scenario('given', given_case, run_given, quick=500, weight=0.5),
             Scenario('names of a class', names_case, run_names, quick=900, weight=0.5)]
