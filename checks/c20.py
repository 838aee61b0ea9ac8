"""C20: what a file says about depths, times, names, and which file is meant"""
import datetime
import os
import pathlib
import warnings

import netCDF4
import numpy as np
from hypothesis import strategies as st

from checks.c06 import sigma, stretch
from checks.c19 import same_times, same_values
from gridded import Variable
from gridded.depth import Depth, DepthBase, FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.grids import Grid
from gridded.time import Time
from gridded.utilities import (get_dataset, merge_var_search_dicts, parse_filename_dataset_args, search_dataset_for_any_long_name,
                               search_dataset_for_variables_by_longname, search_dataset_for_variables_by_varname, search_netcdf_vars)
from vlib import files
from vlib.core import Scenario, check, close, raises
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, pick, times, times_case

EPOCH = datetime.datetime(2000, 1, 1)
ROMS_LONG = dict(Cs_r='S-coordinate stretching curves at RHO-points', Cs_w='S-coordinate stretching curves at W-points', s_rho='S-coordinate at RHO-points',
                 s_w='S-coordinate at W-points', hc='S-coordinate parameter, critical depth', h='bathymetry at RHO-points', zeta='free-surface')
FVCOM_STD = dict(siglay='ocean_sigma/general_coordinate', siglev='ocean_sigma/general_coordinate', h='sea_floor_depth_below_geoid', zeta='sea_surface_height_above_geoid')


def quiet(fn, *a, **k):
    """(result, the warnings that were given)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        return fn(*a, **k), w


def put_times(nc, ts, name='time'):
    nc.createDimension(name, None)
    v = nc.createVariable(name, 'f8', (name,))
    v.units = 'seconds since 2000-01-01 00:00:00'
    v[:] = [(t - EPOCH).total_seconds() for t in ts]


# ---------------------------------------------------------------- depth systems

def depths(case, ctx):
    r = np.random.default_rng([case['seed'], 3])
    kind = case['kind']
    # a mesh for FVCOM, a staggered grid for ROMS
    fk = {'roms': 's_node', 'fvcom': 'u_node'}.get(kind, case['other'])
    f = Field(dict(case['field'], kind=fk, pad='both', out=False, n=3))
    ts = times(case['times'])
    while len(ts) < 2 or len(ts) in f.shape:
        ts = ts + [ts[-1] + datetime.timedelta(hours=1)]
    nt = len(ts)
    nw = case['levels']
    # number of levels: different from the other sizes
    while nw in f.shape or nw - 1 in f.shape or nw == nt or nw - 1 == nt:
        nw += 1
    tv = 'ocean_time' if case['ocean_time'] else 'time'
    sw = sigma(r, nw, 'uneven')
    cw = stretch(sw, 2.0)
    sr, hc = 0.5 * (sw[1:] + sw[:-1]), 17.0
    cr = stretch(sr, 2.0)
    flip = slice(None, None, -1) if case['flip'] else slice(None)
    if kind == 'roms' and case['rho']:
        ny, nx = f.shape
        dshape = (ny + 1, nx + 1)
    else:
        dshape = f.shape
    h = r.uniform(20, 60, dshape)
    zeta = r.uniform(-1, 1, (nt,) + dshape)
    levels = np.concatenate([[0.0], np.cumsum(r.uniform(1, 5, nw - 1))])[flip]
    shallow = levels.copy()
    if case['first']:
        shallow[np.argmin(levels)] = 0.5         # documented to be taken for the surface
    separate = case['where'] == 'separate'
    paths = [os.path.join(ctx.tmp, n) for n in (('d.nc', 'g.nc') if separate else ('d.nc',))]
    ncs = [netCDF4.Dataset(p, 'w', format='NETCDF4_CLASSIC') for p in paths]
    nd, ng = ncs[0], ncs[-1]
    dims = files.field_file(ng, f, 'both')
    cdims = dims
    if f.kind[0] == 's':
        cdims = ('eta_rho', 'xi_rho')
        g = ng.variables['grid']
        g.face_coordinates = 'lon_rho lat_rho'
        for n in ('lon_rho', 'lat_rho'):
            ng.createVariable(n, 'f8', cdims)[:] = np.zeros((f.shape[0] + 1, f.shape[1] + 1))
    if separate:
        for n, d in ng.dimensions.items():
            nd.createDimension(n, len(d))
    put_times(nd, ts, tv)
    nd.createDimension('lev', nw)
    nd.createDimension('lay', nw - 1)
    hz = cdims if kind == 'roms' and case['rho'] else dims
    terms = {}
    if kind == 'roms':
        terms = dict(Cs_r=(('lay',), cr[flip]), Cs_w=(('lev',), cw[flip]), s_rho=(('lay',), sr[flip]), s_w=(('lev',), sw[flip]), hc=((), hc),
                     h=(hz, h), zeta=((tv,) + hz, zeta))
        names = ROMS_LONG
    elif kind == 'fvcom':
        sl = np.repeat(sw[flip][:, None], f.shape[0], 1) * r.uniform(.9, 1.0, f.shape[0])
        terms = dict(siglay=(('lay',) + dims, .5 * (sl[1:] + sl[:-1])), siglev=(('lev',) + dims, sl), h=(dims, h), zeta=((tv,) + dims, zeta))
        names = FVCOM_STD
        if case['lev_first']:
            terms = dict(reversed(terms.items()))
    drop = None
    if case['zeta'] == 'none':
        terms.pop('zeta', None)
    if terms and case['drop'] is not None and case['incomplete']:
        needed = [k for k in terms if k != 'zeta']
        drop = needed[case['drop'] % len(needed)]
        del terms[drop]
    renamed = {}
    if terms and case['decoy'] and drop != 'h':
        # like h_center of FVCOM: another variable with the same standard name, before the other one
        ng.createDimension('decoy', 3) if 'decoy' not in ng.dimensions else None
        v = ng.createVariable('h_center', 'f8', ('decoy',))
        v[:] = [1.0, 2.0, 3.0]
        v.standard_name = names['h']
    by_name = case['by'] == 'name' or case['decoy']
    for k, (dd, a) in terms.items():
        nc = ng if k == 'h' and case['h_in_grid'] else nd
        # the two sigmas have one standard name: only their names tell them apart
        rename = not by_name and k not in ('siglay', 'siglev')
        n = 'v_' + k if rename else k
        renamed[k] = n
        v = nc.createVariable(n, 'f8', dd)
        v[:] = a
        alone = k in ('siglay', 'siglev') and drop in ('siglay', 'siglev')     # its standard name says as much for the other
        if rename or (case['by'] == 'both' or case['decoy']) and not alone:
            v.setncattr('long_name' if kind == 'roms' else 'standard_name', names[k])
        if case['ocean_time'] and dd and dd[0] == tv:
            v.time = tv
    has_levels = kind == 'levels' or case['also_levels']
    if has_levels:
        n = case['depth_name']
        nc = ng if separate and case['h_in_grid'] else nd
        if 'lev' not in nc.dimensions:
            nc.createDimension('lev', nw)
        v = nc.createVariable('Level' if n in ('standard_name', 'long_name') else n, 'f8', ('lev',))
        v[:] = shallow
        if n in ('standard_name', 'long_name'):
            v.setncattr(n, 'depth')
    data = r.normal(size=(nt, nw) + f.shape)
    v = nd.createVariable('temp', 'f8', (tv, 'lev') + dims)
    v[:] = data
    v.location = f.location
    if case['ocean_time']:
        v.time = tv
    # a name of one letter is no vertical coordinate
    nd.createVariable('other', 'f8', ('lev',)).long_name = 'hdpt'[case['seed'] % 4]
    full = {'roms': 6, 'fvcom': 3}.get(kind)
    complete = full is not None and len([k for k in terms if k != 'zeta']) == full
    for nc in ncs:
        nc.close()
    opened = []

    def nc_open(p):
        opened.append(netCDF4.Dataset(p))
        return opened[-1]
    try:
        if separate:
            src = [dict(data_file=paths[0], grid_file=paths[1]), dict(data_file=nc_open(paths[0]), grid_file=nc_open(paths[1])),
                   dict(dataset=nc_open(paths[0]), grid_file=nc_open(paths[1])), dict(filename=paths[0], grid_file=paths[1])][case['src'] % 4]
        elif case['where'] == 'several':
            paths += files.split(paths[0], tv, 1 + case['src'] % (nt - 1), ['ab', 'ba'][case['seed'] % 2])
            src = dict(filename=paths[1:])
        else:
            src = [dict(filename=paths[0]), dict(dataset=nc_open(paths[0])), dict(filename=pathlib.Path(paths[0])), dict(filename=[paths[0]])][case['src'] % 4]
        kw = {}
        if kind == 'roms' and case['vt']:
            kw['vtransform'] = case['vt']
        if complete and has_levels:
            raises(ValueError, lambda: quiet(Depth.from_netCDF, **src, **kw), 'a file with two depth systems')
            ctx.label('two systems')
            return
        top = -1
        if not complete and not has_levels and case['seed'] % 2:
            top = kw['surface_index'] = case['seed'] % nw
        d, w = quiet(Depth.from_netCDF, **src, **kw)
        want = dict(roms=ROMS_Depth, fvcom=FVCOM_Depth)[kind] if complete else L_Depth if has_levels else DepthBase
        check(type(d) is want, 'depth system', type(d), want)
        told = any(issubclass(x.category, RuntimeWarning) and 'surface-only' in str(x.message) for x in w)
        check(told == (want is DepthBase), 'the warning about surface-only depths', [str(x.message) for x in w])
        p3 = np.column_stack([f.points, np.full(f.n, 1.0)])
        if want is DepthBase:
            check(d.num_levels == 1 and d.surface_index == top, 'surface-only', d.num_levels, d.surface_index)
            i, a = d.interpolation_alphas(p3, ts[0], (nw,))
            close(i, np.full(f.n, top), 'indices of surface-only depth')
            close(a, np.zeros(f.n), 'alphas of surface-only depth')
        elif want is L_Depth:
            close(d.depth_levels, levels, 'levels')
            check(d.num_levels == nw and d.num_layers == nw - 1, 'number of levels', d.num_levels)
            check(d.surface_index == int(np.argmin(levels)) and d.bottom_index == int(np.argmax(levels)), 'surface and bottom', d.surface_index, d.bottom_index)
        else:
            check(d.num_levels == nw and d.num_layers == nw - 1, 'numbers of levels and layers', d.num_levels, d.num_layers)
            top, bot = (0, nw - 1) if case['flip'] else (nw - 1, 0)
            check((d.surface_index, d.bottom_index) == (top, bot), 'surface and bottom', d.surface_index, d.bottom_index)
            for k, (dd, a) in terms.items():
                if k not in ('h', 'zeta'):
                    same_values(d.terms[k], a, 'term ' + k)
                    same_values(getattr(d, k), a, 'term ' + k)

            def nodes(a):
                return a if hz is dims else .25 * (a[..., 1:, 1:] + a[..., 1:, :-1] + a[..., :-1, 1:] + a[..., :-1, :-1])
            same_values(np.round(d.bathymetry.data[:], 9), np.round(nodes(h), 9), 'bathymetry')
            if 'zeta' in terms:
                same_values(np.round(d.zeta.data[:], 9), np.round(nodes(zeta), 9), 'surface height')
                same_times(d.zeta.time.data, ts, 'surface height')
                same_times(d.time.data, ts, 'depth')
                z = nodes(zeta)[case['src'] % nt]
            else:
                z = np.zeros(f.shape)
            hp, zp = f.ref(nodes(h)), f.ref(z)
            if kind == 'roms':
                s, c = sw[flip][None], cw[flip][None]
                hh, zz = hp[:, None], zp[:, None]
                if case['vt'] == 1:
                    S = hc * s + (hh - hc) * c
                    want_p = -(S + zz * S / hh)
                else:
                    want_p = -(zz + hh) * (hc * s + hh * c) / (hc + hh)
            else:
                want_p = -(zp + hp)[:, None] * np.array([f.ref(x) for x in terms['siglev'][1]]).T
            got = d.get_depth_profile(p3, ts[case['src'] % nt])
            close(np.asarray(np.ma.getdata(got), dtype=float), want_p, 'profile', rtol=1e-7, atol=1e-7)
        # the variable finds the same
        v, w = quiet(Variable.from_netCDF, varname='temp', **src)
        check(type(v.depth) is want, 'depth of the variable', type(v.depth), want)
        same_times(v.time.data, ts, 'variable')
        same_values(v.data[:], data, 'variable')
        if want is not DepthBase:
            check(v.depth.num_levels == nw, 'levels of the depth of the variable', v.depth.num_levels)
        else:
            got = v.at(p3, ts[0])
            close(got, f.ref(data[0, -1])[:, None], 'value at the surface')
    finally:
        for nc in opened:
            nc.close()
        for p in paths:
            os.remove(p)
    ctx.label(want.__name__, case['where'] + ' file(s)', kind, 'by ' + case['by'])
    if drop:
        ctx.label('incomplete')
    ctx.nontrivial(want is not DepthBase or kind in ('roms', 'fvcom'))


def depths_case():
    return D(kind=pick('roms', 'roms', 'fvcom', 'fvcom', 'levels', 'none'), other=pick('u_node', 'u_face', 's_node', 'r'), field=field_case(['u_node']),
             times=times_case(2, 4), levels=st.integers(3, 6), ocean_time=st.booleans(), flip=st.booleans(), rho=st.booleans(), first=st.booleans(),
             where=pick('one', 'one', 'separate', 'several'), h_in_grid=st.booleans(), zeta=pick('there', 'there', 'none'), incomplete=pick(False, False, False, True), drop=st.integers(0, 5),
             by=pick('name', 'both', 'long'), decoy=pick(False, False, True), lev_first=st.booleans(), also_levels=pick(False, False, False, True),
             depth_name=pick('depth', 'depth_levels', 'Depth', 'standard_name', 'long_name'), src=st.integers(0, 3), vt=pick(None, 1, 2), seed=SEED)


# ---------------------------------------------------------------- time axes

def time_axes(case, ctx):
    r = np.random.default_rng([case['seed'], 4])
    nc = files.memory()
    axes = {}
    ts = times(case['times'])
    for k, n in enumerate(case['axes']):
        axes[n] = [t + datetime.timedelta(days=k) for t in ts] + [ts[-1] + datetime.timedelta(days=k + j + 1) for j in range(k)]
        put_times(nc, axes[n], n)
    nc.createDimension('x', 3)
    nc.createDimension('stime', 2) if case['decoy'] else None
    lon, lat = [0., 1., 2.], [0., 1., 2., 3.]
    gd = files.rect(nc, lon, lat)
    for k, spec in enumerate(case['variables']):
        axis = (case['axes'] + [None])[spec['axis'] % (len(case['axes']) + 1)]
        dims = ((axis,) if axis else ()) + gd
        v = nc.createVariable('v%d' % k, 'f8', dims)
        v[:] = r.normal(size=((len(axes[axis]),) if axis else ()) + (4, 3))
        want = axis if axis and 'time' in axis else None
        if spec['attr'] == 'own' and axis:
            v.time = axis
            want = axis
        elif spec['attr'] == 'no such':
            v.time = 'nothing'
        elif spec['attr'] == 'text':
            v.time = 'noon'
        v.location = 'node'
        got = Time.locate_time_var_from_var(v)
        check(got == want, 'name of the time variable', got, want)
        for how in ('var', 'name'):
            t = Time.from_netCDF(dataset=nc, datavar=v if how == 'var' else v.name)
            if want is None:
                check(len(t) == 1, 'constant time', t.data)
            else:
                same_times(t.data, axes[want], 'times of the variable')
        x = Variable.from_netCDF(dataset=nc, varname=v.name) if want or not axis else None
        if x is None:
            continue
        if want is None:
            check(len(x.time) == 1, 'constant', x.time.data)
        else:
            same_times(x.time.data, axes[want], 'times of the Variable')
        ctx.label('time given' if spec['attr'] == 'own' and axis else 'time by dimension' if want else 'constant')
    raises(TypeError, lambda: Time.from_netCDF(dataset=nc), 'no variable')
    nc.close()
    ctx.nontrivial(len(axes) > 1)


def time_case():
    return D(times=times_case(1, 4), axes=st.lists(pick('time', 'ocean_time', 'time2', 'valid_time', 't', 'record'), min_size=1, max_size=3, unique=True), decoy=st.booleans(),
             variables=st.lists(D(axis=st.integers(0, 3), attr=pick(None, None, 'own', 'no such', 'text')), min_size=1, max_size=3), seed=SEED)


# ---------------------------------------------------------------- searches

WORDS = ['a', 'b', 'c', 'ab', 'abc', 'A', 'sea level', 'depth']


def search(case, ctx):
    ncs = []
    for spec in case['files']:
        nc = files.memory()
        for n, ln, sn in spec:
            v = nc.createVariable(n, 'f8', ()) if n not in nc.variables else nc.variables[n]
            if ln:
                v.long_name = ln
            if sn:
                v.standard_name = sn
        ncs.append(nc)
    terms, cf = case['names'], case['cf']
    keys = sorted(set(terms) | set(cf))
    terms = {k: terms.get(k, []) for k in keys}
    cf = {k: cf.get(k, []) for k in keys}

    def by_name(nc, queries):
        for q in queries:
            if q in nc.variables:
                return [q]
        return []

    def by_long(nc, queries):
        """all the variables with the first of the names that any has"""
        for q in queries:
            m = [n for n, v in nc.variables.items() if getattr(v, 'long_name', None) == q or getattr(v, 'standard_name', None) == q]
            if m:
                return m
        return []

    ds, dg = ncs[0], ncs[case['same'] and 0 or -1]
    got = search_dataset_for_variables_by_varname(ds, terms)
    check(set(got) == set(keys), 'search by name: keys', sorted(got), keys)
    for k in keys:
        want = by_name(ds, terms[k])
        check((got[k] is None and not want) or (got[k] is not None and [got[k].name] == want), 'search by name', k, got[k] is not None and got[k].name, want)
    got = search_dataset_for_variables_by_longname(ds, cf)
    check(set(got) == set(keys), 'search by long name: keys', sorted(got), keys)
    for k in keys:
        want = by_long(ds, cf[k])
        check((got[k] is None and not want) or (got[k] is not None and got[k].name in want), 'search by long name', k, got[k] is not None and got[k].name, want)
    for names, flat in [(cf[k], cf[k]) for k in keys] + [(cf, sum((cf[k] for k in cf), []))]:
        got = search_dataset_for_any_long_name(ds, names)
        want = by_long(ds, flat)
        check({v.name for v in got or []} == set(want), 'variables of any long name', got, want)

    class Kind:
        default_names = terms
        cf_names = cf
    found = search_netcdf_vars(Kind, ds, dg)
    check(set(found) == set(keys), 'all the terms', sorted(found), keys)
    for k in keys:
        want = []
        for nc in (ds, dg):
            # names say more than descriptions, which several variables may share, and the data file more than the grid file
            want = want or [nc.variables[n] for n in by_name(nc, terms[k])] or [nc.variables[n] for n in by_long(nc, cf[k])]
        check((found[k] is None and not want) or any(found[k] is w for w in want), 'variable for ' + k, found[k] is not None and found[k].name, [w.name for w in want])
    any_found = any(v is not None for v in found.values())
    d1, d2 = ({k: (None if v == 'none' else v) for k, v in d.items()} for d in (case['d1'], case['d2']))
    a, b = dict(d1), dict(d2)
    m = merge_var_search_dicts(d1, d2)
    check(m == {k: d1[k] if d1.get(k) is not None else d2.get(k) for k in set(d1) | set(d2)}, 'merged', m, d1, d2)
    check((d1, d2) == (a, b), 'merging leaves its arguments as they were', d1, d2)
    for nc in ncs:
        nc.close()
    ctx.nontrivial(any_found)


def search_case():
    word = pick(*WORDS)
    spec = st.lists(st.tuples(word, st.one_of(st.none(), word), st.one_of(st.none(), word)), max_size=5)
    names = st.dictionaries(pick('p', 'q', 'r'), st.lists(word, max_size=3), max_size=3)
    d = st.dictionaries(pick('p', 'q', 'r', 's'), pick('none', 'x', 'y'), max_size=4)
    return D(files=st.lists(spec, min_size=2, max_size=2), same=st.booleans(), names=names, cf=names, d1=d, d2=d, seed=SEED)


# ---------------------------------------------------------------- which file

FORMS = [None, None, 'str', 'path', 'list', 'open']


def which(case, ctx):
    names = ['A', 'B', 'C', 'D']
    opened = []
    given = {}
    paths = {}
    for k, (arg, form) in enumerate([('filename', case['filename']), ('dataset', case['dataset']), ('data_file', case['data_file']), ('grid_file', case['grid_file'])]):
        paths[arg] = os.path.join(ctx.tmp, names[k] + '.nc')
        with netCDF4.Dataset(paths[arg], 'w') as nc:
            nc.title = arg
            dims = files.rect(nc, np.arange(4.0) + 10 * k, np.arange(5.0) + 10 * k)
            nc.createVariable('temp', 'f8', dims)[:] = k
        if form is None:
            continue
        if arg == 'dataset':
            form = 'open'
        p = paths[arg]
        if form == 'open':
            opened.append(netCDF4.Dataset(p))
            given[arg] = opened[-1]
        else:
            given[arg] = dict(str=p, path=pathlib.Path(p), list=[p])[form]
    data = 'dataset' if 'dataset' in given else 'data_file' if 'data_file' in given else 'filename'
    if 'grid_file' in given:
        grid = 'grid_file'
    else:
        grid = 'dataset' if 'dataset' in given else 'filename'
    try:
        if data not in given or grid not in given:
            ctx.trivial()        # nothing to load from
            return
        ds, dg = parse_filename_dataset_args(**given)
        check((ds.title, dg.title) == (data, grid), 'files of the data and of the grid', (ds.title, dg.title), (data, grid))
        if data == grid:
            check(ds is dg, 'one file is opened once')
        for a in ('dataset', 'data_file', 'grid_file'):
            if a in given and given[a] in opened:
                for x, y in ((data, ds), (grid, dg)):
                    check(x != a or y is given[a], 'an open file is used as it is', a)
        k = ['filename', 'dataset', 'data_file', 'grid_file'].index(grid)
        g = Grid.from_netCDF(**given)
        close(g.node_lon[:], np.arange(4.0) + 10 * k, 'longitudes of the grid')
        v = Variable.from_netCDF(varname='temp', **given)
        close(v.grid.node_lon[:], np.arange(4.0) + 10 * k, 'longitudes of the grid of the variable')
        k2 = ['filename', 'dataset', 'data_file', 'grid_file'].index(data)
        close(v.data[:], np.full((5, 4), float(k2)), 'data of the variable')
        for a, x in given.items():
            ds = get_dataset(x)
            check(ds.title == a, 'the file', ds.title, a)
            check(get_dataset('no such file', dataset=ds) is ds, 'a dataset is passed through')
        ctx.label('data from ' + data, 'grid from ' + grid, *sorted(given))
        ctx.nontrivial(len(given) > 1)
    finally:
        for nc in opened:
            nc.close()
        for p in paths.values():
            os.remove(p)


def which_case():
    return D(filename=pick(*FORMS), dataset=pick(None, None, 'open'), data_file=pick(*FORMS), grid_file=pick(*FORMS), seed=SEED)


SCENARIOS = [Scenario('depth systems', depths_case, depths, quick=700), Scenario('time axes', time_case, time_axes, quick=300),
             Scenario('searches', search_case, search, quick=500), Scenario('which file', which_case, which, quick=300)]
