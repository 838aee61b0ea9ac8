"""C25: comparisons and descriptions of what objects hold"""
import copy
import datetime
import re
import warnings

import netCDF4
import numpy as np
from hypothesis import strategies as st

from gridded import Dataset, Variable, VectorVariable
from gridded.depth import Depth, FVCOM_Depth, L_Depth
from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.pysgrid.sgrid import SGrid
from gridded.pyugrid.ugrid import UGrid
from gridded.time import Time
from vlib import files
from vlib.core import Scenario, check, close_masked, values_and_mask
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, curv, curv_case, flexmesh, flexmesh_case, pick, times, times_case, trimesh, trimesh_case


def compare(a, b, want, what):
    """== and != from either side"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = (bool(a == b), bool(b == a), bool(a != b), bool(b != a))
    check(got == (want, want, not want, not want), what, got, want)


OTHERS = [None, 3, 'mesh', [1.0, 2.0], (), {}, object()]


def alone(a, r, what):
    """equal to itself, and to nothing of another kind"""
    compare(a, a, True, what + ' and itself')
    o = OTHERS[int(r.integers(len(OTHERS)))]
    compare(a, o, False, what + ' and %r' % (o,))


def state(obj):
    """the arrays an object holds"""
    out = {}
    for k, v in vars(obj).items():
        if isinstance(v, np.ndarray):
            a, m = values_and_mask(v) if v.dtype.kind in 'iufb' else (np.array(v), np.zeros(v.shape, bool))
            out[k] = [a, np.array(m)]
        elif v is None or isinstance(v, (int, float, str, bool)):
            out[k] = v
    return out


def unchanged(obj, before, what):
    now = state(obj)
    for k, v in before.items():
        check(k in now, what + ': lost', k)
        w = now[k]
        if isinstance(v, list):
            check(isinstance(w, list) and w[0].shape == v[0].shape and (w[1] == v[1]).all()
                  and np.array_equal(np.where(v[1], v[0].dtype.type(0), v[0]), np.where(v[1], v[0].dtype.type(0), w[0]), equal_nan=v[0].dtype.kind == 'f'), what + ': changed', k, v, w)
        else:
            check(w is v or w == v, what + ': changed', k, v, w)


# ---------------------------------------------------------------- meshes
U_CHANGE = ['none', 'none', 'none', 'node', 'tiny', 'face', 'wind', 'order', 'boundary', 'boundary_order', 'no_boundary', 'drop_face', 'add_node', 'no_faces', 'class', 'other_parts', 'derived', 'fewer']


def run_mesh(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    flex = case['flex'] is not None
    m = flexmesh(case['flex']) if flex else trimesh(case['mesh'])
    nodes = np.array(m['nodes'])
    faces = m['faces'] if flex else m['faces'].copy()
    n, nf = len(nodes), len(faces)
    nb = int(r.integers(1, 6))
    bounds = np.array([(k, (k + 1) % n) for k in r.permutation(n)[:nb]], dtype=np.int32) if case['bounds'] else None
    cls = Grid_U if case['cls'] else UGrid

    def make(c=cls, **kw):
        a = dict(nodes=nodes.copy(), faces=None if faces is None else faces.copy(), boundaries=None if bounds is None else bounds.copy())
        a.update(kw)
        return c(**a)

    a = make()
    alone(a, r, 'a mesh')
    how = case['change']
    if how in ('boundary', 'boundary_order', 'no_boundary') and (bounds is None or (how == 'boundary_order' and nb < 2)):
        how = 'none'
    if how == 'drop_face' and nf < 2:
        how = 'none'
    want = False
    k = int(r.integers(nf))
    if how == 'none':
        want = True
        if flex and case['junk']:
            # what is behind a mask is not part of the mesh
            f = faces.copy()
            data = np.array(f.data)
            data[np.ma.getmaskarray(f)] = r.integers(-5, n)
            b = make(faces=np.ma.array(data, mask=np.ma.getmaskarray(f).copy(), fill_value=f.fill_value))
        else:
            b = make()
    elif how in ('node', 'tiny'):
        q = nodes.copy()
        i, j = int(r.integers(n)), int(r.integers(2))
        q[i, j] = np.nextafter(q[i, j], 1e9) if how == 'tiny' else q[i, j] + 0.5
        b = make(nodes=q)
    elif how in ('face', 'wind', 'order'):
        f = faces.copy()
        if how == 'order' and nf > 1:
            f[[k, (k + 1) % nf]] = f[[(k + 1) % nf, k]]
        elif how == 'wind':
            row = f[k][~np.ma.getmaskarray(f[k])][::-1]
            f[k, :len(row)] = row
        else:
            new = [q for q in range(n) if q not in np.ma.asarray(f[k]).compressed()]
            if not new:
                return ctx.trivial()
            f[k, int(r.integers(3))] = new[int(r.integers(len(new)))]
        b = make(faces=f)
    elif how == 'fewer':
        # a polygon without its last node, which is still there behind the mask
        f = faces.copy() if flex else None
        ks = np.nonzero((~np.ma.getmaskarray(f)).sum(axis=1) > 3)[0] if flex else []
        if not len(ks):
            return ctx.trivial()
        k = int(ks[int(r.integers(len(ks)))])
        mask = np.ma.getmaskarray(f).copy()
        mask[k, (~mask[k]).sum() - 1] = True
        b = make(faces=np.ma.array(f.data, mask=mask, fill_value=f.fill_value))
    elif how == 'boundary':
        q = bounds.copy()
        q[int(r.integers(nb))] = q[0][::-1] if nb == 1 else [q[0, 1], q[-1, 0]]
        if np.array_equal(q, bounds):
            q[0] = q[0][::-1]
        b = make(boundaries=q)
    elif how == 'boundary_order':
        b = make(boundaries=bounds[::-1].copy())
    elif how == 'no_boundary':
        b = make(boundaries=None)
    elif how == 'drop_face':
        b = make(faces=np.delete(faces.data if flex else faces, k, axis=0) if not flex else faces[np.arange(nf) != k])
    elif how == 'add_node':
        b = make(nodes=np.vstack([nodes, nodes[-1:] + 1.0]))
    elif how == 'no_faces':
        b = make(faces=None)
    elif how == 'class':
        b = make(c=UGrid if cls is Grid_U else Grid_U)
    elif how == 'other_parts':
        # what is not compared
        b = make(mesh_name='another')
        want = True
    else:
        b = make()
        if not flex:
            b.build_edges()
            b.build_face_face_connectivity()
        b.build_face_coordinates()
        b.locate_faces(np.array([nodes[0]]))
        want = True
    before = state(a), state(b)
    compare(a, b, want, 'meshes, %s' % how)
    c = copy.deepcopy(a)
    compare(a, c, True, 'a mesh and its copy')
    # what it says of itself
    for g in (a, b):
        s = g.info
        check(g.mesh_name in s, 'name in the description', s)
        for what, arr in (('nodes', g.nodes), ('faces', g.faces), ('boundaries', g.boundaries)):
            found = re.search(r'%s: (\d+)' % what, s)
            if arr is None or len(arr) == 0:
                check(found is None or int(found.group(1)) == 0, 'description of a mesh without ' + what, s)
            else:
                check(found and int(found.group(1)) == len(arr), 'number of %s in the description' % what, s, len(arr))
        if g.faces is not None:
            found = re.search(r'(\d+) vertices', s)
            check(found and int(found.group(1)) == g.faces.shape[1], 'vertices in the description', s)
    unchanged(a, before[0], 'mesh compared')
    unchanged(b, before[1], 'mesh compared')
    ctx.label(how, 'mixed' if flex else 'triangles')
    ctx.nontrivial(how != 'none' or flex)


def mesh_case():
    return D(mesh=trimesh_case(4), flex=st.one_of(st.none(), flexmesh_case(4)), bounds=st.booleans(), cls=st.booleans(), junk=st.booleans(), change=pick(*U_CHANGE), seed=SEED)


# ---------------------------------------------------------------- curvilinear grids
S_CHANGE = ['none', 'none', 'none', 'node_lon', 'node_lat', 'node_mask', 'center_lon', 'center_lat', 'center_mask', 'face_padding', 'missing', 'shape', 'transposed', 'class', 'asked', 'gone', 'gone']


def run_sgrid(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    xy = curv(case['grid'])['xy']
    ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
    cxy = (xy[1:, 1:] + xy[:-1, :-1]) / 2
    a = dict(node_lon=xy[..., 0].copy(), node_lat=xy[..., 1].copy())
    if case['center']:
        a.update(center_lon=cxy[..., 0].copy(), center_lat=cxy[..., 1].copy(), face_padding=tuple(case['pad']))
    if case['masks']:
        a['node_mask'] = r.random((ny + 1, nx + 1)) < .2
        if case['center']:
            a['center_mask'] = r.random((ny, nx)) < .2
    if case['gone']:
        gone = r.random((ny + 1, nx + 1)) < .2
        for k in ('node_lon', 'node_lat'):
            a[k] = np.ma.array(a[k], mask=gone)
    cls = Grid_S if case['cls'] else SGrid
    b = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in a.items()}
    other = cls
    how = case['change']
    if how in a and how != 'face_padding':
        v = b[how]
        ok = np.argwhere(~np.ma.getmaskarray(v))
        if not len(ok):
            return ctx.trivial()
        ix = tuple(ok[int(r.integers(len(ok)))])
        v[ix] = ~v[ix] if v.dtype == bool else np.nextafter(v[ix], 1e9)
        want = False
    elif how == 'face_padding' and case['center']:
        b['face_padding'] = ('none', 'high') if tuple(case['pad']) != ('none', 'high') else ('low', 'high')
        want = False
    elif how == 'gone' and case['gone'] and not gone.all():
        # one more is missing
        ok = np.argwhere(~gone)
        more = gone.copy()
        more[tuple(ok[int(r.integers(len(ok)))])] = True
        for k in ('node_lon', 'node_lat'):
            b[k] = np.ma.array(b[k].data, mask=more.copy())
        want = False
    elif how == 'missing' and (case['center'] or case['masks']):
        k = [q for q in a if q[:4] == 'cent' or q == 'node_mask']
        b.pop(k[int(r.integers(len(k)))])
        want = False
        if ('center_lon' in b) != ('center_lat' in b):
            return ctx.trivial()
    elif how == 'shape' and nx > 1:
        b = {k: (v[:, :-1] if hasattr(v, 'ndim') else v) for k, v in b.items()}
        want = False
    elif how == 'transposed' and (ny != nx or not np.allclose(xy, np.swapaxes(xy, 0, 1))):
        b = {k: (v.T if hasattr(v, 'ndim') else v) for k, v in b.items()}
        want = False
    elif how == 'class':
        other = SGrid if cls is Grid_S else Grid_S
        want = False
    else:
        want = True
        if case['gone'] and case['junk']:
            for k in ('node_lon', 'node_lat'):
                d = np.array(b[k].data)
                d[gone] = -77.0
                b[k] = np.ma.array(d, mask=gone.copy())
    in_file = case['in_file'] if case['masks'] else 0
    if in_file:
        # the masks stay in files
        nc = files.memory()
        for t, d in enumerate((a, b)):
            for k in ('node_mask', 'center_mask'):
                if k in d and in_file & (t + 1):
                    dims = []
                    for ax, n in enumerate(d[k].shape):
                        dims.append('%s_%d_%d' % (k, t, ax))
                        nc.createDimension(dims[-1], n)
                    v = nc.createVariable('%s_%d' % (k, t), 'i4', tuple(dims))
                    v[:] = d[k]
                    d[k] = v
    ga, gb = cls(**a), other(**b)
    alone(ga, r, 'a curvilinear grid')
    if how == 'asked' and not case['masks']:
        gb.locate_faces(np.array([xy[0, 0] + 1e-3]))
    before = state(ga), state(gb)
    compare(ga, gb, want, 'curvilinear grids, %s' % how)
    if not in_file:
        compare(ga, copy.deepcopy(ga), True, 'a curvilinear grid and its copy')
    names = set(re.findall(r'\w+', ga.info))
    for k in ('node_lon', 'node_lat', 'node_mask', 'center_lon', 'center_lat', 'center_mask', 'edge1_lon', 'edge2_lat'):
        if k in a or k[:4] == 'edge':
            check((k in names) == (k in a), 'parts in the description', k, ga.info)
    unchanged(ga, before[0], 'grid compared')
    unchanged(gb, before[1], 'grid compared')
    if in_file:
        nc.close()
    ctx.label(how, 'masks in a file' if in_file else '')
    ctx.nontrivial(how != 'none' or case['gone'])


def sgrid_case():
    return D(grid=curv_case(), center=st.booleans(), masks=st.booleans(), in_file=pick(0, 0, 1, 2, 3), gone=pick(False, False, True), junk=st.booleans(), cls=st.booleans(),
             pad=st.tuples(pick('none', 'low', 'high', 'both'), pick('none', 'low', 'high', 'both')).map(list), change=pick(*S_CHANGE), seed=SEED)


# ---------------------------------------------------------------- times
def run_time(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    ts = times(case['times'])
    tz = case['tz']
    a = Time(list(ts), tz_offset=tz)
    alone(a, r, 'a time axis')
    compare(a, list(ts), False, 'a time axis and a list')
    how = case['change']
    us = list(ts)
    kw = {}
    want = False
    k = int(r.integers(len(us)))
    if how == 'instant':
        us[k] += datetime.timedelta(microseconds=1)
        if sorted(set(us)) != us:
            return ctx.trivial()
    elif how == 'longer':
        us.append(us[-1] + datetime.timedelta(seconds=1))
    elif how == 'shorter' and len(us) > 1:
        us.pop(k)
    elif how == 'tz':
        kw['tz_offset'] = {None: 0}.get(tz, None if case['seed'] % 2 else (tz or 0) + 1)
    elif how == 'moved':
        kw['displacement'] = datetime.timedelta(minutes=1)
    elif how == 'back':
        want = True
        us = [t + datetime.timedelta(minutes=7) for t in us]
        kw['displacement'] = -datetime.timedelta(minutes=7)
    elif how == 'named':
        want = True
        kw['tz_offset_name'] = 'somewhere'
    else:
        want = True
    b = Time(us, **dict(dict(tz_offset=tz), **kw))
    compare(a, b, want, 'time axes, %s' % how)
    compare(a, copy.deepcopy(a), True, 'a time axis and its copy')
    # a time axis is a collection of its instants
    check(list(a) == ts and len(a) == len(ts), 'the instants of a time axis', list(a), ts)
    s = a.info
    check(str(ts[0]) in s and str(ts[-1]) in s and re.search(r'timesteps: %d\b' % len(ts), s), 'description of a time axis', s)
    check(list(a.data) == ts and a.tz_offset == tz, 'time axis compared: changed', a.data)
    ctx.label(how)


def time_case():
    return D(times=times_case(1, 5), tz=pick(None, None, 0, -8, 5.5), change=pick('none', 'none', 'instant', 'longer', 'shorter', 'tz', 'moved', 'back', 'named'), seed=SEED)


# ---------------------------------------------------------------- variables, depths and datasets
def run_described(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    ts = times(case['times'])
    g = f.make_grid()
    t = Time(list(ts)) if case['timed'] else None
    units = case['units']
    data = [r.normal(size=(((len(ts),) if case['timed'] else ()) + f.shape)) for _ in range(2)]
    vs = [Variable(name='the %s' % q, varname=q, units=units, data=d, grid=g, time=t, location=f.location, attributes={'standard_name': 'sn_' + q, 'source': 'model'})
          for q, d in zip(('temp', 'salt'), data)]
    vv = VectorVariable(name='pair', variables=vs)
    ds = Dataset(grid=g, variables=dict(temp=vs[0], salt=vs[1]), attributes={'title': 'made up', 'number': 17})
    when = ts[0] if case['timed'] else None
    before = vs[0].at(f.points, when)
    said = {}
    for again in range(2):
        for name, obj, words in (('variable', vs[0], ['the temp', units, f.location, t and str(len(ts)), str(data[0].shape)]), ('vector', vv, ['pair', units, 'the temp', 'the salt'])):
            s = str(obj)
            check(s == repr(obj), 'str and repr of a ' + name, s)
            check(all(w in s for w in words if w and w != str(len(ts))), 'description of a ' + name, s, words)
            check(said.setdefault(name, s) == s, name + ' described again', s, said[name])
        s = vs[1].info
        check(all(w in s for w in ('salt', 'sn_salt', units, str(data[1].shape))), 'info of a variable', s)
        s = str(ds)
        check('temp' in s and 'salt' in s and type(g).__name__ in s, 'description of a dataset', s)
        s = ds.info
        check(all(w in s for w in ('title: made up', 'number: 17', 'sn_temp', 'sn_salt')), 'info of a dataset', s)
        for line in g.info.split('\n'):
            check(line.strip() in s, 'the grid in the info of a dataset', s, line)
    check(vs[0].units == units and vv.units == units, 'units', vs[0].units, vv.units)
    if case['other']:
        # units of a vector are those of its components, whatever these had before
        for v, q in zip(vs, case['own']):
            v.units = units if q == 'as is' else q
            check(v.units == (units if q == 'as is' else q), 'units as they were set', v.units)
        vv.units = case['other']
        check([v.units for v in vs] == [case['other']] * 2 and vv.units == case['other'], 'units after those of the vector were assigned', [v.units for v in vs], vv.units)
        check(all(case['other'] in str(o) for o in (vs[0], vs[1], vv)), 'descriptions after units were assigned', str(vv))
    a, m = values_and_mask(before)
    close_masked(vs[0].at(f.points, when), a, m, 'values after descriptions', rtol=0, atol=0)
    got = ds.get_variables_by_attribute('standard_name', 'sn_salt')
    check(len(got) == 1 and got[0] is vs[1], 'variables with an attribute', got)
    check(len(ds.get_variables_by_attribute('source', 'model')) == 2 and ds.get_variables_by_attribute('source', 'other') == []
          and ds.get_variables_by_attribute('nothing', 'model') == [], 'variables with an attribute')
    check(ds['temp'] is vs[0] and ds['salt'] is vs[1], 'variables of a dataset by name')
    ctx.label(f.kind, 'units %r' % units)
    ctx.nontrivial(case['timed'])


def described_case():
    return D(field=field_case(max_points=3), times=times_case(1, 4), timed=st.booleans(), units=pick('m/s', 'K', 'mm', 'm', 'degC', 'ss', '1', 'cm'), other=pick(None, 'knots', 'psu'),
             own=st.tuples(*[pick('as is', None, 'ft', '1e-3')] * 2), seed=SEED)


# ---------------------------------------------------------------- attributes
def run_attributes(case, ctx):
    """variables of a file, given the same further attributes: each has these and its own of the file"""
    f = Field(case['field'])
    nc = files.memory()
    try:
        for k, size in enumerate(f.shape):
            nc.createDimension('d%d' % k, size)
        dims = tuple('d%d' % k for k in range(len(f.shape)))
        g = f.make_grid()
        if f.kind == 'r':
            g.dimensions = list(dims)
        given = dict(case['given']) if case['given'] else None
        own, made = [], []
        for k, attrs in enumerate(case['attrs']):
            v = nc.createVariable('v%d' % k, 'f8', dims)
            v[:] = k
            v.setncatts(attrs)
            own.append(attrs)
        for k in case['order']:
            k %= len(own)
            made.append((k, Variable(name='v%d' % k, data=nc['v%d' % k], grid=g, location=f.location, attributes=given)))
        for k, v in made:
            want = dict(given or {}, **own[k])
            check(dict(v.attributes) == want, 'attributes of variable %d' % k, v.attributes, want)
        check(given == (dict(case['given']) or None), 'the attributes of the caller', given, case['given'])
        ds = Dataset(grid=g, variables={'%d' % q: v for q, (k, v) in enumerate(made)})
        for name in 'abc':
            for value in (1, 2, 'one'):
                got = ds.get_variables_by_attribute(name, value)
                check([id(v) for v in got] == [id(v) for k, v in made if own[k].get(name) == value], 'variables with an attribute', name, value, got)
    finally:
        nc.close()
    ctx.label(f.kind, 'given' if given else 'none given')
    ctx.nontrivial(bool(given) and len({k for k, v in made}) > 1)


def attributes_case():
    return D(field=field_case(max_points=1), given=st.dictionaries(pick('x', 'y', 'z'), pick(1, 'model', 2.5), max_size=2),
             attrs=st.lists(st.dictionaries(pick('a', 'b', 'c'), pick(1, 2, 'one'), max_size=3), min_size=1, max_size=3),
             order=st.lists(st.integers(0, 5), min_size=1, max_size=4), seed=SEED)


SCENARIOS = [
    Scenario('meshes', mesh_case, run_mesh, quick=2400),
    Scenario('curvilinear', sgrid_case, run_sgrid, quick=2400),
    Scenario('times', time_case, run_time, quick=1600, weight=.4),
    Scenario('described', described_case, run_described, quick=1600),
    Scenario('attributes', attributes_case, run_attributes, quick=600),
]
