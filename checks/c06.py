"""C06: terrain-following depth coordinates"""
import datetime

import numpy as np
from hypothesis import strategies as st

from gridded import Variable
from gridded.depth import FVCOM_Depth, ROMS_Depth
from vlib.core import Scenario, Violation, check, close, close_masked, values_and_mask
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, between, pick, times, times_case

Z = st.lists(D(what=pick('in', 'in', 'in', 'above', 'below', 'surface'), k=st.integers(0, 20), f=st.integers(1, 99)), min_size=1, max_size=6)


def sigma(r, n, curve):
    """n values from -1 to 0"""
    s = np.linspace(-1.0, 0.0, n)
    if curve == 'uneven':
        s = np.cumsum(np.concatenate([[0.0], r.uniform(0.2, 1.0, n - 1)]))
        s = s / s[-1] - 1.0
    return s


def stretch(s, theta):
    """monotone, from -1 to 0"""
    return np.sinh(theta * s) / np.sinh(theta) if theta else s.copy()


def time_weights(ts, tk, how):
    """(time, extrapolate, [(index, weight)])"""
    import datetime
    n = len(ts)
    if how == 'after':
        return ts[-1] + datetime.timedelta(hours=3), True, [(n - 1, 1.0)]
    if how == 'before':
        return ts[0] - datetime.timedelta(hours=3), True, [(0, 1.0)]
    if how == 'step' or n == 1:
        return ts[tk % n], False, [(tk % n, 1.0)]
    k = tk % (n - 1)
    t = between(ts[k], ts[k + 1], 3, 10)
    a = (t - ts[k]) / (ts[k + 1] - ts[k])
    return t, False, [(k, 1 - a), (k + 1, a)]


def run(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    fc = dict(case['field'], n=len(case['z']))
    roms = fc['kind'][0] == 's'
    f = Field(fc)
    node = Field(dict(fc, kind='s_node' if roms else 'u_node'))
    assert np.array_equal(f.points, node.points)
    ts = times(case['times'])
    nt = len(ts)
    n = case['n']
    size = n - 1 if case['layers'] else n
    h = r.uniform(20.0, 60.0, node.shape) * case['deep'] if case['slope'] else np.full(node.shape, 40.0 * case['deep'])
    zeta = r.uniform(-1.0, 1.0, (nt,) + node.shape) * case['zeta'] * 10.0
    t, ext, tw = time_weights(ts, case['tk'], case['when'])
    grid = f.make_grid()
    bathymetry = Variable(name='h', data=h, grid=grid, location='node')
    if case['zconst']:
        zvar = Variable.constant(case['zeta'])
        zp = np.full(f.n, float(case['zeta']))
    else:
        zvar = Variable(name='zeta', data=zeta, grid=grid, time=ts, location='node')
        zp = sum(w * node.ref(zeta[i]) for i, w in tw)
    hp = node.ref(h)
    flip = slice(None, None, -1) if case['flip'] else slice(None)
    if roms:
        sw = sigma(r, n, case['curve'])
        cw = stretch(sw, case['theta'])
        sr = 0.5 * (sw[1:] + sw[:-1])
        cr = stretch(sr, case['theta'])
        hc = case['hc'] * (20.0 * case['deep'] if case['vt'] == 1 else 200.0)
        depth = ROMS_Depth(name='d', time=zvar.time, grid=grid, bathymetry=bathymetry, zeta=zvar, vtransform=case['vt'],
                           terms=dict(Cs_r=cr[flip], Cs_w=cw[flip], s_rho=sr[flip], s_w=sw[flip], hc=np.array(hc) if case['hcarr'] else hc))

        def profile(s, c, i):
            # from https://www.myroms.org/wiki/Vertical_S-coordinate, depth below the moving surface
            if case['vt'] == 1:
                s0 = hc * s + (hp[i] - hc) * c
                z = s0 + zp[i] * (1.0 + s0 / hp[i])
            else:
                s0 = (hc * s + hp[i] * c) / (hc + hp[i])
                z = zp[i] + (zp[i] + hp[i]) * s0
            return zp[i] - z
        prof = np.array([profile(sw[flip], cw[flip], i) for i in range(f.n)])
        lay = np.array([profile(sr[flip], cr[flip], i) for i in range(f.n)])
    else:
        # sigma from 0 to -1, different at each node
        base = sigma(r, n, case['curve'])[::-1]
        p = r.uniform(0.7, 1.6, node.shape[0]) if case['theta'] else np.ones(node.shape[0])
        if case['theta'] == 6.0:
            # the same at most nodes
            p[r.random(len(p)) < .6] = 1.0
            p[[0, -1]] = 1.0
        siglev = -np.abs(base[:, None]) ** p[None, :]
        siglay = 0.5 * (siglev[1:] + siglev[:-1])
        siglev, siglay = siglev[flip], siglay[flip]
        depth = FVCOM_Depth(name='d', time=zvar.time, grid=grid, bathymetry=bathymetry, zeta=zvar, terms=dict(siglay=siglay, siglev=siglev))
        sl = np.array([node.ref(siglev[k]) for k in range(n)]).T
        sy = np.array([node.ref(siglay[k]) for k in range(n - 1)]).T
        prof = -(zp + hp)[:, None] * sl
        lay = -(zp + hp)[:, None] * sy
    check(depth.num_levels == n and depth.num_layers == n - 1, 'number of levels and layers', depth.num_levels, depth.num_layers)
    rev = depth.surface_index != 0
    down = prof[:, ::-1] if rev else prof
    # depths of the points
    surface, bottom = case['bc']
    zs, want_terms = [], []
    for i, zc in enumerate(case['z']):
        d = down[i]
        w = zc['what']
        if w == 'surface' and surface == 'mask':
            w = 'in'
        if f.outside[i]:
            zs.append(zc['f'] / 10.0)
            want_terms.append(None)
        elif w == 'surface':
            zs.append(0.0)
            want_terms.append([(0, 1.0)])
        elif w == 'above':
            zs.append(-zc['f'] / 10.0 - 0.01)
            want_terms.append(None if surface == 'mask' else [(0, 1.0)])
        elif w == 'below':
            zs.append(d[-1] + zc['f'] / 10.0)
            want_terms.append(None if bottom == 'mask' else [(size - 1, 1.0)])
        else:
            k, a = zc['k'] % (n - 1), zc['f'] / 100.0
            zs.append(d[k] + a * (d[k + 1] - d[k]))
            want_terms.append([(k, 1.0)] if case['layers'] else [(k, 1 - a), (k + 1, a)])
    pts = np.column_stack([f.points, zs])
    inside = ~f.outside
    got = depth.get_depth_profile(pts, t, extrapolate=ext)
    check(np.shape(got) == (f.n, n), 'shape of the depth profile', np.shape(got))
    v, m = values_and_mask(got)
    check(not m[inside].any() and (m[~inside].all() or not roms), 'mask of the depth profile', m)
    close(v[inside], prof[inside], 'depth profile', atol=1e-7)
    got = depth.get_depth_profile(pts, t, data_shape=(n - 1,), extrapolate=ext)
    check(np.shape(got) == (f.n, n - 1), 'shape of the depth profile of the layers', np.shape(got))
    close(values_and_mask(got)[0][inside], lay[inside], 'depth profile of the layers', atol=1e-7)
    kw = dict(surface_boundary_condition=surface, bottom_boundary_condition=bottom)
    data = r.normal(size=(nt, size) + f.shape)
    var = Variable(name='v', data=data, grid=grid, time=ts, depth=depth, location=f.location, **(kw if case['bcby'] == 'variable' else {}))
    res = var.at(pts, t, extrapolate=ext, **(kw if case['bcby'] == 'call' else {}))
    check(np.shape(res) == (f.n, 1), 'shape of the result', np.shape(res))
    dd = np.flip(data, 1) if rev else data
    cols = [sum(w * f.ref(dd[i, k]) for i, w in tw) for k in range(size)]
    want = np.zeros(f.n)
    for i, q in enumerate(want_terms):
        if q is not None:
            want[i] = sum(w * cols[k][i] for k, w in q)
    wm = np.array([q is None for q in want_terms]) | f.want_mask
    if not roms and f.outside.any():
        # off an unstructured mesh there is no water column: 0 or masked
        gv, gm = values_and_mask(res[:, 0])
        check((gm | (gv == 0))[f.outside].all(), 'value off the mesh', res)
        wm[f.outside] = gm[f.outside]
        want[f.outside] = 0.0
    close_masked(res[:, 0], want, wm, 'depths %s in columns %s (%s, %s%s)' % (
        [float(z) for z in zs], [[round(float(x), 6) for x in d] for d in down], surface, bottom, ', layers' if case['layers'] else ''), rtol=1e-7, atol=1e-6)
    if nt > 1 and not case['zconst']:
        # where the surface is then is not known
        late = ts[-1] + datetime.timedelta(hours=1) if case['seed'] % 2 else ts[0] - datetime.timedelta(hours=1)
        long = Variable(name='v', data=np.concatenate([data[:1], data, data[:1]]), grid=grid, time=[ts[0] - datetime.timedelta(days=1)] + ts + [ts[-1] + datetime.timedelta(days=1)], depth=depth, location=f.location)
        for what, ask in (('profile', lambda: depth.get_depth_profile(pts, late)), ('value', lambda: long.at(pts, late))):
            try:
                ask()
            except ValueError:
                pass
            else:
                raise Violation('%s at %s, with a water level from %s to %s only' % (what, late, ts[0], ts[-1]))
        check(np.shape(depth.get_depth_profile(pts, late, extrapolate=True)) == (f.n, n), 'profile beyond the times of the water level')
    whats = [z['what'] for z in case['z']]
    ctx.label('ROMS %d' % case['vt'] if roms else 'FVCOM', f.kind, 'layers' if case['layers'] else 'levels', case['when'],
              'bc %s/%s' % (surface, bottom), *whats)
    ctx.nontrivial((case['slope'] or case['zeta'] != 0) and any(q is not None and w == 'in' for q, w in zip(want_terms, whats)))


def sigma_case():
    return D(field=field_case(['s_node', 's_node', 's_center', 's_edge1', 's_edge2', 'u_node', 'u_node', 'u_face'], big=True), n=st.integers(2, 8), z=Z, layers=st.booleans(),
             vt=pick(1, 2), hc=pick(0.0, 0.2, 0.9), hcarr=st.booleans(), theta=pick(0.0, 3.0, 6.0), curve=pick('even', 'uneven'), slope=st.booleans(),
             deep=pick(1.0, 20.0), zeta=pick(0.0, 0.1, 0.5), zconst=pick(False, False, False, True), flip=pick(False, False, False, True),
             bc=st.tuples(pick('extrapolate', 'mask'), pick('extrapolate', 'mask')).map(list), bcby=pick('variable', 'call'),
             times=times_case(1, 4), tk=st.integers(0, 8), when=pick('between', 'between', 'step', 'before', 'after'), seed=SEED)


SCENARIOS = [Scenario('sigma', sigma_case, run, quick=4800)]
