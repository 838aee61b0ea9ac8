"""C08: histories of queries and assignments against fresh objects"""
import datetime

import numpy as np
from hypothesis import strategies as st

from gridded import Variable, VectorVariable
from gridded.depth import FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.pysgrid.sgrid import load_grid
from gridded.pysgrid.variables import SGridVariable
from gridded.time import Time
from vlib import files
from vlib.core import Scenario, Violation, check, short, values_and_mask
from vlib.fields import Field, field_case
from vlib.gens import D, SEED, pick, times, times_case


def outcome(fn):
    try:
        return 'value', fn()
    except Exception as e:
        return 'error', e


def compare(live, fresh, what):
    (ka, a), (kb, b) = live, fresh
    if ka != kb or (ka == 'error' and type(a) is not type(b)):
        raise Violation('%s: %s, a fresh object: %s' % (what, short(a), short(b)))
    if ka == 'error':
        return
    va, ma = values_and_mask(a)
    vb, mb = values_and_mask(b)
    check(va.shape == vb.shape, what + ': shape', va.shape, 'fresh', vb.shape)
    check((ma == mb).all(), what + ': mask', ma, 'fresh', mb)
    check(np.ma.isMaskedArray(a) == np.ma.isMaskedArray(b), what + ': type', type(a), 'fresh', type(b))
    ok = np.isclose(va, vb, rtol=1e-9, atol=1e-9, equal_nan=True) | ma
    check(ok.all(), what, a, 'fresh', b)


OP = st.one_of(
    D(op=pick('query'), who=pick(0, 0, 1, 2, 2), p=st.integers(0, 5), t=st.integers(0, 4), ext=st.booleans(), unmask=st.booleans(),
      bc=pick(None, None, 'extrapolate', 'mask'), form=pick('points', 'points', 'lonlat', 'list')),
    D(op=pick('query'), who=pick(0, 2), p=st.integers(0, 2), t=st.integers(0, 2), ext=pick(False), unmask=pick(False), bc=pick(None), form=pick('points')),
    D(op=pick('again'), back=pick(0, 0, 1, 2)),
    D(op=pick('spoil'), how=pick('values', 'mask', 'element', 'fill', 'sort')),
    D(op=pick('data'), who=pick(0, 1), seed=st.integers(0, 1000)),
    D(op=pick('time'), who=pick(0, 1, 2), shift=st.integers(-3, 3)),
    D(op=pick('bc'), who=pick(0, 1), surface=pick('extrapolate', 'mask'), bottom=pick('extrapolate', 'mask')),
    D(op=pick('set'), who=pick(0, 1), what=pick('grid', 'depth', 'fill_value', 'variables'), x=st.integers(0, 3)),
    D(op=pick('move'), p=st.integers(0, 5), by=pick(0, 0, 1e-3, 1e-5, 1e-6), seed=st.integers(0, 1000)),
    D(op=pick('tick'), t=st.integers(0, 4), us=pick(1, 1000, 300000)),
    D(op=pick('nodes'), seed=st.integers(0, 1000)),
    D(op=pick('locate'), p=st.integers(0, 5)),
)


def move(p, op):
    r = np.random.default_rng([op['seed'], 2])
    if op['by']:
        # a little, one of them or all
        k = r.integers(len(p)) if op['seed'] % 2 else slice(None)
        p[k] += r.uniform(.5, 1, p[k].shape) * r.choice([-1, 1], p[k].shape) * op['by']
    else:
        p[:] = p[r.permutation(len(p))]


class World:
    def __init__(self, case):
        f = self.f = Field(case['field'])
        r = self.r = np.random.default_rng([case['seed'], 0])
        self.ts = times(case['times'])
        self.deep = case['deep']
        self.nz = 3
        self.levels = np.array([0.0, 2.0, 5.0])
        self.shape = (len(self.ts),) + ((self.nz,) if self.deep else ()) + f.shape
        self.t = [list(self.ts), list(self.ts)]
        self.vt = None
        self.data = [r.normal(size=self.shape), r.normal(size=self.shape)]
        self.bc = [['extrapolate', 'mask'], ['extrapolate', 'mask']]
        self.nodes = None
        self.own = [None, None]         # offset of the grid assigned to one variable
        self.deeper = [1.0, 1.0]        # factor of the levels of the depth assigned to one variable
        self.fill = [0, 0]
        self.order = list(case['order'])    # of the components of the vector
        n = f.n
        z = r.choice([1.0, 3.0, -1.0, 6.0], n)
        z2 = r.choice([0.5, 4.0, -1.0, 6.0], n)
        perm = r.permutation(n)
        xyz = np.column_stack([f.points, z])
        self.points = [xyz, np.column_stack([f.points, z2]), xyz[perm], xyz[:1], np.repeat(xyz, 2, axis=0), xyz[::-1].copy()]
        if not self.deep:
            # same lon/lat, with and without a depth
            self.points[1] = f.points.copy()
            self.points[4] = f.points[perm].copy()
        span = (self.ts[-1] - self.ts[0]) or datetime.timedelta(hours=1)
        self.times = [self.ts[0], self.ts[0] + span / 3, self.ts[-1], self.ts[-1] + span, self.ts[0] - span]
        self.kind = case['grid']

    def grid(self, off=None):
        g = self.f.make_grid()
        if off is not None:
            if self.f.kind[0] == 'u':
                return Grid_U(nodes=np.asarray(g.nodes) + off, faces=np.array(g.faces))
            new = self.f.make_grid()
            new.node_lon, new.node_lat = np.array(g.node_lon[:]) + off, np.array(g.node_lat[:]) - off
            return new
        if self.nodes is not None:
            g = Grid_U(nodes=self.nodes.copy(), faces=self.f.mesh['faces'].copy())
        return g

    def var(self, k, grid):
        s, b = self.bc[k]
        return Variable(name='v%d' % k, data=self.data[k].copy(), grid=grid if self.own[k] is None else self.grid(self.own[k]), time=list(self.t[k]), depth=self.depth(k) if self.deep else None, location=self.f.location, fill_value=self.fill[k],
                        surface_boundary_condition=s, bottom_boundary_condition=b)

    def depth(self, k):
        return L_Depth(terms=dict(depth_levels=self.levels * self.deeper[k]))

    def build(self):
        g = self.grid()
        a, b = self.var(0, g), self.var(1, g)
        return dict(grid=g, objs=[a, b, VectorVariable(name='w', variables=[[a, b][i] for i in self.order])])


def run(case, ctx):
    w = World(case)
    live = w.build()
    last = None
    seen, repeats, changes = set(), 0, 0
    asked = []
    for k, op in enumerate(case['ops']):
        if op['op'] == 'again':
            # the same query once more
            if len(asked) <= op['back']:
                continue
            op = asked[-1 - op['back']]
        o = op['op']
        what = 'operation %d, %s' % (k, {a: b for a, b in op.items()})
        if o == 'query':
            asked.append(op)
            pts = w.points[op['p'] % len(w.points)]
            t = w.times[op['t']]
            kw = dict(extrapolate=op['ext'], unmask=op['unmask'])
            if op['bc'] and w.deep:
                kw['surface_boundary_condition'] = kw['bottom_boundary_condition'] = op['bc']
            form = op['form']
            if form == 'lonlat' and not w.deep:
                arg = dict(lons=pts[:, 0], lats=pts[:, 1])
            elif form == 'list':
                arg = dict(points=pts.tolist())
            else:
                arg = dict(points=pts)
            fresh = w.build()
            a = outcome(lambda: live['objs'][op['who']].at(time=t, **arg, **kw))
            b = outcome(lambda: fresh['objs'][op['who']].at(time=t, **arg, **kw))
            compare(a, b, what)
            last = a[1] if a[0] == 'value' else None
            key = (op['who'], op['p'], op['t'])
            repeats += key in seen
            seen.add(key)
        elif o == 'spoil':
            if last is None or last.size == 0:
                continue
            # a result that cannot be changed is as good as one that may be
            try:
                if op['how'] == 'values':
                    last[...] = 12345.0
                elif op['how'] == 'mask' and np.ma.isMaskedArray(last):
                    last.mask = True
                elif op['how'] == 'element' and np.ma.isMaskedArray(last):
                    last[0] = np.ma.masked
                elif op['how'] == 'fill':
                    last.fill(-7.0)
                else:
                    last.sort(axis=0)
            except ValueError:
                pass
        elif o == 'data':
            d = np.random.default_rng([op['seed'], 1]).normal(size=w.shape)
            w.data[op['who']] = d.copy()
            live['objs'][op['who']].data = d
            changes += 1
        elif o == 'time':
            ts = [t + op['shift'] * datetime.timedelta(minutes=7) for t in w.ts]
            new = [list, np.array, lambda x: Time(np.array(x))][abs(op['shift']) % 3](ts)
            if op['who'] == 2:
                for i in set(w.order):
                    w.t[i] = list(ts)
            else:
                w.t[op['who']] = list(ts)
            live['objs'][op['who']].time = new
            changes += 1
        elif o == 'bc':
            # the components of a vector are asked for with the options of the query or their own
            v = live['objs'][op['who']]
            v.surface_boundary_condition, v.bottom_boundary_condition = op['surface'], op['bottom']
            w.bc[op['who']] = [op['surface'], op['bottom']]
            changes += 1
        elif o == 'set':
            i = op['who']
            v = live['objs'][i]
            what_of = op['what']
            if what_of == 'grid':
                w.own[i] = op['x'] * 0.07
                v.grid = w.grid(w.own[i])
            elif what_of == 'depth' and w.deep:
                w.deeper[i] = 1 + op['x'] * 0.2
                v.depth = w.depth(i)
            elif what_of == 'fill_value':
                w.fill[i] = v.fill_value = -10.0 * op['x']
            elif what_of == 'variables':
                w.order = [[0, 1], [1, 0], [0, 0, 1], [1, 1]][op['x']]
                live['objs'][2].variables = [live['objs'][k] for k in w.order]
            changes += 1
        elif o == 'move':
            # the caller reuses its array of points
            move(w.points[op['p'] % len(w.points)], op)
        elif o == 'tick':
            # a little later
            w.times[op['t']] += datetime.timedelta(microseconds=op['us'])
        elif o == 'nodes':
            if w.f.kind[0] != 'u':
                continue
            r = np.random.default_rng([op['seed'], 3])
            nodes = w.f.mesh['nodes']
            c = nodes.mean(axis=0)
            w.nodes = (nodes - c) * r.choice([1.0, -1.0], 2) * r.uniform(0.9, 1.3, 2) + c
            live['grid'].nodes = w.nodes.copy()
            changes += 1
        elif o == 'locate':
            p = w.points[op['p'] % len(w.points)][:, :2]
            fresh = w.build()
            a = outcome(lambda: live['grid'].locate_faces(p))
            b = outcome(lambda: fresh['grid'].locate_faces(p))
            compare(a, b, what)
            if a[0] == 'value' and hasattr(a[1], 'flags') and a[1].flags.writeable:
                a[1][...] = 0
    ctx.label(w.f.kind, 'deep' if w.deep else 'flat', 'repeats %d' % min(repeats, 3), 'changes %d' % min(changes, 3), *sorted({op['op'] for op in case['ops']}))
    ctx.nontrivial(repeats > 0)


def history_case():
    return D(field=field_case(max_points=5), times=times_case(1, 4), deep=st.booleans(), grid=pick('x'), order=pick((0, 1), (0, 1), (1, 1, 0), (0, 0, 1)), ops=st.lists(OP, min_size=2, max_size=14), seed=SEED)


# ---------------------------------------------------------------- grids alone
GOP = st.one_of(
    D(op=pick('locate'), p=st.integers(0, 3), method=pick('celltree', 'simple', 'default', 'default', 'nearest'), spoil=st.booleans()),
    D(op=pick('nearest'), p=st.integers(0, 3), spoil=st.booleans()),
    D(op=pick('interp'), p=st.integers(0, 3), d=st.integers(0, 2), spoil=st.booleans()),
    D(op=pick('logical'), p=st.integers(0, 2), memo=st.booleans(), spoil=st.booleans()),
    D(op=pick('nodes'), seed=st.integers(0, 1000)),
    D(op=pick('faces'), seed=st.integers(0, 1000)),
    D(op=pick('delete'), what=pick('faces', 'faces', 'nodes')),
    D(op=pick('move'), p=st.integers(0, 3), by=pick(0, 0, 1e-3, 1e-5, 1e-6), seed=st.integers(0, 1000)),
)


def spoil(a):
    if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
        a[...] = 3


def run_grid(case, ctx):
    f = Field(case['field'])
    r = np.random.default_rng([case['seed'], 0])
    live = f.make_grid()
    state = dict(nodes=None, faces=None, gone=False)

    def fresh():
        if f.kind[0] != 'u' or (state['nodes'] is None and state['faces'] is None and not state['gone']):
            return f.make_grid()
        if state['gone']:
            return Grid_U(nodes=f.mesh['nodes'].copy() if state['nodes'] is None else state['nodes'].copy())
        return Grid_U(nodes=f.mesh['nodes'].copy() if state['nodes'] is None else state['nodes'].copy(),
                      faces=f.mesh['faces'].copy() if state['faces'] is None else state['faces'].copy())
    pts = [f.points.copy(), f.points[::-1].copy(), f.points[:1].copy(), f.points[0].copy()]
    data = [r.normal(size=f.shape) for k in range(3)]
    n_q, changes = 0, 0
    for k, op in enumerate(case['ops']):
        what = 'operation %d, %s' % (k, op)
        o = op['op']
        if o == 'locate':
            p = pts[op['p']]
            kw = dict(method=op['method']) if f.kind[0] == 'u' and op['method'] != 'default' else {}
            a, b = outcome(lambda: live.locate_faces(p, **kw)), outcome(lambda: fresh().locate_faces(p, **kw))
            compare(a, b, what)
            n_q += 1
            if op['spoil'] and a[0] == 'value':
                spoil(a[1])
        elif o == 'nearest':
            p = pts[op['p'] % 3]
            if f.kind[0] == 'u':
                a, b = outcome(lambda: live.locate_nodes(p)), outcome(lambda: fresh().locate_nodes(p))
            elif f.kind[0] == 's':
                a, b = outcome(lambda: live.locate_nearest(p, 'node')), outcome(lambda: fresh().locate_nearest(p, 'node'))
            else:
                continue
            if a[0] == b[0] == 'value' and isinstance(a[1], tuple):
                for q, s in zip(a[1], b[1]):
                    compare(('value', q), ('value', s), what)
            else:
                compare(a, b, what)
            if op['spoil'] and a[0] == 'value':
                for q in a[1] if isinstance(a[1], tuple) else (a[1],):
                    spoil(q)
            n_q += 1
        elif o == 'logical' and f.kind[0] == 's':
            p = pts[op['p']]
            a, b = outcome(lambda: live.geo_to_logical(p, _memo=op['memo'])), outcome(lambda: fresh().geo_to_logical(p))
            compare(a, b, what)
            if op['spoil'] and a[0] == 'value':
                spoil(a[1])
            n_q += 1
        elif o == 'interp':
            p = pts[op['p'] % 3]
            d = data[op['d']]
            a = outcome(lambda: live.interpolate_var_to_points(p, d, location=f.location))
            b = outcome(lambda: fresh().interpolate_var_to_points(p, d, location=f.location))
            compare(a, b, what)
            if op['spoil'] and a[0] == 'value':
                spoil(a[1])
            n_q += 1
        elif o == 'nodes' and f.kind[0] == 'u':
            q = np.random.default_rng([op['seed'], 3])
            nodes = f.mesh['nodes']
            c = nodes.mean(axis=0)
            state['nodes'] = (nodes - c) * q.choice([1.0, -1.0], 2) * q.uniform(0.9, 1.3, 2) + c
            live.nodes = state['nodes'].copy()
            changes += 1
        elif o == 'delete' and f.kind[0] == 'u':
            delattr(live, op['what'])
            state['gone'] = True
            if op['what'] == 'nodes':
                state['nodes'] = np.zeros((0, 2))
            changes += 1
        elif o == 'faces' and f.kind[0] == 'u' and (state['nodes'] is None or len(state['nodes'])):
            state['gone'] = False
            q = np.random.default_rng([op['seed'], 4])
            faces = f.mesh['faces']
            state['faces'] = faces[q.permutation(len(faces))]
            live.faces = state['faces'].copy()
            changes += 1
        elif o == 'move':
            move(pts[op['p'] % 3], op)
    ctx.label(f.kind, 'queries %d' % min(n_q, 4), 'changes %d' % min(changes, 3))
    ctx.nontrivial(n_q > 1)


def grid_case():
    return D(field=field_case(max_points=5), ops=st.lists(GOP, min_size=2, max_size=12), seed=SEED)


# ---------------------------------------------------------------- objects that are much alike
def run_alike(case, ctx):
    """the same points, asked of two grids of the same cells in another order, with other data, times and levels"""
    f = Field(dict(case['field'], pad='both' if case['field']['pad'] in ('both', 'low') else 'none'))
    r = np.random.default_rng([case['seed'], 0])
    ts = times(case['times'])
    if len(ts) < 2:
        ts = ts + [ts[-1] + datetime.timedelta(hours=3)]
    step = min(b - a for a, b in zip(ts, ts[1:]))
    levels = np.array([0.0, 2.0, 5.0])
    face = np.array([t[0][0][0] if t else -1 for t in f.terms]) if f.kind == 'u_face' else None
    if f.kind[0] == 'u':
        nodes, faces = f.mesh['nodes'], f.mesh['faces']
        np_, fp = r.permutation(len(nodes)), r.permutation(len(faces))
        inv = np.argsort(np_)
        # each face starts at another of its nodes
        turned = np.array([np.roll(q, s) for q, s in zip(faces[fp], r.integers(1, 3, len(faces)))])
        other = lambda: Grid_U(nodes=nodes[np_].copy(), faces=inv[turned].astype(np.int32))
        turn = (lambda d: d[..., np_]) if f.kind == 'u_node' else (lambda d: d[..., fp])
        if face is not None:
            face2 = np.where(face < 0, -1, np.argsort(fp)[face])
    elif f.kind[0] == 's':
        def other():
            g = f.make_grid()
            pad = g.center_padding
            return Grid_S(node_lon=f.xy[::-1, :, 0].copy(), node_lat=f.xy[::-1, :, 1].copy(), face_padding=tuple(pad))
        turn = lambda d: d[..., ::-1, :]
    else:
        other = lambda: Grid_R(node_lon=f.axes[0].copy(), node_lat=f.axes[1][::-1].copy())
        turn = lambda d: d[..., ::-1, :]
    grids = [f.make_grid(), other()]
    n = f.n
    z = r.uniform(.1, 4.9, n)
    objs = []
    for k in range(4):
        d = r.normal(size=(len(ts), 3) + f.shape)
        late = step * 0.3 * (k // 2) * case['late']
        lv = levels * (1 + .1 * k * case['deeper'])
        t2 = [t + late for t in ts]
        data = turn(d) if k % 2 else d
        v = Variable(name='same', data=data.copy(), grid=grids[k % 2], time=list(t2), location=f.location, depth=L_Depth(terms=dict(depth_levels=lv.copy())))
        objs.append((v, d, t2, lv))
    objs.append((VectorVariable(name='same', variables=[objs[0][0], objs[2][0]]), None, None, None))
    objs.append((VectorVariable(name='same', variables=[objs[3][0], objs[1][0]]), None, None, None))

    def want(k, ix, t):
        v, d, t2, lv = objs[k]
        j = max(i for i in range(len(t2) - 1) if t2[i] <= t)
        a = (t - t2[j]) / (t2[j + 1] - t2[j])
        cols = []
        for q in range(3):
            cols.append(f.ref(d[j][q]) * (1 - a) + f.ref(d[j + 1][q]) * a)
        out = []
        for i in ix:
            m = int(np.searchsorted(lv, z[i])) - 1
            b = (z[i] - lv[m]) / (lv[m + 1] - lv[m])
            out.append(cols[m][i] * (1 - b) + cols[m + 1][i] * b)
        return np.array(out)
    hits = set()
    for op in case['ops']:
        ix = [np.arange(n), np.arange(n)[::-1], np.arange(1)][op['p']]
        lon = f.points[ix]
        if op['op'] == 'locate':
            if face is None:
                continue
            w = (face, face2)[op['who'] % 2][ix]
            got = grids[op['who'] % 2].locate_faces(lon.copy())
            check(np.array_equal(np.ravel(got), w), 'faces of the grid %d' % (op['who'] % 2), got, w)
            continue
        t = max(o[2][0] for o in objs[:4]) + (min(o[2][-1] for o in objs[:4]) - max(o[2][0] for o in objs[:4])) * (op['t'] / 7)
        k = op['who']
        pts = np.column_stack([lon, z[ix]])
        got = objs[k][0].at(pts, t)
        hits.add((op['p'], op['t']))
        for c, q in enumerate({4: (0, 2), 5: (3, 1)}.get(k, (k,))):
            v, m = values_and_mask(got)
            wm = f.want_mask[ix]
            check((m[:, c] == wm).all(), 'mask of object %d' % k, m[:, c], wm)
            w = want(q, ix, t)
            ok = np.isclose(v[:, c], w, rtol=1e-6, atol=1e-6) | wm
            check(ok.all(), 'values of object %d, which is much like the others' % k, v[:, c], w)
    ctx.label(f.kind, 'other times' if case['late'] else 'same times', 'other levels' if case['deeper'] else 'same levels')
    ctx.nontrivial(len(case['ops']) > len(hits))


def alike_case():
    return D(field=field_case(max_points=4), times=times_case(2, 3), late=st.integers(0, 1), deeper=st.integers(0, 1),
             ops=st.lists(D(op=pick('at', 'at', 'at', 'locate'), who=st.integers(0, 5), p=pick(0, 0, 0, 1, 2), t=pick(2, 2, 2, 5)), min_size=2, max_size=12), seed=SEED)


# ---------------------------------------------------------------- queries that are much alike
VARY = D(how=pick('nudge', 'nudge', 'swap', 'mix', 'copy', 'other', 'depth', 'time', 'reverse', 'roll', 'shape', 'options', 'options'), by=pick(1e-2, 1e-4, 1e-6, 2e-7), seed=st.integers(0, 1000))


def vary(pts, t, v, pool, step, deep):
    """other points and time, different from these in little: mostly neither at the start nor at the end"""
    r = np.random.default_rng([v['seed'], 5])
    n = len(pts)
    pts = pts.copy()
    inner = np.arange(1, n - 1) if n > 2 and v['seed'] % 4 else np.arange(n)
    i, j = r.choice(inner), r.choice(inner)
    how = v['how']
    if how == 'nudge':
        pts[i, :2] += r.uniform(.5, 1, 2) * r.choice([-1, 1], 2) * v['by']
    elif how == 'swap':
        pts[[i, j]] = pts[[j, i]]
    elif how == 'mix':
        # the same numbers in each column
        pts[[i, j], 0] = pts[[j, i], 0]
    elif how == 'copy':
        pts[i] = pts[j]
    elif how == 'other':
        pts[i, :2] = pool[r.integers(len(pool)), :2]
    elif how == 'depth' and pts.shape[1] == 3:
        pts[i, 2] = r.uniform(.1, 4.9)
    elif how == 'time':
        t = t + step * [1e-2, .1, .2][v['seed'] % 3]
    elif how == 'reverse':
        pts = pts[::-1].copy()
    elif how == 'shape' and not deep and pts.size % 6 == 0:
        # the same numbers, in rows of another length
        pts = pts.reshape(-1, 5 - pts.shape[1])
    elif how == 'roll':
        pts[inner] = np.roll(pts[inner], 1, axis=0)
    return pts, t


def run_queries(case, ctx):
    """the same object is asked about points or times that differ in little, then about the first ones once more"""
    f = Field(dict(case['field'], n=case['n']))
    r = np.random.default_rng([case['seed'], 0])
    ts = times(case['times'])
    if len(ts) < 2:
        ts = ts + [ts[-1] + datetime.timedelta(hours=3)]
    deep = case['deep']
    data = r.normal(size=(2, len(ts)) + ((3,) if deep else ()) + f.shape)
    flat = r.normal(size=f.shape)

    def build():
        g = f.make_grid()
        vs = [Variable(name='v', data=d.copy(), grid=g, time=list(ts), location=f.location, depth=L_Depth(terms=dict(depth_levels=np.array([0.0, 2.0, 5.0]))) if deep else None) for d in data]
        return g, vs[0], VectorVariable(name='w', variables=vs)

    def ask(objs, pts, t, kw):
        g, v, w = objs
        out = []
        for o in case['ask']:
            if o == 'variable':
                out.append(outcome(lambda: v.at(pts, t, **kw)))
            elif o == 'vector':
                out.append(outcome(lambda: w.at(pts, t, **kw)))
            elif o == 'grid':
                out.append(outcome(lambda: g.interpolate_var_to_points(pts[:, :2], flat, location=f.location)))
            elif o == 'locate':
                out.append(outcome(lambda: g.locate_faces(pts[:, :2])))
            elif o == 'nearest' and f.kind[0] == 's':
                out.append(outcome(lambda: np.concatenate([np.ravel(x) for x in g.locate_nearest(pts[:, :2], 'node')])))
        return out

    step = min(b - a for a, b in zip(ts, ts[1:]))
    t = ts[0] + step * .3
    pts = np.column_stack([f.points, r.uniform(.1, 4.9, f.n)]) if deep else f.points.copy()
    if deep:
        # some above and below
        pts[:, 2] = np.where(r.random(f.n) < .3, r.choice([-1.0, 6.0], f.n), pts[:, 2])
    if case['late']:
        t = ts[-1] + step
    kw = dict(extrapolate=case['late'])
    queries = [(pts, t, kw)]
    for v in case['vary']:
        p, tt, kw = queries[0 if case['from_first'] else -1]
        if v['how'] == 'options':
            q = np.random.default_rng([v['seed'], 6])
            kw = dict(kw)
            o = ['surface_boundary_condition', 'bottom_boundary_condition', 'both', 'unmask', 'extrapolate'][v['seed'] % 5 if deep else 3 + v['seed'] % 2]
            if o in ('unmask', 'extrapolate'):
                kw[o] = not kw.get(o, False)
            else:
                for b in ('surface_boundary_condition', 'bottom_boundary_condition'):
                    if o in (b, 'both'):
                        kw[b] = {'mask': 'extrapolate', 'extrapolate': 'mask'}[kw.get(b, ['mask', 'extrapolate'][int(q.integers(2))])]
        else:
            p, tt = vary(p, tt, v, f.points, step, deep)
        queries.append((p, tt, kw))
    queries.append(queries[0])
    live = build()
    for k, (p, tt, kw) in enumerate(queries):
        # each may keep what it was given
        got, want = ask(live, p.copy(), tt, dict(kw)), ask(build(), p.copy(), tt, dict(kw))
        what = 'points much like those asked before (%s)' % ', '.join(v['how'] for v in case['vary'][:k])
        for o, a, b in zip(case['ask'], got, want):
            compare(a, b, '%s: %s' % (o, what))
    ctx.label(f.kind, 'n %s' % ('1-2' if f.n < 3 else '3-12' if f.n < 13 else 'many'), *case['ask'])
    ctx.nontrivial(any(not np.array_equal(queries[0][0], q[0]) or queries[0][1:] != q[1:] for q in queries))


def queries_case():
    return D(field=field_case(), n=pick(1, 2, 3, 3, 4, 5, 6, 7, 12, 12, 60, 600, 1200), times=times_case(2, 3), deep=pick(False, False, True), late=pick(False, False, True), from_first=st.booleans(),
             ask=st.lists(pick('variable', 'vector', 'grid', 'locate', 'nearest'), min_size=1, max_size=2, unique=True), vary=st.lists(VARY, min_size=1, max_size=4), seed=SEED)


# ---------------------------------------------------------------- the parts of variables with terrain-following depths
TOP = st.one_of(
    D(op=pick('at'), who=pick(0, 0, 1, 2), p=pick(0, 0, 0, 1, 2, 3), t=pick(1, 1, 0, 2, 3), ext=pick(True, True, False), unmask=pick(False, False, True), bc=pick(None, None, 'extrapolate', 'mask')),
    D(op=pick('profile', 'profile', 'alphas'), who=pick(0, 1, None), p=pick(0, 0, 0, 1, 2, 3), t=pick(1, 1, 0, 2, 3), ext=pick(True, True, False), bc=pick(None, None, 'extrapolate', 'mask')),
    D(op=pick('part'), p=pick(0, 0, 0, 1, 2), t=pick(1, 1, 0, 2), which=pick('zeta', 'bathymetry')),
    D(op=pick('again'), back=pick(0, 0, 1, 2)),
    D(op=pick('again'), back=pick(0, 0, 1, 2)),
    D(op=pick('spoil')),
    D(op=pick('change'), what=pick('zeta data', 'zeta', 'zeta time', 'zeta tz', 'bathymetry data', 'bathymetry', 'terms', 'vtransform', 'surface default', 'nodes', 'data', 'time data', 'tz', 'displacement', 'depth'), seed=st.integers(0, 1000)),
    D(op=pick('change'), what=pick('zeta data', 'zeta', 'zeta tz', 'bathymetry data', 'terms', 'nodes', 'time data', 'tz'), seed=st.integers(0, 1000)),
)


class Column:
    """a level and a layer variable over one moving water column, and a vector of both"""

    def __init__(self, case):
        f = self.f = Field(case['field'])
        self.roms = f.kind[0] == 's'
        self.node = Field(dict(case['field'], kind='s_node' if self.roms else 'u_node'))
        r = np.random.default_rng([case['seed'], 7])
        self.ts = times(case['times'])
        if len(self.ts) < 2:
            self.ts = self.ts + [self.ts[-1] + datetime.timedelta(hours=3)]
        self.n = case['levels']
        self.tv = [list(self.ts), list(self.ts)]        # of the variables, and of zeta
        self.tz = [1.0, 1.0]
        self.moved = False
        self.h = r.uniform(20., 60., self.node.shape)
        self.zeta = r.uniform(-8., 8., (len(self.ts),) + self.node.shape)
        self.data = [r.normal(size=(len(self.ts), self.n - k) + f.shape) for k in (0, 1)]
        self.vt, self.hc, self.power = 2, 5.0, r.uniform(.7, 1.6, self.node.shape[0])
        self.surface = 'extrapolate'
        self.nodes = self.dnodes = None
        self.own = case['own'] and not self.roms
        z = r.uniform(.05, .9, f.n) * 20
        z[r.random(f.n) < .2] = -1.0
        z[r.random(f.n) < .2] = 200.0
        a = np.column_stack([f.points, z])
        b = a.copy()
        b[:, 2] *= .5
        self.points = [a, b, a[::-1].copy(), a[:1].copy()]
        span = self.ts[-1] - self.ts[0]
        self.times = [self.ts[0], self.ts[0] + span / 3, self.ts[-1] - span / 7, self.ts[-1] + span]

    def sigma(self):
        base = np.linspace(0., -1., self.n)
        if self.roms:
            w = base[::-1]
            r = .5 * (w[1:] + w[:-1])
            p = self.power[0]
            return dict(s_w=w, s_rho=r, Cs_w=-np.abs(w) ** p, Cs_r=-np.abs(r) ** p, hc=self.hc)
        lev = -np.abs(base[:, None]) ** self.power[None, :]
        return dict(siglev=lev, siglay=.5 * (lev[1:] + lev[:-1]))

    def grid(self):
        if self.nodes is not None:
            return Grid_U(nodes=self.nodes.copy(), faces=self.f.mesh['faces'].copy())
        return self.f.make_grid()

    def dgrid(self, g):
        if not self.own:
            return g
        nodes = self.f.mesh['nodes'] if self.dnodes is None else self.dnodes
        return Grid_U(nodes=nodes.copy(), faces=self.f.mesh['faces'].copy())

    def bathymetry(self, g):
        return Variable(name='h', data=self.h.copy(), grid=g, location='node')

    def zvar(self, g):
        return Variable(name='zeta', data=self.zeta.copy(), grid=g, time=Time(list(self.tv[1]), tz_offset=self.tz[1]), location='node')

    def depth(self, g):
        kind = ROMS_Depth if self.roms else FVCOM_Depth
        kw = dict(vtransform=self.vt) if self.roms else {}
        return kind(name='d', time=Time(list(self.tv[1])), grid=self.dgrid(g), bathymetry=self.bathymetry(g), zeta=self.zvar(g), terms=self.sigma(),
                    surface_boundary_condition=self.surface, **kw)

    def build(self):
        g = self.grid()
        d = self.depth(g)
        t = Time(list(self.tv[0]), tz_offset=self.tz[0])
        vs = [Variable(name='v%d' % k, data=self.data[k].copy(), grid=g, time=t, depth=d, location=self.f.location) for k in (0, 1)]
        return dict(grid=g, depth=d, time=t, objs=vs + [VectorVariable(name='w', variables=vs)])

    def ask(self, b, op):
        pts, t = self.points[op['p']].copy(), self.times[op['t']]
        if op['op'] == 'at':
            kw = dict(extrapolate=op['ext'], unmask=op['unmask'])
            if op['bc']:
                kw['surface_boundary_condition'] = kw['bottom_boundary_condition'] = op['bc']
            return [outcome(lambda: b['objs'][op['who']].at(pts, t, **kw))]
        if op['op'] == 'part':
            return [outcome(lambda: getattr(b['depth'], op['which']).at(pts[:, :2], t, extrapolate=True))]
        shape = None if op['who'] is None else (self.n - op['who'],)
        if op['op'] == 'profile':
            return [outcome(lambda: b['depth'].get_depth_profile(pts, t, data_shape=shape, extrapolate=op['ext']))]
        kw = {}
        if op['bc']:
            kw['surface_boundary_condition'] = kw['bottom_boundary_condition'] = op['bc']
        k, v = outcome(lambda: b['depth'].interpolation_alphas(pts, t, shape or (self.n,), extrapolate=op['ext'], **kw))
        return [(k, x) for x in v] if k == 'value' else [(k, v)]

    def change(self, b, op):
        """the same change of the state and of the objects; or nothing"""
        r = np.random.default_rng([op['seed'], 8])
        w = op['what']
        d, g = b['depth'], b['grid']
        if w in ('zeta data', 'zeta'):
            self.zeta = r.uniform(-8., 8., self.zeta.shape)
            if w == 'zeta':
                d.zeta = self.zvar(g)
            else:
                d.zeta.data = self.zeta.copy()
        elif w in ('bathymetry data', 'bathymetry'):
            self.h = r.uniform(20., 60., self.h.shape)
            if w == 'bathymetry':
                d.bathymetry = self.bathymetry(g)
            else:
                d.bathymetry.data = self.h.copy()
        elif w in ('zeta time', 'time data'):
            k = int(w == 'zeta time')
            self.tv[k] = [t + datetime.timedelta(minutes=int(r.integers(-300, 300))) for t in self.ts[:1]]
            for a, c in zip(self.ts, self.ts[1:]):
                self.tv[k].append(self.tv[k][-1] + (c - a) * float(r.uniform(.7, 1.4)))
            t = d.zeta.time if k else b['time']
            if op['seed'] % 2:
                t.data = np.array(self.tv[k])
            elif k:
                d.zeta.time = Time(list(self.tv[k]), tz_offset=self.tz[k])
            else:
                b['time'] = Time(list(self.tv[k]), tz_offset=self.tz[k])
                for v in b['objs'][:2]:
                    v.time = b['time']
        elif w in ('zeta tz', 'tz'):
            k = int(w == 'zeta tz')
            tz = float(r.integers(-3, 4))
            self.tv[k] = [t + datetime.timedelta(hours=tz - self.tz[k]) for t in self.tv[k]]
            self.tz[k] = tz
            (d.zeta.time if k else b['time']).tz_offset = tz
        elif w == 'displacement':
            if self.moved or b['time'].displacement is not None:
                return
            self.moved = True
            by = datetime.timedelta(minutes=int(r.integers(1, 200)))
            b['time'].displacement = by
            self.tv[0] = [t + by for t in self.tv[0]]
        elif w == 'terms':
            if self.roms and op['seed'] % 2:
                self.hc = float(r.uniform(1., 15.))
            else:
                self.power = r.uniform(.5, 2., self.power.shape)
            for k, v in self.sigma().items():
                setattr(d, k, v)
        elif w == 'vtransform' and self.roms:
            d.vtransform = self.vt = 1 + op['seed'] % 2
        elif w == 'surface default':
            d.default_surface_boundary_condition = self.surface = ['mask', 'extrapolate'][op['seed'] % 2]
        elif w == 'nodes' and not self.roms:
            nodes = self.f.mesh['nodes']
            c = nodes.mean(axis=0)
            nodes = (nodes - c) * r.choice([1.0, -1.0], 2) * r.uniform(0.9, 1.3, 2) + c
            if self.own:
                self.dnodes = nodes
                d.grid.nodes = nodes.copy()
            else:
                self.nodes = nodes
                g.nodes = nodes.copy()
        elif w == 'data':
            k = op['seed'] % 2
            self.data[k] = r.normal(size=self.data[k].shape)
            b['objs'][k].data = self.data[k].copy()
        elif w == 'depth':
            self.h = r.uniform(20., 60., self.h.shape)
            b['depth'] = self.depth(g)
            for v in b['objs'][:2]:
                v.depth = b['depth']


def run_column(case, ctx):
    w = Column(case)
    live = w.build()
    asked, last, repeats, changes, since = [], None, 0, 0, {}
    for k, op in enumerate(case['ops']):
        if op['op'] == 'again':
            if op['back'] >= len(asked):
                continue
            op = asked[-1 - op['back']]
            repeats += since.get(repr(op), changes) < changes
        what = 'operation %d, %s' % (k, op)
        if op['op'] == 'change':
            w.change(live, op)
            changes += 1
        elif op['op'] == 'spoil':
            if isinstance(last, np.ndarray) and last.size and last.flags.writeable:
                try:
                    last[...] = 3
                except ValueError:
                    pass
        else:
            asked.append(op)
            since[repr(op)] = changes
            got, want = w.ask(live, op), w.ask(w.build(), op)
            check(len(got) == len(want), what, got, want)
            for a, b in zip(got, want):
                compare(a, b, what)
            last = got[0][1] if got[0][0] == 'value' else None
    # and each that was asked, once more
    for op in asked[-3:]:
        for a, b in zip(w.ask(live, op), w.ask(w.build(), op)):
            compare(a, b, 'at last, %s' % op)
        repeats += since[repr(op)] < changes
    ctx.label(w.f.kind, 'asked again after a change' if repeats else 'not asked again', *sorted({o['what'] for o in case['ops'] if o['op'] == 'change'}))
    ctx.nontrivial(repeats > 0)


def column_case():
    return D(field=field_case(['s_node', 's_center', 'u_node', 'u_node', 'u_face'], max_points=4), times=times_case(2, 3), levels=st.integers(3, 5), own=st.booleans(),
             ops=st.lists(TOP, min_size=3, max_size=12), seed=SEED)


# ---------------------------------------------------------------- variables of an SGRID file
IOP = st.one_of(
    D(op=pick('get'), var=pick('a', 'b', 'long'), kind=pick('int', 'slice', 'all', 'ellipsis', 'tuple', 'array', 'bools', 'long array', 'long array'), k=st.integers(0, 3)),
    D(op=pick('again'), back=st.integers(0, 4)),
    D(op=pick('spoil'), how=pick('values', 'mask')),
)


def make_index(op, shape):
    r = np.random.default_rng([op['k'], len(shape)])
    n = shape[0]
    k = op['kind']
    if k == 'int':
        return int(r.integers(n))
    if k == 'slice':
        a, b = sorted(int(x) for x in r.integers(n + 1, size=2))
        return slice(a, b, [None, 2][op['k'] % 2])
    if k == 'all':
        return slice(None)
    if k == 'ellipsis':
        return Ellipsis
    if k == 'tuple':
        return (int(r.integers(n)),) + (slice(None),) * (len(shape) - 1) if op['k'] % 2 else (slice(0, max(1, n - 1)),)
    if k == 'array':
        return np.sort(r.choice(n, size=min(n, 2), replace=False))
    if k == 'bools':
        return r.random(n) < .5
    # many indexes that start and end alike
    a = np.arange(n)
    if n > 10:
        a = np.delete(a, 5 + r.choice(n - 10, size=3, replace=False))
    return a


def run_items(case, ctx):
    r = np.random.default_rng([case['seed'], 0])
    y, x = np.meshgrid(np.arange(4.0), np.arange(3.0), indexing='ij')
    nc = files.memory()
    try:
        dims = files.sgrid(nc, np.stack([x, y], axis=-1), 'none')
        nc.createDimension('time', 3)
        nc.createDimension('many', 1500)
        data = {}
        for name, d in (('a', ('time',) + dims['node']), ('b', ('time',) + dims['center']), ('long', ('many',))):
            v = nc.createVariable(name, 'f8', d)
            data[name] = r.normal(size=v.shape)
            if case['mask']:
                data[name] = np.ma.array(data[name], mask=r.random(v.shape) < .2)
            v[:] = data[name]
        if case['memory']:
            g = {k: SGridVariable(data=v.copy()) for k, v in data.items()}
        else:
            sg = load_grid(nc)
            g = {k: getattr(sg, k) for k in data}
        asked, last, repeats = [], None, 0
        for k, op in enumerate(case['ops']):
            if op['op'] == 'again':
                if op['back'] >= len(asked):
                    continue
                op = asked[-1 - op['back']]
                repeats += 1
            if op['op'] == 'get':
                asked.append(op)
                a = g[op['var']]
                i = make_index(op, data[op['var']].shape)
                last = a[i]
                compare(('value', last), ('value', data[op['var']][i] if case['memory'] else nc.variables[op['var']][i]), 'operation %d, %s' % (k, op))
                if case['mask'] and not case['memory']:
                    check((np.ma.getmaskarray(last) == np.ma.getmaskarray(data[op['var']][i])).all(), 'mask of %s' % op)
            elif last is not None and isinstance(last, np.ndarray) and last.ndim and last.flags.writeable:
                if op['how'] == 'mask' and np.ma.isMaskedArray(last):
                    last.mask = True
                else:
                    last[...] = -99.0
    finally:
        nc.close()
    ctx.label('memory' if case['memory'] else 'file', 'repeats %d' % min(repeats, 3))
    ctx.nontrivial(len(asked) > 1)


def items_case():
    return D(ops=st.lists(IOP, min_size=2, max_size=12), mask=st.booleans(), memory=st.booleans(), seed=SEED)


SCENARIOS = [
    Scenario('file variable', items_case, run_items, quick=700),
    Scenario('history', history_case, run, quick=4000),
    Scenario('queries alike', queries_case, run_queries, quick=2000),
    Scenario('terrain-following', column_case, run_column, quick=1200),
    Scenario('objects alike', alike_case, run_alike, quick=1200),
    Scenario('grid', grid_case, run_grid, quick=2400),
]
