"""C15: VerDat files"""
import os
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from gridded import Dataset, Variable
from gridded.grids import Grid_U
from gridded.io.verdat import load_verdat, order_boundary_segments, save_verdat
from vlib.core import Scenario, check
from vlib.gens import D, SEED, affine, affine_case, pick

FT, M = ['foot', 'ft', 'feet', ' Feet', 'FT'], ['meter', 'm', 'meters', 'metre', 'M', 'Meters ']


def segments(faces):
    c = Counter(tuple(sorted((int(f[k]), int(f[(k + 1) % 3])))) for f in faces for k in range(3))
    return [e for e, n in c.items() if n == 1]


def simple(segs):
    """no node on more than two segments"""
    return all(v == 2 for v in Counter(k for s in segs for k in s).values())


def cycles(segs):
    """closed paths of the segments, as frozensets of edges"""
    to = {}
    for a, b in segs:
        to.setdefault(a, []).append(b)
        to.setdefault(b, []).append(a)
    out, seen = [], set()
    for s in sorted(to):
        if s in seen:
            continue
        path, prev, at = [s], None, s
        seen.add(s)
        while True:
            nxt = [x for x in to[at] if x != prev] or [prev]
            if len(to[at]) != 2:
                break
            n = nxt[0]
            if n == s:
                break
            prev, at = at, n
            path.append(at)
            seen.add(at)
        out.append(path)
    return [frozenset(frozenset(e) for e in zip(p, p[1:] + p[:1])) for p in out]


def mesh(c):
    r = np.random.default_rng([c['seed'], 3])
    nx, ny = c['nx'], c['ny']
    x, y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    xy = np.column_stack([x.ravel(), y.ravel()]) + r.uniform(-.15, .15, (nx * ny, 2)) * c['jitter']
    faces = []
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, d, e = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            faces += [[a, b, d], [a, d, e]] if r.random() < .5 else [[a, b, e], [b, d, e]]
    for _ in range(c['drop']):
        k = int(r.integers(len(faces)))
        g = faces[:k] + faces[k + 1:]
        if g and simple(segments(g)):
            faces = g
    faces = np.array(faces)
    p = r.permutation(len(xy))
    inv = np.argsort(p)
    faces = inv[faces]
    faces = faces[r.permutation(len(faces))]
    flip = r.random(len(faces)) < .5
    faces[flip] = faces[flip][:, ::-1]
    nodes = affine(dict(c['affine'], scale=1.0), xy)[p]
    return nodes, faces


def run(case, ctx):
    nodes, faces = mesh(case)
    r = np.random.default_rng([case['seed'], 4])
    if abs(nodes).max() > 9000:
        nodes = nodes / abs(nodes).max() * 100
    n = len(nodes)
    segs = segments(faces)
    given = case['given']
    kw = {}
    if given:
        b = [s if r.random() < .5 else s[::-1] for s in segs]
        b = [b[k] for k in r.permutation(len(b))]
        if given == 'open' and len(b) > 3:
            b = b[1:]
        segs = [tuple(sorted(s)) for s in b]
        kw['boundaries'] = np.array(b)
    depth = r.uniform(-1, 1, n) * case['deep'] + case['deep'] / 3
    if case['int']:
        depth = depth.astype(int)
    units = (M if case['meters'] else FT)[case['seed'] % (6 if case['meters'] else 5)]
    name = case['name']
    g = Grid_U(nodes=nodes.copy(), faces=faces.copy(), **kw)
    ds = Dataset(grid=g, variables={name: Variable(name=name, units=units, data=depth, location='node')} if not case['no_depth'] else {})
    path = os.path.join(ctx.tmp, 'c15.verdat')
    if case['no_depth']:
        save_verdat(ds, path, depth_var=None)
        depth = np.ones(n)
    elif name == 'depth' and case['int']:
        save_verdat(ds, path)
    else:
        save_verdat(ds, path, depth_var=name)
    lines = open(path).read().split('\n')
    # parse
    head = lines[0].split()
    check(head == ['DOGS'] + ([] if case['no_depth'] else ['METERS' if case['meters'] else 'FEET']), 'header', lines[0])
    rows = []
    k = 1
    while True:
        row = [float(x) for x in lines[k].split(',')]
        k += 1
        if row == [0, 0, 0, 0]:
            break
        rows.append(row)
    ends = [int(x) for x in lines[k + 1:] if x.strip()]
    check(int(lines[k]) == len(ends), 'number of boundaries', lines[k:])
    check(len(rows) == n, 'number of nodes', len(rows), n)
    check([x[0] for x in rows] == list(range(1, n + 1)), 'numbers of the nodes', [x[0] for x in rows])
    # which node is it: all are different to the digits written
    order = []
    for row in rows:
        d = np.abs(nodes - row[1:3]).max(axis=1)
        j = int(d.argmin())
        check(d[j] <= 0.51e-6, 'coordinates of a node', row, nodes[j])
        check(abs(depth[j] - row[3]) <= 0.51e-3, 'depth of node %d' % j, row, depth[j])
        order.append(j)
    check(sorted(order) == list(range(n)), 'each node once', order)
    # the polygons
    starts = [0] + ends[:-1] if ends else []
    polys = [order[a:b] for a, b in zip(starts, ends)]
    check(all(len(p) >= 3 for p in polys), 'polygons', polys)
    got = [frozenset(frozenset(e) for e in zip(p, p[1:] + p[:1])) for p in polys]
    want = [c for c in cycles(segs) if all(tuple(sorted(e)) in set(segs) for e in c if len(e) == 2) and all(len(e) == 2 for e in c) and len(c) > 2]
    check(Counter(got) == Counter(want), 'boundaries', polys, segs)
    # read it back
    back = load_verdat(path)
    x = np.asarray(back.grid.nodes)
    check(x.shape == (n, 2) and (abs(x - nodes[order]) <= 0.51e-6).all(), 'nodes read', x)
    v = back['depth']
    check((abs(np.asarray(v.data) - np.asarray(depth)[order]) <= 0.51e-3).all(), 'depths read', v.data)
    check(v.units == ('' if case['no_depth'] else 'meters' if case['meters'] else 'feet'), 'units read', v.units)
    check(v.location == 'node', 'location read', v.location)
    bb = np.asarray(back.grid.boundaries).reshape(-1, 2) if len(polys) else []
    read = Counter(frozenset((order[a], order[b])) for a, b in bb)
    check(read == Counter(e for p in got for e in p), 'boundary segments read', bb, polys)
    if polys and given != 'open':
        # as a dataset of its own
        path2 = os.path.join(ctx.tmp, 'c15b.verdat')
        if case['no_depth']:
            save_verdat(back, path2, depth_var=None)
        else:
            save_verdat(back, path2)
        again = load_verdat(path2)
        a = {tuple(p) + (d,) for p, d in zip(np.asarray(again.grid.nodes), np.asarray(again['depth'].data))}
        b = {tuple(p) + (d,) for p, d in zip(x, np.asarray(v.data))}
        check(a == b, 'saved and read a second time', sorted(a ^ b))
        os.remove(path2)
    os.remove(path)
    check(np.array_equal(np.asarray(g.nodes), nodes) and np.array_equal(np.asarray(g.faces), faces), 'the mesh changed')
    ctx.label('%d polygons' % min(len(polys), 4), 'boundaries %s' % (given or 'built'), 'field nodes' if n > sum(map(len, polys)) else 'only boundary nodes')
    ctx.nontrivial(len(polys) > 1 or n > 4)


def case():
    return D(nx=st.integers(2, 7), ny=st.integers(2, 7), jitter=pick(0.0, 1.0), drop=pick(0, 1, 5, 20), affine=affine_case(), given=pick(None, None, 'all', 'open'), deep=pick(1.0, 30.0, 999.0, 8000.0),
             int=st.booleans(), meters=st.booleans(), no_depth=pick(False, False, False, True), name=pick('depth', 'depth', 'h', 'Bathymetry'), seed=SEED)


# ---------------------------------------------------------------- ordering
def seg_case():
    return D(rings=st.lists(st.integers(3, 9), max_size=4), opens=st.lists(st.integers(2, 6), max_size=3), seed=SEED)


def run_seg(case, ctx):
    """any collection of closed and open chains, in any order and direction"""
    r = np.random.default_rng([case['seed'], 5])
    total = sum(case['rings']) + sum(case['opens'])
    ids = r.permutation(total + int(r.integers(0, 50)))[:total].tolist()
    rings, opens, segs = [], [], []
    for k in case['rings']:
        p = [ids.pop() for _ in range(k)]
        rings.append(p)
        segs += list(zip(p, p[1:] + p[:1]))
    for k in case['opens']:
        p = [ids.pop() for _ in range(k)]
        opens.append(p)
        segs += list(zip(p, p[1:]))
    segs = [s if r.random() < .5 else s[::-1] for s in segs]
    segs = [segs[k] for k in r.permutation(len(segs))]
    a = np.array(segs, dtype=np.int32).reshape(-1, 2)
    copy = a.copy()
    closed, opened = order_boundary_segments(a)
    check(np.array_equal(a, copy), 'the segments changed')

    def ring(p):
        k = p.index(min(p))
        p = p[k:] + p[:k]
        return tuple(p) if p[1] < p[-1] else tuple(p[:1] + p[:0:-1])

    def chain(p):
        return tuple(p) if p[0] < p[-1] else tuple(p[::-1])
    check(sorted(ring(list(p)) for p in closed) == sorted(ring(p) for p in rings), 'closed boundaries', closed, rings)
    check(sorted(chain(list(p)) for p in opened) == sorted(chain(p) for p in opens), 'open boundaries', opened, opens)
    ctx.label('%d rings' % len(rings), '%d open' % len(opens))
    ctx.nontrivial(len(rings) + len(opens) > 1)


SCENARIOS = [
    Scenario('files', case, run, quick=2400),
    Scenario('ordering', seg_case, run_seg, quick=1500),
]
