"""C21: plots of grids, and the inspector of FVCOM meshes"""
import contextlib
import csv
import io
import os
import pathlib

import matplotlib
import netCDF4
import numpy as np
from hypothesis import strategies as st
from matplotlib.backend_bases import MouseEvent
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.figure import Figure

from gridded.grids import Grid_S, Grid_U
from gridded.plotting import fvcom_inspector
from gridded.plotting.mpl_plotting import GridGeoGenerator, PureMatplotlibFVCOMViewer, plot_sgrid, plot_ugrid
from gridded.pysgrid.sgrid import SGrid
from gridded.pyugrid.ugrid import UGrid
from vlib import gens
from vlib.core import Scenario, check, close, short
from vlib.gens import D, SEED, pick


def key(p, scale):
    """a point, rounded to a billionth of the size of the grid"""
    return tuple(int(round(float(c) / scale * 1e8)) for c in p)


def drawn(axes, scale):
    """(set of segments, set of marked points) of everything on the axes"""
    segs, marks = set(), set()
    for ln in axes.lines:
        xy = np.ma.filled(np.ma.asarray(ln.get_xydata(), dtype=float), np.nan)
        if ln.get_linestyle() not in ('None', 'none', '', ' '):
            add(segs, xy, scale)
        if ln.get_marker() not in ('None', 'none', '', ' ', None):
            marks.update(key(p, scale) for p in xy if np.isfinite(p).all())
    for c in axes.collections:
        if isinstance(c, LineCollection):
            for s in (q.vertices for q in c.get_paths()):
                add(segs, np.asarray(s, dtype=float), scale)
        elif isinstance(c, PathCollection):
            off = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
            marks.update(key(p, scale) for p in off if np.isfinite(p).all())
    return segs, marks


def add(segs, xy, scale):
    for p, q in zip(xy[:-1], xy[1:]):
        if np.isfinite(p).all() and np.isfinite(q).all():
            a, b = key(p, scale), key(q, scale)
            if a != b:
                segs.add(frozenset((a, b)))


def same(got, want, what):
    if got != want:
        check(False, what, 'missing: %s' % short(sorted(map(sorted, want - got), key=str)[:4]), 'not there: %s' % short(sorted(map(sorted, got - want), key=str)[:4]))


def new_axes():
    fig = Figure()
    FigureCanvasAgg(fig)
    return fig.subplots()


def edges_of(faces):
    return {tuple(sorted((int(f[k]), int(f[(k + 1) % 3])))) for f in faces for k in range(3)}


# ------------------------------------------------------------------ plot_ugrid
def run_mesh(case, ctx):
    r = np.random.default_rng([case['seed'], 21])
    m = gens.trimesh(case['mesh']) if 'nx' in case['mesh'] else gens.delaunay(case['mesh'])
    nodes, faces = m['nodes'], m['faces']
    scale = np.ptp(nodes, axis=0).max()
    kw = {}
    all_edges = sorted(edges_of(faces))
    bounds = None
    if case['bounds']:
        bounds = np.array([all_edges[k] for k in r.permutation(len(all_edges))[:case['bounds']]], dtype=np.int32)
        if case['flip']:
            bounds = bounds[:, ::-1].copy()
        kw['boundaries'] = bounds
    cls = Grid_U if case['Grid'] else UGrid
    ctr = nodes[faces].mean(axis=1)
    if case['moved']:
        # centers of the faces that are not where they would be calculated
        ctr = ctr + r.uniform(-.01, .01, ctr.shape) * scale
        kw['face_coordinates'] = ctr.copy()
    g = cls(nodes=nodes.copy(), faces=faces.copy(), **kw)
    ax = new_axes()
    opts = {k: True for k in ('nodes', 'node_numbers', 'face_numbers') if case[k]}
    plot_ugrid(ax, g, **opts)
    segs, marks = drawn(ax, scale)
    k = [key(p, scale) for p in nodes]
    same(segs, {frozenset((k[a], k[b])) for a, b in all_edges}, 'lines that are drawn')
    if case['nodes']:
        same({(p,) for p in marks}, {(p,) for p in k}, 'nodes that are drawn')
    else:
        check(not marks, 'nodes drawn unasked', len(marks))
    red = [q.vertices for c in ax.collections if isinstance(c, LineCollection) for q in c.get_paths()]
    want = set()
    if bounds is not None:
        want = {frozenset((k[a], k[b])) for a, b in bounds}
    got = set()
    for s in red:
        add(got, np.asarray(s, dtype=float), scale)
    same(got, want, 'boundaries that are drawn')
    texts = sorted((t.get_text(), key(t.xy, scale)) for t in ax.texts)
    want = []
    if case['node_numbers']:
        want += [(str(i), p) for i, p in enumerate(k)]
    if case['face_numbers']:
        want += [(str(i), key(p, scale)) for i, p in enumerate(ctr)]
    check(len(texts) == len(want), 'numbers that are drawn', texts, want)
    for (a, p), (b, q) in zip(texts, sorted(want)):
        check(a == b and max(abs(p[0] - q[0]), abs(p[1] - q[1])) <= 5, 'numbers that are drawn', (a, p), (b, q))
    # the grid is what it was
    close(g.nodes, nodes, 'nodes of the grid')
    close(g.faces, faces, 'faces of the grid')
    if bounds is not None:
        close(g.boundaries, bounds, 'boundaries of the grid')
    ctx.label('%d faces' % len(faces) if len(faces) < 5 else 'more faces', cls.__name__, *opts)


def mesh_case():
    return D(mesh=st.one_of(gens.trimesh_case(3), gens.trimesh_case(5), gens.delaunay_case(25)), bounds=pick(0, 1, 3, 8), flip=st.booleans(),
             Grid=st.booleans(), moved=st.booleans(), nodes=st.booleans(), node_numbers=pick(False, False, True), face_numbers=pick(False, False, True), seed=SEED)


# ------------------------------------------------------------------ plot_sgrid
def run_curv(case, ctx):
    r = np.random.default_rng([case['seed'], 22])
    ny, nx = case['shape']
    y, x = np.meshgrid(np.arange(ny, dtype=float), np.arange(nx, dtype=float), indexing='ij')
    xy = np.stack([x, y], axis=-1) + r.uniform(-.2, .2, (ny, nx, 2))
    xy = gens.affine(case['affine'], xy.reshape(-1, 2)).reshape(xy.shape)
    scale = np.ptp(xy.reshape(-1, 2), axis=0).max()
    mask = np.zeros((ny, nx), bool)
    if case['masked']:
        mask = r.random((ny, nx)) < case['masked']
        mask.flat[r.integers(mask.size)] = False
    lon, lat = xy[..., 0].copy(), xy[..., 1].copy()
    if case['masked']:
        lon, lat = (np.ma.masked_array(np.where(mask, 1e37, a), mask) for a in (lon, lat))
    kw = {}
    cen = 0.25 * (xy[1:, 1:] + xy[1:, :-1] + xy[:-1, 1:] + xy[:-1, :-1])
    e1, e2 = 0.5 * (xy[1:] + xy[:-1]), 0.5 * (xy[:, 1:] + xy[:, :-1])
    for n, a in (('center', cen), ('edge1', e1), ('edge2', e2)):
        if case[n]:
            kw[n + '_lon'], kw[n + '_lat'] = a[..., 0].copy(), a[..., 1].copy()
    cls = Grid_S if case['Grid'] else SGrid
    g = cls(node_lon=lon, node_lat=lat, **kw)
    ax = new_axes()
    opts = {k: True for k in ('nodes', 'rho_points', 'edge_points') if case[k]}
    plot_sgrid(ax, g, **opts)
    segs, marks = drawn(ax, scale)
    want = set()
    for j in range(ny):
        for i in range(nx):
            for b in ((j + 1, i), (j, i + 1)):
                if b[0] < ny and b[1] < nx and not mask[j, i] and not mask[b]:
                    want.add(frozenset((key(xy[j, i], scale), key(xy[b], scale))))
    same(segs, want, 'lines that are drawn')
    want = set()
    if case['nodes']:
        want |= {key(p, scale) for p in xy[~mask]}
    if case['rho_points'] and case['center']:
        want |= {key(p, scale) for p in cen.reshape(-1, 2)}
    if case['edge_points']:
        for n, a in (('edge1', e1), ('edge2', e2)):
            if case[n]:
                want |= {key(p, scale) for p in a.reshape(-1, 2)}
    same({(p,) for p in marks}, {(p,) for p in want}, 'points that are drawn')
    # everything is in view
    for k, (lo, hi) in enumerate((sorted(ax.get_xlim()), sorted(ax.get_ylim()))):
        a = xy[~mask][:, k]
        eps = 1e-6 * scale
        check(lo <= a.min() + eps and hi >= a.max() - eps, 'nodes out of view', (lo, hi), (a.min(), a.max()))
        if np.ptp(a) > 1e-3 * scale:
            check(hi - lo <= 1.5 * np.ptp(a) + eps or case['rho_points'] or case['edge_points'], 'view much larger than the grid', (lo, hi), (a.min(), a.max()))
    close(np.ma.filled(g.node_lon[:], -1), np.where(mask, -1, xy[..., 0]), 'nodes of the grid')
    ctx.label('masked' if mask.any() else 'whole', cls.__name__, *opts)


def curv_case():
    return D(shape=st.one_of(*[st.tuples(st.integers(2, 6), st.integers(2, 6)).map(list)] * 9, st.tuples(st.integers(2, 300), st.integers(2, 3)).map(lambda t: sorted(t, reverse=t[0] % 2 == 0))), affine=gens.affine_case(), masked=pick(0, 0, 0.2, 0.6), Grid=st.booleans(),
             center=st.booleans(), edge1=st.booleans(), edge2=st.booleans(), nodes=st.booleans(), rho_points=st.booleans(), edge_points=st.booleans(), seed=SEED)


# ------------------------------------------------------------------ the inspector
def fvcom(path, nodes, faces, start, order):
    with netCDF4.Dataset(path, 'w') as nc:
        for n, k in (('node', len(nodes)), ('nele', len(faces)), ('three', 3), ('siglay', 2), ('siglev', 3), ('time', 2)):
            nc.createDimension(n, k)
        for n, a in (('lon', nodes[:, 0]), ('lat', nodes[:, 1])):
            nc.createVariable(n, 'f8', ('node',))[:] = a
        c = nodes[faces].mean(axis=1)
        for n, a in (('lonc', c[:, 0]), ('latc', c[:, 1])):
            nc.createVariable(n, 'f8', ('nele',))[:] = a
        v = nc.createVariable('nv', 'i4', ('three', 'nele') if order == 'F' else ('nele', 'three'))
        v[:] = (faces.T if order == 'F' else faces) + start
        v.start_index = np.int32(start)
        v = nc.createVariable('time', 'f8', ('time',))
        v[:] = [0, 1]
        v.units = 'days since 2000-01-01'
        nc.createVariable('siglay', 'f8', ('siglay', 'node'))[:] = np.array([[-.25], [-.75]])
        nc.createVariable('siglev', 'f8', ('siglev', 'node'))[:] = np.array([[0], [-.5], [-1]])
        nc.createVariable('h', 'f8', ('node',))[:] = 10
        nc.createVariable('zeta', 'f8', ('time', 'node',))[:] = 0


HEAD = ['nele', 'nele_lat', 'nele_lon', 'node1', 'node1_lat', 'node1_lon', 'node2', 'node2_lat', 'node2_lon', 'node3', 'node3_lat', 'node3_lon']


def run_inspector(case, ctx):
    r = np.random.default_rng([case['seed'], 23])
    m = gens.trimesh(dict(case['mesh'], affine=gens.IDENTITY))
    faces = m['faces']
    step = case['step']
    # longitudes as they are stored, and as they are shown
    off = np.array([case['west'], case['south']])

    def put(p):
        return np.asarray(p) * step + off
    nodes = put(m['nodes'])
    if case['west'] == 180.0:
        # up to 180 and no further: there it is shown, not at -180
        d = 180.0 - nodes[:, 0].max()
        k = nodes[:, 0].argmax()
        nodes[:, 0] += d
        nodes[k, 0] = 180.0
        off = off + [d, 0.0]
    elif case['west'] >= 0:
        nodes[:, 0] += max(0.0, -nodes[:, 0].min())
        off = off + nodes[0] - put(m['nodes'])[0]

    def shown(p):
        p = np.array(p, dtype=float)
        p[..., 0] = np.where(p[..., 0] > 180, p[..., 0] - 360, p[..., 0])
        return p
    seen = shown(nodes)
    scale = np.abs(nodes).max()
    path = os.path.join(ctx.tmp, case['name'])
    # known limit of files without a mesh variable: three triangles are taken to be listed by columns
    fvcom(path, nodes, faces, case['start'], 'F' if len(faces) == 3 else case['order'])
    pts = gens.tri_points(dict(m), r, case['n'])
    clicks, face = shown(put(pts['points'])), pts['face']
    src = pathlib.Path(path) if case['Path'] else path
    with contextlib.redirect_stdout(io.StringIO()):
        h = GridGeoGenerator(src)
        got = np.asarray(h.get_triangle_faces())
        check(got.shape == faces.shape and (got == faces).all(), 'triangles', got, faces)
        lines = [np.array(g.coords) for g in h.gen_grid_lines_U().geoms]
        segs = [frozenset((key(a[0], scale), key(a[1], scale))) for a in lines]
        k = [key(p, scale) for p in seen]
        want = {frozenset((k[a], k[b])) for a, b in edges_of(faces)}
        same(set(segs), want, 'grid lines')
        check(len(segs) == len(want), 'lines drawn twice', len(segs), len(want))
        ax = new_axes()
        h.draw_grid_lines(ax)
        same(drawn(ax, scale)[0], want, 'lines that are drawn')
        lo, hi = seen.min(axis=0), seen.max(axis=0)
        for mg in (None, 0.0, case['margin']):
            ext = h.get_max_extent() if mg is None else h.get_max_extent(margin=mg)
            d = (hi - lo) * (0.05 if mg is None else mg)
            close(ext, [lo[0] - d[0], hi[0] + d[0], lo[1] - d[1], hi[1] + d[1]], 'extent')
        for p, f in zip(clicks, face):
            q = h.fvcom_index_query((float(p[0]), float(p[1])))
            if f < 0:
                check(q is None, 'click outside of the mesh', p, q)
                continue
            answer(q, p, f, faces, seen)
        if not case['viewer']:
            ctx.label('query')
            return
        stem = os.path.splitext(case['name'])[0]
        log = pathlib.Path(ctx.tmp) / (stem + '_selected_cell.csv')
        log.write_text('something,old\n1,2\n')
        v = PureMatplotlibFVCOMViewer(src, spill_location=(float(seen[0, 0]), float(seen[0, 1])) if case['spill'] else None)
        check(pathlib.Path(v.csv_path) == log, 'place of the log', v.csv_path, log)
        check(rows(log) == [HEAD], 'log at the start', rows(log))
        same(drawn(v.ax, scale)[0], want, 'lines of the viewer')
        count = 0
        for i, (p, f) in enumerate(zip(clicks[:4], face)):
            button = 3 if case['right'] == i else 1
            if case['event']:
                x, y = v.ax.transData.transform(p)
                e = MouseEvent('button_press_event', v.fig.canvas, x, y, button=button)
                if e.inaxes is None:
                    f = -1
                v.fig.canvas.callbacks.process('button_press_event', e)
            else:
                e = MouseEvent('button_press_event', v.fig.canvas, 0, 0, button=button)
                e.xdata, e.ydata = float(p[0]), float(p[1])
                v.on_click(e)
            got = rows(log)
            if f < 0 or button != 1:
                check(len(got) == 1 + count, 'log after a click that selects nothing', got)
                continue
            count += 1
            check(len(got) == 1 + count and got[0] == HEAD, 'log after %d selections' % count, got)
            row = dict(zip(HEAD, got[-1]))
            check(int(row['nele']) == f, 'face in the log', row['nele'], f)
            c = seen[faces[f]].mean(axis=0)
            close([float(row['nele_lon']), float(row['nele_lat'])], c, 'center in the log')
            for j in range(3):
                check(int(row['node%d' % (j + 1)]) == faces[f][j], 'node in the log', row, faces[f])
                close([float(row['node%d_lon' % (j + 1)]), float(row['node%d_lat' % (j + 1)])], seen[faces[f][j]], 'place of a node in the log')
            shapes = [np.asarray(q.get_xy()) for q in v.ax.patches]
            check(len(shapes) == 1, 'highlighted triangles', len(shapes))
            close(shapes[0][:3], seen[faces[f]], 'highlighted triangle')
            texts = [(t.get_text(), t.xy) for t in v.ax.texts]
            for j in range(3):
                mine = [xy for s, xy in texts if s == 'Node: %d' % faces[f][j]]
                check(len(mine) == 1, 'badge of a node', texts)
                close(mine[0], seen[faces[f][j]], 'place of the badge of a node')
            check(sum(s.startswith('Node: ') for s, _ in texts) == 3, 'badges', texts)
            call = [xy for s, xy in texts if s.startswith('Face (nele): %d\n' % f)]
            check(len(call) == 1 and len(texts) == 4, 'description of the face', texts)
            close(call[0], p, 'place of the description', rtol=1e-6, atol=1e-6)
        matplotlib.pyplot.close('all')
        if case['spill']:
            out = fvcom_inspector(src, backend='Agg')
            check(pathlib.Path(out) == log and rows(log) == [HEAD], 'a new session starts a new log', out)
    ctx.label('viewer', 'selected' if count else 'nothing selected', 'beyond 180' if nodes[:, 0].max() > 180 else 'below 180')


def answer(q, p, f, faces, seen):
    check(q is not None and int(q['nele']) == f, 'face at a click', p, q, f)
    nd = [int(i) for i in q['nodes']]
    check(nd == [int(i) for i in faces[f]], 'nodes of the face', nd, faces[f])
    close(q['node_lons'], seen[faces[f]][:, 0], 'longitudes of the nodes')
    close(q['node_lats'], seen[faces[f]][:, 1], 'latitudes of the nodes')
    close(q['click_pos'], p, 'place of the click')


def rows(log):
    with open(log, newline='') as f:
        return list(csv.reader(f))


def inspector_case():
    return D(mesh=gens.trimesh_case(4), west=pick(0.0, 2.0, -75.0, 200.0, 284.5, 179.6, -0.3, -180.0, 180.0), south=pick(0.0, 30.0, -70.0), step=pick(0.01, 0.1, 1.0), start=pick(0, 1),
             order=pick('C', 'F'), name=pick('f.nc', 'fvcom.out.nc', 'mesh'), n=st.integers(1, 6), Path=st.booleans(), margin=pick(0.5, 0.1, 2.0),
             viewer=pick(False, True), spill=pick(False, True), right=pick(-1, -1, 0, 1), event=pick(True, False), seed=SEED)


SCENARIOS = [Scenario('mesh', mesh_case, run_mesh, quick=700, weight=1.0),
             Scenario('curv', curv_case, run_curv, quick=700, weight=1.0),
             Scenario('inspector', inspector_case, run_inspector, quick=400, weight=2.0)]
