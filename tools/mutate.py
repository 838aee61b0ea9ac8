"""mutate.py list|tests|checks|full ... : changes single expressions of the library and sees which changes neither the
tests nor the checks notice.  Works in scratch copies under /tmp/mu; nothing in /repo is changed.

  list N SEED        choose N mutants of covered lines -> /tmp/mu/list.json   (needs /tmp/covdata/c.PID.* coverage files)
  tests              keep those that pass the repository's tests -> /tmp/mu/alive.json
  checks             run an eighth of each quick check that covers the line -> /tmp/mu/missed.json
  full               run the whole quick checks on the missed ones -> /tmp/mu/left.json
"""
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
W = '/tmp/mu'
FILES = ['depth.py', 'gridded.py', 'grids.py', 'io/verdat.py', 'pysgrid/lookup.py', 'pysgrid/processing_2d.py',
         'pysgrid/read_netcdf.py', 'pysgrid/sgrid.py', 'pysgrid/utils.py', 'pysgrid/variables.py',
         'pyugrid/read_netcdf.py', 'pyugrid/ugrid.py', 'pyugrid/util.py', 'pyugrid/uvar.py', 'time.py',
         'utilities.py', 'variable.py', 'plotting/mpl_plotting.py']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult], ast.Mod: [ast.Mult]}


def variants(node):
    """replacements (as functions that change a copied node in place or return a new one), with a name"""
    out = []
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                def f(n, i=i, new=new):
                    n.ops[i] = new()
                    return n
                out.append(('%s->%s' % (type(op).__name__, new.__name__), f))
    if isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            def f(n, new=new):
                n.op = new()
                return n
            out.append(('%s->%s' % (type(node.op).__name__, new.__name__), f))
    if isinstance(node, ast.BoolOp):
        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        out.append(('boolop', f))
        for i in range(len(node.values)):
            def f(n, i=i):
                del n.values[i]
                return n.values[0] if len(n.values) == 1 else n
            out.append(('drop operand %d' % i, f))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
        out.append(('drop unary', lambda n: n.operand))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            def f(n):
                n.value = not n.value
                return n
            out.append(('flip bool', f))
        elif isinstance(v, (int, float)) and not isinstance(v, complex):
            for d in (1, -1):
                def f(n, d=d):
                    n.value = n.value + d
                    return n
                out.append(('const %+d' % d, f))
        elif isinstance(v, str) and v and len(v) < 30:
            def f(n):
                n.value = n.value + 'x'
                return n
            out.append(('string', f))
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for name, val in (('if true', True), ('if false', False)):
            def f(n, val=val):
                n.test = ast.Constant(val) if not isinstance(n, ast.While) else n.test
                return n
            if not isinstance(node, ast.While):
                out.append((name, f))
    if isinstance(node, ast.Slice):
        for part in ('lower', 'upper', 'step'):
            if getattr(node, part) is not None:
                def f(n, part=part):
                    setattr(n, part, None)
                    return n
                out.append(('drop slice ' + part, f))
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'strip', 'lower', 'reshape', 'astype', 'squeeze', 'ravel',
                                                                       'flatten', 'transpose', 'filled', 'any', 'all'):
            if node.func.attr not in ('any', 'all'):
                out.append(('drop .%s()' % node.func.attr, lambda n: n.func.value))
            else:
                def f(n):
                    n.func.attr = 'all' if n.func.attr == 'any' else 'any'
                    return n
                out.append(('any/all', f))
        for i in range(len(node.keywords)):
            if node.keywords[i].arg:
                def f(n, i=i):
                    del n.keywords[i]
                    return n
                out.append(('drop keyword ' + node.keywords[i].arg, f))
        if len(node.args) == 2:
            def f(n):
                n.args = n.args[::-1]
                return n
            out.append(('swap args', f))
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Continue, ast.Break)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            out.append(('delete statement', lambda n: ast.copy_location(ast.Pass(), n)))
    if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
        def f(n):
            n.op = BIN[type(n.op)][0]()
            return n
        out.append(('augassign', f))
    return out


class Apply(ast.NodeTransformer):
    def __init__(self, index, vi):
        self.index, self.vi, self.k, self.done = index, vi, -1, False

    def visit(self, node):
        self.k += 1
        if self.k == self.index and not self.done:
            self.done = True
            new = variants(node)[self.vi][1](node)
            return ast.copy_location(new, node)
        return self.generic_visit(node)


class Index(ast.NodeTransformer):
    def __init__(self):
        self.k, self.nodes = -1, []

    def visit(self, node):
        self.k += 1
        self.nodes.append((self.k, node))
        return self.generic_visit(node)


def coverage():
    import coverage as cov
    out = {}
    for p in glob.glob('/tmp/covdata/c.*'):
        pid = os.path.basename(p).split('.')[1]
        d = cov.CoverageData(p)
        d.read()
        for f in d.measured_files():
            rel = os.path.relpath(f, '/repo/gridded')
            for ln in d.lines(f) or []:
                out.setdefault(rel, {}).setdefault(ln, set()).add(pid)
    return out


def do_list(n, seed):
    cov = coverage()
    rnd = random.Random(seed)
    allm = []
    for f in FILES:
        src = open(W + '/base/gridded/' + f).read()
        tree = ast.parse(src)
        ix = Index()
        ix.visit(copy.deepcopy(tree))
        # statement lines, docstrings skipped
        parents = {}
        for node in ast.walk(tree):
            for ch in ast.iter_child_nodes(node):
                parents[ch] = node
        ix = Index()
        ix.visit(tree)
        for k, node in ix.nodes:
            if not hasattr(node, 'lineno'):
                continue
            st = node
            while not isinstance(st, ast.stmt) and st in parents:
                st = parents[st]
            if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) or \
                    isinstance(parents.get(st), (ast.Module, ast.ClassDef)):
                continue
            p = node
            raising = False
            while p in parents:
                if isinstance(p, ast.Raise) or (isinstance(p, ast.Call) and 'warn' in ast.dump(p.func)) or isinstance(p, ast.JoinedStr):
                    raising = True
                p = parents[p]
            if raising and not isinstance(node, ast.Raise):
                continue
            pids = cov.get(f, {}).get(st.lineno) or set()
            for q in range(node.lineno, (node.end_lineno or node.lineno) + 1):
                if isinstance(node, ast.expr):
                    pids = pids | cov.get(f, {}).get(q, set())
            for vi, (name, _) in enumerate(variants(node)):
                allm.append({'file': f, 'node': k, 'vi': vi, 'name': name, 'line': node.lineno, 'pids': sorted(pids),
                             'src': ast.unparse(node)[:100].split('\n')[0]})
    print(len(allm), 'mutants,', sum(1 for m in allm if m['pids']), 'on covered lines')
    cvd = [m for m in allm if m['pids']]
    rnd.shuffle(cvd)
    cvd = cvd[:n]
    for i, m in enumerate(cvd):
        m['id'] = i
    json.dump(cvd, open(W + '/list.json', 'w'))


def mutate(m, d):
    p = os.path.join(d, 'gridded', m['file'])
    tree = ast.parse(open(W + '/base/gridded/' + m['file']).read())
    t = Apply(m['node'], m['vi'])
    tree = ast.fix_missing_locations(t.visit(tree))
    with open(p, 'w') as f:
        f.write(ast.unparse(tree))


def restore(m, d):
    shutil.copy(W + '/base/gridded/' + m['file'], os.path.join(d, 'gridded', m['file']))


def pool(fn, items, n=8):
    dirs = []
    for i in range(n):
        d = W + '/r%d' % i
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['cp', '-a', W + '/base', d], check=True)
        dirs.append(d)
    out = []

    def go(m):
        d = dirs.pop()
        try:
            try:
                mutate(m, d)
            except Exception as e:
                m['error'] = repr(e)
                return m
            fn(m, d)
            with open(W + '/progress.jsonl', 'a') as f:
                f.write(json.dumps(m) + '\n')
            return m
        finally:
            restore(m, d)
            dirs.append(d)
    t0 = time.time()
    with ThreadPoolExecutor(n) as ex:
        for i, m in enumerate(ex.map(go, items)):
            out.append(m)
            if i % 50 == 0:
                print(i, len(items), round(time.time() - t0), flush=True)
    return out


def env(d):
    e = dict(os.environ, MPLBACKEND='Agg', PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', GRIDDED_REPO=d, TZ='UTC', PYTHONHASHSEED='0',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


BASE = None


def run_tests(m, d):
    global BASE
    if BASE is None:
        b = json.load(open('/opt/vp/BASELINE.json'))
        BASE = set(b[next(k for k in ('passed', 'pass', 'stable', 'tests') if k in b)])
    out = os.path.join(d, 'junit.xml')
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--continue-on-collection-errors', '--maxfail=3',
                        '--basetemp=' + d + '/.tmp', '-o', 'junit_family=xunit2', '--junitxml=' + out,
                        '--ignore=gridded/tests/test_projected_ugrid.py', 'gridded'], cwd=d, env=env(d), capture_output=True, timeout=150)
        j = out + '.json'
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', j, 'junit:' + out], capture_output=True)
        res = json.load(open(j))
        m['tests'] = not (BASE - set(res['passed']))
    except Exception as e:
        m['tests'] = False
    for p in (out, out + '.json'):
        if os.path.exists(p):
            os.unlink(p)
    subprocess.run('rm -rf %s/.tmp; git -C %s checkout -q -- gridded/tests' % (d, d), shell=True)


def order(m):
    pref = {'depth.py': ['C20', 'C05', 'C06', 'C17'], 'time.py': ['C13', 'C04'], 'io/verdat.py': ['C15'],
            'plotting/mpl_plotting.py': ['C21'],
            'pysgrid/read_netcdf.py': ['C11', 'C12', 'C19'], 'pysgrid/sgrid.py': ['C02', 'C09', 'C11', 'C16', 'C08', 'C12'],
            'pyugrid/ugrid.py': ['C14', 'C01', 'C09', 'C10', 'C16'], 'pyugrid/read_netcdf.py': ['C10', 'C12'],
            'grids.py': ['C12', 'C19', 'C03'], 'gridded.py': ['C19'], 'variable.py': ['C07', 'C19', 'C08', 'C18', 'C17'],
            'utilities.py': ['C17', 'C18', 'C20', 'C19']}.get(m['file'], [])
    a = [p for p in pref if p in m['pids']]
    return a + [p for p in m['pids'] if p not in a]


def worker_fails(d, pid, shard, nshards, budget):
    tmp = W + '/run-%d-%s-%s' % (m_id(d), pid, shard)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    e = env(d)
    e.pop('PYTHONPATH')
    p = subprocess.Popen([PY, V + '/vlib/worker.py', 'run', pid, 'quick', '3', str(shard), str(nshards), str(budget), tmp],
                         cwd=tmp, env=e, stdout=open(tmp + '/log', 'wb'), stderr=subprocess.STDOUT, start_new_session=True)
    t0 = time.time()
    fails = None
    while True:
        rc = p.poll()
        try:
            r = json.load(open(tmp + '/result.json'))
        except Exception:
            r = None
        if r and r.get('first_failure'):
            fails = r['first_failure']['message'][:200]
        elif rc is not None and (rc != 0):
            fails = 'exit %s' % rc
        elif rc is not None and r and r.get('harness_error'):
            fails = None
        if fails or rc is not None:
            break
        if time.time() - t0 > budget + 130:
            fails = 'hang'
            break
        time.sleep(0.15)
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()
    shutil.rmtree(tmp, ignore_errors=True)
    return fails


def m_id(d):
    return int(d.rsplit('r', 1)[1])


def run_checks(m, d):
    m['caught'] = None
    for pid in order(m):
        f = worker_fails(d, pid, m['id'] % 8, 8, 60)
        if f:
            m['caught'] = [pid, f]
            return


def run_full(m, d):
    for pid in order(m):
        for sh in range(8):
            if sh == m['id'] % 8:
                continue
            f = worker_fails(d, pid, sh, 8, 60)
            if f:
                m['caught'] = [pid, f]
                return


def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        do_list(int(sys.argv[2]), int(sys.argv[3]))
    elif cmd == 'tests':
        out = pool(run_tests, json.load(open(W + '/list.json')))
        alive = [m for m in out if m.get('tests')]
        print(len(alive), 'of', len(out), 'pass the tests')
        json.dump(alive, open(W + '/alive.json', 'w'))
    elif cmd == 'checks':
        out = pool(run_checks, json.load(open(W + '/alive.json')))
        json.dump(out, open(W + '/checked.json', 'w'))
        missed = [m for m in out if not m.get('caught')]
        print(len(missed), 'of', len(out), 'missed')
        json.dump(missed, open(W + '/missed.json', 'w'))
    elif cmd == 'full':
        out = pool(run_full, json.load(open(W + '/missed.json')))
        left = [m for m in out if not m.get('caught')]
        print(len(left), 'of', len(out), 'missed')
        json.dump(left, open(W + '/left.json', 'w'))


if __name__ == '__main__':
    main()
