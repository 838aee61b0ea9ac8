"""Runs the check of one property: `main.py PID [quick|thorough]`, or `main.py --replay FILE`."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
WORKER = os.path.join(HERE, 'vlib', 'worker.py')
NSHARDS = 8
CASE_LIMIT = 100.        # seconds one case may take before it is tried again on its own
CRASHES = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL}


def env():
    e = dict(os.environ)
    e.update(TZ='UTC', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    e.pop('PYTHONPATH', None)
    return e


def spawn(args, d):
    os.makedirs(d, exist_ok=True)
    log = open(os.path.join(d, 'log'), 'ab')
    return subprocess.Popen([sys.executable, WORKER] + [str(a) for a in args] + [d],
                            stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env(), cwd=d,
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read(p):
    try:
        with open(p) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def log_tail(d, n=3000):
    try:
        with open(os.path.join(d, 'log'), 'rb') as f:
            return f.read()[-n:].decode(errors='replace')
    except OSError:
        return ''


def history(d):
    out = []
    try:
        with open(os.path.join(d, 'cases.jsonl')) as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
    except OSError:
        pass
    return out


_n = [0]


def replay(pid, hist, base, timeout):
    """('ok'|'violation'|'crash'|'hang'|'error', message) of running a history in a fresh process"""
    _n[0] += 1
    d = os.path.join(base, 'replay%d' % _n[0])
    os.makedirs(d)
    f = os.path.join(d, 'replay.json')
    with open(f, 'w') as fh:
        json.dump({'property': pid, 'history': hist}, fh)
    p = spawn(['replay', f], d)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return 'hang', 'did not end within %d s' % timeout
    r = read(os.path.join(d, 'result.json'))
    if p.returncode in CRASHES:
        return 'crash', 'the process ended with signal %d' % -p.returncode
    if p.returncode != 0 or not r or not r['done']:
        return 'error', 'exit %s: %s' % (p.returncode, log_tail(d))
    if r['failure']:
        return 'violation', r['failure']['message']
    if r['harness_error']:
        return 'error', r['harness_error']
    return 'ok', ''


def write_replay(pid, hist, message):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, pid + '.json')
    with open(f, 'w') as fh:
        json.dump({'property': pid, 'message': message, 'history': hist}, fh, indent=1)
    return f


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    out.append(line.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


def run(pid, tier, base):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 0)) or (170. if tier == 'quick' else 660.)
    dirs = [os.path.join(base, 'w%d' % i) for i in range(NSHARDS)]
    procs = [spawn(['run', pid, tier, seed, i, NSHARDS, budget], d) for i, d in enumerate(dirs)]
    hung = []
    failing = None
    try:
        while any(p.poll() is None for p in procs):
            time.sleep(0.2)
            now = time.time()
            for p, d in zip(procs, dirs):
                if p.poll() is not None:
                    continue
                try:
                    age = now - os.path.getmtime(os.path.join(d, 'beat'))
                except OSError:
                    continue
                if age > CASE_LIMIT:
                    kill(p)
                    hung.append(d)
            if failing is None and any((read(os.path.join(d, 'result.json')) or {}).get('first_failure')
                                       for d in dirs):
                failing = now
            # after a failure the other shards need not finish
            if failing is not None and now - failing > 60:
                for p in procs:
                    if p.poll() is None:
                        kill(p)
            if now - t0 > budget + 150:
                for p in procs:
                    if p.poll() is None:
                        kill(p)
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)
    results = [read(os.path.join(d, 'result.json')) for d in dirs]

    evals, labels, nontrivial, samples = {}, {}, set(), []
    for r in results:
        if not r:
            continue
        for k, v in r['evals'].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        nontrivial.update(r['nontrivial'])
        for k, v in r['samples'].items():
            if sum(s['scenario'] == k for s in samples) < 2:
                samples.extend({'scenario': k, 'case': c} for c in v[:1])

    violations, errors = [], []
    for i, (p, d, r) in enumerate(zip(procs, dirs, results)):
        if r and r['failure']:
            violations.append((i, d, r))
    found = None
    if violations:
        # prefer a failure that can be repeated on its own, the smallest first
        violations.sort(key=lambda v: len(json.dumps(v[2]['failure']['case'])))
        for i, d, r in violations[:3]:
            for which in ('failure', 'first_failure'):
                fl = r[which]
                hist = [[fl['scenario'], fl['case']]]
                kind, msg = replay(pid, hist, base, 150)
                if kind in ('violation', 'crash', 'hang'):
                    found = (hist, msg)
                    break
            if found:
                break
        if not found:
            # depends on the cases before it
            i, d, r = violations[0]
            fl = r['first_failure']
            hist = []
            for name, case in history(d):
                hist.append([name, case])
                if name == fl['scenario'] and case == fl['case']:
                    break
            kind, msg = replay(pid, hist, base, 200)
            if kind in ('violation', 'crash'):
                while len(hist) > 1:
                    tail = hist[len(hist) // 2:]
                    k2, m2 = replay(pid, tail, base, 60)
                    if k2 not in ('violation', 'crash'):
                        break
                    hist, msg = tail, m2
                found = (hist, msg)
            else:
                found = (hist, 'seen once, after the cases before it; not seen again on replay: ' + fl['message'])
    if not found:
        for p, d, r in zip(procs, dirs, results):
            if p.returncode in CRASHES:
                h = history(d)
                last = h[-1:]
                kind, msg = replay(pid, last, base, 150) if last else ('error', '')
                if kind in ('crash', 'violation', 'hang'):
                    found = (last, msg)
                elif last:
                    found = (h, 'the process ended with signal %d' % -p.returncode)
                else:
                    errors.append('worker crashed before its first case: ' + log_tail(d))
                    continue
                break
            if d in hung:
                last = history(d)[-1:]
                kind, msg = replay(pid, last, base, 200)
                if kind in ('crash', 'violation', 'hang'):
                    found = (last, msg)
                    break
                errors.append('a case was slow: %s' % json.dumps(last)[:500])
                continue
            if r is None or p.returncode not in (0, -signal.SIGKILL):
                errors.append('worker exit %s: %s' % (p.returncode, log_tail(d)))
            elif r['harness_error']:
                errors.append(r['harness_error'])

    import importlib
    meta = read(os.path.join(HERE, 'checks', 'meta.json'))
    m = meta.get(pid, {})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(evals.values()),
            'distinct_nontrivial': len(nontrivial),
            'rule': m.get('rule', ''),
            'samples': samples,
            'evaluations_by_scenario': evals,
            'labels': dict(sorted(labels.items())),
        },
        'assumptions': m.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if found else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d cases, %d distinct and non-trivial, %.1f s' % (
        pid, tier, sum(evals.values()), len(nontrivial), time.time() - t0))
    if found:
        f = write_replay(pid, found[0], found[1])
        print(found[1])
        print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if errors:
        print('ERROR of the check: ' + errors[0])
        return 2
    if not evals:
        print('ERROR of the check: no case was run')
        return 2
    return 0


def main():
    os.environ.setdefault('VERIF_SEED', '1')
    base = tempfile.mkdtemp(prefix='verif-')
    try:
        if sys.argv[1] == '--replay':
            with open(sys.argv[2]) as f:
                rep = json.load(f)
            kind, msg = replay(rep['property'], rep['history'], base, 600)
            print(kind, msg)
            if kind in ('violation', 'crash', 'hang'):
                print('VIOLATION property=%s replay=%s' % (rep['property'], sys.argv[2]))
                return 1
            return 0 if kind == 'ok' else 2
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return run(pid, tier, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
