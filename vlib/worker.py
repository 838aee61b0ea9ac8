"""One shard of a check (or one replay), in its own process.

usage: worker.py run PID TIER SEED SHARD NSHARDS BUDGET DIR
       worker.py replay FILE DIR
"""
import hashlib
import importlib
import json
import os
import shutil
import sys
import time
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot  # noqa: E402

HARNESS_ERRORS = (MemoryError, OSError, ImportError, RecursionError)


def is_repo_tb(tb):
    top = os.path.join(boot.REPO, 'gridded') + os.sep
    return any(f.filename.startswith(top) for f in traceback.extract_tb(tb))


class Runner:
    def __init__(self, mod, d):
        self.mod, self.dir = mod, d
        self.tmp = os.path.join(d, 'scratch')
        self.cases = open(os.path.join(d, 'cases.jsonl'), 'a')
        self.evals = {}
        self.labels = {}
        self.nontrivial = set()
        self.samples = {}
        self.harness_error = None
        self.failure = None       # the last failing (i.e. smallest) case
        self.first_failure = None

    def one(self, sc, case):
        """run one case; returns None or a violation message.  Raises only harness errors"""
        from vlib.core import Ctx, Violation
        os.makedirs(self.tmp, exist_ok=True)
        line = json.dumps([sc.name, case])
        self.cases.write(line + '\n')
        self.cases.flush()
        with open(os.path.join(self.dir, 'beat'), 'w') as f:
            f.write(repr(time.time()))
        ctx = Ctx(self.tmp)
        self.evals[sc.name] = self.evals.get(sc.name, 0) + 1
        try:
            sc.run(json.loads(json.dumps(case)), ctx)
            msg = None
        except Violation as e:
            msg = str(e)
        except Exception as e:
            tb = traceback.format_exc()
            if isinstance(e, HARNESS_ERRORS) and not is_repo_tb(e.__traceback__):
                raise
            if type(e).__module__.startswith('hypothesis'):
                raise
            msg = '%s: %s\n%s' % (type(e).__name__, e, tb[-3000:])
        finally:
            try:
                import matplotlib
                if 'matplotlib.pyplot' in sys.modules:
                    sys.modules['matplotlib.pyplot'].close('all')
            except Exception:
                pass
            for n in os.listdir(self.tmp):
                p = os.path.join(self.tmp, n)
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        for lb in ctx.labels:
            k = sc.name + '/' + lb
            self.labels[k] = self.labels.get(k, 0) + 1
        if ctx.interesting and msg is None:
            h = hashlib.md5(line.encode()).hexdigest()
            self.nontrivial.add(h)
            s = self.samples.setdefault(sc.name, [])
            if len(s) < 2 and self.evals[sc.name] > 15 * (len(s) + 1):
                s.append(case)
        return msg

    def scenario(self, sc, n, seed, deadline):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from vlib.core import Violation
        try:
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 15
            # repeating parts of earlier cases skews the choices of these small, flat cases
            eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
            # the cases do not depend on the constants in the code under test
            import hypothesis.internal.conjecture.providers as prov
            prov._get_local_constants = lambda c=prov.Constants(): c
        except Exception:
            pass
        strategy = sc.strategy() if callable(sc.strategy) else sc.strategy
        state = {'failed': False, 'stop': None}

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink))
        @given(strategy)
        def test(case):
            if self.harness_error:
                return
            if not state['failed'] and time.time() > deadline:
                return
            if state['failed'] and time.time() > state['stop']:
                return
            try:
                msg = self.one(sc, case)
            except Exception as e:
                if type(e).__module__.startswith('hypothesis'):
                    raise
                self.harness_error = traceback.format_exc()
                return
            if msg is not None:
                if not state['failed']:
                    state['failed'] = True
                    state['stop'] = time.time() + 40
                    self.first_failure = {'scenario': sc.name, 'case': case, 'message': msg}
                    self.dump()
                self.failure = {'scenario': sc.name, 'case': case, 'message': msg}
                raise Violation(msg[:200])

        try:
            test()
        except BaseException as e:
            if not state['failed']:
                self.harness_error = self.harness_error or traceback.format_exc()
                if isinstance(e, KeyboardInterrupt):
                    raise
        self.dump()

    def dump(self, done=False):
        out = {'evals': self.evals, 'labels': self.labels, 'nontrivial': sorted(self.nontrivial),
               'samples': self.samples, 'harness_error': self.harness_error,
               'failure': self.failure or self.first_failure,
               'first_failure': self.first_failure, 'done': done}
        p = os.path.join(self.dir, 'result.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(out, f)
        os.replace(p + '.tmp', p)


def module(pid):
    return importlib.import_module('checks.' + pid.lower())


def main():
    mode = sys.argv[1]
    if mode == 'run':
        pid, tier, seed, shard, nshards, budget, d = sys.argv[2:9]
        seed, shard, nshards, budget = int(seed), int(shard), int(nshards), float(budget)
        os.chdir(d)
        os.environ['MPLCONFIGDIR'] = d
        t0 = time.time()
        import warnings
        boot.load(os.path.join(d, 'pyc'))
        mod = module(pid)
        warnings.simplefilter('ignore')
        r = Runner(mod, d)
        r.dump()
        total = sum(s.weight for s in mod.SCENARIOS)
        used = 0.
        # each shard starts with another scenario, so that a slow one cannot starve a fixed other one
        scs = list(mod.SCENARIOS)
        k = shard % len(scs)
        for sc in scs[k:] + scs[:k]:
            used += sc.weight
            n = sc.quick if tier == 'quick' else sc.thorough
            n = max(1, -(-n // nshards))
            s = (seed * 1000003 + shard * 7919 + zlib.crc32((pid + sc.name).encode())) % (2 ** 32)
            r.scenario(sc, n, s, t0 + budget * used / total)
            if r.failure or r.harness_error:
                break
        r.dump(done=True)
        return
    # replay: a JSON file with {"property", "history": [[scenario, case], ...]}
    f, d = sys.argv[2:4]
    with open(f) as fh:
        rep = json.load(fh)
    os.chdir(d)
    os.environ['MPLCONFIGDIR'] = d
    boot.load(os.path.join(d, 'pyc'))
    mod = module(rep['property'])
    r = Runner(mod, d)
    byname = {s.name: s for s in mod.SCENARIOS}
    try:
        for name, case in rep['history']:
            msg = r.one(byname[name], case)
            if msg is not None:
                r.failure = {'scenario': name, 'case': case, 'message': msg}
                break
    except Exception:
        r.harness_error = traceback.format_exc()
    r.dump(done=True)


if __name__ == '__main__':
    main()
