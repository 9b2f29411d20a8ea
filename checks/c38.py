"""C38: the guarantees hold on the models that are shipped with nosnoc (examples and tests) under a passive monitor."""
import ast
import contextlib
import glob
import io
import os
import runpy
import shutil
import sys
import tempfile
import time
import unittest
import numpy as np
import matplotlib
from mon.core import Inconclusive
from mon.env import Ctl, REPO
from mon.passive import Monitor

ID = 'C38'
LEVEL = 'exploration'
TECH = 'passive runtime monitoring of the shipped examples and tests: online trace specification of every solve and comparison of every NLP with a reference'
RULE = ('every example script (as __main__) and every test method is run; a specification is read off the objects it passes to each solver it creates; every '
        'NLP solver call, result dictionary and simulation loop is judged online, and the recorded NLPs are compared with the reference NLP at random '
        'points; distinct = problem signature')
ASSUME = ['what a workload itself asserts, prints or plots is not judged, nor is its end (some examples are out of date)',
          'after a number of real NLP solves per workload the NLP solver is replaced by one that returns perturbed guesses',
          'models with given theta and Boolean mode are not judged (experimental)', 'a solver whose model was given to a second solver is not judged further']
LIMIT = dict(quick=100, thorough=1200)
BUDGET = dict(quick=500, thorough=3300)


def cases(tier, seed):
    out = []
    ex = sorted(os.path.relpath(a, REPO) for a in glob.glob(os.path.join(REPO, 'examples', '**', '*.py'), recursive=True))
    for mode in ('fake', 'real', 'varied'):
        for k, e in enumerate(ex):
            if 'multiprocessing' in open(os.path.join(REPO, e)).read():      # its solvers live in processes of their own
                continue
            out.append(dict(kind='example', path=e, mode=mode, seed=seed * 1000 + k, tier=tier))
    for path in sorted(glob.glob(os.path.join(REPO, 'test', '*.py'))):
        t = ast.parse(open(path).read())
        for c in t.body:
            if isinstance(c, ast.ClassDef):
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and m.name.startswith('test'):
                        for mode in ('real', 'varied'):
                            out.append(dict(kind='test', path=os.path.relpath(path, REPO), cls=c.name, method=m.name,
                                            mode=mode, seed=seed * 1000 + len(out), tier=tier))
    # the long ones first
    return sorted(out, key=lambda c: (c['kind'], c['mode']), reverse=False)


class Enough(BaseException):
    """the workload has been observed long enough"""


def handler(case, rng):
    """real NLP solver for a while, then one that returns a perturbed guess"""
    q = case['tier'] == 'quick'
    real_s, real_n = (12 if q else 240, 250 if q else 4000)
    most_s, most_n = (40 if q else 600, 600 if q else 10000)
    t0, n = time.time(), [0]

    def f(p, c):
        n[0] += 1
        dt = time.time() - t0
        if dt > most_s or n[0] > most_n:
            raise Enough()
        if case['mode'] == 'real' and dt < real_s and n[0] <= real_n:
            return None
        w = c.x0 + .1 * rng.normal(size=p.nw) * (1 + .1 * np.abs(c.x0))
        w = np.minimum(np.maximum(w, np.maximum(c.lbx, -1e6)), np.minimum(c.ubx, 1e6))
        return w, str(rng.choice(['Solve_Succeeded', 'Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Infeasible_Problem_Detected']))
    return f


def workload(case, scratch):
    path = os.path.join(REPO, case['path'])
    sys.path.insert(0, os.path.dirname(path))
    sys.argv = [path]
    if case['kind'] == 'example':
        runpy.run_path(path, run_name='__main__')
        return
    name = os.path.splitext(os.path.basename(path))[0]
    suite = unittest.defaultTestLoader.loadTestsFromName(name)

    def tests(s):
        for t in s:
            if isinstance(t, unittest.TestSuite):
                yield from tests(t)
            else:
                yield t
    names = ast.parse(open(path).read())
    exact = {m.name for c in names.body if isinstance(c, ast.ClassDef) and c.name == case['cls'] for m in c.body if isinstance(m, ast.FunctionDef)}
    for t in tests(suite):
        if type(t).__name__ == case['cls']:
            m = t._testMethodName
            base = max((e for e in exact if m == e or m.startswith(e + '_')), key=len, default=None)
            if base == case['method']:
                t.run(unittest.TestResult())


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    obs.see('workloads')
    obs.see('workloads_' + case['kind'])
    Ctl.reset(handler=handler(case, rng))
    Ctl.real_opts = {'ipopt.max_cpu_time': 12.0 if case['tier'] == 'quick' else 120.0}
    label = case['path'] + (':' + case['cls'] + '.' + case['method'] if case['kind'] == 'test' else f' ({case["mode"]} NLP solver)')
    mon = Monitor(obs, rng, label, most_solves=60 if case['tier'] == 'quick' else 1000, K=4, vary=case['mode'] == 'varied', stop=Enough)
    import matplotlib.pyplot as plt
    scratch = tempfile.mkdtemp(prefix='c38')
    state = dict(cwd=os.getcwd(), path=list(sys.path), argv=sys.argv, stdin=sys.stdin, show=plt.show, savefig=plt.savefig, mods=set(sys.modules),
                 np=np.random.get_state())
    np.random.seed(case['seed'] % 2**31)
    plt.show = plt.savefig = lambda *a, **k: None
    sys.stdin = io.StringIO('')
    os.chdir(scratch)
    mon.install()
    end = 'finished'
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            workload(case, scratch)
    except Enough:
        end = 'observed_long_enough'
    except (Exception, SystemExit) as e:  # noqa: BLE001
        end = 'ended_by_' + type(e).__name__
        if os.environ.get('C38_TRACE'):
            import traceback
            obs.see(label + ''.join(traceback.format_exception(e))[-700:])
    finally:
        mon.remove()
        os.chdir(state['cwd'])
        sys.path[:] = state['path']
        sys.argv, sys.stdin, plt.show, plt.savefig = state['argv'], state['stdin'], state['show'], state['savefig']
        np.random.set_state(state['np'])
        for m in set(sys.modules) - state['mods']:
            f = getattr(sys.modules[m], '__file__', None) or ''
            if f.startswith((os.path.join(REPO, 'examples'), os.path.join(REPO, 'test'))):
                del sys.modules[m]
        plt.close('all')
        matplotlib.rcdefaults()
        matplotlib.use('Agg')
        shutil.rmtree(scratch, ignore_errors=True)
    obs.see('end_' + end)
    Ctl.handler = lambda p, c: (c.x0, 'Solve_Succeeded')
    mon.judge_nlps()
    for s in mon.skipped:
        obs.see('skipped: ' + s)
    if mon.errors:
        raise Inconclusive('monitor failed: ' + mon.errors[0])
