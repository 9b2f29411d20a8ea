"""C34: same inputs, same results in every process, thread and environment; no global side effects."""
import contextlib
import gc
import io
import locale
import logging
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import warnings

if __name__ == '__main__':      # child process: its own working directory and random state
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import numpy as np
from mon.env import (Ctl, NosnocSolver, NosnocSimLooper, NosnocAutoModel, NosnocModel, NosnocOcp, InitializationStrategy, PssMode, IrkSchemes, ca, nosnoc,
                     REPO)
from mon.spec import Spec, decode
from mon.struct import gen
from mon.core import Inconclusive
from checks.c14 import build, finger, diff, equal
from checks.c19 import Gen
from checks.c21 import MUT, Skip

ID = 'C34'
LEVEL = 'exploration'
TECH = 'differential runtime monitoring: child processes and threads against sequential runs, snapshots of global state around every operation'
RULE = ('process: the same random problems and automatic models are built, printed, solved (scripted and by IPOPT) and simulated in three child processes '
        'that differ in hash seed, working directory, time zone, language, optimisation flag, state of the random generators and order of the problems; '
        'everything that reaches the NLP solver, printed texts, models and results are compared. threads: several solvers in Python threads with delays '
        'in the NLP solver and a short switch interval against the same solvers one after another. globals: byte-wise snapshots of the state of the '
        'interpreter, numpy, matplotlib, casadi, environment, working directory and scratch files around every public operation; distinct = '
        '(kind, problem signatures)')
ASSUME = ['child processes run on the same machine and use the same libraries', 'importing nosnoc itself changes the warning filter (documented in its '
          '__init__); snapshots start after the import', 'matplotlib settings change when latexify is requested']
LIMIT = {'quick': 240, 'thorough': 600}
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRAT = [InitializationStrategy.ALL_XCURRENT_W0_START, InitializationStrategy.ALL_XCURRENT_WOPT_PREV]
SIM = dict(N_stages=1, nu=0, gpath=0, terminal=0, ucomp=False, cost=False, bounds=False, npt=0, equi=True)


def cases(tier, seed):
    q = tier == 'quick'
    # first, what happens once per process is seen there
    for k in range(120 if q else 1000):
        yield dict(seed=seed * 7919 + 3000 + k, kind='globals')
    for k in range(24 if q else 160):
        yield dict(seed=seed * 7919 + k, kind='process', n=26)
    for k in range(120 if q else 1000):
        yield dict(seed=seed * 7919 + 500 + k, kind='threads')


# --- work whose outcome must not depend on anything but the inputs

def auto(seed):
    rng = np.random.default_rng(seed)
    nx, nu, np_ = int(rng.integers(2, 5)), int(rng.integers(1, 3)), int(rng.integers(0, 3))
    x, u = ca.SX.sym('x', nx), ca.SX.sym('u', nu)
    p = ca.SX.sym('p', np_) if np_ else None
    g = Gen(rng, x, u, p)
    kind = str(rng.choice(['additive', 'additive', 'additive', 'nonlin']))
    f = ca.vertcat(*[g.component(kind, force=True) for i in range(nx)])
    m = NosnocAutoModel(x=x, x0=rng.normal(size=nx), u=u, f_nonsmooth_ode=f, p=p).reformulate()
    out = {k: [str(e) for e in (getattr(m, k) or [])] for k in ('c', 'S', 'F', 'f_x', 'alpha')}
    P = p if p is not None else ca.SX(0, 1)
    v = rng.normal(size=nx), rng.normal(size=nu), rng.normal(size=np_)
    out['values'] = np.array(ca.Function('c', [x, u, P], [ca.vertcat(*m.c)])(*v)).flatten()
    return out


def scripted(seed):
    sp = Spec(seed, n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2])
    s, px, *_ = build(sp)
    out = finger(s, px)
    out['w'] = str(s.problem.w)
    out['p'] = str(s.problem.p)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        s.problem.print()
    out['print'] = text.getvalue()
    return out


def keepable(r):
    return {k: v for k, v in r.items() if 'cpu' not in k and 'time_nlp' not in k}


def real(seed):
    sp = Spec(seed, n_s_max=2, fe_max=2, stage_max=1, n_sys=1, ucomp=False, gpath=0, terminal=0, mpcc=decode(dict(mpcc='SCHOLTES_INEQ'))['mpcc'], tf=False,
              bounds=False)
    o = sp.opts()
    o.nlp_max_iter, o.max_iter_homotopy = 25, 3
    s, px, *_ = build(sp, opts=o)
    r = s.solve()
    return dict(keepable(r), iters=[c.iter_count for c in px.calls], states=[c.status for c in px.calls])


def loop(seed):
    rng = np.random.default_rng(seed)
    sp = Spec(seed, n_s_max=2, fe_max=2, n_sys=[1, 2], npg=2, **SIM)
    o = sp.opts()
    o.max_iter_homotopy = 2
    o.initialization_strategy = STRAT[int(rng.integers(2))]
    n = 3
    w = rng.normal(size=8192)
    Ctl.reset(handler=lambda p, c: (np.roll(w, 17 * len(p.calls))[:p.nw], 'Solve_Succeeded'))
    s = NosnocSolver(o, sp.model(), None)
    L = NosnocSimLooper(s, sp.x0, n, p_values=rng.normal(size=(n, sp.npg)))
    L.run()
    Ctl.handler = None
    px = Ctl.proxies[0]
    return dict(keepable(L.get_results()), calls=[np.concatenate([c.x0, c.p]) for c in px.calls])


def refuse(seed):
    """inconsistent data: refused in every process or in none, whatever its optimisation flag"""
    rng = np.random.default_rng(seed)
    mut = sorted(MUT)[seed % len(MUT)]
    feat = {}
    if 'g_Stewart' in mut or mut == 'indicators with steps':
        feat.update(general=False, pss=PssMode.STEWART, regions='g')
    elif 'f_x' in mut or 'general' in mut or 'alpha' in mut:
        feat.update(general=True, n_sys=[1, 2])
    elif any(t in mut for t in ('F ', 'S ', 'region', 'c and S')):
        feat.update(general=False)
    sp = Spec(seed, n_s_max=2, fe_max=2, stage_max=2, **feat)
    m, o, p = sp.model_kw(), sp.ocp_kw(), {}
    try:
        MUT[mut](sp, m, o, p, rng)
    except Skip:
        return dict(skipped=True)
    Ctl.reset()
    opts = sp.opts()
    for k, v in p.items():
        setattr(opts, k, v)
    try:
        NosnocSolver(opts, NosnocModel(**m), NosnocOcp(**o) if o else None)
    except Exception as e:  # noqa: BLE001
        return dict(outcome=f'{mut}: {type(e).__name__}')
    return dict(outcome=f'{mut}: accepted')


WORK = dict(auto=auto, scripted=scripted, real=real, loop=loop, refuse=refuse)


def child(jobs, out):
    jobs, k = pickle.load(open(jobs, 'rb'))
    random.seed(k)
    np.random.seed(1000 + k)
    np.random.normal(size=k * 3)
    res = {}
    order = list(enumerate(jobs))
    if k % 2:
        order.reverse()
    for n, (kind, seed) in order:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                res[n] = WORK[kind](seed)
            except Exception as e:  # noqa: BLE001
                res[n] = dict(error=f'{type(e).__name__}: {e}'[:300])
        res[n] = plain(res[n])
    with open(out, 'wb') as f:
        pickle.dump(res, f)


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(a) for k, a in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(a) for a in v]
    if isinstance(v, (np.ndarray, str, int, float, bool)) or v is None:
        return v
    return str(v)


def near(a, b, tol):
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and (a.dtype.kind not in 'fiu' or np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return a == b


def differ(a, b, tol):
    return [f'{k}: {a.get(k)} vs {b.get(k)}'[:400] for k in sorted(set(a) | set(b)) if k not in a or k not in b or not near(a[k], b[k], tol)]


def process(case, obs, rng):
    names = ['auto', 'scripted', 'auto', 'real', 'auto', 'scripted', 'loop'] + ['refuse'] * 6
    jobs = [(names[k % len(names)], int(case['seed']) * 101 + k) for k in range(case['n'])]
    top = tempfile.mkdtemp(prefix='c34_')
    try:
        runs = []
        for k in range(3):
            cwd = os.path.join(top, f'd{k}')
            os.mkdir(cwd)
            pickle.dump((jobs, k), open(os.path.join(top, f'in{k}'), 'wb'))
            env = dict(os.environ, PYTHONHASHSEED=str([0, int(rng.integers(1, 2**31)), int(rng.integers(1, 2**31))][k]), HOME=cwd, TMPDIR=cwd,
                       TZ=['UTC', 'Asia/Tokyo', 'America/Caracas'][k], LANG=['C', 'C.UTF-8', 'POSIX'][k], PYTHONPATH='', COLUMNS=str(40 + 60 * k))
            cmd = [sys.executable] + (['-O'] if k == 2 else []) + [os.path.join(VERIF, 'checks', 'c34.py'), os.path.join(top, f'in{k}'),
                                                                   os.path.join(top, f'out{k}')]
            runs.append(subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL))
        outs = []
        for k, r in enumerate(runs):
            err = r.communicate()[1].decode(errors='replace')
            f = os.path.join(top, f'out{k}')
            if r.returncode or not os.path.exists(f):
                raise Inconclusive(f'child process ended with {r.returncode}: {err[-500:]}')
            outs.append(pickle.load(open(f, 'rb')))
            left = [n for n in os.listdir(os.path.join(top, f'd{k}')) if n not in ('.config', '.cache')]
            obs.check(not left, 'files', lambda: f'files left in the working directory: {left}')
        for n, (kind, seed) in enumerate(jobs):
            for k in (1, 2):
                obs.see('outcomes_compared_' + kind)
                if 'error' in outs[0][n] and 'error' in outs[k][n]:
                    obs.see('refused')
                d = differ(outs[0][n], outs[k][n], 1e-6 if kind == 'real' else 1e-12)
                obs.check(not d, 'process-' + kind, lambda: f'another process gives another outcome of {kind} {seed}: {d[:3]}')
            obs.sig((kind, seed))
    finally:
        for r in runs:
            if r.poll() is None:
                r.kill()
        shutil.rmtree(top, ignore_errors=True)


# --- threads

def thread_job(seed, delay):
    """build one problem, change it and solve it several times; everything that happens is a function of the seed"""
    rng = np.random.default_rng(seed)
    sim = rng.random() < .4
    sp = Spec(seed, n_s_max=2, fe_max=2, n_sys=[1, 2], **(SIM if sim else dict(stage_max=2)))
    o = sp.opts()
    o.max_iter_homotopy = int(rng.integers(1, 4))
    o.initialization_strategy = STRAT[int(rng.integers(2))]
    o.do_polishing_step = bool(rng.random() < .3)
    o.fix_active_set_fe0 = bool(rng.random() < .3)
    pause = np.random.default_rng(seed + 7)
    out, calls = [], []
    mine.seed, mine.calls = seed, calls
    mine.wait = lambda: time.sleep(pause.choice([0, .0005, .003])) if delay else None
    s = NosnocSolver(o, sp.model(), sp.ocp())
    mine.wait()
    if sim and s.problem.is_sim_problem():
        L = NosnocSimLooper(s, sp.x0, 3, p_values=rng.normal(size=(3, sp.npg)) if sp.npg else None)
        L.run()
        out.append(keepable(L.get_results()))
    else:
        for k in range(3):
            if k:
                s.set('x0', rng.normal(size=sp.nx))
                if sp.npg:
                    s.set('p_global', rng.normal(size=sp.npg))
                if sp.nu:
                    s.set('u', rng.normal(size=(sp.N, sp.nu)))
            mine.wait()
            out.append(keepable(s.solve()))
    if seed % 3 == 0:
        out.append(auto(seed))
    return plain(dict(out=out, calls=calls, what=sp.describe()))


mine = threading.local()


def by_thread(p, c):
    mine.wait()
    mine.calls.append(np.concatenate([c.x0, c.p, c.lbx, c.ubx, c.lbg, c.ubg]))
    w = np.random.default_rng(mine.seed + 13 * len(mine.calls)).normal(size=p.nw)
    f, g = p.fg(w, c.p)
    mine.calls.append(np.concatenate([[f], g]))
    return w, 'Solve_Succeeded'


def threads(case, obs, rng):
    n = int(rng.integers(2, 5))
    seeds = [case['seed'] * 11 + k for k in range(n)]
    if rng.random() < .3:
        seeds[-1] = seeds[0]
    Ctl.reset(handler=by_thread)
    alone = [thread_job(s, False) for s in seeds]
    got = [None] * n
    gate = threading.Barrier(n)

    def job(k):
        try:
            gate.wait(60)
            got[k] = thread_job(seeds[k], True)
        except Exception as e:  # noqa: BLE001
            import traceback
            got[k] = dict(error=''.join(traceback.format_exception(e))[-1200:])
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    try:
        T = [threading.Thread(target=job, args=(k,), daemon=True) for k in range(n)]
        for t in T:
            t.start()
        for t in T:
            t.join(120)
            if t.is_alive():
                raise Inconclusive('thread does not end')
    finally:
        sys.setswitchinterval(old)
        Ctl.handler = None
    for k in range(n):
        obs.see('threads_compared')
        obs.see('nlps_in_threads', len(alone[k]['calls']) // 2)
        d = differ(alone[k], got[k], 1e-12)
        obs.check(not d, 'threads', lambda: f'solver {k + 1} of {n} used at the same time gives another outcome: {d[:2]}\n{alone[k]["what"]}')
    obs.sig(('threads', n, seeds[0]))


# --- global state

def state(cwd):
    import matplotlib
    rng = np.random.get_state()
    return {
        'random generator': random.getstate(), 'numpy random generator': (rng[0], rng[1].tobytes()) + tuple(rng[2:]),
        'numpy error handling': dict(np.geterr()), 'numpy printing': {k: repr(v) for k, v in np.get_printoptions().items()},
        'environment': dict(os.environ), 'working directory': os.getcwd(), 'umask': umask(),
        'warning filters': [repr(f) for f in warnings.filters], 'warning display': id(warnings.showwarning),
        'matplotlib settings': {k: repr(v) for k, v in matplotlib.rcParams.items()}, 'matplotlib backend': matplotlib.get_backend().lower(),
        'search path': list(sys.path), 'recursion limit': sys.getrecursionlimit(), 'excepthook': id(sys.excepthook),
        'signal handlers': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGUSR1)],
        'locale': locale.setlocale(locale.LC_ALL), 'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        'garbage collector': (gc.isenabled(), gc.get_threshold()), 'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'threads': threading.active_count(), 'open files': len(os.listdir('/proc/self/fd')), 'switch interval': sys.getswitchinterval(),
        'casadi': (ca.GlobalOptions.getMaxNumDir(), ca.GlobalOptions.getSimplificationOnTheFly(), ca.GlobalOptions.getHierarchicalSparsity(),
                   ca.GlobalOptions.getCasadiPath()),
        'files': sorted(os.path.join(d, f)[len(cwd):] for d, _, F in os.walk(cwd) for f in F),
    }


def warm():
    """first use of the libraries: fonts, plugins, imports on demand"""
    import matplotlib.pyplot as plt
    import scipy.spatial
    with warnings.catch_warnings():
        f = plt.figure()
        f.add_subplot(projection='3d').scatter([0, 1], [0, 1], [0, 1])
        plt.figure()
        plt.colorbar(plt.scatter([0, 1], [0, 1], c=[0., 1.]))
        plt.plot([0, 1], label='$x_1$')
        plt.legend()
        f.savefig(io.BytesIO())
        scipy.spatial.voronoi_plot_2d(scipy.spatial.Voronoi(np.random.default_rng(0).normal(size=(5, 2))))
        plt.show()
        plt.close('all')
    Ctl.reset()


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def globals_(case, obs, rng):
    import matplotlib
    import matplotlib.pyplot as plt
    here = os.getcwd()
    warm()
    sim = rng.random() < .5
    sp = Spec(case['seed'], n_s_max=2, fe_max=2, n_sys=[1, 2], **(SIM if sim else dict(stage_max=2)))
    top = tempfile.mkdtemp(prefix='c34_')
    if rng.random() < .5:       # settings of the user, other than the defaults
        np.seterr(divide=str(rng.choice(['ignore', 'warn'])), over='ignore')
        np.set_printoptions(precision=int(rng.integers(3, 9)), linewidth=60)
        matplotlib.rcParams['font.size'] = float(rng.integers(6, 15))
        matplotlib.rcParams['image.cmap'] = str(rng.choice(['gray', 'viridis']))
        obs.see('own_settings')
    before_rc = dict(matplotlib.rcParams)
    random.seed(int(rng.integers(10**6)))
    np.random.seed(int(rng.integers(10**6)))
    try:
        os.chdir(top)
        ref = state(top)
        made = []

        def op(name, fn, new=()):
            nonlocal ref
            made.extend(new)
            r = fn()
            now = state(top)
            gc.collect()
            for k in ref:
                obs.see('snapshots_compared')
                exp = sorted(set(ref[k]) | set(new)) if k == 'files' else ref[k]
                if k == 'open files' and now[k] != exp:
                    now[k] = len(os.listdir('/proc/self/fd'))
                obs.check(now[k] == exp, 'global:' + k.replace(' ', '-'), lambda: f'{name} changes the {k}: {delta(exp, now[k])}\n{sp.describe()}')
            ref = now
            obs.see('op_' + name.split()[0])
            return r
        o = op('creating options', sp.opts)
        m = op('creating the model', sp.model)
        c = op('creating the optimal control problem', sp.ocp)
        o.print_level = int(rng.integers(0, 3))
        o.nlp_max_iter, o.max_iter_homotopy = 10, 2
        o.initialization_strategy = STRAT[int(rng.integers(2))]
        Ctl.reset(handler=None)
        s = op('building the solver', lambda: NosnocSolver(o, m, c))
        px = Ctl.proxies[0]
        if rng.random() < .5 or px.nw > 150:
            Ctl.handler = lambda p, q: (np.random.default_rng(1).normal(size=p.nw), str(np.random.default_rng(case['seed']).choice(
                ['Solve_Succeeded', 'Infeasible_Problem_Detected'])))
        else:
            px.real()           # creating the real NLP solver loads its plugin
            obs.see('real_solver')
        ref = state(top)
        r = op('solving', s.solve)
        s.set('x0', rng.normal(size=sp.nx))
        op('solving again', s.solve)
        if s.problem.is_sim_problem():
            op('simulating', lambda: NosnocSimLooper(s, sp.x0, 2).run())
        op('printing the problem', s.problem.print)
        op('reading results', lambda: nosnoc.get_results_from_primal_vector(s.problem, r['w_sol']))
        try:
            f0 = open(os.path.join(top, 'probe.bin'), 'wb')
            f0.close()
            os.remove(os.path.join(top, 'probe.bin'))
            op('dumping the problem', lambda: s.problem.dump(os.path.join(top, 'dump.bin')), ['/dump.bin'])
        except (AttributeError, TypeError):     # problems that cannot be written
            obs.see('dump_refused')
            ref = state(top)
        if case['seed'] % 2 == 0:
            sm = Spec(case['seed'], pss=PssMode.STEWART, regions='s', general=False, n_s_max=2, fe_max=2, N_stages=1, scheme=IrkSchemes.RADAU_IIA, nu=0, nz=0,
                      nv=0, npt=0, npg=0, tf=False, sot=None, cost=False, gpath=0, terminal=0, ucomp=False, bounds=False, vary=False)
            os_ = sm.opts()
            os_.initialization_strategy = InitializationStrategy.RK4_SMOOTHENED
            os_.max_iter_homotopy = 1
            Ctl.handler = lambda p, q: (np.zeros(p.nw), 'Solve_Succeeded')
            s4 = op('building a solver with a simulated guess', lambda: NosnocSolver(os_, sm.model(), sm.ocp()))
            op('solving from a simulated guess', s4.solve)
            op('smoothing a model', lambda: s4.model.add_smooth_step_representation(smoothing_parameter=.1))
            field = op('creating the vector field', lambda: s4.create_function_calculate_vector_field(.1))

            def evaluate():
                with contextlib.suppress(RuntimeError):     # no convergence
                    field(rng.normal(size=sm.nx), np.zeros(0))
            op('evaluating the vector field', evaluate)
        op('reformulating automatically', lambda: auto(case['seed']))
        if case['seed'] % 2:
            pts = rng.normal(size=(8, 3))
            op('plotting timings', lambda: nosnoc.plot_timings(rng.uniform(size=(3, 2)), latexify=False))
            op('plotting to a file', lambda: nosnoc.plot_timings(rng.uniform(size=(3, 2)), latexify=False, figure_filename=os.path.join(top, 'a.png')), ['/a.png'])
            op('plotting points', lambda: nosnoc.plot_utils.scatter_3d(pts, show=False))
            op('plotting a line', lambda: nosnoc.plot_utils.plot_colored_line_3d(pts[:, 0], pts[:, 1], pts[:, 2], np.arange(8.)))
            op('plotting regions', lambda: nosnoc.plot_utils.plot_voronoi_2d(rng.normal(size=(6, 2)), show=False))
            if sp.pss == PssMode.STEWART and s.problem.is_sim_problem():
                op('plotting iterates', lambda: nosnoc.plot_iterates(s.problem, [r['w_sol']]))
        obs.sig(sp.signature())
    finally:
        Ctl.handler = None
        plt.close('all')
        matplotlib.rcParams.update(before_rc)
        np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
        np.set_printoptions(precision=8, linewidth=75)
        os.chdir(here)
        shutil.rmtree(top, ignore_errors=True)


def delta(a, b):
    if isinstance(a, dict):
        return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}
    return str(a)[:200], str(b)[:200]


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    obs.see('kind_' + case['kind'])
    dict(process=process, threads=threads, globals=globals_)[case['kind']](case, obs, rng)
    obs.sample = dict(case=case)


if __name__ == '__main__':
    child(sys.argv[1], sys.argv[2])
