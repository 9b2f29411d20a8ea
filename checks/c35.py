"""C35: failures leave no trace."""
import contextlib
import copy
import io
import os
import shutil
import sys
import tempfile
import numpy as np
from mon.env import Ctl, NosnocSolver, NosnocSimLooper, NosnocModel, NosnocOcp, InitializationStrategy, Status, ca
from mon.spec import Spec, decode
from mon.struct import gen
from mon.core import CaseTimeout
from checks.c14 import finger, diff, build
from checks.c21 import MUT, Skip
from checks.c34 import keepable, plain, differ

ID = 'C35'
LEVEL = 'fault_enumeration'
TECH = 'fault injection at the NLP solver boundary, output and files; outcomes compared with a twin that never saw the fault'
RULE = ('faults injected at every kind of call: the NLP solver raises (ordinary exceptions, keyboard interrupt, memory error) or returns NaN at the '
        'k-th NLP of a homotopy, of the polishing step or of a simulation loop, the standard output breaks while results are printed, a problem is dumped '
        'to an impossible place, the output breaks between or within the steps of a simulation, the NLP solver cannot be created, values of wrong shape or type are '
        'refused by set, inconsistent data are refused and corrected in place; afterwards everything that '
        'reaches the NLP solver and every result is compared with a twin that never saw the fault; distinct = (fault, place, problem signature)')
ASSUME = ['with the strategy that starts from the previous solution the guess after an interrupted solve is left open']
STRAT = [InitializationStrategy.ALL_XCURRENT_W0_START, InitializationStrategy.ALL_XCURRENT_WOPT_PREV, InitializationStrategy.EXTERNAL]
FAULTS = [RuntimeError, KeyboardInterrupt, MemoryError, ValueError, SystemExit, ArithmeticError, OSError, StopIteration, AssertionError, IndexError]
SIM = dict(N_stages=1, nu=0, gpath=0, terminal=0, ucomp=False, cost=False, bounds=False, npt=0, equi=True)


def cases(tier, seed):
    q = 1 if tier == 'quick' else 8
    for i, c in enumerate(gen(seed + 1, 240 * q, [], n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2])):
        yield dict(c, kind='nlp', place=i % 4)
    for c, k in zip(gen(seed + 2, 3 * len(MUT) * q, [], n_s_max=2, fe_max=2, stage_max=2), list(MUT) * 3 * q):
        f = dict(c['feat'])
        if 'g_Stewart' in k or k == 'indicators with steps':
            f.update(general=False, pss='STEWART', regions='g')
        elif 'f_x' in k or 'general' in k or 'alpha' in k:
            f.update(general=True, n_sys=[1, 2])
        elif any(t in k for t in ('F ', 'S ', 'region', 'c and S')):
            f.update(general=False)
        yield dict(c, feat=f, kind='build', mut=k)
    for i, c in enumerate(gen(seed + 3, 90 * q, [], n_s_max=2, fe_max=2, n_sys=[1, 2], npg=2, **SIM)):
        yield dict(c, kind='loop', step=i % 4)
    for i, c in enumerate(gen(seed + 4, 90 * q, [], n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2])):
        yield dict(c, kind='output', what=['solve', 'print', 'dump'][i % 3])
    for i, c in enumerate(gen(seed + 6, 60 * q, [], n_s_max=2, fe_max=2, n_sys=[1, 2], npg=2, **SIM)):
        yield dict(c, kind='looped', step=i % 4)
    for i, c in enumerate(gen(seed + 7, 160 * q, [], n_s_max=2, fe_max=3, stage_max=3, n_sys=[1, 2])):
        yield dict(c, kind='set')
    for i, c in enumerate(gen(seed + 5, 48 * q, [], n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2])):
        yield dict(c, kind='create')


def attempt(f):
    """-> exception of the call, or None"""
    try:
        f()
    except CaseTimeout:
        raise
    except BaseException as e:  # noqa: BLE001
        return e
    return None


class Twins:
    """the same operations on two solvers; only the first one sees faults"""

    def __init__(self, sp, rng, obs, strategy=None):
        self.sp, self.rng, self.obs = sp, rng, obs
        self.strategy = STRAT[int(rng.integers(3))] if strategy is None else strategy
        flags = bool(rng.random() < .5), bool(rng.random() < .4), int(rng.integers(2, 4))
        self.solvers = []
        for _ in range(2):
            Ctl.reset()
            o = sp.opts()
            o.initialization_strategy = self.strategy
            o.fix_active_set_fe0, o.do_polishing_step, o.max_iter_homotopy = flags
            o.print_level = 0
            s = NosnocSolver(o, sp.model(), sp.ocp())
            self.solvers.append((s, Ctl.proxies[0]))
        self.flags = flags
        self.guess = True       # the guess is comparable

    def set(self):
        sp, rng = self.sp, self.rng
        new = [('x0', rng.normal(size=sp.nx))]
        if sp.npg:
            new.append(('p_global', rng.normal(size=sp.npg)))
        if sp.npt:
            new.append(('p_time_var', rng.normal(size=(sp.N, sp.npt))))
        if sp.nu:
            new.append(('u', rng.normal(size=(sp.N, sp.nu))))
        if self.strategy == InitializationStrategy.EXTERNAL:
            new.append(('w', rng.normal(size=self.solvers[0][1].nw)))
        for k, v in new:
            if rng.random() < .5:
                for s, _ in self.solvers:
                    s.set(k, v.copy())
                if k == 'w':
                    self.guess = True

    def solve(self, which, fault=None, at=None):
        s, px = self.solvers[which]
        n0 = len(px.calls)

        def handler(p, c):
            k = len(p.calls) - n0
            if fault is not None and k >= at:
                if fault == 'nan':
                    return np.full(p.nw, np.nan), 'Invalid_Number_Detected'
                raise fault('injected')
            return np.random.default_rng(100 + k).normal(size=p.nw), 'Solve_Succeeded'
        Ctl.handler = handler
        try:
            r = s.solve()
        finally:
            Ctl.handler = None
        return r, px.calls[n0:]

    def compare(self, key, what):
        (a, ca_), (b, cb) = self.solve(0), self.solve(1)
        names = ['lbx', 'ubx', 'lbg', 'ubg', 'p', 'g'] + (['x0'] if self.guess else [])
        A = {f'{n}{k}': getattr(c, n) for k, c in enumerate(ca_) for n in names}
        B = {f'{n}{k}': getattr(c, n) for k, c in enumerate(cb) for n in names}
        ra, rb = plain(keepable(a)), plain(keepable(b))
        for r in (ra, rb):
            r.pop('nlp_iter', None)
            if not self.guess:
                r['w_all'] = r['w_all'][1:]
        d = diff(A, B) + differ(ra, rb, 1e-12)
        self.obs.see('nlps_compared', len(cb))
        self.obs.check(not d, key, lambda: f'after {what} the next solve differs from that of a solver that never saw it: {d[:3]}\n'
                       f'{self.strategy.name}, (fix_active_set_fe0, polishing, iterations) = {self.flags}, {self.sp.describe()}')
        self.guess = True


def nlp(case, obs, sp, rng):
    t = Twins(sp, rng, obs)
    n = t.flags[2] + t.flags[1]
    for k in range(int(rng.integers(0, 3))):
        t.set()
        t.solve(0), t.solve(1)
    for k in range(2):
        t.set()
        at = min(case['place'], n - 1) if k == 0 else int(rng.integers(n))
        fault = FAULTS[int(rng.integers(len(FAULTS)))] if rng.random() < .8 or t.strategy == STRAT[1] else 'nan'
        if fault == 'nan':
            r = []
            e = attempt(lambda: r.append(t.solve(0, fault, at)[0]))
            obs.see('nan_results')
            obs.check(e is not None or r[0]['status'] != Status.SUCCESS or t.flags[1], 'hidden', f'NaN solution is reported as success\n{sp.describe()}')
        else:
            r = []
            e = attempt(lambda: r.append(t.solve(0, fault, at)[0]))
            obs.see('faults_injected')
            obs.see('fault_' + fault.__name__)
            obs.check(e is not None or r[0]['status'] != Status.SUCCESS, 'hidden', lambda: f'{fault.__name__} in NLP {at + 1} is hidden by a success\n{sp.describe()}')
            if t.strategy == STRAT[1]:
                t.guess = False
        obs.sig((str(fault), at, t.strategy.name, t.flags, sp.signature()))
        if rng.random() < .5:
            t.set()
        t.compare('nlp', f'{getattr(fault, "__name__", fault)} in NLP {at + 1}')
        t.compare('nlp', f'{getattr(fault, "__name__", fault)} in NLP {at + 1} and a good solve')


def refused(case, obs, sp, rng):
    """inconsistent data, refused; corrected in the same objects"""
    good_m, good_o = sp.model_kw(), sp.ocp_kw()
    m, o, p = dict(good_m), dict(good_o), {}
    m.update({k: list(v) for k, v in m.items() if isinstance(v, list)})
    orig_m, orig_o = dict(m), dict(o)
    lists = {k: list(v) for k, v in m.items() if isinstance(v, list)}
    try:
        MUT[case['mut']](sp, m, o, p, rng)
    except Skip:
        obs.nontrivial = False
        obs.sig(('skip',))
        return
    opts = sp.opts()
    made = []
    Ctl.reset()

    def bad():
        made.append(NosnocModel(**m))
        made.append(NosnocOcp(**o) if o else None)
        for k, v in p.items():
            setattr(opts, k, v)
        made.append(NosnocSolver(opts, made[0], made[1]))
    e = attempt(bad)
    if e is None:
        obs.see('not_refused')      # found at the first evaluation of the NLP solver, or later (C21)
    if len(made) < 2:
        obs.see('refused_at_once')
        obs.nontrivial = False
        obs.sig(('ctor', case['mut']))
        return
    model, ocp = made[0], made[1]
    fresh = NosnocModel(**good_m)
    changed = {k for k in set(m) | set(orig_m) if m.get(k) is not orig_m.get(k)} | {k for k, v in lists.items() if k in m and (
        not isinstance(m[k], (list, tuple)) or len(m[k]) != len(v) or any(a is not b for a, b in zip(m[k], v)))}
    for k in changed:
        setattr(model, k, getattr(fresh, k))
    if ocp is not None:
        ref = NosnocOcp(**good_o)
        for k in set(o) | set(orig_o):
            if o.get(k) is not orig_o.get(k):
                setattr(ocp, k, getattr(ref, k))
    elif good_o:
        ocp = NosnocOcp(**good_o)
    new = sp.opts()
    for k in p:
        setattr(opts, k, getattr(new, k))
    if sp.nfe_mode != 'list' and p:
        opts.Nfe_list = list(new.Nfe_list) if new.Nfe_list is not None else None
    Ctl.reset()
    s = NosnocSolver(opts, model, ocp)
    px = Ctl.proxies[0]
    A = finger(s, px)
    Ctl.reset()
    s2 = NosnocSolver(sp.opts(), NosnocModel(**good_m), NosnocOcp(**good_o) if good_o else None)
    B = finger(s2, Ctl.proxies[0])
    d = diff(A, B)
    obs.see('refused_and_corrected' if e is not None else 'accepted_and_corrected')
    obs.see('nlps_compared')
    obs.check(not d, 'corrected', lambda: f'objects corrected after a refusal ({case["mut"]}: {e}) give another problem than fresh ones: {d[:3]}\n{sp.describe()}')
    obs.sig((case['mut'], sp.signature()))


def loop(case, obs, sp, rng):
    n = 4
    pv = rng.normal(size=(n, sp.npg))
    st = STRAT[int(rng.integers(3))]
    wi = None
    fault = FAULTS[int(rng.integers(len(FAULTS)))]
    polish = bool(rng.random() < .3)
    o2 = None

    def make():
        Ctl.reset()
        o = sp.opts()
        o.max_iter_homotopy, o.initialization_strategy, o.print_level, o.do_polishing_step = 2, st, 0, polish
        s = NosnocSolver(o, sp.model(), None)
        return s, Ctl.proxies[0]

    def go(s, px, stop=None):
        n0 = len(px.calls)
        cnt = dict(x=0)

        def handler(p, c):
            k = len(p.calls) - n0
            if stop is not None and k >= stop:
                raise fault('injected')
            return np.random.default_rng(int(1e6 * abs(float(np.sum(c.p[-sp.nx:])))) % 2**31 + k).normal(size=p.nw), 'Solve_Succeeded'
        Ctl.handler = handler
        L = NosnocSimLooper(s, sp.x0, n, p_values=pv, w_init=wi)
        try:
            e = attempt(L.run)
        finally:
            Ctl.handler = None
        return L, e, px.calls[n0:]
    s, px = make()
    if st == InitializationStrategy.EXTERNAL:
        wi = [rng.normal(size=px.nw) for _ in range(n)]
    ref, e0, calls = go(*make())
    if e0 is not None:
        raise e0
    full = ref.get_results()
    per = 2 + polish
    # the calls per step are not known: count them with the states that are set
    ends = [k for k in range(1, len(calls)) if not np.array_equal(calls[k].p[-sp.nx:], calls[k - 1].p[-sp.nx:])] + [len(calls)]
    stop = (ends[case['step'] - 1] if case['step'] else 0)
    if ends[case['step']] - stop > 1 and rng.random() < .5:
        stop += 1
    L, e, _ = go(s, px, stop)
    obs.see('faults_injected')
    obs.check(e is not None or any(a != Status.SUCCESS for a in L.get_results()['status']), 'hidden', lambda: f'{fault.__name__} in step {case["step"] + 1} of a simulation is hidden\n{sp.describe()}')
    if e is not None:
        got = L.get_results()
        k = case['step']
        for key, v in full.items():
            if 'cpu' in key:
                continue
            a, b = plain(got[key]), plain(v)
            if key in ('X_sim', 'time_steps', 't_grid', 'switch_times'):
                off = dict(X_sim=1, t_grid=1).get(key, 0)
                m = len(b) - off
                if key == 'switch_times':
                    ok = len(a) <= len(b) and near_list(a, b[:len(a)]) and (k > 0 or not len(a))
                else:
                    ok = len(a) == off + m * k // n and near_list(a, b[:len(a)])
            else:
                a, b = list(a), list(b)
                ok = len(a) == len(b) * k // n and not differ(dict(a=a), dict(a=b[:len(a)]), 1e-12)
            obs.check(ok, 'loop-partial', lambda: f'{key} of a simulation interrupted in step {k + 1} of {n}: {a}, the undisturbed simulation has {b}\n{sp.describe()}')
            obs.see('results_compared')
    # the same solver again, from the start
    if st != InitializationStrategy.ALL_XCURRENT_WOPT_PREV:
        L2, e2, c2 = go(s, px)
        if e2 is not None:
            raise e2
        d = differ({k: v for k, v in plain(keepable(L2.get_results())).items()}, {k: v for k, v in plain(keepable(full)).items()}, 1e-12)
        for a, b in zip(c2, calls):
            for w in ('x0', 'p', 'lbx', 'ubx'):
                if not np.array_equal(getattr(a, w), getattr(b, w), equal_nan=True):
                    d.append(f'{w}: {getattr(a, w)} vs {getattr(b, w)}'[:300])
        obs.see('nlps_compared', len(c2))
        obs.check(not d, 'loop-again', lambda: f'simulation after an interrupted one differs: {d[:3]}\n{sp.describe()}')
    obs.sig((fault.__name__, case['step'], st.name, sp.signature()))


def near_list(a, b):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)


class Broken(io.StringIO):
    """output that fails after some writes"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise BrokenPipeError(32, 'injected')
        return len(s)


def output(case, obs, sp, rng):
    t = Twins(sp, rng, obs)
    s, px = t.solvers[0]
    t.set()
    if rng.random() < .5:
        t.compare('twins', 'nothing')
        t.set()
    if case['what'] == 'solve':
        for a, _ in t.solvers:
            a.opts.print_level = 2
        n = int(rng.integers(0, 14))
        with contextlib.redirect_stdout(Broken(n)):
            e = attempt(lambda: t.solve(0))
        for a, _ in t.solvers:
            a.opts.print_level = 0
        if t.strategy == STRAT[1]:
            t.guess = False
        if e is None:           # nothing printed anymore: both have solved
            obs.see('output_did_not_break')
            t.guess = True
            t.solve(1)
    elif case['what'] == 'print':
        n = int(rng.integers(0, 60))
        with contextlib.redirect_stdout(Broken(n)):
            e = attempt(s.print_problem)
    else:
        top = tempfile.mkdtemp(prefix='c35_')
        try:
            bad = [os.path.join(top, 'missing', 'x.bin'), top][int(rng.integers(2))]
            e = attempt(lambda: s.problem.dump(bad))
            obs.check(e is not None, 'hidden', 'dump to an impossible place reports nothing')
            e2 = attempt(lambda: s.problem.dump(os.path.join(top, 'x.bin')))
            obs.see('dumped' if e2 is None else 'dump_refused')
        finally:
            shutil.rmtree(top, ignore_errors=True)
    obs.see('faults_injected', int(e is not None))
    what = f'{case["what"]} with broken output ({type(e).__name__})'
    t.compare('output', what)
    t.set()
    t.compare('output', what + ' and a good solve')
    obs.sig((case['what'], type(e).__name__, t.strategy.name, sp.signature()))


def looped(case, obs, sp, rng):
    """the output breaks while a simulation reports its steps"""
    n = 4
    pv = rng.normal(size=(n, sp.npg))
    level = int(rng.integers(1, 3))

    def go(out):
        Ctl.reset()
        o = sp.opts()
        o.max_iter_homotopy, o.initialization_strategy, o.print_level = 2, STRAT[0], 2 if level == 2 else 0
        s = NosnocSolver(o, sp.model(), None)
        Ctl.handler = lambda p, c: (np.random.default_rng(int(1e6 * abs(float(np.sum(c.p[-sp.nx:])))) % 2**31).normal(size=p.nw), 'Solve_Succeeded')
        L = NosnocSimLooper(s, sp.x0, n, p_values=pv, print_level=1)
        try:
            with contextlib.redirect_stdout(out):
                e = attempt(L.run)
        finally:
            Ctl.handler = None
        return e, L.get_results(), L
    class Count(io.StringIO):
        n = 0

        def write(self, t):
            self.n += 1
            return len(t)
    c = Count()
    e, full, L0 = go(c)
    if e is not None:
        raise e
    stop = int(rng.integers(c.n)) if c.n else 0
    e, got, L = go(Broken(stop))
    if c.n and e is None:
        obs.see('output_error_contained')
    obs.see('faults_injected', int(e is not None))
    full, got = plain(full), plain(got)
    names = [k for k in full if 'cpu' not in k]
    done = {}
    for k in names:
        off = dict(X_sim=1, t_grid=1).get(k, 0)
        if k == 'switch_times' or (len(full[k]) - off) % n or len(full[k]) == off:
            continue
        per = (len(full[k]) - off) // n
        done[k] = (len(got[k]) - off) / per
        a, b = (np.array(got[k]), np.array(full[k])) if isinstance(got[k], np.ndarray) else (list(got[k]), list(full[k]))
        ok = len(a) <= len(b) and (near_list(a, b[:len(a)]) if isinstance(a, np.ndarray) else not differ(dict(a=a), dict(a=b[:len(a)]), 1e-12))
        obs.check(ok, 'loop-output', lambda: f'{k} of a simulation whose output broke: {str(a)[:200]}, undisturbed: {str(b)[:200]}\n{sp.describe()}')
        obs.see('results_compared')
    steps = set(done.values())
    obs.check(len(steps) <= 1 and all(v == int(v) for v in steps), 'loop-torn',
              lambda: f'a simulation whose output broke at write {stop} of {c.n} holds different numbers of steps: {done}\n{sp.describe()}')
    obs.sig((level, sorted(steps), stop, sp.signature()))


def set_(case, obs, sp, rng):
    """values that set refuses"""
    t = Twins(sp, rng, obs)
    s, px = t.solvers[0]
    t.set()
    if rng.random() < .5:
        t.compare('twins', 'nothing')
        t.set()
    nfe = sum(sp.nfe)
    nth = sum(d['nf'] or 0 for d in sp.sys)
    shapes = dict(x0=(sp.nx,), x=[(sp.N, sp.nx), (nfe, sp.nx)][int(rng.integers(2))], u=(sp.N, sp.nu), v_global=(sp.nv,), p_global=(sp.npg,),
                  p_time_var=(sp.N, sp.npt), theta=(nfe, nth), w=(px.nw,))
    told = []
    for _ in range(int(rng.integers(1, 4))):
        k = str(rng.choice(list(shapes)))
        sh = list(shapes[k])
        how = str(rng.choice(['rows', 'columns', 'type', 'dimension', 'field']))
        if how == 'field':
            k, v = str(rng.choice(['y', 'X0', 'lambda', ''])), rng.normal(size=3)
        elif how == 'type':
            v = rng.normal(size=sh).astype(object)
            if not v.size:
                continue
            v[tuple(np.array(sh) - 1)] = [None, 'a', {}, [1., 2.]][int(rng.integers(4))]
        else:
            j = 0 if how == 'rows' else len(sh) - 1
            sh[j] = max(0, sh[j] + int(rng.choice([-1, 1, 2])))
            v = rng.normal(size=sh if how != 'dimension' else (*shapes[k], 2))
        e = attempt(lambda: s.set(k, v))
        if e is None or isinstance(e, Warning):     # accepted: the twin gets it too
            e2 = attempt(lambda: t.solvers[1][0].set(k, v))
            obs.see('accepted')
            obs.check(type(e) is type(e2), 'set-differs', lambda: f'set({k!r}) of {v.shape} ends with {e!r} and {e2!r}\n{sp.describe()}')
        else:
            obs.see('refused_' + k)
            obs.see('faults_injected')
        told.append((k, how, type(e).__name__))
    a, b = s.problem.w0, t.solvers[1][0].problem.w0
    obs.check(np.array_equal(a, b, equal_nan=True), 'set-guess', lambda: f'refused values {told} change the initial guess: components '
              f'{np.where(~(np.asarray(a) == np.asarray(b)))[0] if np.shape(a) == np.shape(b) else np.shape(a)}\n{sp.describe()}')
    if all(e != 'NoneType' for _, _, e in told):
        t.compare('set', f'refused values {told}')
    obs.sig((tuple(told), sp.signature()))


def create(case, obs, sp, rng):
    """the NLP solver cannot be created (wrong plugin option, missing linear solver)"""
    Ctl.reset()
    opts, model, ocp = sp.opts(), sp.model(), sp.ocp()
    keep = ca.nlpsol
    fault = FAULTS[int(rng.integers(len(FAULTS)))]

    def fail(*a, **k):
        raise fault('injected')
    ca.nlpsol = fail
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            e = attempt(lambda: NosnocSolver(opts, model, ocp))
    finally:
        ca.nlpsol = keep
    obs.see('faults_injected', int(e is not None))
    if e is None:
        obs.see('creation_not_disturbed')
    Ctl.reset()
    s = NosnocSolver(opts, model, ocp)
    A = finger(s, Ctl.proxies[0])
    B = finger(*build(sp)[:2])
    d = diff(A, B)
    obs.see('nlps_compared')
    obs.check(not d, 'create', lambda: f'after the NLP solver could not be created, building again gives another problem: {d[:3]}\n{sp.describe()}')
    obs.sig((fault.__name__, sp.signature()))


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    obs.see('kind_' + case['kind'])
    dict(nlp=nlp, build=refused, loop=loop, output=output, create=create, looped=looped, set=set_)[case['kind']](case, obs, sp, rng)
    obs.sample = dict(case=case, problem=sp.describe())
