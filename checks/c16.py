"""C16: simulation loop."""
import numpy as np
from mon.env import Ctl, NosnocSolver, PssMode, NosnocSimLooper, InitializationStrategy, Status, NosnocOcp, ca
from mon.spec import Spec, decode
from mon.refnlp import Layout, flat
from mon.resref import expected_results, same, marked, with_regions
from mon.struct import gen, grid
from mon.script import GOOD, BAD, lam00

ID = 'C16'
LEVEL = 'fault_enumeration'
RULE = ('simulation loops over random models with a scripted NLP solver returning marked solutions: failures injected at every step, with and '
        'without stop_on_failure, per-step parameters, per-step guesses, speed of time, several elements; every NLP call (initial state, '
        'parameters, guess) and every collected result is compared with the chained per-step results; also loops over problems that are not '
        'simulations; distinct = (problem signature, failure pattern, options)')


def cases(tier, seed):
    q = tier == 'quick'
    n = 1260 if q else 10080
    base = dict(N_stages=1, nu=0, gpath=0, terminal=0, ucomp=False, cost=False, bounds=False, n_s_max=2, npt=0, n_sys=[1, 2], equi=True)
    for i, c in enumerate(gen(seed, n, grid(npg=[0, 2], use_fesd=[True, True, False], sot=['NONE', 'NONE', 'LOCAL', 'GLOBAL']), **base)):
        nsim = 1 + i % 5
        yield dict(c, kind='loop', nsim=nsim, fail=(i // 5) % (nsim + 1), stop=bool(i % 2), winit=bool((i // 3) % 2), pv=bool((i // 2) % 2), near=[0, 0, 1e-4, 0, 1e-6, 0, 1e-8][i % 7])
    for c in gen(seed + 5, 144 if q else 1152, [dict(nu=1), dict(N_stages=2), dict(cost=True), dict(gpath=1), dict(bounds=True), dict(nu=2, N_stages=3)],
                 n_s_max=1, fe_max=2, n_sys=1):
        yield dict(c, kind='refuse')


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    o = sp.opts()
    o.max_iter_homotopy = 1
    Ctl.reset()
    if case['kind'] == 'refuse':
        model = sp.model()
        ocp = sp.ocp()
        if ocp is None and sp.nu == 0 and sp.N == 1:
            obs.nontrivial = False
            return
        s = NosnocSolver(o, model, ocp)
        try:
            NosnocSimLooper(s, sp.x0, 2)
        except Exception:
            refused = True
        else:
            refused = False
        obs.check(refused, 'accepted', lambda: f'simulation loop accepts a problem that is no simulation {sp.describe()}')
        obs.see('refusals')
        obs.sig(('refuse', sp.signature()))
        return
    if case['winit']:
        o.initialization_strategy = InitializationStrategy.EXTERNAL
    elif case['seed'] % 3 == 0:
        o.initialization_strategy = InitializationStrategy.ALL_XCURRENT_WOPT_PREV
    s = NosnocSolver(o, sp.model(), None)
    px = Ctl.proxies[0]
    lay = Layout(sp, s.problem)
    n = case['nsim']
    x0 = rng.normal(size=sp.nx)
    pv = rng.normal(size=(n, sp.npg)) if case['pv'] and sp.npg else None
    wi = [rng.normal(size=px.nw) for _ in range(n)] if case['winit'] else None
    near = case.get('near', 0)
    if near:
        obs.see('slow_loops')
        x0 = sp.x0 + near * rng.normal(size=sp.nx)
        if pv is not None:
            pv = sp.pg + near * rng.normal(size=pv.shape)
        if wi is not None:
            wi = [s.problem.w0 + near * rng.normal(size=px.nw) for _ in range(n)]
    keep = (x0.copy(), None if pv is None else pv.copy(), None if wi is None else [a.copy() for a in wi])
    ws, sts, fs, chs = [], [], [], []
    for i in range(n):
        w = marked(sp, lay, px.nw, rng)
        chs.append(with_regions(sp, lay, w, rng))
        if near:
            # hardly any change from step to step
            ind = np.array(sorted(j for st in lay.fe for d in st for j in flat(d['x'])), dtype=int)
            nx = sp.nx
            w[ind] = np.tile(x0, len(ind) // nx) + near * rng.normal(size=len(ind))
        ws.append(w)
        sts.append(str(rng.choice(BAD)) if i == case['fail'] else str(rng.choice(GOOD)))
        fs.append(float(rng.normal()))

    def handler(p, c):
        k = len(p.calls)
        return ws[k].copy(), sts[k], fs[k]
    Ctl.handler = handler
    desc = f'{case} {sp.describe()}'
    loop = NosnocSimLooper(s, x0, n, p_values=pv, w_init=wi)
    ret = loop.run(stop_on_failure=True) if case['stop'] else loop.run()
    R = loop.get_results()
    failing = case['fail'] < n
    m = case['fail'] + 1 if (case['stop'] and failing) else n
    obs.check(len(px.calls) == m, 'steps', lambda: f'{len(px.calls)} simulation steps solved instead of {m}; statuses {sts}; {desc}')
    m = min(m, len(px.calls))
    if case['stop']:
        obs.check(bool(ret) == (not failing), 'return', lambda: f'run(stop_on_failure=True) returns {ret} for statuses {sts}')
    obs.see('sim_steps', m)
    X, h, st_off, sw = [keep[0]], [], 0.0, []
    cur = keep[0]
    exps = []
    for k in range(m):
        c = px.calls[k]
        pg = keep[1][k] if pv is not None else sp.pg
        ptv = np.zeros((1, 0))
        exp_p = np.concatenate([pg, [o.sigma_0, min(o.sigma_0**1.5, o.sigma_0)], lam00(sp, cur, ptv, pg), cur])
        obs.check(np.allclose(np.sort(c.p), np.sort(exp_p), rtol=1e-11, atol=1e-12), 'step-parameters',
                  lambda: f'step {k} is solved with parameters {c.p}, expected {exp_p} (initial state {cur}) {desc}')
        if wi is not None:
            obs.check(np.array_equal(c.x0, keep[2][k]), 'step-guess', lambda: f'step {k} does not start from w_init[{k}] {desc}')
        e = expected_results(sp, lay, ws[k], cur)
        exps.append(e)
        sw += [st_off + e['t_grid'][i] for i in chs[k]]
        X += e['x_list']
        h += list(e['time_steps'])
        st_off += float(np.sum(e['time_steps']))
        cur = e['x_out']

    def cmp(name, a, b, tol=1e-12):
        a, b = np.array(a, dtype=float).flatten(), np.array(b, dtype=float).flatten()
        obs.see('entries_compared')
        obs.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=tol), 'entry:' + name, lambda: f'{name} is {a} instead of {b} {desc}')
    cmp('X_sim', R['X_sim'], np.array(X))
    cmp('time_steps', R['time_steps'], h)
    cmp('t_grid', R['t_grid'], np.concatenate(([0.0], np.cumsum(h))))
    cmp('switch_times', R['switch_times'], sw, 1e-11)
    cmp('cost_vals', R['cost_vals'], fs[:m])
    want = [Status.SUCCESS if t in GOOD else Status.INFEASIBLE for t in sts[:m]]
    obs.check(list(R['status']) == want, 'entry:status', lambda: f'{R["status"]} for {sts[:m]} {desc}')
    for name, key in (('theta_sim', 'theta_list'), ('lambda_sim', 'lambda_list'), ('alpha_sim', 'alpha_list'), ('z_sim', 'z_list')):
        ok = len(R[name]) == m
        obs.check(ok, 'entry:' + name, lambda: f'{name} has {len(R[name])} entries instead of {m}')
        for k in range(m if ok else 0):
            t = same(key, R[name][k], exps[k][key])
            obs.check(not t, 'entry:' + name, lambda: f'{name}[{k}]: {t} {desc}')
            obs.see('entries_compared')
    obs.check(len(R['w_sim']) == m and all(np.array_equal(a, b) for a, b in zip(R['w_sim'], ws)), 'entry:w_sim', 'w_sim differs')
    obs.check(len(R['w_all']) == m and all(np.array_equal(a[-1], b) for a, b in zip(R['w_all'], ws)), 'entry:w_all', 'w_all differs')
    if 'sot' in exps[0]:
        cmp('sot', np.concatenate([np.concatenate(a) if len(a) else [] for a in R['sot']]) if len(R['sot']) else [],
            np.concatenate([np.concatenate(e['sot']) for e in exps]))
    obs.check(np.array_equal(x0, keep[0]) and (pv is None or np.array_equal(pv, keep[1])) and
              (wi is None or all(np.array_equal(a, b) for a, b in zip(wi, keep[2]))), 'input-modified', 'loop modifies its inputs')
    obs.sig((sp.signature(), case['fail'], case['stop'], case['winit'], case['pv'], n))
    obs.sample = dict(case=case, statuses=sts[:m], problem=sp.describe())
