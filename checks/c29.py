"""C29: general inclusions given by step variables."""
import numpy as np
from mon.core import Inconclusive
from mon.env import Ctl, NosnocSolver, NosnocSimLooper, PssMode, Status, IrkSchemes, CrossComplementarityMode, IrkRepresentation, MpccMode
from mon.sims import Sim, Reject, options, late_event
from mon.struct import gen, grid, names, judge

ID = 'C29'
LEVEL = 'exploration'
RULE = ('random nonlinear expressions of step variables in several blocks: the recorded NLP is evaluated at random points and its rows for dynamics, '
        'step variables and coupling are matched with independent residuals; piecewise smooth systems written as step-function inclusions (one or '
        'several blocks) are simulated by the real solver and compared with the region-wise model, the exact solution, and the signs of the '
        'switching functions; distinct = (problem signature) or (settings, events)')
ASSUME = ['runs with failed status decide nothing individually']
LIMIT = {'quick': 60, 'thorough': 200}
BUDGET = {'quick': 400, 'thorough': 2400}


def cases(tier, seed):
    q = tier == 'quick'
    for c in gen(seed, 96 if q else 1500, grid(general=[True], scheme=names(IrkSchemes), rep=names(IrkRepresentation), n_sys=[1, 2, 3]), pss='STEP'):
        yield dict(c, kind='struct')
    for i in range(84 if q else 1200):
        yield dict(seed=seed * 1000003 + i, kind='e2e', n_sys=1 + i % 2, loop=i % 5 == 4, scheme=names(IrkSchemes)[(i // 2) % 2], cross=names(CrossComplementarityMode)[(i // 4) % 2],
                   rep=names(IrkRepresentation)[i % 3])


def run(case, obs):
    if case['kind'] == 'struct':
        judge(case, obs, rows=('dyn', 'lift', 'cont', 'alg_switch', 'bnd', 'cross'), extras='base', struct=True)
        return
    rng = np.random.default_rng(case['seed'] + 3)
    try:
        sim = Sim(case['seed'], cls=['const', 'linear', 'smooth'][case['seed'] % 3], events=(0, 3), n_sys=case['n_sys'], nx=None if case['n_sys'] == 1 else 2 + case['seed'] % 2,
                  sparse=True, npg=case['seed'] % 2, ncs=None if case['seed'] % 4 else [2] * case['n_sys'])
        nsim = 2 if case['loop'] else 1
        st = rng.bit_generator.state
        runs = {}
        for form in ('S', 'alpha'):
            rng.bit_generator.state = st
            o = options(rng, sim, PssMode.STEP, scheme=IrkSchemes[case['scheme']], cross=CrossComplementarityMode[case['cross']], rep=IrkRepresentation[case['rep']],
                        mpcc=MpccMode.SCHOLTES_INEQ, nsim=nsim)
            Ctl.reset()
            solver = NosnocSolver(o, sim.model(form=form))
            lo = NosnocSimLooper(solver, sim.x0.copy(), nsim)
            lo.run()
            r = lo.get_results()
            obs.see('simulations')
            runs[form] = (r, all(s == Status.SUCCESS for s in r['status']))
    except Reject:
        raise Inconclusive('no problem')
    obs.out = dict(ok=runs['alpha'][1], region=runs['S'][1])
    if not runs['alpha'][1]:
        obs.nontrivial = False
        obs.see('failed_status')
        return
    r = runs['alpha'][0]
    tg = np.asarray(r['t_grid'])
    X = [np.array(x).flatten() for x in r['X_sim']]
    err = sim.scheme_error(tg, o.irk_scheme, o.n_s)
    tol = 1e-5 + 5 * err
    if late_event(sim, tg, o, 1e-5 + 20 * err, o.N_finite_elements) or tol > .05:
        obs.nontrivial = False
        obs.see('undecided')
        return
    d = [np.max(np.abs(x - sim.at(t))) for x, t in zip(X, tg)]
    k = int(np.argmax(d))
    obs.check(d[k] < tol, 'state', lambda: f'inclusion moves to {X[k]} at t={tg[k]}, exact {sim.at(tg[k])} (tolerance {tol:.1e}) {case} {sim.describe()}')
    obs.see('states_compared', len(X))
    # step variables and signs at the ends of the elements
    al = [a for L in r['alpha_sim'] for a in L]
    if o.irk_scheme == IrkSchemes.RADAU_IIA and len(al) == len(X) - 1:
        for a, x, t in zip(al, X[1:], tg[1:]):
            c = sim.c(np.asarray(x))
            a = np.asarray(a).flatten()
            for j in range(len(c)):
                if abs(c[j]) > 1e-3:
                    obs.check(abs(a[j] - (c[j] > 0)) < 1e-4, 'step-variable', lambda: f'step variable {j} is {a[j]} at t={t} where its switching function is {c[j]} {case}')
                    obs.see('step_variables_compared')
    if runs['S'][1]:
        tg2 = np.asarray(runs['S'][0]['t_grid'])
        e2 = sim.scheme_error(tg2, o.irk_scheme, o.n_s)
        if not late_event(sim, tg2, o, 1e-5 + 20 * e2, o.N_finite_elements):
            dx = np.max(np.abs(np.array(runs['S'][0]['X_sim'][-1]).flatten() - X[-1]))
            obs.check(dx < tol + 1e-5 + 5 * e2, 'agree', lambda: f'inclusion ends at {X[-1]}, region model at {runs["S"][0]["X_sim"][-1]} {case} {sim.describe()}')
            obs.see('models_compared')
    obs.sig((case['n_sys'], case['scheme'], case['rep'], case['cross'], o.n_s, nsim, tuple(e[1] for e in sim.events)))
    obs.sample = dict(case=case, problem=sim.describe(), max_error=float(max(d)), tolerance=float(tol))


def final(results):
    R = [r['out'] for r in results if r.get('out')]
    a, b = sum(r['region'] for r in R), sum(r['ok'] for r in R)
    if len(R) >= 30 and b < .6 * a:
        yield 'not-solved', f'of {len(R)} simulations {a} succeed with the region model and only {b} with the inclusion'
