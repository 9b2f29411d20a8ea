"""C01: simulations against the exact Filippov solution."""
import numpy as np
from mon.core import Inconclusive
from mon.env import (Ctl, NosnocSolver, NosnocSimLooper, PssMode, IrkSchemes, IrkRepresentation, CrossComplementarityMode, Status, MpccMode)
from mon.sims import Sim, Reject, options, late_event
from mon.struct import names, grid

ID = 'C01'
LEVEL = 'exploration'
RULE = ('random piecewise smooth initial value problems (1-3 states, 1-2 subsystems, 2-4 regions; constant, linear or smooth fields; global '
        'parameters, stagewise parameters; crossings, entering, following and leaving sliding surfaces) simulated by the real solver, at once or '
        'in a simulation loop, for every scheme, representation, reformulation and coupling mode; states at all returned grid points, switches on '
        'the grid and listed switch times are compared with an independent event driven integration; distinct = (settings, sequence of events)')
ASSUME = ['runs with failed status decide nothing individually; if more than 30% of the simulations fail the check alarms',
          'tolerance 1e-5 plus five times the error of the same scheme on the exact sequence of modes']
LIMIT = {'quick': 60, 'thorough': 200}
BUDGET = {'quick': 420, 'thorough': 2400}
# one subsystem switches in the last element after the last Gauss stage
KNOWN = {'gauss-last-element': dict(seed=0, kind='known')}


def cases(tier, seed):
    q = tier == 'quick'
    n = 420 if q else 6000
    cells = grid(scheme=names(IrkSchemes), rep=names(IrkRepresentation), pss=names(PssMode), cross=names(CrossComplementarityMode))
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, kind=['plain', 'loop', 'params', 'plain', 'exit', 'stages'][(i // len(cells)) % 6], cls=['const', 'linear', 'smooth'][i % 3],
                   **cells[i % len(cells)])


def draw(case):
    kind, s = case['kind'], case['seed']
    kw = dict(cls=case['cls'], events=(0, 3) if s % 4 == 0 else (1, 3))
    if case['pss'] == 'STEP':
        kw['sparse'] = True
    if kind == 'params':
        kw['npg'] = 1
    if kind == 'stages':
        kw.update(npt=1, N=2, events=(0, 4))
    if kind == 'exit':
        kw.update(cls=['linear', 'smooth'][s % 2], want='exit', n_sys=1, tries=3000)
    try:
        return Sim(s, **kw)
    except Reject:
        raise Inconclusive('no problem of this kind found')


def simulate(case, sim, rng):
    Ctl.reset()
    nsim = int(rng.integers(2, 5)) if case['kind'] == 'loop' else 1
    try:
        o = options(rng, sim, PssMode[case['pss']], scheme=IrkSchemes[case['scheme']], rep=IrkRepresentation[case['rep']],
                    cross=CrossComplementarityMode[case['cross']], nsim=nsim)
    except Reject:
        raise Inconclusive('too many elements needed')
    form = 'g' if case['pss'] == 'STEWART' and rng.random() < .3 else 'S'
    solver = NosnocSolver(o, sim.model(form=form))
    if nsim == 1:
        r = solver.solve()
        return o, nsim, np.asarray(r['t_grid'], dtype=float), [np.array(x).flatten() for x in r['x_traj']], list(r['switch_times']), [r['status']]
    lo = NosnocSimLooper(solver, sim.x0.copy(), nsim)
    lo.run()
    r = lo.get_results()
    return o, nsim, np.asarray(r['t_grid'], dtype=float), [np.array(x).flatten() for x in r['X_sim']], list(r['switch_times']), list(r['status'])


def known_case(obs):
    """one crossing, the solver places it at the only stage point of the last element"""
    from mon.env import ca, NosnocModel, NosnocOpts
    Ctl.reset()
    x = ca.SX.sym('x')
    m = NosnocModel(x=x, F=[ca.horzcat(1.0, .4)], c=[x], S=[np.array([[-1], [1]])], x0=np.array([-0.55]))
    o = NosnocOpts()
    o.print_level = 0
    o.terminal_time = .742
    o.irk_scheme = IrkSchemes.GAUSS_LEGENDRE
    o.N_finite_elements, o.n_s = 2, 1
    r = NosnocSolver(o, m).solve()
    off = np.min(np.abs(np.asarray(r['t_grid']) - .55))
    obs.see('simulations')
    if r['status'] == Status.SUCCESS:
        obs.check(off < 1e-5, 'switch-not-on-grid', f'switch at 0.55, grid {r["t_grid"]}')


def run(case, obs):
    if case['kind'] == 'known':
        return known_case(obs)
    rng = np.random.default_rng(case['seed'] + 17)
    sim = draw(case)
    o, nsim, tg, X, sw, status = simulate(case, sim, rng)
    obs.see('simulations')
    obs.out = dict(ok=all(s == Status.SUCCESS for s in status))
    conf = (case['scheme'], case['rep'], case['pss'], case['cross'], o.n_s, o.N_finite_elements, nsim, o.mpcc_mode.name)
    if not obs.out['ok']:
        obs.see('failed_status')
        obs.nontrivial = False
        return
    if abs(tg[-1] - sim.T) > 1e-6 or len(tg) != len(X) or len(X) != o.N_finite_elements * o.N_stages * nsim + 1:
        obs.alarm('grid', f'grid ends at {tg[-1]} with {len(X)} states, horizon {sim.T} ({sim.describe()}, {conf})')
        return
    err = sim.scheme_error(tg, o.irk_scheme, o.n_s)
    tol = 1e-5 + 5 * err
    if late_event(sim, tg, o, 1e-5 + 20 * err, o.N_finite_elements):
        obs.see('event_after_last_gauss_stage')
        obs.nontrivial = False
        return
    if tol > .05:
        obs.see('scheme_too_coarse')
        obs.nontrivial = False
        return
    d = [np.max(np.abs(x - sim.at(t))) for x, t in zip(X, tg)]
    obs.see('states_compared', len(X))
    k = int(np.argmax(d))
    obs.check(d[k] < tol, 'state', lambda: f'state at t={tg[k]} is {X[k]}, exact {sim.at(tg[k])} (tolerance {tol:.1e})\n{sim.describe()} {conf}\ngrid {tg}')
    for e in sim.events:
        obs.see('switches_' + e[1])
        if e[1] == 'exit':
            tt = max(1e-4, 0.2 * np.max(np.diff(tg))) + 50 * err     # the end of sliding is found by a vanishing multiplier
            if np.any(d >= tol):
                continue
        else:
            tt = 1e-5 + 20 * err
        if tt > .1:
            continue
        obs.check(np.min(np.abs(tg - e[0])) < tt, 'switch-not-on-grid:' + e[1], lambda: f'{e[1]} at {e[0]} is no grid point: {tg} (tolerance {tt:.1e})\n{sim.describe()} {conf}')
        if e[2] and listed(sim, e, tg, tt):
            obs.see('listed_compared')
            obs.check(len(sw) and np.min(np.abs(np.array(sw) - e[0])) < tt, 'switch-not-listed', lambda: f'{e[1]} at {e[0]} is not among the reported switch times {sw} '
                      f'(tolerance {tt:.1e})\n{sim.describe()} {conf} {tg}')
    for t in sw:
        obs.see('reported_switch_times')
        obs.check(np.min(np.abs(tg - t)) < 1e-9, 'switch-off-grid', lambda: f'reported switch time {t} is no grid point {tg}')
    obs.sig((conf, tuple(e[1] for e in sim.events), case['kind'], sim.cls))
    obs.sample = dict(case=case, problem=sim.describe(), settings=conf, grid=tg.tolist(), max_state_error=float(max(d)), tolerance=tol)


def listed(sim, e, tg, tt):
    """is the change of the multipliers over this grid point clearly visible at the ends of the neighbouring elements?"""
    i = int(np.argmin(np.abs(tg - e[0])))
    if i == 0 or i == len(tg) - 1:
        return False
    nfe = 1
    if e[1] == 'cross':
        return True
    mode, k = sim.mode_at((tg[i] + tg[i + 1]) / 2)
    if mode.slide is None:
        return False
    p = np.concatenate([sim.ptv[k], sim.pg])
    for t in np.linspace(tg[i] + 1e-9, tg[i + 1] - 1e-9, 7):
        m2, _ = sim.mode_at(t)
        if m2.slide is None or not .2 < sim.theta_plus(sim.at(t), p, m2) < .8:
            return False
    return True


def final(results):
    R = [r['out'] for r in results if r.get('out')]
    if len(R) >= 40 and sum(not r['ok'] for r in R) > .3 * len(R):
        yield 'not-solved', f'{sum(not r["ok"] for r in R)} of {len(R)} well-posed simulations with few transversal switches are reported as failed'
