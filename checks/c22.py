"""C22: speed of time and time freezing."""
import numpy as np
from mon.env import Ctl, NosnocSolver, NosnocModel, NosnocOcp, NosnocOpts, SpeedOfTimeVariableMode, IrkSchemes, IrkRepresentation, PssMode, Status, ca
from mon.struct import gen, grid, judge, names

ID = 'C22'
LEVEL = 'exploration'
RULE = ('random models for every speed of time mode x time freezing x control grid kind x representation x switch detection: dynamics, cost and '
        'clock rows and the bounds of the speed variables recorded at the NLP solver boundary are compared with the documented ones; end to end: '
        'optimal control problems with a physical clock are solved with IPOPT and the clock in the returned solution is compared with the '
        'stage end times and with the integral of the reported speeds; distinct = problem signature')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(sot=names(SpeedOfTimeVariableMode), tf=[True, False, True], equi=[True, True, False], rep=names(IrkRepresentation), use_fesd=[True, False])
    base = dict(mpcc=['SCHOLTES_EQ', 'SCHOLTES_INEQ', 'ELASTIC_EQ', 'FISCHER_BURMEISTER'], n_s_max=3, stepeq=['HEURISTIC_DELTA', 'L2_RELAXED'], ucomp=False)
    yield from gen(seed, 540 if q else 4320, cells, big=8, cost=True, **base)
    for i in range(100 if q else 800):
        yield dict(seed=seed * 1000003 + i, kind='e2e', i=i)


def run(case, obs):
    if case.get('kind') == 'e2e':
        return e2e(case, obs)
    sp, cap, o = judge(case, obs, rows=('dyn', 'lift', 'cont', 'tf', 'sumh'), cost=True, bounds=lambda lab: lab.startswith('sot'), extras=('tf',), K=4)
    obs.see('with_speed_variables', sp.sot != SpeedOfTimeVariableMode.NONE)
    obs.see('with_time_freezing', sp.tf and sp.equi)
    # what is reported
    for pt in cap.points:
        r = pt['res']
        if sp.sot != SpeedOfTimeVariableMode.NONE:
            want = pt['call'].w[np.array(cap.lay.sot, dtype=int)].flatten()
            got = np.array([np.atleast_1d(a) for a in r['sot']], dtype=float).flatten()
            obs.check(got.shape == want.shape and np.allclose(got, want), 'reported-speed', lambda: f'{got} instead of {want}\n{sp.describe()}')


def e2e(case, obs):
    """x' = +-1 across x = 0 plus clock; reach a target, minimal control effort"""
    rng = np.random.default_rng(case['seed'])
    i = case['i']
    mode = [SpeedOfTimeVariableMode.LOCAL, SpeedOfTimeVariableMode.GLOBAL, SpeedOfTimeVariableMode.NONE][i % 3]
    N = int(rng.integers(1, 4))
    T = float(rng.uniform(.8, 2))
    freeze = i % 2 == 0
    o = NosnocOpts()
    o.print_level = 0
    o.N_stages, o.N_finite_elements, o.n_s = N, 2, 2
    o.terminal_time = T
    o.irk_scheme = IrkSchemes.RADAU_IIA
    o.irk_representation = list(IrkRepresentation)[i % 3]
    o.pss_mode = list(PssMode)[(i // 3) % 2]
    o.speed_of_time_variables = mode
    smin, smax = float(rng.uniform(.3, .8)), float(rng.uniform(1.5, 4))
    o.speed_of_time_min, o.speed_of_time_max = smin, smax
    o.sigma_0 = 1.0
    o.comp_tol = 1e-6
    tol = float(10.0**rng.integers(-5, -2))
    x = ca.SX.sym('x', 2)
    u = ca.SX.sym('u', 1)
    if freeze:
        o.time_freezing, o.time_freezing_tolerance = True, tol
    # the clock runs at half speed below the surface: only the speed of time can compensate
    slow = 0.5 if freeze and mode == SpeedOfTimeVariableMode.LOCAL else 1.0
    f1 = ca.vertcat(u, 1.0)
    f2 = ca.vertcat(u + 1.5, slow)
    x0 = np.array([-float(rng.uniform(.3, .8)), float(rng.choice([0.0, 1.0]))])
    m = NosnocModel(x=x, x0=x0, F=[ca.horzcat(f1, f2)], c=[x[0]], S=[np.array([[1], [-1]])], u=u, t_var=x[1])
    if freeze:
        ocp = NosnocOcp(f_q=u**2, lbu=-2 * np.ones(1), ubu=2 * np.ones(1))
    else:
        ocp = NosnocOcp(f_terminal=-x[1] if i % 4 == 1 else x[1], lbu=-2 * np.ones(1), ubu=2 * np.ones(1))
    Ctl.reset()
    s = NosnocSolver(o, m, ocp)
    r = s.solve()
    desc = dict(mode=mode.name, N=N, T=T, freeze=freeze, slow=slow, smin=smin, smax=smax, rep=o.irk_representation.name, pss=o.pss_mode.name, x0=x0.tolist())
    obs.sig((mode.name, N, freeze, o.irk_representation.name, o.pss_mode.name))
    if r['status'] != Status.SUCCESS:
        obs.see('undecided_solves')
        obs.nontrivial = False
        return
    X = np.array(r['x_traj'])
    tg = np.array(r['t_grid'])
    n = o.Nfe_list[0]
    if mode == SpeedOfTimeVariableMode.NONE:
        sot = np.ones(N)
    else:
        a = np.array([np.atleast_1d(v) for v in r['sot']]).flatten()
        obs.check(len(a) == (N if mode == SpeedOfTimeVariableMode.LOCAL else 1), 'speed-count', f'{a} {desc}')
        sot = np.resize(a, N)
        obs.check(np.all(sot >= smin - 1e-6) and np.all(sot <= smax + 1e-6), 'speed-bounds', f'speeds {sot} outside [{smin}, {smax}] {desc}')
    clock = X[:, 1]
    if slow == 1.0:
        want = x0[1] + np.concatenate(([0.0], np.cumsum(np.diff(tg) * np.repeat(sot, n))))
        obs.check(np.allclose(clock, want, atol=1e-5), 'clock', lambda: f'clock {clock} instead of {want} with speeds {sot} {desc}')
        obs.see('clock_values', len(clock))
    if freeze:
        end = clock[np.arange(1, N + 1) * n]
        want = x0[1] + T / N * np.arange(1, N + 1)
        obs.check(np.all(np.abs(end - want) <= tol + 1e-5), 'clock-sync', lambda: f'clock {end} at the stage ends {want}, tolerance {tol} {desc}')
        obs.see('clock_synchronisations', N)
    elif mode != SpeedOfTimeVariableMode.NONE:
        best = smax if i % 4 == 1 else smin
        obs.check(np.allclose(sot, best, atol=1e-3), 'speed-bounds', lambda: f'speeds {sot} of a clock optimal solution are not {best} {desc}')
    obs.see('solved')
    obs.sample = dict(case=case, problem=desc, speeds=sot.tolist())
