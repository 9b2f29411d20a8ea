"""C04: time grid."""
import numpy as np
from mon.struct import gen, grid, judge, names
from mon.env import IrkSchemes, NosnocOpts, NosnocSolver, Ctl
from mon.spec import Spec, decode

ID = 'C04'
LEVEL = 'exploration'
RULE = ('random models for every combination of switch detection, control grid kind, stage and element counts; observed: bounds of '
        'the step sizes and rows summing step sizes in the recorded NLP (against the nominal band and stage lengths), and the '
        'grids reported for marked solution vectors with feasible step sizes; distinct = problem signature')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(use_fesd=[True, True, False], equi=[True, False], N_stages=[1, 2, 3, 4])
    for c in gen(seed, 768 if q else 6144, cells, big=10, n_s_max=2, n_sys=1):
        yield c
    for c in gen(seed + 77, 128 if q else 1024, grid(use_fesd=[True], equi=[True, False], N_stages=[1, 2, 3]), n_s_max=2, n_sys=1):
        yield dict(c, default_band=True)


def run(case, obs):
    sp, cap, o = judge(case, obs, rows=('sumh',), bounds=lambda lab: lab.startswith('h['))
    if case.get('default_band'):
        # default options: step sizes cannot become negative
        opts = sp.opts()
        opts.gamma_h = NosnocOpts().gamma_h
        Ctl.reset(handler=lambda p, c: (c.x0, 'Solve_Succeeded'))
        s = NosnocSolver(opts, sp.model(), sp.ocp())
        s.solve()
        c = Ctl.proxies[0].calls[0]
        ih = [st['h'] for k in cap.lay.fe for st in k]
        obs.check(np.all(c.lbx[ih] >= 0), 'negative-step', lambda: f'lower bounds of steps {c.lbx[ih]}')
        obs.see('default_bands')
    # step sizes that satisfy the grid constraints -> reported grids
    rng = np.random.default_rng(case['seed'])
    hk = sp.T / sp.N
    hs = []
    w = rng.normal(size=cap.nw)
    for k, st in enumerate(cap.lay.fe):
        if sp.use_fesd:
            a = rng.uniform(0.5, 1.5, size=len(st))
            a *= hk / a.sum()
            if not sp.equi:
                a = a * rng.uniform(.5, 1.5)
        else:
            a = np.full(len(st), hk / len(st))
        hs.append(a)
    if sp.use_fesd and not sp.equi:
        f = sp.T / sum(a.sum() for a in hs)
        hs = [a * f for a in hs]
    for st, a in zip(cap.lay.fe, hs):
        for d, h in zip(st, a):
            if d['h'] is not None:
                w[d['h']] = h
    Ctl.handler = lambda p, c: (w, 'Solve_Succeeded')
    res = cap.solver.solve()
    # the constraints accept exactly this kind of grid: the rows of category sumh vanish
    flat_h = np.concatenate(hs)
    tg = np.concatenate(([0.0], np.cumsum(flat_h)))
    obs.check(np.allclose(np.array(res['time_steps'], dtype=float).flatten(), flat_h, atol=1e-12), 'time_steps',
              lambda: f'time_steps {res["time_steps"]} instead of {flat_h}')
    obs.check(np.allclose(np.array(res['t_grid'], dtype=float).flatten(), tg, atol=1e-12), 't_grid', lambda: f'{res["t_grid"]} vs {tg}')
    cu = np.concatenate(([0], np.cumsum(sp.nfe)))
    obs.check(np.allclose(np.array(res['t_grid_u'], dtype=float).flatten(), tg[cu], atol=1e-12), 't_grid_u',
              lambda: f'{res["t_grid_u"]} vs {tg[cu]}')
    obs.check(abs(res['t_grid'][-1] - sp.T) < 1e-9, 'horizon', lambda: f'grid ends at {res["t_grid"][-1]} instead of {sp.T}')
    obs.see('grids_compared')
