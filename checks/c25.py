"""C25: least squares constraint handling."""
import numpy as np
from mon.env import Ctl, ConstraintHandling, MpccMode, NosnocSolver, StepEquilibrationMode
from mon.spec import Spec, decode
from mon.struct import gen, grid, names
from mon.core import Inconclusive

ID = 'C25'
LEVEL = 'exploration'
RULE = ('random problems built twice, with exact and with least squares constraint handling; at random points and settings the objective the NLP '
        'solver receives with least squares is compared with the exact objective plus the squares of all exact residuals, bounds and guesses with '
        'those of the exact problem; problems with inequality rows must be refused; distinct = (accepted or refused, problem signature)')


def cases(tier, seed):
    q = tier == 'quick'
    fb = ['FISCHER_BURMEISTER', 'FISCHER_BURMEISTER_IP_AUG', 'SCHOLTES_EQ']
    yield from gen(seed, 576 if q else 4608, grid(mpcc=fb, stepeq=['DIRECT', 'DIRECT_COMPLEMENTARITY', 'L2_RELAXED', 'HEURISTIC_DELTA', 'HEURISTIC_MEAN']), big=12,
                   lsq=True, tf=False, n_s_max=2, fe_max=3)
    # anything, mostly with inequalities
    for c in gen(seed + 9, 288 if q else 2304, grid(mpcc=names(MpccMode, 'BOOLEAN'), tf=[False, True, False]), n_s_max=2, fe_max=2):
        yield dict(c, any=True)


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    sp.lsq = False
    handler = lambda p, c: (rng.normal(size=p.nw), 'Solve_Succeeded')   # noqa: E731
    Ctl.reset(handler=handler)
    oe, ol = sp.opts(), sp.opts()
    oe.max_iter_homotopy = ol.max_iter_homotopy = 1
    ol.constraint_handling = ConstraintHandling.LEAST_SQUARES
    e = NosnocSolver(oe, sp.model(), sp.ocp())
    pe = Ctl.proxies[-1]
    e.solve()
    ce = pe.calls[-1]
    ok = np.all(ce.lbg == 0) and np.all(ce.ubg == 0)
    desc = sp.describe()
    try:
        s = NosnocSolver(ol, sp.model(), sp.ocp())
    except Exception as err:
        if not ok:
            obs.see('refused')
            obs.sig(('refused', sp.signature()))
            return
        raise err
    if not obs.check(ok, 'inequalities', lambda: f'least squares handling accepts a problem with {np.sum((ce.lbg != 0) | (ce.ubg != 0))} rows that are not g = 0 {desc}'):
        return
    px = Ctl.proxies[-1]
    if px.nw != pe.nw or px.np_ != pe.np_:
        raise Inconclusive('twin problems have different variables')
    for k in range(4):
        x0 = sp.x0
        if k:
            x0 = rng.normal(size=sp.nx)
            pg, ptv = rng.normal(size=sp.npg), rng.normal(size=(sp.N, sp.npt))
            for t in (e, s):
                t.set('x0', x0.copy())
                if sp.npg:
                    t.set('p_global', pg.copy())
                if sp.npt:
                    t.set('p_time_var', ptv.copy())
            sg = float(10**rng.uniform(-2, 1))
            oe.sigma_0 = ol.sigma_0 = sg
        Ctl.handler = handler
        e.solve()
        r = s.solve()
        a, b = pe.calls[-1], px.calls[-1]
        obs.check(b.g.size == 0 and px.ng == 0 and b.lbg.size == 0, 'constraints', lambda: f'least squares problem still has {px.ng} constraints {desc}')
        for what in ('lbx', 'ubx', 'p'):
            obs.check(np.array_equal(getattr(a, what), getattr(b, what)), 'bounds', lambda: f'{what} differs from the exact problem {desc}')
        if k == 0:
            obs.check(np.array_equal(ce.x0, b.x0), 'guess', lambda: f'guess differs from the exact problem {desc}')
        f, g = pe.fg(b.w, b.p)
        want = f + float(np.sum(g**2))
        obs.check(abs(b.f - want) <= 1e-9 * (1 + abs(f) + float(np.sum(g**2))), 'objective',
                  lambda: f'least squares objective {b.f} instead of {f} + {np.sum(g**2)} from {g.size} rows {desc}')
        obs.check(abs(float(r['cost_val']) - b.f) <= 1e-9 * (1 + abs(b.f)), 'cost_val', lambda: f'{r["cost_val"]} instead of {b.f}')
        # every single residual is seen: change of the objective along single components
        obs.see('objectives')
        obs.see('residuals', g.size)
    obs.sig(('accepted', sp.signature()))
    obs.sample = dict(case=case, rows=int(pe.ng), problem=desc)
