"""C28: fixing the active set of the first finite element."""
import numpy as np
from mon.core import Inconclusive
from mon.env import Ctl, NosnocSolver, NosnocSimLooper, PssMode, Status, IrkSchemes, CrossComplementarityMode, IrkRepresentation, MpccMode
from mon.refnlp import flat
from mon.script import Script, lam00, GOOD, BAD
from mon.sims import Sim, Reject, options, late_event
from mon.spec import Spec, decode
from mon.struct import gen, grid, names

ID = 'C28'
LEVEL = 'exploration'
RULE = ('random problems with several subsystems of different size, controls, parameters and control stages, initial states inside regions and on '
        'switching surfaces: bounds, guesses and rows of all NLPs with the option are compared with those of the same problem without it and the '
        'independently computed multipliers of the initial state, over several solves from changing states; simulations solved with and without the '
        'option are compared; distinct = (problem class, number of fixed multipliers)')


def cases(tier, seed):
    q = tier == 'quick'
    for c in gen(seed, 420 if q else 4200, grid(n_sys=[1, 2, 3], regions=['s', 'g'], use_fesd=[True, True, False], pss=['STEWART', 'STEWART', 'STEWART', 'STEP']),
                 big=12, general=False, n_s_max=3, fe_max=3, stage_max=3):
        yield dict(c, kind='script')
    for i in range(60 if q else 900):
        yield dict(seed=seed * 1000003 + i, kind='e2e', loop=bool(i % 2), scheme=names(IrkSchemes)[(i // 2) % 2], cross=names(CrossComplementarityMode)[(i // 4) % 2],
                   rep=names(IrkRepresentation)[i % 3])


def on_surface(sp, x0, ptv, pg, rng, tol=1e-12, lim=20):
    """a state on one of the switching surfaces (or where two indicators are equal and smallest), by Newton steps"""
    p = np.concatenate([ptv[0], pg])
    z = sp.z0 if sp.z0 is not None else np.zeros(sp.nz)
    d = sp.sys[rng.integers(sp.n_sys)]
    if sp.gst:
        g0 = d['g'].num(x=x0, p=p, z=z)
        a, b = np.argsort(g0)[:2]
        fun = lambda x: (lambda g: g[a] - g[b])(d['g'].num(x=x, p=p, z=z))  # noqa: E731
    else:
        j = rng.integers(d['nc'])
        fun = lambda x: d['c'].num(x=x, p=p, z=z)[j]  # noqa: E731
    x = np.array(x0)
    for _ in range(40):
        v = fun(x)
        if abs(v) < 1e-14:
            break
        gr = np.array([(fun(x + 1e-6 * e) - fun(x - 1e-6 * e)) / 2e-6 for e in np.eye(len(x))])
        n2 = gr @ gr
        if n2 < 1e-8:
            return None
        x = x - v * gr / n2
    return x if abs(fun(x)) < tol and np.max(np.abs(x)) < lim else None


def run(case, obs):
    if case['kind'] == 'e2e':
        return e2e(case, obs)
    rng = np.random.default_rng(case['seed'] + 5)
    sp = Spec(case['seed'], **decode(case['feat']))
    o1 = sp.opts()
    o1.max_iter_homotopy = 2
    o1.sigma_N = 1e-12
    plain = Script(sp, o1, rng)
    plain_calls = []
    o2 = sp.opts()
    o2.max_iter_homotopy = 2
    o2.sigma_N = 1e-12
    o2.comp_tol = float(10.0**rng.uniform(-9, -5))
    o2.fix_active_set_fe0 = True
    p1 = plain.proxy
    sc = Script(sp, o2, rng)
    lay, nw = sc.lay, sc.nw
    if plain.nw != nw:
        obs.alarm('problem', f'{nw} variables with the option, {plain.nw} without')
        return
    x0, ptv, pg = sp.x0.copy(), sp.ptv_default().copy(), sp.pg.copy()
    if sp.N and rng.random() < .7 and not sp.npt:
        pass
    for rep in range(8):
        if rep:
            x0 = rng.normal(size=sp.nx)
            if rep in (2, 4, 5):
                y = on_surface(sp, x0, ptv, pg, rng)
                x0 = x0 if y is None else y
            if rep in (4, 5):  # close to the surface, on either side
                x0 = x0 + 10.0**rng.uniform(-5, -2) * rng.normal(size=sp.nx)
            if rep == 6:  # multipliers of very different size
                x0 = 10.0**rng.uniform(1, 4) * rng.normal(size=sp.nx)
            if rep == 7:
                y = on_surface(sp, 10.0**rng.uniform(2, 5) * rng.normal(size=sp.nx), ptv, pg, rng, o2.comp_tol, 1e6)
                if y is None:
                    continue
                x0 = y + o2.comp_tol * 10.0**rng.uniform(3, 5) * rng.normal(size=sp.nx)
            for s in (plain, sc):
                s.solver.set('x0', x0.copy())
            if sp.npt:
                ptv = rng.normal(size=(sp.N, sp.npt))
                for s in (plain, sc):
                    s.solver.set('p_time_var', ptv.copy())
        l00 = lam00(sp, x0, ptv, pg)
        if np.any((l00 > o2.comp_tol * 1e-2) & (l00 < o2.comp_tol * 1e3)):
            continue
        big, small = np.max(l00, initial=0), np.min(l00[l00 > o2.comp_tol], initial=np.inf)
        obs.see('multipliers_of_different_size', small < 1e-3 * big)
        obs.see('multipliers_of_very_different_size', small < 10 * o2.comp_tol * big)
        W = [rng.normal(size=nw) for _ in range(2)]
        runs = []
        for s in (plain, sc):
            n0 = len(s.proxy.calls)

            def handler(p, c, s=s, n0=n0):
                return W[len(s.proxy.calls) - n0], 'Solve_Succeeded'
            Ctl.handler = handler
            s.solver.solve()
            Ctl.handler = None
            runs.append(s.proxy.calls[n0:])
        A, B = runs
        fix = np.zeros(nw, dtype=bool)
        if sp.pss == PssMode.STEWART:
            d = lay.fe[0][0]
            pos = l00 > 0.5 * o2.comp_tol
            for j in range(sp.n_s):
                fix[np.array(flat(d['th'][j]))[pos]] = True
        obs.check(len(A) == len(B), 'steps', lambda: f'{len(B)} NLPs with the option, {len(A)} without')
        for k, (a, b) in enumerate(zip(A, B)):
            obs.see('nlp_calls')
            elb, eub = a.lbx.copy(), a.ubx.copy()
            elb[fix] = 0
            eub[fix] = 0
            bad = np.where((b.lbx != elb) | (b.ubx != eub))[0]
            obs.check(bad.size == 0, 'bounds', lambda: f'solve {rep}, NLP {k}: component {bad[0]} ({label(lay, bad[0])}) has bounds [{b.lbx[bad[0]]}, {b.ubx[bad[0]]}] instead of '
                      f'[{elb[bad[0]]}, {eub[bad[0]]}], initial multipliers {l00}\n{sp.describe()}')
            obs.check(np.array_equal(a.lbg, b.lbg) and np.array_equal(a.ubg, b.ubg), 'rows', 'constraint bounds differ')
            e0 = a.x0.copy()
            if k == 0:
                e0[fix] = 0
                g = b.x0.copy()
                g[fix] = 0
                obs.check(np.array_equal(g, e0), 'guess', lambda: f'initial guess of variables that are not fixed differs: {np.where(g != e0)[0][:4]}')
        obs.see('fixed', fix.sum())
        obs.sig((sp.pss.name, sp.gst, sp.n_sys, sp.n_s, sp.use_fesd, int(fix.sum()), rep == 2))
    obs.sample = dict(case=case, problem=sp.describe(), fixed=int(fix.sum()))


def label(lay, j):
    for lab, ind in lay.groups():
        if j in ind:
            return lab
    return '?'


def e2e(case, obs):
    rng = np.random.default_rng(case['seed'])
    try:
        sim = Sim(case['seed'], cls=['const', 'linear'][case['seed'] % 2], events=(0, 3))
        nsim = 3 if case['loop'] else 1
        st = rng.bit_generator.state
        ends, grids = [], []
        for fixed in (False, True):
            rng.bit_generator.state = st
            o = options(rng, sim, PssMode.STEWART, scheme=IrkSchemes[case['scheme']], cross=CrossComplementarityMode[case['cross']], rep=IrkRepresentation[case['rep']],
                        mpcc=MpccMode.SCHOLTES_INEQ, nsim=nsim)
            o.fix_active_set_fe0 = fixed
            Ctl.reset()
            lo = NosnocSimLooper(NosnocSolver(o, sim.model()), sim.x0.copy(), nsim)
            lo.run()
            r = lo.get_results()
            obs.see('simulations')
            ends.append(np.array(r['X_sim'][-1]).flatten() if all(s == Status.SUCCESS for s in r['status']) else None)
            grids.append(np.asarray(r['t_grid']))
    except Reject:
        raise Inconclusive('no problem')
    obs.out = dict(plain=ends[0] is not None, fixed=ends[1] is not None)
    if ends[0] is None or ends[1] is None:
        obs.nontrivial = False
        obs.see('failed_status')
        return
    err = max(sim.scheme_error(g, o.irk_scheme, o.n_s) for g in grids)
    if any(late_event(sim, g, o, 1e-5 + 20 * err, o.N_finite_elements) for g in grids):
        obs.see('event_after_last_gauss_stage')
        return
    dx = np.max(np.abs(ends[0] - ends[1]))
    obs.check(dx < 2e-5 + 10 * err, 'result', lambda: f'final states {ends[0]} without and {ends[1]} with the option, exact {sim.x_end} ({case}, {sim.describe()})')
    obs.see('results_compared')
    obs.sig(('e2e', case['scheme'], case['rep'], case['cross'], nsim, tuple(e[1] for e in sim.events)))
    obs.sample = dict(case=case, difference=float(dx))


def final(results):
    R = [r['out'] for r in results if r.get('out')]
    a, b = sum(r['plain'] for r in R), sum(r['fixed'] for r in R)
    if len(R) >= 30 and b < .6 * a:
        yield 'not-solved', f'of {len(R)} simulations {a} succeed without the option and only {b} with it'
