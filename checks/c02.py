"""C02: complementarity system and dynamics of solutions reported as successful."""
import numpy as np
from mon.core import Inconclusive
from mon.env import (Ctl, NosnocSolver, NosnocSimLooper, NosnocOcp, NosnocModel, PssMode, IrkSchemes, IrkRepresentation, CrossComplementarityMode,
                     Status, MpccMode, ca)
from mon.refnlp import flat, collocation
from mon.sims import Sim, Reject, options
from mon.spec import ELASTIC, FB_MODES
from mon.struct import names, grid

ID = 'C02'
LEVEL = 'exploration'
RULE = ('random piecewise smooth simulations and optimal control problems solved by the real solver in every MPCC mode, reformulation, scheme, '
        'representation and coupling mode (also with fixed step sizes): in every solution reported as successful the multipliers of every stage are '
        'judged against the regions of the stage states, and every step is recomputed from those multipliers with an independent tableau; '
        'distinct = (settings, problem class, multipliers seen)')
ASSUME = ['complementarity tolerance: ten times the larger one of comp_tol and the final homotopy parameter',
          'BOOLEAN mode is excluded: IPOPT relaxes the binaries (recorded as known finding)',
          'elastic modes whose slack is not driven to zero are judged with that slack']
LIMIT = {'quick': 60, 'thorough': 200}
BUDGET = {'quick': 420, 'thorough': 2400}
KNOWN = {'boolean-relaxed': dict(seed=0, kind='boolean')}


def cases(tier, seed):
    q = tier == 'quick'
    n = 384 if q else 6000
    modes = names(MpccMode, 'BOOLEAN')
    cells = grid(scheme=names(IrkSchemes), rep=names(IrkRepresentation), pss=names(PssMode), cross=names(CrossComplementarityMode))
    for i in range(n):
        m = (['SCHOLTES_INEQ'] * 3 + modes)[i % (len(modes) + 3)]
        kind = ['sim', 'sim', 'ocp', 'loop', 'nofesd'][(i // 7) % 5]
        if m.startswith('FISCHER'):
            kind = 'nofesd'     # one equation per pair: too few degrees of freedom together with variable steps
        yield dict(seed=seed * 1000003 + i, kind=kind, mpcc=m, cls=['const', 'linear', 'smooth'][(i // 3) % 3], **cells[i % len(cells)])


def boolean(obs):
    Ctl.reset()
    from mon.env import NosnocOpts
    x = ca.SX.sym('x')
    m = NosnocModel(x=x, F=[ca.horzcat(1.0, .4)], c=[x], S=[np.array([[-1], [1]])], x0=np.array([-0.55]))
    o = NosnocOpts()
    o.print_level = 0
    o.terminal_time = .742
    o.mpcc_mode = MpccMode.BOOLEAN
    s = NosnocSolver(o, m)
    r = s.solve()
    obs.see('simulations')
    if r['status'] == Status.SUCCESS:
        worst = 0.0
        p, w = s.problem, r['w_sol']
        for i in range(o.N_finite_elements):
            for a in p.ind_theta[0][i]:
                for b in p.ind_lam[0][i]:
                    worst = max(worst, np.max(w[flat(a)] * w[flat(b)]))
        obs.check(worst < 1e-6, 'boolean', f'product of multipliers {worst}')


def run(case, obs):
    if case['kind'] == 'boolean':
        return boolean(obs)
    rng = np.random.default_rng(case['seed'] + 29)
    pss = PssMode[case['pss']]
    mpcc = MpccMode[case['mpcc']]
    ocp = case['kind'] == 'ocp'
    N = int(rng.integers(1, 4)) if ocp else 1
    try:
        sim = Sim(case['seed'], cls=case['cls'], sparse=pss == PssMode.STEP, npg=int(case['seed'] % 2), npt=1 if N > 1 else 0, N=N, events=(0, 6) if N > 1 else (0, 3))
        nsim = 2 if case['kind'] == 'loop' else 1
        o = options(rng, sim, pss, scheme=IrkSchemes[case['scheme']], rep=IrkRepresentation[case['rep']], cross=CrossComplementarityMode[case['cross']], mpcc=mpcc, nsim=nsim)
    except Reject:
        raise Inconclusive('no problem')
    if mpcc in FB_MODES:     # documented: unsupported together with sums
        o.cross_comp_mode = CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER
    if case['kind'] == 'nofesd':
        o.use_fesd = False
    Ctl.reset()
    B = None
    if ocp:
        model, oc, B = with_control(sim, rng)
        solver = NosnocSolver(o, model, oc)
    else:
        solver = NosnocSolver(o, sim.model())
    if nsim == 1:
        r = solver.solve()
        sols = [(r['w_sol'], r['status'], sim.x0)]
    else:
        lo = NosnocSimLooper(solver, sim.x0.copy(), nsim)
        lo.run()
        r = lo.get_results()
        sols, x = [], sim.x0
        for w, st in zip(r['w_sim'], r['status']):
            sols.append((w, st, x))
            x = np.asarray(w)[flat(solver.problem.ind_x[-1][-1][-1])]
    seen = 0
    for w, st, x0 in sols:
        obs.see('solutions')
        if st != Status.SUCCESS:
            obs.see('failed_status')
            continue
        seen += 1
        judge(obs, sim, solver.problem, o, np.asarray(w, dtype=float), np.asarray(x0, dtype=float).flatten(), case, B)
    obs.out = dict(mpcc=case['mpcc'], ok=seen == len(sols))
    if not seen:
        obs.nontrivial = False
    obs.sample = dict(case=case, problem=sim.describe(), successful=seen)


def with_control(sim, rng):
    """every field gets its own gain for a scalar control"""
    x, u = ca.SX.sym('x', sim.nx), ca.SX.sym('u')
    pt, pg = ca.SX.sym('pt', sim.npt), ca.SX.sym('pg', sim.npg)
    p = ca.vertcat(pt, pg)
    B = [[rng.normal(size=sim.nx) * .5 for _ in d['F']] for d in sim.sys]
    kw = {}
    if sim.npt:
        kw.update(p_time_var=pt, p_time_var_val=sim.ptv.copy())
    if sim.npg:
        kw.update(p_global=pg, p_global_val=sim.pg.copy())
    c = [ca.vertcat(*[ca.dot(ca.DM(sim.NC[j]), x) - sim.dC[j] for j in d['surf']]) for d in sim.sys]
    F = [ca.horzcat(*[f.sym(x, p) + ca.DM(b) * u for f, b in zip(d['F'], bb)]) for d, bb in zip(sim.sys, B)]
    m = NosnocModel(x=x, u=u, F=F, c=c, S=[d['S'].copy() for d in sim.sys], x0=sim.x0.copy(), name='ocp', **kw)
    return m, NosnocOcp(lbu=np.array([-1.0]), ubu=np.array([1.0]), f_q=u**2 + .1 * ca.sumsqr(x), f_terminal=ca.sumsqr(x)), B


def judge(obs, sim, prob, o, w, x0, case, B):
    tolc = 10 * max(o.comp_tol, o.sigma_N)
    if o.mpcc_mode in ELASTIC:
        s = float(np.max(np.abs(w[flat(prob.ind_elastic)])))
        if s > 10 * o.comp_tol:
            obs.see('slack_left')
            tolc += 2 * s
    eps = 1e-7
    c_, A, b, _, _ = collocation(o.irk_scheme, o.n_s)
    n_s = o.n_s
    x = x0
    ih = flat(prob.ind_h)
    kh = 0
    pattern = []
    for k in range(o.N_stages):
        p = np.concatenate([sim.ptv[k], sim.pg]) if sim.npt or sim.npg else np.zeros(0)
        u = w[flat(prob.ind_u[k])] if B is not None else None
        for i in range(o.Nfe_list[k]):
            h = w[ih[kh]] if o.use_fesd else o.terminal_time / o.N_stages / o.Nfe_list[k]
            kh += 1
            TH, AL = [], []
            for j in range(n_s):
                if o.pss_mode == PssMode.STEWART:
                    th = [w[flat(a)] for a in prob.ind_theta[k][i][j]]
                    for t in th:
                        obs.check(np.min(t) > -eps and abs(np.sum(t) - 1) < 1e-6, 'convex', lambda: f'convex multipliers {t} of stage {j} of element {i} ({case})')
                    AL.append(None)
                else:
                    al = [w[flat(a)] for a in prob.ind_alpha[k][i][j]]
                    for a in al:
                        obs.check(np.min(a) > -eps and np.max(a) < 1 + eps, 'convex', lambda: f'step variables {a} of stage {j} of element {i} ({case})')
                    th = [np.array([np.prod([a[m] if r == 1 else 1 - a[m] if r == -1 else 1.0 for m, r in enumerate(row)]) for row in d['S']])
                          for d, a in zip(sim.sys, al)]
                    AL.append(al)
                TH.append(th)
                obs.see('stages')
            names_ = ('ind_lam',) if o.pss_mode == PssMode.STEWART else ('ind_lambda_n', 'ind_lambda_p')
            for nm in names_:
                v = w[flat(getattr(prob, nm)[k][i])]
                obs.check(np.min(v) > -eps, 'nonnegative', lambda: f'{nm} of element {i} contains {np.min(v)} ({case})')
            # the step recomputed from the multipliers
            K = np.zeros((n_s, sim.nx))

            def rate(xx, th):
                f = np.zeros(sim.nx)
                for s, (d, t) in enumerate(zip(sim.sys, th)):
                    for m, F in enumerate(d['F']):
                        f = f + t[m] * (F.num(xx, p) + (B[s][m] * u[0] if B is not None else 0.0))
                return f
            for _ in range(100):
                Kn = np.array([rate(x + h * (A[j] @ K), TH[j]) for j in range(n_s)])
                dk = np.max(np.abs(Kn - K))
                K = Kn
                if dk < 1e-12:
                    break
            else:
                raise Inconclusive('implicit step does not contract')
            XS = [x + h * (A[j] @ K) for j in range(n_s)]
            xe = x + h * (b @ K)
            got = w[flat(prob.ind_x[k][i][-1])]
            tolx = 1e-6 * (1 + np.max(np.abs(x)))
            obs.check(np.max(np.abs(got - xe)) < tolx, 'step', lambda: f'end of element {i} of stage {k} is {got}, the convex combination of the fields gives {xe} ({case})')
            obs.see('steps')
            if o.irk_representation != IrkRepresentation.DIFFERENTIAL:
                for j in range(n_s):
                    xs = w[flat(prob.ind_x[k][i][j])]
                    obs.check(np.max(np.abs(xs - XS[j])) < tolx, 'stage-state', lambda: f'state of stage {j} of element {i} is {xs} instead of {XS[j]} ({case})')
            # active only in the closure of the region
            for j in range(n_s):
                cc = sim.c(XS[j])
                for s, d in enumerate(sim.sys):
                    v = cc[d['surf']]
                    if o.pss_mode == PssMode.STEWART:
                        for m, row in enumerate(d['S']):
                            out = 2 * np.sum(np.maximum(0, -row * v))
                            obs.check(TH[j][s][m] * out < tolc + 1e-6 * min(1, abs(TH[j][s][m])), 'closure', lambda: f'region {m} (signs {row}) has multiplier {TH[j][s][m]:.3e} at stage '
                                      f'{j} of element {i} of stage {k} where the switching functions are {v} ({case}, {sim.describe()})')
                    else:
                        a = AL[j][s]
                        out = np.maximum(a * np.maximum(0, -v), (1 - a) * np.maximum(0, v))
                        obs.check(np.max(out) < tolc + 1e-6 * 0.1, 'closure', lambda: f'step variables {a} at stage {j} of element {i} of stage {k} where the switching functions are {v} ({case}, {sim.describe()})')
                    pattern.append(tuple(np.round(TH[j][s]).astype(int)))
            x = got
    obs.sig((case['kind'], case['mpcc'], case['scheme'], case['rep'], case['pss'], case['cross'], n_s, len(set(pattern))))


def final(results):
    R = [r['out'] for r in results if r.get('out') and r['out']['mpcc'].startswith('SCHOLTES_INEQ')]
    if len(R) >= 30 and sum(not r['ok'] for r in R) > .45 * len(R):
        yield 'not-solved', f'{sum(not r["ok"] for r in R)} of {len(R)} well-posed problems are reported as failed'
