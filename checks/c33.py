"""C33: optimal control problems reach their known optimum."""
import numpy as np
from mon.core import Inconclusive
from mon.env import (ca, Ctl, NosnocModel, NosnocOcp, NosnocOpts, NosnocSolver, PssMode, IrkSchemes, IrkRepresentation, CrossComplementarityMode,
                     Status, MpccMode, StepEquilibrationMode, SpeedOfTimeVariableMode, HomotopyUpdateRule)
from mon.refnlp import flat
from mon.struct import grid, names

ID = 'C33'
LEVEL = 'exploration'
TECH = 'offline checker over the solutions of real runs: independent event-driven resimulation of the returned controls and analytic optima'
RULE = ('random optimal control problems over switched integrators (several gears, sliding along a surface, several subsystems, stage-wise parameters, '
        'global variables, time-optimal with speed of time) whose optimal cost and controls are known in closed form, solved by the real solver in all '
        'reformulations, schemes and representations: the returned controls are integrated exactly through all mode changes and must reproduce the '
        'reported states, terminal and path conditions and cost; no reported cost lies below the optimum, and the optimum is reached; '
        'distinct = (problem family, settings, number of mode changes)')
ASSUME = ['Gauss-Legendre schemes are left out: the optimiser exploits the known finding gauss-last-element of C01',
          'elastic runs whose slack does not vanish count as not solved',
          'the NLP solver is local: single runs may fail or end in another stationary point, so reaching the optimum is judged over all runs of a family '
          '(at least 40 % within 2 % and 65 % within 10 %; usually 80 % and 95 %), everything else run by run']
LIMIT = {'quick': 60, 'thorough': 200}
BUDGET = {'quick': 420, 'thorough': 2400}
FAM = ['gears', 'slide', 'stageparam', 'time', 'penalty', 'globalvar', 'two', 'freegrid', 'limit', 'path', 'alg', 'pathcomp']


def cases(tier, seed):
    n = 600 if tier == 'quick' else 3200
    cells = grid(scheme=['RADAU_IIA'], rep=names(IrkRepresentation), pss=names(PssMode), cross=names(CrossComplementarityMode))
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, fam=FAM[i % len(FAM)], mpcc=['SCHOLTES_INEQ', 'SCHOLTES_INEQ', 'SCHOLTES_INEQ', 'ELASTIC_INEQ'][(i // len(FAM)) % 4],
                   **cells[(i * 7) % len(cells)])


class Gears:
    """x' = c_i * s on intervals of x; all gears forward: position is a monotone function of the input integral"""

    def __init__(self, rng, nreg):
        self.c = rng.uniform(.5, 2.5, size=nreg) if nreg > 1 else np.array([1.0])
        self.b = np.cumsum(rng.uniform(.35, .6, size=nreg - 1)) - .3
        self.x0 = float(self.b[0] - rng.uniform(.2, .4))
        self.xT = float(self.b[-1] + rng.uniform(.2, .4))

    def S(self, x):
        """input integral needed to get from x0 to x"""
        e = np.concatenate([[self.x0], self.b, [np.inf]])
        return sum(max(0.0, min(x, e[i + 1]) - e[i]) / self.c[i] for i in range(len(self.c))) + min(0.0, (x - self.x0) / self.c[0])

    def X(self, s):
        x = self.x0
        if s <= 0:
            return x + self.c[0] * s
        for i in range(len(self.c)):
            hi = self.b[i] if i < len(self.b) else np.inf
            d = (hi - x) / self.c[i]
            if s <= d:
                return x + self.c[i] * s
            s, x = s - d, hi
        return x

    def signs(self):
        nc = len(self.b)
        return np.array([[1] * i + [-1] * (nc - i) for i in range(nc + 1)])


def options(case, rng, N, T):
    o = NosnocOpts()
    o.print_level = 0
    o.terminal_time = T
    o.N_stages = N
    o.N_finite_elements = 3
    o.n_s = int(rng.integers(1, 4))
    o.irk_scheme = IrkSchemes[case['scheme']]
    o.irk_representation = IrkRepresentation[case['rep']]
    o.pss_mode = PssMode[case['pss']]
    o.cross_comp_mode = CrossComplementarityMode[case['cross']]
    o.mpcc_mode = MpccMode[case['mpcc']]
    o.step_equilibration = [StepEquilibrationMode.HEURISTIC_MEAN, StepEquilibrationMode.HEURISTIC_DELTA, StepEquilibrationMode.L2_RELAXED][int(rng.integers(3))]
    o.rho_h = 1e-3
    o.comp_tol = 1e-8
    o.sigma_N = 1e-9
    o.homotopy_update_slope = .1
    o.max_iter_homotopy = 12
    o.opts_casadi_nlp['ipopt']['max_iter'] = 1500
    return o


def run(case, obs):
    rng = np.random.default_rng(case['seed'] + 41)
    fam = case['fam']
    Ctl.reset()
    pr = globals()['f_' + fam](case, rng)
    o, model, ocp = pr['o'], pr['model'], pr['ocp']
    solver = NosnocSolver(o, model, ocp)
    outs = []
    for k, q in enumerate([pr] + pr.get('again', [])):
        if 'set' in q:
            q['set'](solver)
        if q.get('u0') is not None:
            solver.set('u', q['u0'])
        outs.append(one(case, obs, dict(pr, **q), solver, k))
    obs.nontrivial = any(r['ok'] for r in outs)
    obs.out = dict(fam=fam, runs=outs)
    obs.sample = dict(case=case, result=outs, optimum=pr['J'])


def one(case, obs, pr, solver, k):
    o, fam = pr['o'], case['fam']
    r = solver.solve()
    obs.see('ocps')
    ok = r['status'] == Status.SUCCESS
    desc = f'{fam}, solve {k + 1}, {pr["desc"]} {case} N={o.N_stages} n_s={o.n_s} status {r["status"]}'
    res = dict(ok=bool(ok), hit=False, near=False)
    el = np.array(r['w_sol'], dtype=float)[flat(solver.problem.ind_elastic)]
    if ok and np.any(el > 1e-6):
        obs.see('slack_not_vanished')
        ok = res['ok'] = False
    elif ok:
        obs.see('successful')
        J = judge(obs, pr, r, o, desc)
        gap = (J - pr['J']) / max(1.0, abs(pr['J']))
        res['gap'] = float(gap)
        res['hit'], res['near'] = bool(abs(gap) < 2e-2), bool(abs(gap) < .1)
        obs.check(gap > -2e-3, 'below-optimum', lambda: f'cost {J} is below the optimal cost {pr["J"]}: {desc}')
        if abs(gap) < 2e-4 and pr.get('u') is not None:
            u = np.array(r['u_list'], dtype=float).reshape(o.N_stages, -1)
            obs.check(np.allclose(u, pr['u'], atol=.08 * (1 + np.abs(pr['u']).max())), 'controls', lambda: f'controls {u.tolist()} instead of {np.asarray(pr["u"]).tolist()}: {desc}')
    if not ok:
        obs.see('failed_status')
    obs.sig((fam, k, case['mpcc'], case['pss'], case['scheme'], case['rep'], case['cross'], o.N_stages, o.n_s, pr.get('nreg')))
    return res


def judge(obs, pr, r, o, desc):
    """exact response to the returned controls"""
    u = np.array(r['u_list'], dtype=float).reshape(o.N_stages, -1)
    v = np.array(r['v_global'], dtype=float).flatten()
    ends = pr['ends'](u, v, r)      # exact states at the stage ends
    X = np.array(r['x_list'], dtype=float)
    k = np.cumsum(o.Nfe_list) - 1
    got = X[k]
    e = np.max(np.abs(got - ends)) if np.all(np.isfinite(got)) else np.inf
    obs.check(e < 2e-3, 'trajectory', lambda: f'reported states {got.tolist()} at the stage ends, the controls {u.tolist()} lead to {np.asarray(ends).tolist()}: {desc}')
    for name, val in pr.get('terminal', lambda x, v: [])(ends[-1], v):
        obs.check(abs(val) < 2e-3, 'terminal', lambda: f'{name} violated by {val}: {desc}')
    for name, a, lo, hi in pr.get('bounds', lambda u, v, r: [])(u, v, r):
        obs.check(np.all(a >= lo - 1e-5) and np.all(a <= hi + 1e-5), 'bounds', lambda: f'{name} {a} outside {lo, hi}: {desc}')
    obs.see('trajectories')
    obs.see('stages', o.N_stages)
    return pr['cost'](u, v, ends, r)


def final(results):
    alarms = []
    by = {}
    for o in (r['out'] for r in results):
        if o:
            by.setdefault(o['fam'], []).extend(o['runs'])
    for f, L in by.items():
        if len(L) >= 15:
            n, m = sum(o['hit'] for o in L), sum(o['near'] for o in L)
            if n < .4 * len(L) or m < .65 * len(L):
                alarms.append(('mass-failure', f'family {f}: of {len(L)} problems {sum(o["ok"] for o in L)} are solved, {n} within 2 % of the optimum, {m} within 10 %'))
    return alarms


# ---------------------------------------------------------------- families
def chain(g, u, h, w):
    """exact states at stage ends: input integral w_k * u_k * h"""
    s = np.cumsum(np.asarray(w) * np.asarray(u) * h)
    return np.array([[g.X(a)] for a in s])


def gears_model(g, rate, **kw):
    x = kw['x']
    pos = x[0]
    F = ca.horzcat(*[ca.vertcat(c * rate, *kw.get('rest', [])) for c in g.c])
    kw.pop('rest', None)
    return NosnocModel(F=[F], c=[ca.vertcat(*[pos - b for b in g.b])], S=[g.signs()], **kw)


def base(case, rng, N=None, nmax=5):
    g = Gears(rng, int(rng.integers(2, 4)))
    N = int(rng.integers(1, nmax)) if N is None else N
    T = float(rng.uniform(.8, 2))
    return g, N, T, options(case, rng, N, T), ca.SX.sym('x'), ca.SX.sym('u')


BIG = dict(lbu=np.array([-10.0]), ubu=np.array([10.0]))


def f_gears(case, rng):
    g, N, T, o, x, u = base(case, rng)
    S = g.S(g.xT)
    return dict(o=o, model=gears_model(g, u, x=x, x0=np.array([g.x0]), u=u), ocp=NosnocOcp(f_q=u**2, g_terminal=x - g.xT, **BIG),
                J=S**2 / T, u=np.full((N, 1), S / T), u0=np.full((N, 1), S / T * rng.uniform(.6, 1.5)), nreg=len(g.c),
                ends=lambda u, v, r: chain(g, u[:, 0], T / N, 1.0), terminal=lambda x, v: [('target', x[0] - g.xT)],
                cost=lambda u, v, e, r: float(np.sum(u**2) * T / N), desc=g.__dict__)


def f_freegrid(case, rng):
    """stage lengths are free: the optimum is the same"""
    pr = f_gears(case, rng)
    g, o = pr['desc'], pr['o']
    o.equidistant_control_grid = False
    G = Gears.__new__(Gears)
    G.__dict__ = g

    def lengths(r):
        h = np.array(r['time_steps'], dtype=float)
        return np.array([h[a:b].sum() for a, b in zip(np.concatenate([[0], np.cumsum(o.Nfe_list)[:-1]]), np.cumsum(o.Nfe_list))])
    pr['ends'] = lambda u, v, r: chain(G, u[:, 0] * lengths(r), 1.0, 1.0)
    pr['bounds'] = lambda u, v, r: [('horizon', lengths(r).sum(), o.terminal_time, o.terminal_time)]
    pr['cost'] = lambda u, v, e, r: float(np.sum(u[:, 0]**2 * lengths(r)))
    return pr


def f_slide(case, rng):
    N = int(rng.integers(1, 5))
    T = float(rng.uniform(.8, 2))
    o = options(case, rng, N, T)
    x, u = ca.SX.sym('x', 2), ca.SX.sym('u')
    sa, sb = rng.uniform(.5, 1.5, size=2)
    d1, d2 = rng.normal(size=2)
    a0 = sa * T * rng.uniform(.15, .7)
    tau, th = a0 / sa, sb / (sa + sb)
    b0, U = rng.normal(), rng.uniform(.5, 2) * rng.choice([-1, 1])

    def drift(t):
        return d1 * min(t, tau) + (th * d1 + (1 - th) * d2) * max(0.0, t - tau)
    target = b0 + drift(T) + U
    model = NosnocModel(x=x, F=[ca.horzcat(ca.vertcat(-sa, u + d1), ca.vertcat(sb, u + d2))], c=[x[0]], S=[np.array([[1], [-1]])], x0=np.array([a0, b0]), u=u)
    h = T / N
    return dict(o=o, model=model, ocp=NosnocOcp(f_q=u**2, g_terminal=x[1] - target, **BIG), J=U**2 / T, u=np.full((N, 1), U / T), nreg=2,
                ends=lambda u, v, r: np.array([[max(0.0, a0 - sa * (k + 1) * h), b0 + drift((k + 1) * h) + u[:k + 1, 0].sum() * h] for k in range(N)]),
                terminal=lambda x, v: [('target', x[1] - target)], cost=lambda u, v, e, r: float(np.sum(u**2) * h),
                desc=f'sa={sa} sb={sb} d={d1, d2} a0={a0} b0={b0} T={T} U={U}')


def f_stageparam(case, rng):
    """the rate of a stage is scaled by its parameter and a global one, the target is the parameter of the last stage; solved again with other values and another initial state"""
    g, N, T, o, x, u = base(case, rng)
    p, q = ca.SX.sym('p', 2), ca.SX.sym('q')
    h = T / N
    var = []
    for i in range(3):
        P, Q = rng.uniform(.5, 2, size=(N, 2)), float(rng.uniform(.7, 1.4))
        G = Gears.__new__(Gears)
        G.__dict__.update(g.__dict__)
        G.xT = P[-1, 1] = g.b[-1] + rng.uniform(.2, .4)
        if i:
            G.x0 = float(g.b[0] - rng.uniform(.15, .5))
        var.append((P, Q, G))

    def data(P, Q, G):
        S = G.S(G.xT)
        k = P[:, 0] * Q
        us = S * k / (h * np.sum(k**2))

        def put(s):
            s.set('p_time_var', P.copy())
            s.set('p_global', np.array([Q]))
            s.set('x0', np.array([G.x0]))
        return dict(J=float(np.sum(us**2) * h), u=us.reshape(-1, 1), u0=us.reshape(-1, 1) * rng.uniform(.6, 1.5), ends=lambda u, v, r: chain(G, u[:, 0], h, k),
                    terminal=lambda x, v: [('target', x[0] - G.xT)],
                    desc=f'{G.__dict__} P={P.tolist()} Q={Q}', set=put)
    P, Q, G = var[0]
    model = gears_model(g, u * p[0] * q, x=x, x0=np.array([g.x0]), u=u, p_time_var=p, p_time_var_val=P, p_global=q, p_global_val=np.array([Q]))
    d = data(P, Q, G)
    d.pop('set')
    return dict(d, o=o, model=model, ocp=NosnocOcp(f_q=u**2, g_terminal=x - p[1], **BIG), nreg=len(g.c),
                cost=lambda u, v, e, r: float(np.sum(u**2) * h), again=[data(*v) for v in var[1:]])


def fill(S, h, um):
    """least sum of squares below limits"""
    lo, hi = 0.0, 100.0
    for _ in range(200):
        mid = (lo + hi) / 2
        if np.sum(np.minimum(um, mid)) * h < S:
            lo = mid
        else:
            hi = mid
    return np.minimum(um, hi)


def f_path(case, rng):
    """controls limited by path constraints with stage parameters"""
    g, N, T, o, x, u = base(case, rng, N=int(rng.integers(2, 5)))
    p = ca.SX.sym('p')
    S, h = g.S(g.xT), T / N
    um = S / T * rng.uniform(.8, 2.2, size=N)
    um[int(rng.integers(N))] = 4 * S / T
    us = fill(S, h, um)
    o.g_path_at_fe, o.g_path_at_stg = bool(rng.integers(2)), bool(rng.integers(2))
    return dict(o=o, model=gears_model(g, u, x=x, x0=np.array([g.x0]), u=u, p_time_var=p, p_time_var_val=um.reshape(-1, 1)),
                ocp=NosnocOcp(f_q=u**2, g_terminal=x - g.xT, g_path=ca.vertcat(u - p, x), lbg=np.array([-50.0, g.x0 - 9]), ubg=np.array([0.0, g.xT + 9]), **BIG),
                J=float(np.sum(us**2) * h), u=us.reshape(-1, 1), u0=us.reshape(-1, 1) * rng.uniform(.6, 1.0), nreg=len(g.c),
                ends=lambda u, v, r: chain(g, u[:, 0], h, 1.0), terminal=lambda x, v: [('target', x[0] - g.xT)],
                bounds=lambda u, v, r: [('path constraint', u[:, 0], -50.0, um)], cost=lambda u, v, e, r: float(np.sum(u**2) * h), desc=f'{g.__dict__} um={um} T={T}')


def f_alg(case, rng):
    """the input acts through an algebraic variable"""
    g, N, T, o, x, u = base(case, rng)
    z, q = ca.SX.sym('z'), float(rng.uniform(.6, 1.8))
    S = g.S(g.xT)
    us = S / T / q
    return dict(o=o, model=gears_model(g, z, x=x, x0=np.array([g.x0]), u=u, z=z, g_z=z - q * u, z0=np.array([q * us])),
                ocp=NosnocOcp(f_q=u**2, g_terminal=x - g.xT, **BIG), J=us**2 * T, u=np.full((N, 1), us), u0=np.full((N, 1), us * rng.uniform(.6, 1.5)),
                nreg=len(g.c), ends=lambda u, v, r: chain(g, q * u[:, 0], T / N, 1.0), terminal=lambda x, v: [('target', x[0] - g.xT)],
                cost=lambda u, v, e, r: float(np.sum(u**2) * T / N), desc=f'{g.__dict__} q={q} T={T}')


def f_pathcomp(case, rng):
    """two inputs of which one must vanish in every stage although both are wanted"""
    g, N, T, o, x, _ = base(case, rng, nmax=4)
    u = ca.SX.sym('u', 2)
    S, h = g.S(g.xT), T / N
    ref = rng.uniform(.3, .8, size=2) * S / T
    best = None
    for m in range(N):      # m stages without the first input
        # minimise (N - m) ((a - r1)^2 + r2^2) + m (r1^2 + (b - r2)^2) with (N - m) a - m b = S / h
        lam = 2 * (S / h - (N - m) * ref[0] + m * ref[1]) / N
        a, b = ref[0] + lam / 2, ref[1] - lam / 2
        if b < 0:
            b = 0.0
            a = S / h / (N - m)
        J = h * ((N - m) * ((a - ref[0])**2 + ref[1]**2) + m * (ref[0]**2 + (b - ref[1])**2))
        best = J if best is None else min(best, J)
    return dict(o=o, model=gears_model(g, u[0] - u[1], x=x, x0=np.array([g.x0]), u=u),
                ocp=NosnocOcp(f_q=ca.sumsqr(u - ref), g_terminal=x - g.xT, lbu=np.zeros(2), ubu=np.full(2, 10.0), g_path_comp=ca.horzcat(u[0], u[1])),
                J=float(best), u0=np.tile([S / T, 0.01], (N, 1)), nreg=len(g.c), ends=lambda u, v, r: chain(g, u[:, 0] - u[:, 1], h, 1.0),
                terminal=lambda x, v: [('target', x[0] - g.xT)],
                bounds=lambda u, v, r: [('product of complementary controls', u[:, 0] * u[:, 1], -1e-5, 1e-5), ('controls', u, 0, 10)],
                cost=lambda u, v, e, r: float(np.sum((u - ref)**2) * h), desc=f'{g.__dict__} ref={ref} T={T}')


def f_limit(case, rng):
    """the cost of a stage is weighted by its parameter, controls are limited"""
    g, N, T, o, x, u = base(case, rng, N=int(rng.integers(2, 5)))
    p = ca.SX.sym('p')
    P = rng.uniform(.4, 3, size=(N, 1))
    S, h = g.S(g.xT), T / N
    um = S / T * float(rng.uniform(1.05, 1.5))
    lo, hi = 0.0, 100.0
    for _ in range(200):
        mid = (lo + hi) / 2
        if np.sum(np.minimum(um, mid / P[:, 0])) * h < S:
            lo = mid
        else:
            hi = mid
    us = np.minimum(um, hi / P[:, 0])
    return dict(o=o, model=gears_model(g, u, x=x, x0=np.array([g.x0]), u=u, p_time_var=p, p_time_var_val=P),
                ocp=NosnocOcp(f_q=p * u**2, g_terminal=x - g.xT, lbu=np.array([-um]), ubu=np.array([um])), J=float(np.sum(P[:, 0] * us**2) * h), u=us.reshape(-1, 1),
                u0=np.full((N, 1), S / T * rng.uniform(.6, 1.)), nreg=len(g.c), ends=lambda u, v, r: chain(g, u[:, 0], h, 1.0),
                terminal=lambda x, v: [('target', x[0] - g.xT)], bounds=lambda u, v, r: [('control', u[:, 0], -um, um)],
                cost=lambda u, v, e, r: float(np.sum(P[:, 0] * u[:, 0]**2) * h), desc=f'{g.__dict__} P={P.tolist()} um={um}')


def f_penalty(case, rng):
    """soft target: the target is the parameter of the last stage, its weight a global parameter; solved again with other values"""
    g, N, T, o, x, u = base(case, rng)
    p, q = ca.SX.sym('p'), ca.SX.sym('q')

    def data(i):
        G = Gears.__new__(Gears)
        G.__dict__.update(g.__dict__)
        P, wt = rng.uniform(g.x0 - .5, g.b[-1] + .6, size=(N, 1)), float(rng.uniform(1, 8))
        G.xT = P[-1, 0] = g.xT if i == 0 else float(g.b[-1] + rng.uniform(.1, .5))
        s = np.linspace(-1, 2 * G.S(G.xT), 4001)
        f = np.array([a**2 / T + wt * (G.X(a) - G.xT)**2 for a in s])
        S = float(s[np.argmin(f)])

        def put(s):
            s.set('p_time_var', P.copy())
            s.set('p_global', np.array([wt]))
        return P, wt, dict(J=float(f.min()), u0=np.full((N, 1), S / T * rng.uniform(.8, 1.2)), set=put,
                           cost=lambda u, v, e, r: float(np.sum(u**2) * T / N + wt * (e[-1][0] - G.xT)**2), desc=f'{G.__dict__} w={wt} P={P.tolist()} T={T}')
    P, wt, first = data(0)
    first.pop('set')
    model = gears_model(g, u, x=x, x0=np.array([g.x0]), u=u, p_time_var=p, p_time_var_val=P, p_global=q, p_global_val=np.array([wt]))
    return dict(first, o=o, model=model, ocp=NosnocOcp(f_q=u**2, f_terminal=q * (x - p)**2, **BIG), nreg=len(g.c),
                ends=lambda u, v, r: chain(g, u[:, 0], T / N, 1.0), again=[data(1)[2]])


def f_globalvar(case, rng):
    """a constant part of the input is free, too"""
    g, N, T, o, x, u = base(case, rng)
    v = ca.SX.sym('v')
    S, rho = g.S(g.xT), float(rng.uniform(.3, 2))
    vs = S / (T + rho)
    us = (S - vs * T) / T
    return dict(o=o, model=gears_model(g, u + v, x=x, x0=np.array([g.x0]), u=u, v_global=v),
                ocp=NosnocOcp(f_q=u**2, f_terminal=rho * v**2, g_terminal=x - g.xT, lbv_global=np.array([-5.0]), ubv_global=np.array([5.0]),
                              v_global_guess=np.array([vs * rng.uniform(.6, 1.4)]), **BIG),
                J=us**2 * T + rho * vs**2, u=np.full((N, 1), us), u0=np.full((N, 1), us * rng.uniform(.6, 1.5)), nreg=len(g.c),
                ends=lambda u, v, r: chain(g, u[:, 0] + v[0], T / N, 1.0), terminal=lambda x, v: [('target', x[0] - g.xT)],
                cost=lambda u, v, e, r: float(np.sum(u**2) * T / N + rho * v[0]**2), desc=f'{g.__dict__} rho={rho} T={T}')


def f_two(case, rng):
    """two independent subsystems"""
    g, k = Gears(rng, 2), Gears(rng, 2)
    N = int(rng.integers(1, 4))
    T = float(rng.uniform(.8, 2))
    o = options(case, rng, N, T)
    x, u = ca.SX.sym('x', 2), ca.SX.sym('u', 2)
    model = NosnocModel(x=x, F=[ca.horzcat(*[ca.vertcat(c * u[0], 0) for c in g.c]), ca.horzcat(*[ca.vertcat(0, c * u[1]) for c in k.c])],
                        c=[x[0] - g.b[0], x[1] - k.b[0]], S=[g.signs(), k.signs()], x0=np.array([g.x0, k.x0]), u=u)
    S = np.array([g.S(g.xT), k.S(k.xT)])
    return dict(o=o, model=model, ocp=NosnocOcp(f_q=ca.sumsqr(u), g_terminal=x - np.array([g.xT, k.xT]), lbu=np.full(2, -10.0), ubu=np.full(2, 10.0)),
                J=float(np.sum(S**2) / T), u=np.tile(S / T, (N, 1)), u0=np.tile(S / T * rng.uniform(.7, 1.3), (N, 1)), nreg=4,
                ends=lambda u, v, r: np.hstack([chain(g, u[:, 0], T / N, 1.0), chain(k, u[:, 1], T / N, 1.0)]),
                terminal=lambda x, v: [('target', x[0] - g.xT), ('target', x[1] - k.xT)],
                cost=lambda u, v, e, r: float(np.sum(u**2) * T / N), desc=f'{g.__dict__} {k.__dict__} T={T}')


def f_time(case, rng):
    """time optimal: speed of time is free, the clock is a state"""
    g, N, T, o, _, u = base(case, rng, nmax=4)
    x = ca.SX.sym('x', 2)
    o.terminal_time = T = 1.0
    S = g.S(g.xT)
    um = float(rng.uniform(.6, 2.5))
    o.speed_of_time_variables = [SpeedOfTimeVariableMode.LOCAL, SpeedOfTimeVariableMode.GLOBAL][int(rng.integers(2))]
    lo, hi = S / um * float(rng.uniform(.1, .6)), S / um * float(rng.uniform(1.5, 4))
    o.speed_of_time_min, o.speed_of_time_max = lo, hi
    t0 = float(rng.choice([0.0, rng.normal()]))

    def sot(r):
        a = np.array(r['sot'], dtype=float).flatten()
        return np.full(N, a[0]) if len(a) == 1 else a
    return dict(o=o, model=gears_model(g, u, x=x, x0=np.array([g.x0, t0]), u=u, rest=[1.0]),
                ocp=NosnocOcp(f_terminal=x[1] - t0, g_terminal=x[0] - g.xT, lbu=np.array([-um]), ubu=np.array([um])), J=S / um, u=np.full((N, 1), um),
                u0=np.full((N, 1), um * rng.uniform(.7, 1.0)), nreg=len(g.c),
                ends=lambda u, v, r: np.hstack([chain(g, u[:, 0], T / N, sot(r)), t0 + np.cumsum(sot(r) * T / N).reshape(-1, 1)]),
                terminal=lambda x, v: [('target', x[0] - g.xT)], bounds=lambda u, v, r: [('control', u[:, 0], -um, um), ('speed of time', sot(r), lo, hi)],
                cost=lambda u, v, e, r: float(np.sum(sot(r)) * T / N), desc=f'{g.__dict__} um={um} {o.speed_of_time_variables} {lo, hi} t0={t0}')
