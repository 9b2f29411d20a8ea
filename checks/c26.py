"""C26: user algebraic variables."""
import numpy as np
from mon.env import Ctl, NosnocSolver, NosnocModel, NosnocOpts, IrkRepresentation, IrkSchemes, PssMode, Status, NosnocSimLooper, ca
from mon.spec import Spec, decode, RandFun
from mon.struct import gen, grid, judge, names
from mon.core import Inconclusive

ID = 'C26'
LEVEL = 'exploration'
RULE = ('random models with algebraic variables in dynamics, switching functions and complementarities for every scheme x representation x DCS form; '
        'algebraic equations, bounds and guesses recorded at the NLP solver boundary are compared with the model; with root finding the multipliers '
        'of the initial state passed to the NLP are compared with those of an independently computed root; end to end: simulations with IPOPT, the '
        'returned algebraic variables must solve the equations at the returned states; distinct = problem signature')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(scheme=names(IrkSchemes), rep=names(IrkRepresentation), pss=names(PssMode), nz=[1, 2])
    yield from gen(seed, 360 if q else 2880, cells, big=8, n_s_max=3, ucomp=[True, False], cz='always', mpcc=['SCHOLTES_EQ', 'SCHOLTES_INEQ', 'FISCHER_BURMEISTER'])
    for c in gen(seed + 3, 240 if q else 1920, grid(pss=names(PssMode), rep=names(IrkRepresentation), nz=[1, 2]), n_s_max=2, fe_max=2, cz='always', scheme='RADAU_IIA',
                 ucomp=False, cost=False):
        yield dict(c, kind='root')
    for i in range(60 if q else 480):
        yield dict(kind='branch', i=i, seed=seed * 1000003 + i)
    for i in range(80 if q else 640):
        yield dict(kind='e2e', i=i, seed=seed * 1000003 + i)


def newton(f, z, n=60):
    """root by Newton with numerical derivatives"""
    for _ in range(n):
        r = f(z)
        if np.max(np.abs(r)) < 1e-13:
            break
        J = np.array([(f(z + 1e-7 * e) - f(z - 1e-7 * e)) / 2e-7 for e in np.eye(len(z))]).T
        z = z - np.linalg.solve(J, r)
    if np.max(np.abs(f(z))) > 1e-10:
        raise Inconclusive('no root')
    return z


def run(case, obs):
    kind = case.get('kind')
    if kind == 'e2e':
        return e2e(case, obs)
    if kind == 'branch':
        return branch(case, obs)
    zb = lambda lab: lab.startswith('z[')       # noqa: E731
    if kind is None:
        sp, cap, o = judge(case, obs, rows=('alg_user', 'alg_switch', 'dyn', 'bnd', 'ucomp'), bounds=zb, K=5)
        obs.nontrivial = bool(sp.nz)
        # guess of the first solve
        from mon.refnlp import bounds
        w0 = bounds(sp, cap.lay, cap.nw)[2]
        iz = np.array([j for st in cap.lay.fe for d in st for a in d['z'] for j in a], dtype=int)
        obs.check(np.array_equal(cap.points[0]['call'].x0[iz], w0[iz]), 'guess', lambda: f'guess of z is {cap.points[0]["call"].x0[iz]} instead of {w0[iz]} {sp.describe()}')
        obs.see('z_components', len(iz))
        return
    # root finding
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    g = RandFun(rng, dict(x=sp.nx, z=sp.nz, p=sp.npt + sp.npg), sp.nz)
    g.M['z'] = 2 * np.eye(sp.nz)
    g.a, g.L['z'] = g.a * .4, g.L['z'] * .4
    sp.gz = g
    sp.z0_fun = lambda x, p: newton(lambda z: g.num(x=x, z=z, p=p), np.array(sp.z0 if sp.z0 is not None else np.zeros(sp.nz), dtype=float))
    o = sp.opts()
    o.rootfinder_for_initial_z = True
    sp, cap, out = judge(case, obs, rows=('alg_user', 'cross'), bounds=zb, K=5, sp=sp, opts=o)
    for pt, r in zip(cap.points, cap.refs()):
        want = r.lambda00(r.z0_used)
        c = pt['call']
        for v in want:
            obs.check(np.min(np.abs(c.p - v)) < 1e-7 * (1 + abs(v)), 'initial-multipliers',
                      lambda: f'multiplier {v} of the initial state (z = {r.z0_used}) is not passed to the NLP: {c.p} {sp.describe()}')
        obs.see('roots')


def branch(case, obs):
    """equations with several roots: the root found belongs to the guess of the model, whatever was solved before"""
    rng = np.random.default_rng(case['seed'] + 5)
    Ctl.reset()
    o = NosnocOpts()
    o.print_level = 0
    o.n_s = 1
    o.N_finite_elements = 2
    o.irk_scheme = IrkSchemes.RADAU_IIA
    o.terminal_time = .2
    o.max_iter_homotopy = 1
    o.pss_mode = list(PssMode)[case['i'] % 2]
    o.rootfinder_for_initial_z = True
    nz = int(rng.integers(1, 3))
    x, z, p = ca.SX.sym('x', nz), ca.SX.sym('z', nz), ca.SX.sym('p')
    gz = z**3 - 3 * z - x - .1 * p
    q = rng.uniform(.3, 1, size=nz)
    c = ca.dot(q, z) + .2 * x[0]
    sgn = rng.choice([-1.0, 1.0], size=nz)
    z0 = sgn * rng.uniform(1.7, 1.9, size=nz)
    par = rng.uniform(-1, 1, size=1)
    x0 = rng.uniform(-1.5, 1.5, size=nz)
    m = NosnocModel(x=x, x0=x0.copy(), F=[ca.horzcat(-x, -2 * x)], c=[c], S=[np.array([[1], [-1]])], z=z, g_z=gz, z0=z0.copy(), p_global=p, p_global_val=par.copy())
    s = NosnocSolver(o, m)
    hist = []
    Ctl.handler = lambda px, call: (rng.normal(size=px.nw), 'Solve_Succeeded')
    for k in range(7):
        far = k in (1, 3) or rng.random() < .2
        if k:
            if rng.random() < .3:
                par = rng.uniform(-1, 1, size=1)
                s.set('p_global', par.copy())
            x0 = rng.uniform(-1.5, 1.5, size=nz) if not far else sgn * rng.uniform(-3.5, 3.5, size=nz)
            s.set('x0', x0.copy())
        hist.append(x0.round(3).tolist())
        try:
            s.solve()
        except Exception:
            if not far:
                raise
            obs.see('no_root_found')
            continue
        obs.see('branch_solves')
        if far and np.max(np.abs(x0)) > 1.5:
            continue

        def g(zz):
            return zz**3 - 3 * zz - x0 - .1 * par[0]
        zr = newton(g, sgn * 1.9)
        cv = float(q @ zr + .2 * x0[0])
        want = abs(cv) * (2 if o.pss_mode == PssMode.STEWART else 1)
        call = Ctl.proxies[-1].calls[-1]
        obs.check(np.min(np.abs(call.p - want)) < 1e-6 * (1 + want), 'branch', lambda: f'{o.pss_mode.name}: multiplier {want} of the initial state {x0} (root {zr} of the guess {z0}) is not passed '
                  f'to the NLP: {call.p}, initial states so far {hist}')
        obs.check(np.array_equal(np.ravel(m.z0), z0), 'guess-changed', lambda: f'the guess {z0} of the model is {m.z0} after solving for {hist}')
    Ctl.handler = None
    obs.sig((o.pss_mode.name, nz, tuple(sgn), case['i']))
    obs.sample = dict(case=case, initial_states=hist, guess=z0.tolist())


def e2e(case, obs):
    rng = np.random.default_rng(case['seed'])
    i = case['i']
    o = NosnocOpts()
    o.print_level = 0
    o.n_s = 2
    o.N_finite_elements = 2
    o.irk_scheme = IrkSchemes.RADAU_IIA
    o.irk_representation = list(IrkRepresentation)[i % 3]
    o.pss_mode = list(PssMode)[(i // 3) % 2]
    T = 0.4
    o.terminal_time = T
    o.comp_tol = 1e-7
    x, z, p = ca.SX.sym('x', 2), ca.SX.sym('z', 2), ca.SX.sym('p', 1)
    a = rng.uniform(.2, .5, size=4)
    par = rng.normal(size=1)

    def g(x, z, p):
        return [2 * z[0] - x[0] + a[0] * np.sin(z[1]) - a[1] * p, 2 * z[1] + a[2] * z[0] - a[3] * x[1] - 1.0]
    gz = ca.vertcat(2 * z[0] - x[0] + a[0] * ca.sin(z[1]) - a[1] * p, 2 * z[1] + a[2] * z[0] - a[3] * x[1] - 1.0)
    f1 = ca.vertcat(1 + .3 * z[1], -z[0])
    f2 = ca.vertcat(3 + z[0], z[1])
    x0 = np.array([-float(rng.uniform(.2, .6)), float(rng.normal())])
    cz = x[0] if i % 2 else z[0]
    lbz, ubz = None, None
    m = NosnocModel(x=x, x0=x0, F=[ca.horzcat(f1, f2)], c=[cz], S=[np.array([[1], [-1]])], z=z, g_z=gz, p_global=p, p_global_val=par.copy(),
                    lbz=lbz, ubz=ubz)
    Ctl.reset()
    s = NosnocSolver(o, m)
    lo = NosnocSimLooper(s, x0, 3)
    lo.run()
    r = lo.get_results()
    desc = dict(i=i, rep=o.irk_representation.name, pss=o.pss_mode.name, c='x0' if i % 2 else 'z0')
    obs.sig((desc['rep'], desc['pss'], desc['c'], i))
    n = o.N_finite_elements
    X = np.array(r['X_sim'])[1:]
    for k, st in enumerate(r['status']):
        if st != Status.SUCCESS:
            obs.see('undecided_solves')
            continue
        zl = np.array(r['z_sim'][k]).reshape(n, 2)
        for j in range(n):
            xx = X[k * n + j]
            res = np.array(g(xx, zl[j], par[0]))
            obs.check(np.max(np.abs(res)) < 1e-6, 'solution', lambda: f'algebraic equations have residual {res} at x = {xx}, z = {zl[j]} {desc}')
            obs.see('solution_points')
    obs.sample = dict(case=case, problem=desc)
