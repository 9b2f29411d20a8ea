"""C24: smoothed dynamics."""
import numpy as np
from mon.env import Ctl, NosnocSolver, InitializationStrategy, IrkSchemes, PssMode, ca
from mon.spec import Spec, decode, RandFun, dense_signs, sparse_signs
from mon.refnlp import Layout, flat, collocation
from mon.struct import gen, grid, names

ID = 'C24'
LEVEL = 'exploration'
RULE = ('random region models (several subsystems of different size, complete and partially specified sign rows): the smoothed dynamics and '
        'multipliers are evaluated at random states for a sequence of smoothing parameters and compared with the field of the active region; '
        'the vector field function is evaluated for a sequence of smoothing parameters with controls, parameters, algebraic and global variables; '
        'the guess of the first NLP after smoothed initialisation is compared with an independent simulation of the smoothed field over the '
        'nominal grid; distinct = (what, problem signature)')
ASSUME = ['the smoothed right hand side is a function of the state only (the code supports no controls or parameters there)']


def cases(tier, seed):
    q = tier == 'quick'
    plain = dict(nu=0, nz=0, nv=0, npt=0, npg=0, general=False, regions='s', tf=False, use_fesd=[True, True, False], sot='NONE')
    for c in gen(seed, 100 if q else 1500, grid(pss=names(PssMode), n_sys=[1, 2, 3]), n_s_max=1, fe_max=1, stage_max=1, **plain):
        yield dict(c, kind='smooth')
    for c in gen(seed + 3, 60 if q else 800, grid(n_sys=[1, 2, 3], nz=[0, 0, 1]), pss='STEWART', general=False, n_s_max=1, fe_max=1, stage_max=1, tf=False):
        yield dict(c, kind='field')
    yield from init_cases(seed + 5, 60 if q else 800)


def init_cases(seed, n):
    plain = dict(nu=0, nz=0, nv=0, npt=0, npg=0, general=False, regions='s', tf=False, use_fesd=[True, True, False], sot='NONE')
    for c in gen(seed, n, grid(rep=['INTEGRAL', 'DIFFERENTIAL', 'DIFFERENTIAL_LIFT_X'], n_sys=[1, 2]), pss='STEWART', N_stages=1, n_s_max=3, big=0,
                 scheme='RADAU_IIA', cost=False, gpath=0, terminal=0, ucomp=False, bounds=False, stepeq='HEURISTIC_DELTA', **plain):
        yield dict(c, kind='init')


def active(sp, x, p, z):
    """index of the active region of each subsystem, margin"""
    idx, margin = [], np.inf
    for d in sp.sys:
        if sp.gst:
            g = d['g'].num(x=x, p=p, z=z)
            o = np.argsort(g)
            idx.append(int(o[0]))
            margin = min(margin, g[o[1]] - g[o[0]])
        else:
            c = d['c'].num(x=x, p=p, z=z)
            margin = min(margin, np.min(np.abs(c)))
            ok = [i for i, r in enumerate(d['S']) if np.all(r * c >= 0)]
            assert len(ok) == 1
            idx.append(ok[0])
    return idx, margin


def blend(sp, x, s):
    """smoothed multipliers and right hand side"""
    th, f = [], np.zeros(sp.nx)
    for d in sp.sys:
        a = (np.tanh(d['c'].num(x=x) / s) + 1) / 2
        t = [np.prod([a[j] if r == 1 else 1 - a[j] for j, r in enumerate(row) if r != 0]) for row in d['S']]
        th.append(np.array(t))
        for m, F in zip(t, d['F']):
            f = f + m * F.num(x=x)
    return th, f


def run(case, obs):
    sp = Spec(case['seed'], **decode(case['feat']))
    rng = np.random.default_rng(case['seed'] + 1)
    if case['kind'] == 'field':
        return field(case, obs, sp, rng)
    if case['kind'] == 'init':
        return init(case, obs, sp, rng)
    if case['seed'] % 2:        # partially specified sign rows are allowed here in both forms
        for d in sp.sys:
            nf = sparse_signs(rng, d['nc'])
            d['S'], d['nf'] = nf, len(nf)
            d['F'] = [RandFun(rng, dict(x=sp.nx), sp.nx) for _ in range(len(nf))]
    Ctl.reset()
    m = sp.model()
    NosnocSolver(sp.opts(), m, sp.ocp())
    pts = [rng.normal(size=sp.nx) * 1.5 for _ in range(12)]
    for s in (10.0, 1.0, 0.1, 1e-2, 1e-3):
        m.add_smooth_step_representation(smoothing_parameter=s)
        for x in pts:
            idx, margin = active(sp, x, [], [])
            f = m.f_x_smooth_fun(x).full().flatten()
            th = m.theta_smooth_fun(x, []).full().flatten()
            mu = m.mu_smooth_fun(x, []).full().flatten()
            off = np.cumsum([0] + [d['nf'] for d in sp.sys])
            obs.check(len(th) == off[-1] and len(mu) == sp.n_sys, 'size', f'{th} {mu}')
            total = np.zeros(sp.nx)
            for k, d in enumerate(sp.sys):
                t = th[off[k]:off[k + 1]]
                obs.check(np.all(t >= -1e-12) and np.all(t <= 1 + 1e-12) and abs(np.sum(t) - 1) < 1e-9, 'blend',
                          lambda: f'smoothed multipliers {t} of subsystem {k} are no convex combination, smoothing {s} {sp.describe()} S={d["S"].tolist()}')
                for a, F in zip(t, d['F']):
                    total = total + a * F.num(x=x)
            obs.check(np.allclose(f, total, rtol=1e-9, atol=1e-9), 'blend', lambda: f'smoothed field {f} is not the blend {total} {sp.describe()}')
            obs.see('states')
            if margin / s > 20:
                want = sum(d['F'][i].num(x=x) for i, d in zip(idx, sp.sys))
                obs.check(np.allclose(f, want, rtol=1e-6, atol=1e-6), 'limit',
                          lambda: f'smoothed field {f} instead of {want} of the active region, smoothing {s}, margin {margin} {sp.describe()}')
                obs.see('limits')
                lam = m.lambda_smooth_fun(x, []).full().flatten()
                for k, d in enumerate(sp.sys):
                    g = -d['S'] @ d['c'].num(x=x)
                    if np.max(np.abs(g)) / s < 300 and np.all(d['S'] != 0):
                        obs.check(abs(mu[k] + np.min(g)) < 1e-5 * (1 + np.max(np.abs(g))), 'limit', lambda: f'smoothed mu {mu[k]} instead of {-np.min(g)}, smoothing {s}')
                        obs.check(np.allclose(lam[off[k]:off[k + 1]], g - np.min(g), atol=1e-5 * (1 + np.max(np.abs(g)))), 'limit',
                                  lambda: f'smoothed lambda {lam} instead of {g - np.min(g)}, smoothing {s}')
                        obs.see('multiplier_limits')
                    obs.sig(('region', k, idx[k], sp.signature()))
    obs.sample = dict(case=case, problem=sp.describe())


def field(case, obs, sp, rng):
    Ctl.reset()
    s = NosnocSolver(sp.opts(), sp.model(), sp.ocp())
    p = rng.normal(size=sp.npt + sp.npg)
    v = rng.normal(size=sp.nv)
    for sg in (1e-2, 1e-4, 1e-6):
        fun = s.create_function_calculate_vector_field(sg, p, v)
        for _ in range(6):
            x, u, z = rng.normal(size=sp.nx), rng.normal(size=sp.nu), rng.normal(size=sp.nz)
            idx, margin = active(sp, x, p, z)
            if margin < 0.05:
                continue
            q = dict(x=x, u=u, p=p, v=v, z=z)
            F = [f.num(**q) for d in sp.sys for f in d['F']]
            want = sum(d['F'][i].num(**q) for i, d in zip(idx, sp.sys))
            try:
                got = np.array(fun(x, u, z) if sp.nz else fun(x, u)).flatten()
            except RuntimeError as e:
                if 'rootfinder' in str(e).lower() or 'process' in str(e).lower():
                    obs.see('undecided_states')
                    continue
                raise
            tol = (1 + np.max(np.abs(F))) * (8 * sg**2 / margin + 1e-8)
            obs.check(got.shape == want.shape and np.max(np.abs(got - want)) <= tol, 'field',
                      lambda: f'vector field {got} instead of {want} of regions {idx} with smoothing {sg}, margin {margin} {sp.describe()}')
            obs.see('states')
            obs.see('limits')
            obs.sig((tuple(idx), sp.signature()))
    obs.sample = dict(case=case, problem=sp.describe())


def init(case, obs, sp, rng):
    o = sp.opts()
    o.initialization_strategy = InitializationStrategy.RK4_SMOOTHENED
    s = float(10.0**rng.uniform(-0.5, 1.2))
    o.smoothing_parameter = s
    o.max_iter_homotopy = 1
    Ctl.reset(handler=lambda p, c: (rng.normal(size=p.nw), 'Solve_Succeeded'))
    sv = NosnocSolver(o, sp.model(), sp.ocp())
    px = Ctl.proxies[0]
    lay = Layout(sp, sv.problem)
    c = np.atleast_1d(collocation(sp.scheme, sp.n_s)[0])
    h = sp.T / sp.nfe[0]
    for k in range(2):
        x0 = sp.x0 if k == 0 else rng.normal(size=sp.nx)
        if k:
            sv.set('x0', x0.copy())
        sv.solve()
        w = px.calls[k].x0
        one, fine, pert = np.array(x0), np.array(x0), np.array(x0) + 1e-9
        lost = False
        for i, d in enumerate(lay.fe[0]):
            t = 0.0
            for j in range(sp.n_s):
                dt = h * (c[j] - t)
                t = c[j]
                one = step(sp, one, dt, s, 1)
                fine = step(sp, fine, dt, s, 200)
                pert = step(sp, pert, dt, s, 1)
                if lost or np.max(np.abs(pert - one)) > 1e-6 or np.max(np.abs(one)) > 1e3:
                    lost = True         # rounding errors decide from here on
                    obs.see('undecided_states')
                    continue
                keys = []
                if len(d['x']) >= sp.n_s or j == sp.n_s - 1:
                    keys.append(d['x'][j] if len(d['x']) >= sp.n_s else d['x'][-1])
                for ind in keys:
                    got = w[np.array(ind)]
                    near = np.allclose(got, one, rtol=1e-8, atol=1e-8)
                    tol = 3 * np.max(np.abs(one - fine)) + 1e-6
                    obs.check(near or np.max(np.abs(got - fine)) < tol, 'simulation',
                              lambda: f'guess of the state at stage {j} of element {i} is {got} instead of {one}, smoothing {s}, solve {k} {sp.describe()}')
                    obs.see('states')
                th, _ = blend(sp, one, s)
                for q in range(sp.n_sys):
                    got = w[np.array(d['th'][j][q])]
                    obs.check(np.allclose(got, th[q], rtol=1e-7, atol=1e-3 if not keys else 1e-5), 'multiplier-guess',
                              lambda: f'guess of theta at stage {j} of element {i}: {got} instead of {th[q]}, smoothing {s}, solve {k} {sp.describe()}')
                    g = -sp.sys[q]['S'] @ sp.sys[q]['c'].num(x=one)
                    got = w[np.array(d['lam'][j][q])]
                    obs.check(np.allclose(got, g - np.min(g), rtol=1e-5, atol=1e-5), 'multiplier-guess',
                              lambda: f'guess of lambda at stage {j} of element {i}: {got} instead of {g - np.min(g)}, solve {k} {sp.describe()}')
                    obs.see('multiplier_guesses', 2)
    obs.sig((round(np.log10(s)), sp.signature()))
    obs.sample = dict(case=case, problem=sp.describe(), smoothing=s)


def step(sp, x, dt, s, n):
    for _ in range(n):
        f = lambda y: blend(sp, y, s)[1]    # noqa: E731
        e = dt / n
        k1 = f(x)
        k2 = f(x + e / 2 * k1)
        k3 = f(x + e / 2 * k2)
        k4 = f(x + e * k3)
        x = x + e / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x
