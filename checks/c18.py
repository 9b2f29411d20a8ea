"""C18: Runge-Kutta tableaus."""
import math
import numpy as np
from mon.env import (ca, Ctl, NosnocModel, NosnocOpts, NosnocOcp, NosnocSolver, IrkSchemes, IrkRepresentation, PssMode, nosnoc)
from nosnoc import rk_utils

ID = 'C18'
LEVEL = 'exploration'
RULE = ('every (scheme, stage number) the library accepts is enumerated: tableau tables against order conditions, collocation identities '
        'and the integral form; the real solver integrates one step of random linear systems with each of them in each representation and '
        'the result is compared with the rational (Pade) stability function of the method; explicit integrator on random polynomial and '
        'linear fields; distinct = (kind, scheme, stage number, representation)')
TOL = {1: 1e-13, 2: 1e-13, 3: 1e-12, 4: 1e-12, 5: 1e-11, 6: 1e-10, 7: 5e-10, 8: 5e-9, 9: 2e-8}


def cases(tier, seed):
    for s in IrkSchemes:
        for n in range(1, 10):
            yield dict(kind='tableau', scheme=s.name, n_s=n)
        for n in (0, 10, 11, 15):
            yield dict(kind='unsupported', scheme=s.name, n_s=n)
    for k in range(20 if tier == 'quick' else 300):
        yield dict(kind='rk4', seed=seed * 1000 + k)
    m = 1 if tier == 'quick' else 12
    for k in range(m):
        for s in IrkSchemes:
            for rep in IrkRepresentation:
                for n in range(1, 10):
                    for cost in ((k + n) % 2,):
                        yield dict(kind='step', scheme=s.name, n_s=n, rep=rep.name, cost=cost, seed=seed * 1000 + k)


def pade(n, radau, z):
    """stability function of the n stage method (matrix argument)"""
    L, M = (n - 1, n) if radau else (n, n)
    num = np.zeros_like(z)
    den = np.zeros_like(z)
    Z = np.eye(len(z))
    f = math.factorial
    for j in range(M + 1):
        if j <= L:
            num = num + f(L + M - j) * f(L) / (f(L + M) * f(j) * f(L - j)) * Z
        den = den + (-1)**j * f(L + M - j) * f(M) / (f(L + M) * f(j) * f(M - j)) * Z
        Z = Z @ z
    return np.linalg.solve(den, num)


def expm(M):
    """scaling and squaring with a high order Taylor polynomial"""
    s = max(0, int(np.ceil(np.log2(max(1e-16, np.linalg.norm(M, 1))))) + 3)
    A = M / 2**s
    T = E = np.eye(len(M))
    for k in range(1, 22):
        T = T @ A / k
        E = E + T
    for _ in range(s):
        E = E @ E
    return E


def run(case, obs):
    kind = case['kind']
    obs.see('kind_' + kind)
    if kind == 'unsupported':
        sch, n = IrkSchemes[case['scheme']], case['n_s']
        for fn in (rk_utils.generate_butcher_tableu, rk_utils.generate_butcher_tableu_integral):
            if n == 0 and fn is rk_utils.generate_butcher_tableu_integral:
                continue
            try:
                fn(n, sch)
                obs.alarm('accepted', f'{fn.__name__} accepts {n} stages of {sch.name}')
            except Exception:
                obs.see('refused')
        obs.sig((kind, case['scheme'], n))
        return
    if kind == 'tableau':
        sch, n = IrkSchemes[case['scheme']], case['n_s']
        tol = TOL[n]
        radau = sch == IrkSchemes.RADAU_IIA
        A, b, c, order = rk_utils.generate_butcher_tableu(n, sch)
        A, b, c = np.array(A, float), np.array(b, float).flatten(), np.array(c, float).flatten()
        obs.check(A.shape == (n, n) and b.shape == (n,) and c.shape == (n,), 'shape', f'{A.shape} {b.shape} {c.shape}')
        q = 2 * n - 1 if radau else 2 * n
        obs.check(order == q, 'order', f'{sch.name} {n}: returned order {order} instead of {q}')
        for k in range(1, q + 1):
            r = abs(b @ c**(k - 1) - 1 / k)
            obs.check(r < tol, 'quadrature', f'{sch.name} {n}: quadrature condition {k} violated by {r:.2e}')
        for k in range(1, n + 1):
            r = np.max(abs(A @ c**(k - 1) - c**k / k))
            obs.check(r < tol, 'stage-order', f'{sch.name} {n}: stage order condition {k} violated by {r:.2e}')
        for k in range(1, n + (0 if radau else 1)):
            r = np.max(abs((b * c**(k - 1)) @ A - b * (1 - c**k) / k))
            obs.check(r < tol, 'adjoint-order', f'{sch.name} {n}: condition D({k}) violated by {r:.2e}')
        obs.check(np.all(np.diff(c) > 0) and c[0] > 0 and c[-1] <= 1, 'nodes', f'{c}')
        if radau:
            obs.check(c[-1] == 1.0 and np.max(abs(A[-1] - b)) < tol, 'stiffly-accurate', f'c {c}, last row {A[-1]} b {b}')
        B, C, D, t = [np.array(a, float) for a in rk_utils.generate_butcher_tableu_integral(n, sch)]
        B, D = B.flatten(), D.flatten()
        iA = np.linalg.inv(A)
        e = np.ones(n)
        t2 = tol * 100
        for name, x, y in (('nodes', t, np.concatenate(([0], c))), ('C', C[1:, 1:].T, iA), ('C0', C[0, 1:], -iA @ e),
                           ('D', D[1:], b @ iA), ('D0', D[:1], np.array([1 - b @ iA @ e])), ('B', B, np.concatenate(([0], b)))):
            obs.check(x.shape == y.shape and np.max(abs(x - y)) < t2, 'integral-form:' + name,
                      lambda: f'{sch.name} {n}: {name} = {x} instead of {y}')
        # derivative of the interpolation polynomial: exact on polynomials
        for k in range(0, n + 1):
            v = t**k
            d = k * t[1:]**(k - 1) if k else np.zeros(n)
            obs.check(np.max(abs(v @ C[:, 1:] - d)) < t2, 'integral-form:collocation', f'{sch.name} {n}: derivative of t^{k}')
            obs.check(abs(v @ D - 1) < t2, 'integral-form:end', f'{sch.name} {n}: end value of t^{k}')
        obs.sig((kind, case['scheme'], n))
        obs.sample = dict(scheme=sch.name, n_s=n, c=list(c))
        return
    rng = np.random.default_rng(case['seed'])
    if kind == 'rk4':
        n = int(rng.integers(1, 4))
        M = rng.normal(size=(n, n))
        x0 = rng.normal(size=n)
        fv = rng.normal(size=n)
        x = ca.SX.sym('x', n)
        f = ca.Function('f', [x], [ca.mtimes(ca.DM(M), x) + ca.DM(fv)])
        T = float(rng.uniform(.1, 1))
        N = int(rng.integers(1, 6))
        MM = np.block([[M, fv[:, None]], [np.zeros((1, n + 1))]])

        def step(h, xx):
            Z = h * MM
            R = np.eye(n + 1) + Z + Z @ Z / 2 + Z @ Z @ Z / 6 + Z @ Z @ Z @ Z / 24
            return (R @ np.concatenate((xx, [1])))[:n]
        X, t = rk_utils.rk4(f, x0.copy(), T, N)
        X = np.array(X)
        exp = [x0]
        for _ in range(N):
            exp.append(step(T / N, exp[-1]))
        obs.check(X.shape == (N + 1, n) and np.max(abs(X - exp)) < 1e-12 * (1 + np.max(np.abs(exp))), 'rk4', lambda: f'{X} instead of {exp}')
        obs.check(np.allclose(t, np.linspace(0, T, N + 1), atol=1e-14), 'rk4-time', f'{t}')
        hs = rng.uniform(.05, .5, size=N)
        Y = np.array(rk_utils.rk4_on_timegrid(f, x0.copy(), hs))
        exp = [x0]
        for h in hs:
            exp.append(step(h, exp[-1]))
        obs.check(Y.shape == (N + 1, n) and np.max(abs(Y - exp)) < 1e-12 * (1 + np.max(np.abs(exp))), 'rk4-grid', lambda: f'{Y} instead of {exp}')
        # order four on a nonlinear field: x' = -x^2, y' = x y
        z = ca.SX.sym('z', 2)
        g = ca.Function('g', [z], [ca.vertcat(-z[0]**2, z[0] * z[1])])
        a = float(rng.uniform(.5, 2))
        err = []
        for m in (16, 32, 64):
            W = np.array(rk_utils.rk4(g, np.array([a, 1.0]), 1.0, m)[0])[-1]
            err.append(max(abs(W[0] - a / (1 + a)), abs(W[1] - (1 + a))))
        p = math.log2(err[1] / err[2]) if err[2] > 1e-14 else 4.0
        obs.check(3.4 < p < 5.5, 'rk4-order', f'observed order {p:.2f}, errors {err}')
        obs.see('steps', 2 * N)
        obs.sig((kind, n, N))
        obs.sample = dict(case=case, observed_order=p)
        return
    # one step of a linear system by the real solver
    n_s = case['n_s']
    sch = IrkSchemes[case['scheme']]
    nx = int(rng.integers(1, 4))
    M = rng.normal(size=(nx, nx))
    x0 = rng.normal(size=nx)
    h = float(rng.uniform(.2, .8))
    x = ca.SX.sym('x', nx)
    s = ca.SX.sym('s')
    f = ca.vertcat(ca.mtimes(ca.DM(M), x), 1)
    model = NosnocModel(x=ca.vertcat(x, s), F=[ca.horzcat(f, f)], S=[np.array([[1], [-1]])], c=[s + 1], x0=np.append(x0, 0.0))
    o = NosnocOpts()
    o.n_s = n_s
    o.irk_scheme = sch
    o.irk_representation = IrkRepresentation[case['rep']]
    o.N_stages = 1
    o.N_finite_elements = 1
    o.use_fesd = False
    o.pss_mode = PssMode.STEWART
    o.terminal_time = h
    o.print_level = 0
    o.comp_tol = 1e-9
    Ctl.reset()
    q = rng.normal(size=nx)
    ocp = NosnocOcp(f_q=ca.dot(ca.DM(q), x)) if case['cost'] else NosnocOcp()
    sv = NosnocSolver(o, model, ocp)
    res = sv.solve()
    from mon.core import Inconclusive
    px = Ctl.proxies[0]
    c = px.calls[-1]
    viol = max(0.0, float(np.max(np.maximum(c.g - c.ubg, c.lbg - c.g))))
    if viol > 1e-7:
        raise Inconclusive(f'NLP not solved: {c.status}, infeasibility {viol}')
    # quadrature state appended: x1 = R(h Maug)
    Ma = np.block([[M, np.zeros((nx, 1))], [q[None], np.zeros((1, 1))]])
    e = pade(n_s, sch == IrkSchemes.RADAU_IIA, h * Ma) @ np.append(x0, 0.0)
    got = np.array(res['x_list'][-1])[:nx]
    scale = 1 + np.max(np.abs(e))
    obs.check(np.max(abs(got - e[:nx])) < 1e-6 * scale, 'step', lambda: f'{sch.name} {n_s} {case["rep"]}: one step gives {got} instead of {e[:nx]}')
    if case['cost']:
        obs.check(abs(res['cost_val'] - e[nx]) < 1e-6 * scale, 'step-cost', lambda: f'{sch.name} {n_s} {case["rep"]}: cost {res["cost_val"]} instead of {e[nx]}')
    ex = expm(h * M) @ x0
    obs.see('max_error_vs_exact_1e12', np.max(abs(got - ex)) * 1e12 if n_s > 5 else 0)
    obs.see('nlp_solves', len(px.calls))
    obs.sig((kind, case['scheme'], n_s, case['rep']))
    obs.sample = dict(case=case, end_state=list(got), expected=list(e[:nx]))
