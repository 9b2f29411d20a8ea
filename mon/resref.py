"""Expected result dictionary of a solution vector."""
import numpy as np
from .env import PssMode, SpeedOfTimeVariableMode
from .refnlp import flat


def expected_results(sp, lay, w, x0):
    """-> dict name -> list of vectors / vector"""
    e = {}
    fes = [d for st in lay.fe for d in st]
    g = lambda ind: w[np.array(flat(ind), dtype=int)] if len(flat(ind)) else np.zeros(0)  # noqa: E731
    ends = [g(d['x'][-1]) for d in fes]
    e['x_list'] = ends
    e['x_out'] = ends[-1]
    e['x_traj'] = [x0] + ends
    e['x_all_list'] = [x0] + [g(a) for d in fes for a in d['x']]
    e['u_list'] = [g(a) for a in lay.u]
    e['u_traj'] = e['u_list']
    if sp.sot != SpeedOfTimeVariableMode.NONE:
        e['sot'] = [w[[j]] for j in lay.sot]
    e['theta_list'] = [g(d['th'][-1]) for d in fes]
    e['lambda_list'] = [g(d['lam'][-1]) for d in fes]
    e['alpha_list'] = [g(d['al'][-1]) for d in fes]
    e['lambda_n_list'] = [g(d['ln'][-1]) for d in fes]
    e['lambda_p_list'] = [g(d['lp'][-1]) for d in fes]
    e['z_list'] = [g(d['z'][-1]) for d in fes]
    if sp.use_fesd:
        h = np.array([w[d['h']] for d in fes])
    else:
        h = np.concatenate([np.full(n, sp.T / sp.N / n) for n in sp.nfe])
    tg = np.concatenate(([0.0], np.cumsum(h)))
    e['time_steps'] = h
    e['t_grid'] = tg
    e['t_grid_u'] = tg[np.concatenate(([0], np.cumsum(sp.nfe)))]
    e['v_global'] = g(lay.v)
    e['w_sol'] = w
    return e


LISTS = {'x_list', 'x_traj', 'x_all_list', 'u_list', 'u_traj', 'sot', 'theta_list', 'lambda_list', 'alpha_list',
         'lambda_n_list', 'lambda_p_list', 'z_list'}


def same(name, got, exp, tol=0.0):
    """'' or a description of the difference"""
    f = lambda a: np.array(a, dtype=float).flatten()  # noqa: E731
    if name in LISTS:
        if len(got) != len(exp):
            return f'{name} has {len(got)} entries instead of {len(exp)}'
        for k, (a, b) in enumerate(zip(got, exp)):
            a, b = f(a), f(b)
            if a.shape != b.shape or np.any(np.abs(a - b) > tol):
                return f'{name}[{k}] is {a} instead of {b}'
        return ''
    a, b = f(got), f(exp)
    if a.shape != b.shape or np.any(np.abs(a - b) > max(tol, 1e-12 * (1 + np.max(np.abs(b), initial=0)))):
        return f'{name} is {a} instead of {b}'
    return ''


def marked(sp, lay, nw, rng):
    """every component distinct; positive step sizes"""
    w = np.arange(1, nw + 1) + rng.permutation(nw) / (2.0 * nw)
    w *= rng.choice([-1.0, 1.0], size=nw)
    for st in lay.fe:
        for d in st:
            if d['h'] is not None:
                w[d['h']] = rng.uniform(.01, .1)
    return w


def drifted(cur, sizes, key):
    """interior multipliers move slowly in one direction"""
    out, k = cur.copy(), 0
    for n in sizes:
        v = out[k:k + n]
        inner = np.where((v > .02) & (v < .98))[0]
        if key == 'al':
            for j in inner:
                v[j] += .07 if v[j] < .9 else 0
        elif len(inner) > 1 and v[inner[0]] > .09:
            v[inner[0]] -= .07
            v[inner[-1]] += .07
        k += n
    return out


def with_regions(sp, lay, w, rng, p_change=0.5, frac=0.25, drift=0.0):
    """give every element one region per subsystem (sometimes a convex combination); returns the elements after which the
    multipliers change"""
    fes = [d for st in lay.fe for d in st]
    change, cur = [], None
    for i, d in enumerate(fes):
        key = 'th' if sp.pss == PssMode.STEWART else 'al'
        sizes = [len(a) for a in d[key][0]]
        if cur is None or rng.random() < p_change:
            new = []
            for n in sizes:
                if key == 'th':
                    v = np.zeros(n)
                    v[rng.integers(n)] = 1.0
                    if rng.random() < frac:
                        v = rng.dirichlet(np.ones(n))
                else:
                    v = rng.integers(0, 2, size=n).astype(float)
                    if rng.random() < frac:
                        v[rng.integers(n)] = rng.uniform(.2, .8)
                new.append(v)
            new = np.concatenate(new)
            if cur is not None:
                dmax = np.max(np.abs(new - cur))
                if 0.05 < dmax < 0.2:
                    new = cur           # neither clearly a change nor clearly none
                elif dmax > 0.1:
                    change.append(i)
            cur = new
        elif rng.random() < drift:
            cur = drifted(cur, sizes, key)
        for j in range(sp.n_s):
            w[flat(d[key][j])] = cur
    return change
