"""C20: equivalent region descriptions."""
import itertools
import numpy as np
from mon.env import (ca, Ctl, NosnocModel, NosnocOpts, NosnocSolver, PssMode, MpccMode, IrkSchemes, IrkRepresentation, CrossComplementarityMode)
from mon.spec import RandFun, dense_signs, sparse_signs
from mon.core import Inconclusive

ID = 'C20'
LEVEL = 'exploration'
RULE = ('random piecewise smooth systems (several subsystems of different sizes, permuted and partially specified sign rows, switching '
        'functions with parameters) are written down in every applicable form (indicator functions, sign matrix in Stewart and step '
        'reformulation, explicit step-function inclusion); from random states away from the surfaces each form is integrated over one short '
        'implicit Euler step with the real NLP solver and must move with the field of the region its state lies in; the multipliers of the '
        'initial state that reach the NLP are compared with the ones of that region; distinct = (forms, subsystem shapes, region)')
ASSUME = ['states within 0.15 of a switching surface are not used']
LIMIT = dict(quick=60, thorough=120)

# Stewart's indicator -S c does not describe the regions of partially specified rows
KNOWN = {'sparse-S-stewart': dict(seed=0, forms=['stewart'], fixed_sparse=True)}


def cases(tier, seed):
    n = 160 if tier == 'quick' else 2500
    for k in range(n):
        yield dict(seed=seed * 10007 + k)


class Sys:

    def __init__(self, rng, case):
        self.nx = int(rng.integers(1, 4))
        self.npg = int(rng.integers(0, 3))
        self.npt = int(rng.integers(0, 2))
        self.n_sys = int(rng.integers(1, 4))
        self.sparse = rng.random() < .35 or bool(case.get('fixed_sparse'))
        cd = dict(x=self.nx, p=self.npg + self.npt)
        fd = dict(x=self.nx, p=self.npg + self.npt)
        self.c, self.S, self.F = [], [], []
        for _ in range(self.n_sys):
            nc = int(rng.integers(1, 4 if self.n_sys == 1 else 3))
            self.c.append(RandFun(rng, cd, nc))
            S = sparse_signs(rng, nc) if self.sparse else dense_signs(nc)
            if len(S) < 2:
                S = np.array([[1] + [0] * (nc - 1), [-1] + [0] * (nc - 1)])
            S = S[rng.permutation(len(S))]
            self.S.append(S)
            self.F.append([RandFun(rng, fd, self.nx) for _ in range(len(S))])
        if case.get('fixed_sparse'):
            self.nx, self.npg, self.npt, self.n_sys = 1, 0, 0, 1
            cd = dict(x=1)
            a = RandFun(rng, cd, 2, nonlin=False)
            a.d, a.M = np.array([1.0, -3.0]), {'x': np.zeros((2, 1))}
            self.c, self.S = [a], [np.array([[1, 0], [-1, 1], [-1, -1]])]
            self.F = [[RandFun(rng, cd, 1) for _ in range(3)]]
        self.has_sparse = any(np.any(S == 0) for S in self.S)

    def region(self, x, p):
        out, dist = [], np.inf
        for c, S in zip(self.c, self.S):
            v = c.num(x=x, p=p)
            dist = min(dist, np.min(np.abs(v)))
            ok = [i for i, r in enumerate(S) if all(r[q] * v[q] > 0 for q in range(len(v)) if r[q] != 0)]
            if len(ok) != 1:
                raise Inconclusive('state in no or several regions')
            out.append(ok[0])
        return out, dist

    def field(self, reg, x, p):
        return sum(F[r].num(x=x, p=p) for F, r in zip(self.F, reg))

    def model(self, form, x0, pg, pt):
        x, P, T = ca.SX.sym('x', self.nx), ca.SX.sym('pg', self.npg), ca.SX.sym('pt', self.npt)
        q = dict(x=x, p=ca.vertcat(T, P))
        kw = dict(x=x, x0=x0.copy())
        if self.npg:
            kw.update(p_global=P, p_global_val=pg.copy())
        if self.npt:
            kw.update(p_time_var=T, p_time_var_val=pt.reshape(1, -1).copy())
        c = [a.sym(**q) for a in self.c]
        F = [ca.horzcat(*[f.sym(**q) for f in L]) for L in self.F]
        if form in ('stewart', 'step'):
            kw.update(F=F, c=c, S=[S.copy() for S in self.S])
        elif form == 'indicator':
            kw.update(F=F, g_Stewart=[-ca.mtimes(ca.DM(S.astype(float)), a) for S, a in zip(self.S, c)])
        elif form == 'indicator_scaled':
            # any indicator functions whose minimum selects the region are allowed
            kw.update(F=F, g_Stewart=[-2.0 * ca.mtimes(ca.DM(S.astype(float)), a) + 1.5 + x[0] for S, a in zip(self.S, c)])
        else:
            al = [ca.SX.sym(f'a{i}', a.shape[0]) for i, a in enumerate(c)]
            f = 0
            for S, a, FF in zip(self.S, al, F):
                for i, row in enumerate(S):
                    t = FF[:, i]
                    for k, s in enumerate(row):
                        if s:
                            t = t * (a[k] if s == 1 else 1 - a[k])
                    f = f + t
            if form == 'general_split' and self.n_sys == self.nx and self.n_sys > 1:
                kw.update(c=c, alpha=al, f_x=[f[i] for i in range(self.nx)])
            else:
                kw.update(c=[ca.vertcat(*c)], alpha=[ca.vertcat(*al)], f_x=[f])
        return NosnocModel(**kw)


def run(case, obs):
    rng = np.random.default_rng([case['seed'], 20])
    sy = Sys(rng, case)
    forms = case.get('forms')
    if forms is None:
        forms = ['step', 'general', 'general_split']
        if not sy.has_sparse:
            forms += ['stewart', 'indicator', 'indicator_scaled']
    h = 2e-3
    pts = []
    for _ in range(400):
        x0 = rng.normal(size=sy.nx) * 1.5
        pg, pt = rng.normal(size=sy.npg), rng.normal(size=sy.npt)
        p = np.concatenate([pt, pg])
        reg, dist = sy.region(x0, p)
        if dist > .15:
            pts.append((x0, pg, pt, reg))
        if len(pts) == 3:
            break
    if not pts:
        raise Inconclusive('no state away from the surfaces found')
    n_s = int(rng.integers(1, 3))
    o_scheme = list(IrkSchemes)[rng.integers(2)]
    rep = list(IrkRepresentation)[rng.integers(3)]
    mode = [MpccMode.SCHOLTES_INEQ, MpccMode.SCHOLTES_EQ, MpccMode.ELASTIC_INEQ][rng.integers(3)]
    cross = list(CrossComplementarityMode)[rng.integers(2)]
    desc = dict(nx=sy.nx, S=[S.tolist() for S in sy.S], npg=sy.npg, npt=sy.npt, n_s=n_s, scheme=o_scheme.name, rep=rep.name, mode=mode.name)
    undecided = 0
    for form in forms:
        x0, pg, pt, _ = pts[0]
        o = NosnocOpts()
        o.n_s, o.irk_scheme, o.irk_representation = n_s, o_scheme, rep
        o.N_stages, o.N_finite_elements = 1, 1
        o.use_fesd = bool(rng.random() < .4)
        o.terminal_time = h
        o.mpcc_mode, o.cross_comp_mode = mode, cross
        o.print_level = 0
        o.comp_tol = 1e-8
        o.pss_mode = PssMode.STEWART if form in ('stewart', 'indicator', 'indicator_scaled') else PssMode.STEP
        Ctl.reset()
        s = NosnocSolver(o, sy.model(form, x0, pg, pt))
        px = Ctl.proxies[0]
        for k, (x0, pg, pt, reg) in enumerate(pts):
            p = np.concatenate([pt, pg])
            if k:
                s.set('x0', x0.copy())
                if sy.npg:
                    s.set('p_global', pg.copy())
                if sy.npt:
                    s.set('p_time_var', pt.reshape(1, -1).copy())
            n0 = len(px.calls)
            res = s.solve()
            call = px.calls[-1]
            check_lambda00(sy, form, s, px.calls[n0], x0, p, reg, obs, desc)
            comp = residual(s, call.w)
            if not res['status'] or comp > 1e-5:
                undecided += 1
                obs.see('undecided_solves')
                continue
            # collocation solution in the region of the state: field is smooth there
            got = np.array(res['x_list'][-1])
            e = reference(sy, reg, x0, p, h)
            v = np.linalg.norm(e - x0)
            if not obs.check(np.linalg.norm(got - e) < 2e-4 * h + 0.02 * v, 'field:' + form,
                             lambda: f'{form}: from x0={x0}, p={p} (regions {reg}) the step moves by {got - x0} instead of {e - x0}\n{desc}'):
                break
            obs.see('steps_compared')
            obs.sig((form, tuple(S.shape for S in sy.S), sy.has_sparse, tuple(reg)))
    obs.see('points', len(pts))
    if undecided > len(forms) * len(pts) * .5:
        raise Inconclusive(f'{undecided} of {len(forms) * len(pts)} steps not solved')
    obs.sample = dict(case=case, forms=forms, regions=[p_[3] for p_ in pts], **desc)


def residual(s, w):
    try:
        from mon.refnlp import flat
        pr = s.problem
        r = 0.0
        for k, st in enumerate(pr.ind_theta):
            for i, fe in enumerate(st):
                for j in range(len(fe)):
                    th, lam = w[flat(fe[j])], w[flat(pr.ind_lam[k][i][j])]
                    al = w[flat(pr.ind_alpha[k][i][j])]
                    ln, lp = w[flat(pr.ind_lambda_n[k][i][j])], w[flat(pr.ind_lambda_p[k][i][j])]
                    for a, b in ((th, lam), (al, ln), (1 - al, lp)):
                        if len(a):
                            r = max(r, float(np.max(np.abs(a * b))))
        return r
    except Exception as e:
        raise Inconclusive(f'cannot read multipliers: {e!r}')


def reference(sy, reg, x0, p, h):
    """accurate integration of the region's field"""
    x = x0.copy()
    n = 4
    for _ in range(n):
        d = h / n
        k1 = sy.field(reg, x, p)
        k2 = sy.field(reg, x + d / 2 * k1, p)
        k3 = sy.field(reg, x + d / 2 * k2, p)
        k4 = sy.field(reg, x + d * k3, p)
        x = x + d / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x


def check_lambda00(sy, form, s, call, x0, p, reg, obs, desc):
    """multipliers of the initial state handed to the NLP solver as parameters"""
    if form in ('stewart', 'indicator', 'indicator_scaled'):
        if sy.has_sparse:
            return
        g = []
        for c, S in zip(sy.c, sy.S):
            v = -S @ c.num(x=x0, p=p)
            if form == 'indicator_scaled':
                v = 2 * v
            g.append(v - v.min())
        e = np.concatenate(g)
        act = [int(np.argmin(a)) for a in g]
        obs.check(act == list(reg), 'oracle', 'reference regions inconsistent')
    else:
        c = np.concatenate([a.num(x=x0, p=p) for a in sy.c])
        e = np.concatenate([np.maximum(-c, 0), np.maximum(c, 0)])
    n = len(e)
    # wherever they are in the parameter vector
    obs.see('initial_multipliers_compared', n)
    left, lost = list(call.p), []
    for v in e:
        k = int(np.argmin(np.abs(np.array(left) - v)))
        if abs(left[k] - v) > 1e-7:
            lost.append(float(v))
        else:
            left.pop(k)
    obs.check(not lost, 'lambda00:' + form, lambda: f'{form}: multipliers {lost} of the initial state are not among the parameters {call.p} (all: {e}) at x0={x0} p={p}\n{desc}')
