"""Independent executable model of the NLP that nosnoc has to hand to the NLP solver.

Everything is evaluated numerically from the specification (numpy only) at given values of
the decision variables and parameters; no nosnoc code is used.
"""
import numpy as np
from numpy.polynomial import polynomial as Pn
from .env import (MpccMode, IrkSchemes, StepEquilibrationMode, CrossComplementarityMode, IrkRepresentation,
                  PssMode, SpeedOfTimeVariableMode)
from .spec import FB_MODES, ELASTIC

_cache = {}


def collocation(scheme, n):
    """c, A, b of the collocation method, and the differentiation / end point weights of the
    polynomial through (0, c_1..c_n); from the roots of the Legendre polynomials"""
    key = (scheme, n)
    if key in _cache:
        return _cache[key]
    P = np.polynomial.legendre.Legendre
    if scheme == IrkSchemes.GAUSS_LEGENDRE:
        poly = P.basis(n)
    else:
        poly = P.basis(n) - P.basis(n - 1)
    r = np.sort(np.real(poly.roots()))
    for _ in range(3):
        r = r - poly(r) / poly.deriv()(r)
    c = (r + 1) / 2
    if scheme == IrkSchemes.RADAU_IIA:
        c[-1] = 1.0

    def lag(nodes):
        out = []
        for j in range(len(nodes)):
            co = np.array([1.0])
            for k in range(len(nodes)):
                if k != j:
                    co = Pn.polymul(co, np.array([-nodes[k], 1.0]) / (nodes[j] - nodes[k]))
            out.append(co)
        return out
    l1 = lag(c)
    A = np.array([[Pn.polyval(c[i], Pn.polyint(l1[j])) for j in range(n)] for i in range(n)])
    b = np.array([Pn.polyval(1.0, Pn.polyint(l1[j])) for j in range(n)])
    l0 = lag(np.concatenate(([0.0], c)))
    C = np.array([[Pn.polyval(c[j], Pn.polyder(l0[k])) for j in range(n)] for k in range(n + 1)])  # [node, stage]
    D = np.array([Pn.polyval(1.0, l0[k]) for k in range(n + 1)])
    _cache[key] = (c, A, b, C, D)
    return _cache[key]


def flat(L):
    if isinstance(L, (list, tuple, np.ndarray)):
        return [a for i in L for a in flat(i)]
    return [int(L)]


class Layout:
    """where the variables of each finite element are in the vector of decision variables"""

    def __init__(self, spec, prob):
        self.fe = []
        k_h = 0
        ih = flat(prob.ind_h)
        g = lambda L: [[flat(s) for s in st] for st in L]  # noqa: E731
        for k in range(spec.N):
            st = []
            for i in range(spec.nfe[k]):
                d = dict(x=[flat(a) for a in prob.ind_x[k][i]], v=[flat(a) for a in prob.ind_v[k][i]],
                         th=g(prob.ind_theta[k][i]), lam=g(prob.ind_lam[k][i]), mu=g(prob.ind_mu[k][i]),
                         al=g(prob.ind_alpha[k][i]), ln=g(prob.ind_lambda_n[k][i]), lp=g(prob.ind_lambda_p[k][i]),
                         z=[flat(a) for a in prob.ind_z[k][i]], bool=flat(prob.ind_bool[k][i]))
                d['h'] = ih[k_h] if spec.use_fesd else None
                k_h += 1
                st.append(d)
            if len(prob.ind_x[k]) != spec.nfe[k]:
                raise ValueError(f'stage {k} has {len(prob.ind_x[k])} finite elements instead of {spec.nfe[k]}')
            self.fe.append(st)
        self.nh = len(ih)
        self.u = [flat(a) for a in prob.ind_u]
        self.sot = flat(prob.ind_sot)
        self.v = flat(prob.ind_v_global)
        self.sel = flat(prob.ind_elastic)
        # binaries of complementarities that belong to no finite element
        self.boolg = flat(prob.ind_bool[spec.N:])

    def groups(self):
        """(label, indices) partition"""
        for k, st in enumerate(self.fe):
            for i, d in enumerate(st):
                for key in ('x', 'v', 'th', 'lam', 'mu', 'al', 'ln', 'lp', 'z', 'bool'):
                    yield (key, k, i), flat(d[key])
                if d['h'] is not None:
                    yield ('h', k, i), [d['h']]
        for k, a in enumerate(self.u):
            yield ('u', k, None), a
        yield ('sot', None, None), self.sot
        yield ('vglob', None, None), self.v
        yield ('sel', None, None), self.sel
        yield ('boolg', None, None), self.boolg


def structure_errors(spec, prob, lay, nw):
    """every component of the decision vector belongs to exactly one variable of the expected size"""
    err = []
    seen = np.zeros(nw, dtype=int)
    for lab, ind in lay.groups():
        for j in ind:
            if not 0 <= j < nw:
                err.append(f'index {j} of {lab} out of range')
            else:
                seen[j] += 1
    for j in np.where(seen != 1)[0][:5]:
        err.append(f'component {j} belongs to {seen[j]} variables')
    S = spec
    diff = S.rep == IrkRepresentation.DIFFERENTIAL
    for k, st in enumerate(lay.fe):
        for i, d in enumerate(st):
            bnd = 1 if (S.use_fesd and not S.right and i < S.nfe[k] - 1) else 0
            nxv = 1 if diff else S.n_s + (0 if S.right else 1)
            exp = dict(x=[S.nx] * nxv, v=[0] * S.n_s if S.rep == IrkRepresentation.INTEGRAL else [S.nx] * S.n_s,
                       z=[S.nz] * S.n_s)
            for key, e in exp.items():
                if [len(a) for a in d[key]] != e:
                    err.append(f'{key}[{k}][{i}]: sizes {[len(a) for a in d[key]]} instead of {e}')
            nf = [s['nf'] for s in S.sys]
            nc = [s['nc'] for s in S.sys]
            if S.pss == PssMode.STEWART:
                exp = dict(th=[nf] * S.n_s, lam=[nf] * (S.n_s + bnd), mu=[[1] * S.n_sys] * (S.n_s + bnd))
            else:
                exp = dict(al=[nc] * S.n_s, ln=[nc] * (S.n_s + bnd), lp=[nc] * (S.n_s + bnd))
            for key, e in exp.items():
                if [[len(b) for b in a] for a in d[key]] != e:
                    err.append(f'{key}[{k}][{i}]: sizes {[[len(b) for b in a] for a in d[key]]} instead of {e}')
    if [len(a) for a in lay.u] != [S.nu] * S.N:
        err.append('u: wrong sizes')
    if S.use_fesd and lay.nh != sum(S.nfe):
        err.append(f'h: {lay.nh} instead of {sum(S.nfe)}')
    ns = {SpeedOfTimeVariableMode.NONE: 0, SpeedOfTimeVariableMode.LOCAL: S.N, SpeedOfTimeVariableMode.GLOBAL: 1}[S.sot]
    if len(lay.sot) != ns:
        err.append(f'sot: {len(lay.sot)} instead of {ns}')
    if len(lay.v) != S.nv:
        err.append('v_global: wrong size')
    if len(lay.sel) != (1 if S.mpcc in ELASTIC else 0):
        err.append('s_elastic: wrong size')
    return err


def fb(x, y, s):
    return x + y - np.sqrt(x * x + y * y + s * s)


class Ref:
    """expected rows, objective, bounds and default guess for one (w, parameters) point"""

    def __init__(self, spec, lay, w, x0, ptv, pg, sigma, tau):
        self.S = spec
        self.lay = lay
        self.w = w
        self.x0 = x0
        self.ptv, self.pg = ptv, pg
        self.sigma, self.tau = sigma, tau
        self.rows = []     # (category, kind, value); kind 'eq' or 'ge' (value >= 0)
        self.cost = 0.0
        self.pairs = []    # (category, x, y) for BOOLEAN
        self.build()

    # -- helpers
    def add(self, cat, vals, lb=0.0, ub=0.0):
        vals = np.atleast_1d(np.asarray(vals, dtype=float)).flatten()
        lb = np.broadcast_to(np.asarray(lb, dtype=float), vals.shape)
        ub = np.broadcast_to(np.asarray(ub, dtype=float), vals.shape)
        for v, lo, hi in zip(vals, lb, ub):
            if lo == hi:
                self.rows.append((cat, 'eq', v - lo))
            else:
                if np.isfinite(lo):
                    self.rows.append((cat, 'ge', v - lo))
                if np.isfinite(hi):
                    self.rows.append((cat, 'ge', hi - v))

    def compl(self, cat, xs, y):
        """relaxed complementarity of y with every x in xs (componentwise)"""
        S, sig = self.S, self.sigma
        y = np.asarray(y, dtype=float).flatten()
        xs = [np.asarray(x, dtype=float).flatten() for x in xs]
        m = S.mpcc
        if m in (MpccMode.SCHOLTES_INEQ, MpccMode.SCHOLTES_EQ):
            v = sum(xs) * y - sig
            self.add(cat, v, -np.inf if m == MpccMode.SCHOLTES_INEQ else 0.0, 0.0)
        elif m in ELASTIC:
            s = self.w[self.lay.sel[0]]
            v = sum(xs) * y
            if m == MpccMode.ELASTIC_INEQ:
                self.add(cat, v - s, -np.inf, 0)
            elif m == MpccMode.ELASTIC_EQ:
                self.add(cat, v - s)
            else:
                self.add(cat, v - s, -np.inf, 0)
                self.add(cat, v + s, 0, np.inf)
        elif m == MpccMode.FISCHER_BURMEISTER:
            self.add(cat, sum(fb(x, y, sig) for x in xs))
        elif m == MpccMode.FISCHER_BURMEISTER_IP_AUG:
            assert len(xs) == 1
            x = xs[0]
            p = fb(x, y, sig)
            w1, w2 = S.fbw
            self.add(cat, p)
            self.add(cat, w1 * (x - sig) * np.sqrt(self.tau))
            self.add(cat, w1 * (y - sig) * np.sqrt(self.tau))
            self.add(cat, w2 * p * np.sqrt(1 + (x - y)**2))
        elif m == MpccMode.BOOLEAN:
            for a, b in zip(sum(xs), y):
                self.pairs.append((cat, a, b))

    def get(self, ind):
        return self.w[np.array(ind, dtype=int)] if len(ind) else np.zeros(0)

    def Lam(self, d, j):
        g = self.get
        return np.concatenate([g(flat(d['lam'][j])), g(flat(d['ln'][j])), g(flat(d['lp'][j]))])

    def Th(self, d, j):
        g = self.get
        a = g(flat(d['al'][j]))
        return np.concatenate([g(flat(d['th'][j])), a, 1 - a])

    def gstewart(self, s, x, z, p):
        d = self.S.sys[s]
        if self.S.gst:
            return d['g'].num(x=x, z=z, p=p)
        return -d['S'] @ d['c'].num(x=x, z=z, p=p)

    def lambda00(self, z):
        p = np.concatenate([self.ptv[0], self.pg])
        if self.S.pss == PssMode.STEWART:
            out = []
            for s in range(self.S.n_sys):
                g = self.gstewart(s, self.x0, z, p)
                out.append(g - np.min(g))
            return np.concatenate(out)
        c = np.concatenate([d['c'].num(x=self.x0, z=z, p=p) for d in self.S.sys])
        return np.concatenate([np.maximum(-c, 0), np.maximum(c, 0)])

    def build(self):
        S, lay, w, get = self.S, self.lay, self.w, self.get
        n_s = S.n_s
        c, A, b, C, D = collocation(S.scheme, n_s)
        INT, DIF, LIFT = IrkRepresentation.INTEGRAL, IrkRepresentation.DIFFERENTIAL, IrkRepresentation.DIFFERENTIAL_LIFT_X
        vg = get(lay.v)
        z0 = S.z0 if S.z0 is not None else np.zeros(S.nz)
        if getattr(S, 'z0_fun', None) is not None:      # algebraic variables that solve the equations at the initial state
            z0 = S.z0_fun(self.x0, np.concatenate([self.ptv[0], self.pg]))
        self.z0_used = z0
        prev_x = self.x0
        prev_lam = self.lambda00(self.z0_used)
        prev_sumL = None
        hk = S.T / S.N
        all_h = []
        for k in range(S.N):
            u = get(lay.u[k])
            p = np.concatenate([self.ptv[k], self.pg])
            sot = 1.0
            if S.sot == SpeedOfTimeVariableMode.LOCAL:
                sot = w[lay.sot[k]]
            elif S.sot == SpeedOfTimeVariableMode.GLOBAL:
                sot = w[lay.sot[0]]
            hs = []
            prev_sumL = prev_sumT = None
            for i in range(S.nfe[k]):
                d = lay.fe[k][i]
                last = i == S.nfe[k] - 1
                h = w[d['h']] if S.use_fesd else hk / S.nfe[k]
                hs.append(h)
                bnd = S.use_fesd and not S.right and not last
                nlam = n_s + (1 if bnd else 0)
                V = [get(a) for a in d['v']]
                # stage states
                if S.rep == DIF:
                    X = [prev_x + h * sum(A[j, r] * V[r] for r in range(n_s)) for j in range(n_s)]
                else:
                    X = [get(d['x'][j]) for j in range(n_s)]
                x_end = get(d['x'][-1])
                if S.rep == LIFT:
                    for j in range(n_s):
                        self.add('lift', X[j] - prev_x - h * sum(A[j, r] * V[r] for r in range(n_s)))
                for j in range(n_s):
                    z = get(d['z'][j])
                    x = X[j]
                    # dynamics
                    if S.general:
                        al = get(flat(d['al'][j]))
                        f = np.concatenate([s['fx'].num(x=x, u=u, p=p, v=vg, z=z, al=al) for s in S.sys])
                    else:
                        f = np.zeros(S.nx)
                        for s, ds in enumerate(S.sys):
                            if S.pss == PssMode.STEWART:
                                mult = get(d['th'][j][s])
                            else:
                                a = get(d['al'][j][s])
                                mult = [np.prod([a[q] if sg == 1 else 1 - a[q] for q, sg in enumerate(row) if sg != 0])
                                        for row in ds['S']]
                            for m, F in zip(mult, ds['F']):
                                f = f + m * F.num(x=x, u=u, p=p, v=vg, z=z)
                    f = sot * f
                    if S.rep == INT:
                        xs = [prev_x] + X
                        self.add('dyn', h * f - sum(C[q, j] * xs[q] for q in range(n_s + 1)))
                    else:
                        self.add('dyn', f - V[j])
                    # objective
                    if S.fq:
                        self.cost += b[j] * h * sot * S.fq.num(x=x, u=u, p=p, v=vg)[0]
                    # algebraic equations
                    for s in range(S.n_sys):
                        if S.pss == PssMode.STEWART:
                            self.add('alg_switch', self.gstewart(s, x, z, p) - get(d['lam'][j][s]) + get(d['mu'][j][s]))
                            self.add('alg_convex', np.sum(get(d['th'][j][s])) - 1)
                        else:
                            self.add('alg_switch', S.sys[s]['c'].num(x=x, z=z, p=p) - get(d['lp'][j][s]) + get(d['ln'][j][s]))
                    if S.nz:
                        self.add('alg_user', S.gz.num(x=x, z=z, u=u, p=p, **({'al': al} if S.general else {})))
                    # user complementarities
                    for kind, fa, fb_ in S.uc:
                        if kind.startswith('stage'):
                            q = dict(x=x, z=z, u=u, p=p, v=vg)
                            self.compl('ucomp', [fa.num(**q)], fb_.num(**q))
                    if S.gp and S.gp_stg and not (S.right and j == n_s - 1 and (last or S.gp_fe)):
                        self.add('gpath', S.gp.num(x=x, u=u, p=p, v=vg), *self.gpb())
                # end of the element
                if S.rep == INT:
                    xe = D[0] * prev_x + sum(D[q + 1] * X[q] for q in range(n_s))
                else:
                    xe = prev_x + h * sum(b[q] * V[q] for q in range(n_s))
                if not S.right or S.rep == DIF:
                    self.add('cont', xe - x_end)
                if S.gp and (last or S.gp_fe):
                    # the end state; for Radau schemes it is the last stage value
                    xg = X[-1] if S.right else x_end
                    self.add('gpath', S.gp.num(x=xg, u=u, p=p, v=vg), *self.gpb())
                if bnd:
                    zl = get(d['z'][-1])
                    for s in range(S.n_sys):
                        if S.pss == PssMode.STEWART:
                            self.add('bnd', self.gstewart(s, x_end, zl, p) - get(d['lam'][n_s][s]) + get(d['mu'][n_s][s]))
                        else:
                            self.add('bnd', S.sys[s]['c'].num(x=x_end, z=zl, p=p) - get(d['lp'][n_s][s]) + get(d['ln'][n_s][s]))
                # control stage complementarities
                if last:
                    for kind, fa, fb_ in S.uc:
                        if kind.startswith('ctrl'):
                            q = dict(u=u, pg=self.pg, pt=self.ptv[k], v=vg)
                            self.compl('ucomp', [fa.num(**q)], fb_.num(**q))
                # cross complementarities
                L = [self.Lam(d, j) for j in range(nlam)]
                Th = [self.Th(d, j) for j in range(n_s)]
                if not S.use_fesd:
                    for j in range(n_s):
                        self.compl('cross', [L[j]], Th[j])
                elif S.cross == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
                    for j in range(n_s):
                        self.compl('cross', L + [prev_lam], Th[j])
                else:
                    for j in range(n_s):
                        for l in L + [prev_lam]:
                            self.compl('cross', [Th[j]], l)
                # step equilibration
                sumL, sumT = sum(L) + prev_lam, sum(Th)
                if S.use_fesd:
                    SE = StepEquilibrationMode
                    if S.stepeq == SE.HEURISTIC_MEAN:
                        self.cost += S.rho_h * (h - hk / S.nfe[k])**2
                    elif i > 0:
                        dh = h - hs[-2]
                        nu = np.prod(prev_sumL * sumL + prev_sumT * sumT)
                        if S.stepeq == SE.HEURISTIC_DELTA:
                            self.cost += S.rho_h * dh**2
                        elif S.stepeq == SE.L2_RELAXED:
                            self.cost += S.rho_h * nu * dh**2
                        elif S.stepeq == SE.L2_RELAXED_SCALED:
                            self.cost += S.rho_h * np.tanh(nu / S.eq_sigma) * dh**2
                        elif S.stepeq == SE.DIRECT:
                            self.add('stepeq', nu * dh)
                        elif S.stepeq == SE.DIRECT_COMPLEMENTARITY:
                            self.compl('stepeq', [nu], dh)
                        elif S.stepeq == SE.HEURISTIC_DELTA_H_COMP:
                            self.compl('stepeq', [0.0], dh)
                prev_sumL, prev_sumT = sumL, sumT
                prev_x, prev_lam = x_end, L[-1]
            if S.use_fesd and S.equi:
                self.add('sumh', sum(hs) - hk)
            all_h += hs
            if S.tf and S.equi:
                if hasattr(S, 't_num'):
                    t = S.t_num.num(x=prev_x)[0] - S.t_num.num(x=self.x0)[0]
                else:
                    t = prev_x[S.nx - 1] - self.x0[S.nx - 1]
                self.add('tf', t - hk * (k + 1), -S.tf_tol, S.tf_tol)
        if S.use_fesd and not S.equi:
            self.add('sumh', sum(all_h) - S.T)
        for kind, fa, fb_ in S.uc:
            if kind == 'global':
                q = dict(pg=self.pg, v=vg)
                self.compl('ucomp', [fa.num(**q)], fb_.num(**q))
        pe = np.concatenate([self.ptv[-1], self.pg])
        if S.gT:
            self.add('terminal', S.gT.num(x=prev_x, p=pe, v=vg))
        if S.fT:
            self.cost += S.fT.num(x=prev_x, p=pe, v=vg)[0]
        if S.mpcc in ELASTIC:
            s = w[lay.sel[0]]
            self.cost = self.cost + s / self.sigma if S.objdirect else self.sigma * self.cost + s

    def gpb(self):
        lo, hi = self.S.gpb
        return 0.0 if lo is None else lo, 0.0 if hi is None else hi


def bounds(spec, lay, nw):
    """expected lower / upper bounds and default initial guess, with a label for every component"""
    S = spec
    lb, ub, w0 = np.full(nw, np.nan), np.full(nw, np.nan), np.full(nw, np.nan)
    lab = [None] * nw
    dual = -np.inf if S.mpcc in FB_MODES else 0.0
    inf = np.inf

    def put(ind, lo, hi, g, name):
        ind = np.array(flat(ind), dtype=int)
        if ind.size == 0:
            return
        lb[ind], ub[ind], w0[ind] = lo, hi, g
        for j in ind:
            lab[j] = name

    def b(pair, n):
        return -inf * np.ones(n) if pair[0] is None else pair[0], inf * np.ones(n) if pair[1] is None else pair[1]
    z0 = S.z0 if S.z0 is not None else np.zeros(S.nz)
    for k, st in enumerate(lay.fe):
        h0 = S.T / S.N / S.nfe[k]
        for i, d in enumerate(st):
            for a in d['x']:
                put(a, *b(S.bx, S.nx), S.x0, f'x[{k}][{i}]')
            for a in d['v']:
                put(a, -inf, inf, 0.0, f'v[{k}][{i}]')
            for a in d['z']:
                put(a, *b(S.bz, S.nz), z0, f'z[{k}][{i}]')
            for st_ in d['th'] + d['lam']:
                for s, a in enumerate(st_):
                    put(a, dual, inf, S.sigma_0 / max(len(a), 1), f'theta/lambda[{k}][{i}]')
            put(d['mu'], -inf, inf, 1.0, f'mu[{k}][{i}]')
            put(d['al'], dual, 1.0, 0.5, f'alpha[{k}][{i}]')
            put(d['ln'], dual, inf, 0.5, f'lambda_n[{k}][{i}]')
            put(d['lp'], dual, inf, 0.5, f'lambda_p[{k}][{i}]')
            put(d['bool'], 0.0, 1.0, 0.5, f'bool[{k}][{i}]')
            if d['h'] is not None:
                put([d['h']], (1 - S.gamma_h) * h0, (1 + S.gamma_h) * h0, h0, f'h[{k}][{i}]')
    for k, a in enumerate(lay.u):
        put(a, *b(S.bu, S.nu), S.u_guess if S.u_guess is not None else 0.0, f'u[{k}]')
    put(lay.boolg, 0.0, 1.0, 0.5, 'bool')
    put(lay.sot, S.sot_min, S.sot_max, 1.0, 'sot')
    put(lay.v, *b(S.bv, S.nv), S.v_guess if S.v_guess is not None else 0.0, 'v_global')
    if lay.sel:
        put(lay.sel, S.s_el[1], S.s_el[2], S.s_el[0], 's_elastic')
    return lb, ub, w0, lab
