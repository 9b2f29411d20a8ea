"""Scripted NLP solver runs: the homotopy protocol is observed against an executable specification of it."""
import numpy as np
from .env import Ctl, NosnocSolver, PssMode, HomotopyUpdateRule, MpccMode, Status
from .refnlp import Layout, Ref, flat
from .spec import Spec, decode, ELASTIC

GOOD = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small']
BAD = ['Infeasible_Problem_Detected', 'Maximum_Iterations_Exceeded', 'Restoration_Failed', 'Diverging_Iterates',
       'Error_In_Step_Computation', 'Invalid_Number_Detected', 'Maximum_CpuTime_Exceeded', 'Internal_Error',
       'Not_Enough_Degrees_Of_Freedom', 'Insufficient_Memory', 'User_Requested_Stop', 'Unrecoverable_Exception']


def lam00(sp, x0, ptv, pg):
    """multipliers of the initial state"""
    class _R(Ref):
        def build(self):
            pass
    r = _R(sp, None, None, np.asarray(x0, dtype=float), ptv, pg, 1.0, 1.0)
    return r.lambda00(sp.z0 if sp.z0 is not None else np.zeros(sp.nz))


def resid_vector(sp, lay, nw, l00, r, rng=None):
    """decision vector whose largest coupled multiplier product is exactly r; variables that are no multipliers are random"""
    w = np.zeros(nw) if rng is None else rng.normal(size=nw)
    d = lay.fe[0][0]
    if sp.pss == PssMode.STEWART:
        for st in lay.fe:
            for e in st:
                w[flat(e['th'])] = 0.0
                w[flat(e['lam'])] = 0.0
        m = int(np.where(l00 == 0)[0][0])
        w[flat(d['th'][0])[m]] = 1.0
        w[flat(d['lam'][0])[m]] = r
    else:
        nc = len(l00) // 2
        a = np.where(l00[:nc] > 0, 0.0, 1.0)
        for st in lay.fe:
            for e in st:
                w[flat(e['ln'])] = 0.0
                w[flat(e['lp'])] = 0.0
                for j in range(sp.n_s):
                    w[flat(e['al'][j])] = a
        key = 'lp' if a[0] == 0.0 else 'ln'
        w[flat(d[key][0])[0]] = r
    return w


class Script:
    """one solver with scripted NLP solves"""

    def __init__(self, sp, opts, rng, ocp=None):
        self.sp, self.rng = sp, rng
        Ctl.reset()
        self.opts = opts
        self.model = sp.model()
        self.ocp = sp.ocp() if ocp is None else ocp
        self.solver = NosnocSolver(opts, self.model, self.ocp)
        self.proxy = Ctl.proxies[0]
        self.lay = Layout(sp, self.solver.problem)
        self.nw = self.proxy.nw
        self.x0, self.ptv, self.pg = sp.x0, sp.ptv_default(), sp.pg

    def set_params(self):
        sp, rng = self.sp, self.rng
        if rng.random() < .7:
            self.x0 = rng.normal(size=sp.nx)
            self.solver.set('x0', self.x0.copy())
        if sp.npt and rng.random() < .7:
            self.ptv = rng.normal(size=(sp.N, sp.npt))
            self.solver.set('p_time_var', self.ptv.copy())
        if sp.npg and rng.random() < .7:
            self.pg = rng.normal(size=sp.npg)
            self.solver.set('p_global', self.pg.copy())

    def user_p(self):
        return np.concatenate([np.concatenate([self.ptv[k], self.pg]) for k in range(self.sp.N)])

    def expected_p(self, sigma, tau=None):
        """parameter vector up to its order: we know the documented order p_stage_0.. p_stage_N-1, sigma, tau, lambda00, x0"""
        l00 = lam00(self.sp, self.x0, self.ptv, self.pg)
        tau = min(sigma**1.5, sigma) if tau is None else tau
        return np.concatenate([self.user_p(), [sigma, tau], l00, self.x0])

    def solve(self, residuals, statuses, fvals=None):
        """run solve() with the given residual and status of each NLP; returns results, recorded calls"""
        l00 = lam00(self.sp, self.x0, self.ptv, self.pg)
        n0 = len(self.proxy.calls)
        ws = [resid_vector(self.sp, self.lay, self.nw, l00, r, self.rng) for r in residuals]

        def handler(p, c):
            k = len(self.proxy.calls) - n0
            if k >= len(ws):
                raise RuntimeError('more NLP solves than the protocol allows')
            return ws[k], statuses[k], None if fvals is None else fvals[k]
        Ctl.handler = handler
        res = self.solver.solve()
        Ctl.handler = None
        return res, self.proxy.calls[n0:]


def protocol(sigma_0, sigma_N, comp_tol, rule, slope, expo, max_iter, residuals):
    """homotopy parameters of the NLPs that are solved"""
    out = []
    s = sigma_0
    for k in range(max_iter):
        out.append(s)
        if residuals[k] < comp_tol or s <= sigma_N:
            break
        if rule == HomotopyUpdateRule.LINEAR:
            s = slope * s
        else:
            s = max(sigma_N, min(slope * s, s**expo))
    return out
