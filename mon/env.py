"""Import the nosnoc of the current /repo working tree with an observing NLP solver.

``casadi.nlpsol`` is replaced *before* nosnoc is imported: every NLP that nosnoc hands to
the NLP solver and every call of that solver is recorded at that boundary.  The NLP is
either solved by the real IPOPT or by a scripted handler (fault injection / marked
solution vectors).
"""
import os
import sys
import warnings

sys.dont_write_bytecode = True
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import casadi as ca  # noqa: E402

_real_nlpsol = ca.nlpsol


class Call:
    """one call of the NLP solver"""
    __slots__ = ('x0', 'lbx', 'ubx', 'lbg', 'ubg', 'p', 'w', 'f', 'g', 'status', 'iter_count', 'kw')


class Ctl:
    """how proxies behave; reset by every case"""
    handler = None      # callable(proxy, call) -> (w, status) or None for the real solver
    keep = True
    eager = False       # create the real solver at construction
    proxies = []
    name_args = []
    real_opts = {}      # additional options of the real solver

    @classmethod
    def reset(cls, handler=None, eager=False):
        cls.handler = handler
        cls.eager = eager
        cls.real_opts = {}
        cls.proxies = []


def _vec(v, n, default):
    if v is None:
        return np.full(n, default, dtype=float)
    a = np.array(ca.DM(v).full(), dtype=float).flatten()
    if a.size == 1 and n != 1:
        a = np.full(n, a[0])
    return a


class SolverProxy:

    def __init__(self, name, plugin, nlp, opts):
        self.name_ = name
        self.plugin = plugin
        self.nlp = dict(nlp)
        self.opts = opts
        import copy
        self.opts_copy = copy.deepcopy(opts)
        self.calls = []
        self._real = None
        self._fg = None
        self._stats = None
        self.nw = nlp['x'].shape[0]
        g = nlp.get('g', ca.SX(0, 1))
        self.ng = g.shape[0] if g.numel() else 0
        self.np_ = nlp['p'].shape[0] if 'p' in nlp else 0
        for k in ('f', 'g'):        # what the real one refuses
            if k in nlp and self.ng and not ca.SX(nlp[k]).is_dense():
                raise RuntimeError(f'NLP solver: expected a dense vector {k!r}, but got {ca.SX(nlp[k]).dim()}')
        Ctl.proxies.append(self)
        if Ctl.eager:
            self.real()

    def real(self):
        if self._real is None:
            self._real = _real_nlpsol(self.name_, self.plugin, self.nlp, dict(self.opts_copy, **Ctl.real_opts))
        return self._real

    def fg(self, w, p):
        """objective and constraints of the recorded NLP at a point"""
        if self._fg is None:
            g = self.nlp.get('g', ca.SX(0, 1))
            self._fg = ca.Function('fg', [self.nlp['x'], self.nlp['p']], [self.nlp['f'], g])
        f, g = self._fg(w, p)
        return float(f), np.array(g.full(), dtype=float).flatten()

    def __call__(self, **kw):
        c = Call()
        c.kw = sorted(kw)
        c.x0 = _vec(kw.get('x0'), self.nw, 0.0)
        c.lbx = _vec(kw.get('lbx'), self.nw, -np.inf)
        c.ubx = _vec(kw.get('ubx'), self.nw, np.inf)
        c.lbg = _vec(kw.get('lbg'), self.ng, -np.inf) if self.ng else np.zeros(0)
        c.ubg = _vec(kw.get('ubg'), self.ng, np.inf) if self.ng else np.zeros(0)
        c.p = _vec(kw.get('p'), self.np_, 0.0)
        c.iter_count = None
        out = Ctl.handler(self, c) if Ctl.handler is not None else None
        if out is None:
            sol = self.real()(**kw)
            st = self.real().stats()
            c.w = np.array(sol['x'].full()).flatten()
            c.f = float(sol['f'])
            c.g = np.array(sol['g'].full()).flatten()
            c.status = st['return_status']
            c.iter_count = st['iter_count']
            self._stats = st
        else:
            w, status = out[0], out[1]
            c.w = np.array(w, dtype=float).flatten()
            c.f, c.g = self.fg(c.w, c.p)
            if len(out) > 2 and out[2] is not None:
                c.f = out[2]
            c.status = status
            c.iter_count = 1000 + len(self.calls)
            self._stats = {'return_status': status, 'iter_count': c.iter_count,
                           'success': status in ('Solve_Succeeded', 'Solved_To_Acceptable_Level'),
                           't_proc_total': 0.25 + 0.5 * len(self.calls),
                           't_wall_total': 0.25 + 0.5 * len(self.calls),
                           'unified_return_status': 'SOLVER_RET_UNKNOWN', 'iterations': {}}
            sol = {'x': ca.DM(c.w), 'f': ca.DM(c.f),
                   'g': ca.DM(c.g) if self.ng else ca.DM(0, 1),
                   'lam_x': ca.DM.zeros(self.nw, 1), 'lam_g': ca.DM.zeros(self.ng, 1),
                   'lam_p': ca.DM.zeros(self.np_, 1)}
        self.calls.append(c)
        return sol

    def stats(self, *a):
        return self._stats

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self.real(), k)


def nlpsol(name, plugin, nlp, opts=None, *a):
    return SolverProxy(name, plugin, nlp, {} if opts is None else opts)


ca.nlpsol = nlpsol

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import nosnoc  # noqa: E402
warnings.simplefilter('ignore')
ca.GlobalOptions.setMaxNumDir(ca.GlobalOptions.getMaxNumDir())

if not os.path.realpath(nosnoc.__file__).startswith(REPO + os.sep):
    raise SystemExit(f'nosnoc imported from {nosnoc.__file__}, not from {REPO}')

from nosnoc import (NosnocModel, NosnocOcp, NosnocOpts, NosnocSolver, NosnocSimLooper, NosnocProblem,  # noqa: E402,F401
                    NosnocAutoModel, MpccMode, IrkSchemes, StepEquilibrationMode, CrossComplementarityMode,
                    IrkRepresentation, PssMode, HomotopyUpdateRule, InitializationStrategy,
                    ConstraintHandling, Status, SpeedOfTimeVariableMode, get_results_from_primal_vector)
