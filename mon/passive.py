"""Passive monitor: watches every solver that a workload (a shipped example or test) creates, at the NLP boundary,
and judges it against the reference models with a specification read off the user's own objects."""
import traceback
import numpy as np
from .env import (ca, Ctl, NosnocSolver, IrkRepresentation, CrossComplementarityMode, NosnocSimLooper, NosnocOcp, MpccMode, PssMode, IrkSchemes, InitializationStrategy, ConstraintHandling,
                  StepEquilibrationMode, SpeedOfTimeVariableMode, HomotopyUpdateRule, Status)
from .spec import ELASTIC
from .refnlp import Layout, Ref, bounds, structure_errors, flat
from .match import actual_rows, match
from .resref import expected_results, same
from .script import protocol, GOOD

OPTS = ['terminal_time', 'use_fesd', 'irk_representation', 'n_s', 'irk_scheme', 'cross_comp_mode', 'mpcc_mode', 'constraint_handling', 'pss_mode',
        'gamma_h', 'fix_active_set_fe0', 'N_finite_elements', 'Nfe_list', 'comp_tol', 'sigma_0', 'sigma_N', 'homotopy_update_slope',
        'homotopy_update_exponent', 'homotopy_update_rule', 'step_equilibration', 'step_equilibration_sigma', 'rho_h', 'fb_ip_aug1_weight',
        'fb_ip_aug2_weight', 'do_polishing_step', 'N_stages', 'equidistant_control_grid', 'g_path_at_fe', 'g_path_at_stg', 's_elastic_0',
        's_elastic_max', 's_elastic_min', 'objective_scaling_direct', 'time_freezing', 'time_freezing_tolerance', 'speed_of_time_variables',
        'speed_of_time_min', 'speed_of_time_max', 'rootfinder_for_initial_z', 'initialization_strategy', 'max_iter_homotopy']


class Skip(Exception):
    """the reference does not cover this problem"""


def shot(obj, names=None):
    """values of the attributes now"""
    out = {}
    for k in (names or vars(obj)):
        v = getattr(obj, k)
        if isinstance(v, np.ndarray):
            v = v.copy()
        elif isinstance(v, list):
            v = [a.copy() if isinstance(a, np.ndarray) else a for a in v]
        out[k] = v
    return out


class Expr:
    """numerical value of an expression of the user's symbols"""

    def __init__(self, expr, syms):
        self.keys = [k for k in syms]
        self.size = {k: syms[k].shape[0] for k in syms}
        self.f = ca.Function('e', [syms[k] for k in self.keys], [ca.SX(expr)])

    def num(self, **v):
        v = dict(v)
        if 'p' in v:
            p = np.asarray(v.pop('p'), dtype=float).flatten()
            v['pt'], v['pg'] = p[:self.size['pt']], p[self.size['pt']:]
        args = [np.asarray(v[k], dtype=float).flatten() if k in v else np.full(self.size[k], np.nan) for k in self.keys]
        return np.array(self.f(*args).full(), dtype=float).flatten(order='F')


def vec(a):
    return None if a is None else np.array(a, dtype=float).flatten()


def depends(expr, syms):
    """does the expression depend on the symbols"""
    return syms.shape[0] > 0 and ca.jacobian(ca.vec(ca.SX(expr)), syms).nnz() > 0


class RealSpec:
    """what the user asked for, in the form the reference models read"""

    def __init__(self, o, m, c):
        if o['mpcc_mode'] == MpccMode.BOOLEAN or m['theta'] is not None:
            raise Skip('experimental feature')
        self.N = int(o['N_stages'])
        self.nfe = [int(a) for a in o['Nfe_list']] or [int(o['N_finite_elements'])] * self.N
        self.scheme, self.rep, self.n_s = o['irk_scheme'], o['irk_representation'], int(o['n_s'])
        self.use_fesd, self.cross, self.T = o['use_fesd'], o['cross_comp_mode'], float(o['terminal_time'])
        self.equi, self.gamma_h = o['equidistant_control_grid'], o['gamma_h']
        self.sot, self.sot_min, self.sot_max = o['speed_of_time_variables'], o['speed_of_time_min'], o['speed_of_time_max']
        self.tf, self.tf_tol = o['time_freezing'], o['time_freezing_tolerance']
        self.pss, self.mpcc, self.sigma_0 = o['pss_mode'], o['mpcc_mode'], o['sigma_0']
        self.s_el = (o['s_elastic_0'], o['s_elastic_min'], o['s_elastic_max'])
        self.objdirect, self.stepeq, self.rho_h = o['objective_scaling_direct'], o['step_equilibration'], o['rho_h']
        self.eq_sigma, self.fbw = o['step_equilibration_sigma'], (o['fb_ip_aug1_weight'], o['fb_ip_aug2_weight'])
        self.gp_fe, self.gp_stg = o['g_path_at_fe'], o['g_path_at_stg']
        self.lsq = o['constraint_handling'] == ConstraintHandling.LEAST_SQUARES
        self.right = self.scheme == IrkSchemes.RADAU_IIA
        n = lambda e: e.shape[0]  # noqa: E731
        self.nx, self.nu, self.nz, self.nv = n(m['x']), n(m['u']), n(m['z']), n(m['v_global'])
        self.npt, self.npg = n(m['p_time_var']), n(m['p_global'])
        self.general = m['F'] is None
        self.gst = bool(m['g_Stewart'])
        S = dict(x=m['x'], u=m['u'], z=m['z'], pt=m['p_time_var'], pg=m['p_global'], v=m['v_global'])
        S = {k: ca.SX(a) for k, a in S.items()}
        E = lambda e: Expr(e, S)  # noqa: E731
        self.sys = []
        if self.general:
            Sa = dict(S, al=ca.vertcat(*m['alpha']))
            for fx, cc in zip(m['f_x'], m['c']):
                self.sys.append(dict(nf=None, nc=n(cc), c=E(cc), fx=Expr(fx, Sa)))
        else:
            for i, F in enumerate(m['F']):
                d = dict(nf=F.shape[1], nc=0, F=[E(F[:, j]) for j in range(F.shape[1])])
                if self.gst:
                    d['g'] = E(m['g_Stewart'][i])
                else:
                    d.update(nc=n(m['c'][i]), c=E(m['c'][i]), S=ca.evalf(ca.SX(m['S'][i])).full())
                self.sys.append(d)
        self.n_sys = len(self.sys)
        self.gz = Expr(m['g_z'], dict(S, al=ca.vertcat(*m['alpha'])) if self.general else S) if self.nz else None
        if self.tf:
            self.t_num = E(m['t_var'])
        # values
        self.x0 = vec(m['x0'])
        self.ptv = np.zeros((self.N, self.npt)) if m['p_time_var_val'] is None else np.array(m['p_time_var_val'], dtype=float)
        self.pg = vec(m['p_global_val'])
        self.z0 = vec(m['z0'])
        if o['rootfinder_for_initial_z'] and self.nz:
            rf = ca.rootfinder('z0', 'newton', ca.Function('g', [m['z'], ca.vertcat(m['x'], m['p_time_var'], m['p_global'])], [m['g_z']]))
            zs = self.z0 if self.z0 is not None else np.zeros(self.nz)
            self.z0_fun = lambda x, p: rf(zs, np.concatenate((x, p))).full().flatten()
        inf = np.inf

        def pair(a, b, k):
            a, b = vec(a), vec(b)
            return (-inf * np.ones(k) if a is None else a, inf * np.ones(k) if b is None else b)
        self.bz = pair(m['lbz'], m['ubz'], self.nz)
        self.bx, self.bu = pair(c['lbx'], c['ubx'], self.nx), pair(c['lbu'], c['ubu'], self.nu)
        self.bv = pair(c['lbv_global'], c['ubv_global'], self.nv)
        self.u_guess, self.v_guess = vec(c['u_guess']), vec(c['v_global_guess'])
        self.fq, self.fT = E(c['f_q']), E(c['f_terminal'])
        ng = n(c['g_path'])
        self.gp = E(c['g_path']) if ng else None
        zero = np.zeros(ng)
        self.gpb = (zero if c['lbg'] is None else vec(c['lbg']), zero if c['ubg'] is None else vec(c['ubg']))
        self.gT = E(c['g_terminal']) if n(c['g_terminal']) else None
        self.uc = []
        for k in range(c['g_path_comp'].shape[0]):
            e = c['g_path_comp'][k, :]
            kind = 'stage' if depends(e, ca.vertcat(S['x'], S['z'])) else 'ctrl' if depends(e, ca.vertcat(S['u'], S['pt'])) else 'global'
            self.uc.append((kind, E(e[0]), E(e[1])))
        self.rng_state = 7

    def ptv_default(self):
        return self.ptv

    def describe(self):
        return (f'N_stages={self.N} nfe={self.nfe[:4]} {self.scheme.name} {self.rep.name} n_s={self.n_s} fesd={self.use_fesd} {self.cross.name} '
                f'{self.mpcc.name} {self.pss.name} general={self.general} gst={self.gst} {self.stepeq.name} nx={self.nx} nu={self.nu} nz={self.nz} '
                f'nv={self.nv} np={self.npt}+{self.npg} sys={[(d["nf"], d["nc"]) for d in self.sys]} tf={self.tf} sot={self.sot.name} lsq={self.lsq}')

    def signature(self):
        return (self.N, tuple(self.nfe), self.scheme.name, self.rep.name, self.n_s, self.use_fesd, self.cross.name, self.mpcc.name, self.pss.name,
                self.general, self.gst, self.stepeq.name, self.nx, self.nu, self.nz, self.nv, self.npt, self.npg,
                tuple((d['nf'], d['nc']) for d in self.sys), self.tf, self.sot.name, self.lsq)


def residual(sp, lay, w, l00):
    """largest product of multipliers that have to be complementary"""
    g = lambda ind: w[np.array(flat(ind), dtype=int)] if len(flat(ind)) else np.zeros(0)  # noqa: E731
    Th = lambda d, j: np.concatenate([g(d['th'][j]), g(d['al'][j]), 1 - g(d['al'][j])])  # noqa: E731
    La = lambda d, j: np.concatenate([g(d['lam'][j]), g(d['ln'][j]), g(d['lp'][j])])  # noqa: E731
    out, prev = [], l00
    for st in lay.fe:
        for d in st:
            nl = len(d['lam']) if sp.pss == PssMode.STEWART else len(d['ln'])
            L = [La(d, j) for j in range(nl)]
            for j in range(sp.n_s):
                t = Th(d, j)
                if sp.use_fesd:
                    out += [np.max(t * a) for a in L + [prev]]
                else:
                    out.append(np.max(t * L[j]))
            prev = L[-1]
    return float(np.max(out))


class Watched:
    """one solver of the workload"""

    def __init__(self, solver, o, m, c):
        self.solver = solver
        self.spec, self.why = None, None
        try:
            self.spec = RealSpec(o, m, c)
        except Skip as e:
            self.why = str(e)
        self.proxy = Ctl.proxies[-1]
        self.model = solver.model
        self.stale = False
        self.guess_set = False
        self.n_solves = 0
        self.points = []
        if self.spec:
            self.x0, self.ptv, self.pg = self.spec.x0.copy(), self.spec.ptv.copy(), self.spec.pg.copy()
            self.lay = Layout(self.spec, solver.problem)


class Monitor:
    """install() replaces methods of the solver and loop classes by observing ones"""

    def __init__(self, obs, rng, label, most_solves=60, K=4, vary=False, stop=None):
        self.stop = stop        # raised at a solver outside the reference
        self.vary = vary        # other options than the workload asked for
        self.obs, self.rng, self.label = obs, rng, label
        self.most, self.K = most_solves, K
        self.watched = []
        self.ends = []          # (x0, end state) of the solves of a simulation loop
        self.skipped = []
        self.errors = []

    def safely(self, f, *a):
        try:
            f(*a)
        except Exception as e:  # noqa: BLE001
            self.errors.append(''.join(traceback.format_exception(e))[-2500:])

    def alarm(self, key, text):
        self.obs.alarm(key, f'{self.label}: {text}')

    def check(self, cond, key, text):
        self.obs.count['assertions'] += 1
        if not cond:
            self.alarm(key, text())
        return cond

    def change(self, o, m):
        """random options"""
        r = self.rng
        any_ = lambda E, *no: [e for e in E if e not in no][r.integers(len([e for e in E if e not in no]))]  # noqa: E731
        try:
            o.irk_scheme, o.irk_representation, o.n_s = any_(IrkSchemes), any_(IrkRepresentation), int(r.integers(1, 4))
            o.cross_comp_mode = any_(CrossComplementarityMode)
            o.mpcc_mode = any_(MpccMode, MpccMode.BOOLEAN)
            if o.mpcc_mode == MpccMode.FISCHER_BURMEISTER_IP_AUG:
                o.cross_comp_mode = CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER
            o.step_equilibration = any_(StepEquilibrationMode)
            if r.random() < .2:
                o.use_fesd = not o.use_fesd
            if m.F is not None and not m.g_Stewart:
                o.pss_mode = any_(PssMode)
            o.rho_h, o.gamma_h = float(r.uniform(.1, 2)), float(r.choice([1.0, .7, .3]))
            if r.random() < .5:
                o.N_finite_elements, o.Nfe_list = 2, []
                if o.N_stages > 1 and r.random() < .5:
                    o.Nfe_list = [int(a) for a in r.integers(1, 4, size=o.N_stages)]
            o.equidistant_control_grid = bool(r.integers(2))
            o.objective_scaling_direct = bool(r.integers(2))
            o.do_polishing_step = bool(r.random() < .2)
            if r.random() < .3:
                o.speed_of_time_variables = any_(SpeedOfTimeVariableMode)
            o.initialization_strategy = any_([InitializationStrategy.ALL_XCURRENT_W0_START, InitializationStrategy.ALL_XCURRENT_WOPT_PREV])
            o.homotopy_update_rule = any_(HomotopyUpdateRule)
            o.constraint_handling = ConstraintHandling.LEAST_SQUARES if r.random() < .1 else ConstraintHandling.EXACT
        except Exception as e:  # noqa: BLE001
            self.errors.append(''.join(traceback.format_exception(e))[-2500:])
        self.obs.see('options_varied')

    def find(self, s):
        return next((w for w in self.watched if w.solver is s), None)

    def install(self):
        mon = self
        self.orig = dict(init=NosnocSolver.__init__, solve=NosnocSolver.solve, set=NosnocSolver.set, run=NosnocSimLooper.run)
        orig = self.orig

        def __init__(s, opts, model, ocp=None):
            if mon.vary:
                mon.change(opts, model)
            o, m = shot(opts, OPTS), shot(model)
            c = shot(NosnocOcp() if ocp is None else ocp)
            if mon.stop and (m['theta'] is not None or o['mpcc_mode'] == MpccMode.BOOLEAN):
                mon.skipped.append('experimental feature')
                raise mon.stop()
            orig['init'](s, opts, model, ocp)
            for w in mon.watched:
                if w.model is model:
                    w.stale = True      # its data live in the model that was given to another solver
            try:
                w = Watched(s, o, m, c)
            except Exception as e:  # noqa: BLE001
                mon.errors.append(''.join(traceback.format_exception(e))[-2500:])
                return
            mon.watched.append(w)
            mon.obs.see('solvers')
            if w.why:
                mon.skipped.append(w.why)
                mon.obs.see('solvers_outside_reference')

        def set_(s, field, value):
            orig['set'](s, field, value)
            w = mon.find(s)
            if w and w.spec:
                if field == 'x0':
                    w.x0 = vec(value)
                elif field == 'p_global':
                    w.pg = vec(value)
                elif field == 'p_time_var':
                    w.ptv = np.array(value, dtype=float)
                else:
                    w.guess_set = True
                mon.obs.see('set_calls')

        def solve(s):
            w = mon.find(s)
            if w is None or not w.spec or w.stale:
                return orig['solve'](s)
            o = shot(s.opts, OPTS)
            n0 = len(w.proxy.calls)
            res = orig['solve'](s)
            w.n_solves += 1
            if w.n_solves <= mon.most:
                mon.safely(mon.judge_solve, w, o, w.proxy.calls[n0:], res)
            mon.ends.append((w.x0.copy(), np.array(res['x_list'][-1], dtype=float), res))
            return res

        def run(lo, *a, **k):
            first = lo.X_sim == [] or len(lo.X_sim) == 1
            x0 = vec(lo.xcurrent)
            n0 = len(mon.ends)
            ret = orig['run'](lo, *a, **k)
            w = mon.find(lo.solver)
            if w is not None and w.spec and not w.stale and first:
                mon.safely(mon.judge_loop, lo, x0, mon.ends[n0:])
            return ret
        NosnocSolver.__init__, NosnocSolver.solve, NosnocSolver.set, NosnocSimLooper.run = __init__, solve, set_, run

    def remove(self):
        o = self.orig
        NosnocSolver.__init__, NosnocSolver.solve, NosnocSolver.set, NosnocSimLooper.run = o['init'], o['solve'], o['set'], o['run']

    # ------------------------------------------------------------------
    def l00(self, w):
        class _R(Ref):
            def build(self):
                pass
        sp = w.spec
        r = _R(sp, None, None, w.x0, w.ptv, w.pg, 1.0, 1.0)
        z0 = sp.z0 if sp.z0 is not None else np.zeros(sp.nz)
        if getattr(sp, 'z0_fun', None) is not None:
            z0 = sp.z0_fun(w.x0, np.concatenate([w.ptv[0], w.pg]))
        return r.lambda00(z0)

    def judge_solve(self, w, o, calls, res):
        obs, sp, lay = self.obs, w.spec, w.lay
        obs.see('solves')
        obs.see('nlp_calls', len(calls))
        D = sp.describe()
        l00 = self.l00(w)
        n_pol = o['N_stages'] if o['do_polishing_step'] else 0
        hom = calls[:len(calls) - n_pol]
        # the homotopy
        r = [residual(sp, lay, c.w, l00) for c in hom]
        if any(0 < abs(a / o['comp_tol'] - 1) < 1e-6 for a in r):
            return
        if not np.all(np.isfinite(r)):
            return
        want = protocol(o['sigma_0'], o['sigma_N'], o['comp_tol'], o['homotopy_update_rule'], o['homotopy_update_slope'],
                        o['homotopy_update_exponent'], o['max_iter_homotopy'], r + [0.0] * (o['max_iter_homotopy'] + 1))
        self.check(len(want) == len(hom), 'homotopy-length', lambda: f'{len(hom)} NLPs instead of {len(want)} (residuals {r}): {D}')
        for k, (c, sg) in enumerate(zip(hom, want)):
            user = np.concatenate([np.concatenate([w.ptv[i], w.pg]) for i in range(sp.N)])
            p = np.concatenate([user, [sg, min(sg**1.5, sg)], l00, w.x0])
            self.check(len(p) == len(c.p) and np.allclose(np.sort(p), np.sort(c.p), rtol=1e-9, atol=1e-12), 'parameters',
                       lambda: f'NLP {k}: parameters {np.sort(c.p)[:8]} instead of {np.sort(p)[:8]}: {D}')
            if k:
                guess = hom[k - 1].w
                self.check(np.array_equal(c.x0, guess), 'warm-start', lambda: f'NLP {k} does not start at the previous solution: {D}')
            if len(w.points) < self.K and (k in (0, len(hom) - 1)) and len(want) == len(hom):
                w.points.append(dict(call=c, sigma=sg, x0=w.x0.copy(), ptv=w.ptv.copy(), pg=w.pg.copy()))
        lb, ub, w0, lab = bounds(sp, lay, w.proxy.nw)
        if not o['fix_active_set_fe0']:
            for c in hom[:1] + hom[-1:]:
                for name, a, e in (('lower', c.lbx, lb), ('upper', c.ubx, ub)):
                    bad = np.where(~((a == e) | (np.abs(a - e) < 1e-9 * (1 + np.abs(e)))))[0]
                    self.check(not len(bad), 'bounds', lambda: f'{name} bound of {lab[bad[0]]} is {a[bad[0]]} instead of {e[bad[0]]}: {D}')
            ix = flat([d['x'] for st in lay.fe for d in st])
            g = w0.copy()
            g[ix] = np.tile(w.x0, len(ix) // sp.nx)
            strat = o['initialization_strategy']
            if not w.guess_set and (strat == InitializationStrategy.ALL_XCURRENT_W0_START or
                                    (strat == InitializationStrategy.ALL_XCURRENT_WOPT_PREV and w.n_solves == 1)):
                bad = np.where(~(np.abs(hom[0].x0 - g) < 1e-9 * (1 + np.abs(g))))[0]
                self.check(not len(bad), 'guess', lambda: f'guess of {lab[bad[0]]} is {hom[0].x0[bad[0]]} instead of {g[bad[0]]}: {D}')
        # the results
        last = calls[-1]
        for name, e in expected_results(sp, lay, last.w, w.x0).items():
            t = same(name, res[name], e) if name in res else f'{name} is missing'
            self.check(not t, 'result:' + name, lambda: f'{t}: {D}')
        self.check(abs(float(res['cost_val']) - last.f) <= 1e-9 * (1 + abs(last.f)), 'cost', lambda: f'cost {res["cost_val"]} instead of {last.f}: {D}')
        ok = res['status'] == Status.SUCCESS
        self.check(ok == (last.status in GOOD), 'status', lambda: f'{res["status"]} for {last.status}: {D}')
        self.check(len(res['w_all']) == len(hom) + 1 and all(np.array_equal(np.ravel(a), c.w) for a, c in zip(res['w_all'][1:], hom)), 'iterates',
                   lambda: f'iterates are not those of the NLP solver: {D}')
        obs.see('results', len(res))

    def judge_loop(self, lo, x0, ends):
        obs = self.obs
        D = self.find(lo.solver).spec.describe()
        cur = x0
        for i, (xs, xe, res) in enumerate(ends):
            self.check(np.array_equal(xs, cur), 'loop-state', lambda: f'step {i} starts at {xs} instead of {cur}: {D}')
            cur = xe
            obs.see('loop_steps')
        r = lo.get_results()
        X = np.array([x0] + [a for _, _, q in ends for a in q['x_list']], dtype=float)
        t = np.concatenate([np.zeros(1)] + [np.ravel(q['time_steps']) for _, _, q in ends])
        self.check(np.array_equal(np.array(r['X_sim'], dtype=float), X), 'loop-states', lambda: f'states of the loop are not those of its steps: {D}')
        self.check(np.allclose(r['t_grid'], np.cumsum(t), rtol=0, atol=1e-9 * (1 + t.sum())), 'loop-times', lambda: f'times of the loop: {D}')
        self.check(list(r['status']) == [q['status'] for _, _, q in ends], 'loop-status', lambda: f'{D}')

    # ------------------------------------------------------------------
    def judge_nlps(self):
        """after the workload: the NLPs at random points"""
        for w in self.watched:
            if not w.spec or not w.points:
                continue
            try:
                self.judge_nlp(w)
            except Skip as e:
                self.skipped.append(str(e))
            except Exception as e:  # noqa: BLE001
                self.errors.append(''.join(traceback.format_exception(e))[-2500:])

    def judge_nlp(self, w):
        sp, lay, px, rng, obs = w.spec, w.lay, w.proxy, self.rng, self.obs
        D = sp.describe()
        st = structure_errors(sp, w.solver.problem, lay, px.nw)
        if not self.check(not st, 'layout', lambda: f'{st[:3]}: {D}'):
            return
        sp.x0_start = sp.x0
        _, _, w0, _ = bounds(sp, lay, px.nw)
        pts, refs = [], []
        from .env import Call
        tries = 0
        while len(pts) < self.K:
            pt = w.points[len(pts) % len(w.points)]
            tries += 1
            if tries > 12 * self.K:
                raise Skip('no point at which the problem can be evaluated')
            amp = [.8, .4, .2, .05][min(tries // (3 * self.K), 3)]
            c = Call()
            c.w = w0 + amp * rng.normal(size=px.nw) * (1 + .2 * np.abs(w0))
            c.p, c.lbg, c.ubg = pt['call'].p, pt['call'].lbg, pt['call'].ubg
            c.f, c.g = px.fg(c.w, c.p)
            with np.errstate(all='ignore'):
                ref = Ref(sp, lay, c.w, pt['x0'], pt['ptv'], pt['pg'], pt['sigma'], min(pt['sigma']**1.5, pt['sigma']))
            v = np.array([a[2] for a in ref.rows] + [ref.cost])
            if not np.all(np.isfinite(v)) and not (np.all(np.isfinite(c.g)) and np.isfinite(c.f)):
                continue
            pts.append(dict(call=c))
            refs.append(ref)
        n = len(refs[0].rows)
        exp = [(refs[0].rows[i][0], refs[0].rows[i][1], np.array([r.rows[i][2] for r in refs])) for i in range(n)]
        for pt, r in zip(pts, refs):
            f = pt['call'].f
            e, mag = r.cost, abs(r.cost)
            if sp.lsq:
                sq = sum(a[2]**2 for a in r.rows)
                e, mag = e + sq, mag + sq
            self.check(abs(f - e) <= 1e-7 * (1 + mag), 'objective', lambda: f'objective {f} instead of {e}: {D}')
        if sp.lsq:
            self.check(px.ng == 0, 'least-squares', lambda: f'{px.ng} constraints left: {D}')
            obs.see('rows_matched', n)
        else:
            missing, extra, m = match(exp, actual_rows(pts))
            obs.see('rows_matched', m)
            for cat in sorted({a[0] for a in missing}):
                L = [a for a in missing if a[0] == cat]
                self.alarm('missing:' + cat, f'{len(L)} rows not imposed, values {L[0][2]}: {D}')
            if extra:
                i = extra[0][0]
                self.alarm('extra', f'{len(extra)} rows nobody asked for, e.g. {i}: {str(px.nlp["g"][i])[:200]}: {D}')
            obs.see('assertions', m)
        obs.see('nlps_compared')
        obs.sig(sp.signature())
        if obs.sample is None:
            obs.sample = dict(workload=self.label, problem=D, rows=n)
