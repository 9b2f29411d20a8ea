"""Random problem specifications that can be built as nosnoc objects and, independently,
evaluated with numpy."""
import itertools
import numpy as np
from .env import (ca, NosnocModel, NosnocOcp, NosnocOpts, MpccMode, IrkSchemes, StepEquilibrationMode,
                  CrossComplementarityMode, IrkRepresentation, PssMode, InitializationStrategy,
                  ConstraintHandling, SpeedOfTimeVariableMode, HomotopyUpdateRule)

FB_MODES = (MpccMode.FISCHER_BURMEISTER, MpccMode.FISCHER_BURMEISTER_IP_AUG)
ELASTIC = (MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ, MpccMode.ELASTIC_TWO_SIDED)


class RandFun:
    """random smooth function of named vectors: d + sum M_k v_k + a*sin(sum L_k v_k)"""

    def __init__(self, rng, dims, nout, nonlin=True, scale=1.0):
        self.dims = {k: n for k, n in dims.items() if n > 0}
        self.nout = nout
        self.d = scale * rng.normal(size=nout)
        self.M = {k: scale * rng.normal(size=(nout, n)) for k, n in self.dims.items()}
        self.a = scale * rng.normal(size=nout) if nonlin else None
        self.L = {k: rng.normal(size=(nout, n)) for k, n in self.dims.items()}

    def thin(self, rng):
        """make it independent of some of its arguments, sometimes linear"""
        for k in self.dims:
            keep = rng.random(self.M[k].shape) < .5
            self.M[k] = self.M[k] * keep
            self.L[k] = self.L[k] * keep
        if self.a is not None and rng.random() < .3:
            self.a = None

    def num(self, **v):
        out = self.d.copy()
        s = np.zeros(self.nout)
        for k in self.dims:
            x = np.asarray(v[k], dtype=float).flatten()
            out = out + self.M[k] @ x
            s = s + self.L[k] @ x
        if self.a is not None and self.dims:
            out = out + self.a * np.sin(s)
        return out

    def sym(self, **v):
        out = ca.SX(ca.DM(self.d))
        s = ca.SX.zeros(self.nout, 1)
        for k in self.dims:
            out = out + ca.mtimes(ca.DM(self.M[k]), v[k])
            s = s + ca.mtimes(ca.DM(self.L[k]), v[k])
        if self.a is not None and self.dims:
            out = out + ca.DM(self.a) * ca.sin(s)
        return out


def dense_signs(nc):
    return np.array(list(itertools.product([1, -1], repeat=nc)))


def sparse_signs(rng, nc):
    """rows of a random binary decision tree over the switching functions"""
    rows = []

    def rec(row, free, depth):
        if free and (depth == 0 or rng.random() < 0.6):
            k = free[0]
            for s in (1, -1):
                r = list(row)
                r[k] = s
                rec(r, free[1:], depth + 1)
        else:
            rows.append(row)
    rec([0] * nc, list(range(nc)), 0)
    return np.array(rows)


DEFAULT = dict(
    n_sys=None, regions='any', nz=None, nu=None, nv=None, npt=None, npg=None, cz=True, ragged=None,
    general=None, pss=None, scheme=None, rep=None, n_s=None, cross=None, mpcc=None, use_fesd=None, stepeq=None,
    N_stages=None, nfe=None, equi=None, sot=None, tf=None, gpath=None, gpath_fe=None, gpath_stg=None, ucomp=None,
    terminal=None, cost=None, lsq=False, bounds=None, rho0=False, objdirect=None, cost_any=True, fe_max=3, stage_max=3,
    n_s_max=3, fq_zero=False, nx=None, nc=None, nf=None, vary=None,
)


def pick(rng, val, choices, p=None):
    if val is None:
        return choices[rng.choice(len(choices), p=p)]
    if isinstance(val, (list, tuple)):
        return val[rng.integers(len(val))]
    return val


ENUMS = dict(mpcc=MpccMode, scheme=IrkSchemes, rep=IrkRepresentation, cross=CrossComplementarityMode,
             stepeq=StepEquilibrationMode, pss=PssMode, sot=SpeedOfTimeVariableMode)


def decode(feat):
    """feature dict with enumeration members given by name"""
    out = {}
    for k, v in feat.items():
        if k in ENUMS and isinstance(v, str):
            v = ENUMS[k][v]
        elif k in ENUMS and isinstance(v, list):
            v = [ENUMS[k][a] for a in v]
        out[k] = v
    return out


class Spec:

    def __init__(self, seed, **feat):
        f = dict(DEFAULT)
        unknown = set(feat) - set(f)
        assert not unknown, unknown
        f.update(feat)
        rng = np.random.default_rng(seed)
        self.seed = seed
        self.f = f
        E = list
        # --- discretisation
        self.N = int(pick(rng, f['N_stages'], E(range(1, f['stage_max'] + 1))))
        if f['nfe'] is None:
            self.nfe_mode = pick(rng, None, ['common', 'list'])
            if self.nfe_mode == 'common':
                self.nfe = [int(rng.integers(1, f['fe_max'] + 1))] * self.N
            else:
                self.nfe = [int(rng.integers(1, f['fe_max'] + 1)) for _ in range(self.N)]
        else:
            self.nfe_mode = 'list'
            self.nfe = [int(pick(rng, f['nfe'], None)) for _ in range(self.N)]
        # what N_finite_elements says although a list is given (it must then be ignored)
        self.nfe_common = self.nfe[0] if self.nfe_mode == 'common' else int(rng.integers(1, f['fe_max'] + 2))
        self.scheme = pick(rng, f['scheme'], E(IrkSchemes))
        self.rep = pick(rng, f['rep'], E(IrkRepresentation))
        self.n_s = int(pick(rng, f['n_s'], E(range(1, f['n_s_max'] + 1))))
        self.use_fesd = bool(pick(rng, f['use_fesd'], [True, True, True, False]))
        self.cross = pick(rng, f['cross'], E(CrossComplementarityMode))
        self.T = float(np.round(rng.uniform(0.3, 3.0), 3))
        self.equi = bool(pick(rng, f['equi'], [True, True, False]))
        self.gamma_h = float(pick(rng, None, [1.0, 0.5, 0.25, 0.0]))
        self.sot = pick(rng, f['sot'], [SpeedOfTimeVariableMode.NONE] * 3 + E(SpeedOfTimeVariableMode))
        self.sot_min = float(np.round(rng.uniform(0.2, 1.0), 3))
        self.sot_max = float(np.round(rng.uniform(1.5, 30.0), 3))
        self.tf = bool(pick(rng, f['tf'], [False, False, False, True]))
        self.tf_tol = float(10.0**rng.integers(-5, -1))
        # --- mpcc
        self.general = bool(pick(rng, f['general'], [False, False, False, True]))
        self.pss = PssMode.STEP if self.general else pick(rng, f['pss'], E(PssMode))
        self.mpcc = pick(rng, f['mpcc'], [m for m in MpccMode if m != MpccMode.BOOLEAN])
        if self.mpcc == MpccMode.FISCHER_BURMEISTER_IP_AUG:
            # documented as supported for one pair only
            self.cross = CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER
        self.sigma_0 = float(10.0**rng.uniform(-1, 1))
        self.s_el = (float(rng.uniform(0.3, 2)), float(rng.uniform(0, .2)), float(rng.uniform(3, 20)))
        self.objdirect = bool(pick(rng, f['objdirect'], [True, False]))
        self.stepeq = pick(rng, f['stepeq'], E(StepEquilibrationMode))
        if self.mpcc == MpccMode.BOOLEAN and self.stepeq in (StepEquilibrationMode.DIRECT_COMPLEMENTARITY,
                                                             StepEquilibrationMode.HEURISTIC_DELTA_H_COMP):
            self.stepeq = StepEquilibrationMode.HEURISTIC_DELTA
        self.rho_h = 0.0 if f['rho0'] else float(rng.uniform(0.1, 3))
        self.eq_sigma = float(rng.uniform(0.05, 2))
        self.fbw = (float(rng.uniform(0.3, 2)), float(rng.uniform(0.05, 1)))
        # --- model
        self.nx = int(rng.integers(1, 4))
        if f['nx'] is not None:
            self.nx = int(pick(rng, f['nx'], None))
        if self.tf:
            self.nx = max(self.nx, 2)
        self.nu = int(pick(rng, f['nu'], [0, 1, 2]))
        self.nz = int(pick(rng, f['nz'], [0, 0, 1, 2]))
        self.nv = int(pick(rng, f['nv'], [0, 0, 1, 2]))
        self.npt = int(pick(rng, f['npt'], [0, 1, 2]))
        self.npg = int(pick(rng, f['npg'], [0, 1, 2]))
        self.n_sys = int(pick(rng, f['n_sys'], [1, 1, 2, 3]))
        if self.general:
            self.n_sys = min(self.n_sys, self.nx)
        dx = dict(x=self.nx)
        dall = dict(x=self.nx, u=self.nu, p=self.npt + self.npg, v=self.nv, z=self.nz)
        self.gst = (not self.general) and self.pss == PssMode.STEWART and \
            pick(rng, None if f['regions'] == 'any' else f['regions'] == 'g', [False, False, True])
        ragged = bool(pick(rng, f['ragged'], [False, True]))
        cdims = dict(x=self.nx, p=self.npt + self.npg)
        if f['cz'] and (f['cz'] == 'always' or rng.random() < .3):
            cdims['z'] = self.nz
        self.sys = []
        nc0, nf0 = int(rng.integers(1, 3)), int(rng.integers(2, 5))
        sp0 = rng.random() < .4
        for s in range(self.n_sys):
            nc = int(rng.integers(1, 4 if self.n_sys == 1 else 3)) if ragged else nc0
            nf = int(rng.integers(2, 5)) if ragged else nf0
            if f['nc'] is not None:
                nc = int(pick(rng, f['nc'], None))
            if f['nf'] is not None:
                nf = int(pick(rng, f['nf'], None))
            d = dict()
            if self.gst:
                d['nf'] = nf
                d['nc'] = 0
                d['g'] = RandFun(rng, cdims, nf)
            else:
                d['nc'] = nc
                d['c'] = RandFun(rng, cdims, nc)
                if self.general:
                    d['nf'] = None
                else:
                    d['S'] = dense_signs(nc)
                    if self.pss == PssMode.STEP and sp0 and ragged:
                        d['S'] = sparse_signs(rng, nc)
                    d['S'] = d['S'][rng.permutation(len(d['S']))]
                    d['nf'] = len(d['S'])
            if not self.general:
                d['F'] = [RandFun(rng, dall, self.nx) for _ in range(d['nf'])]
            self.sys.append(d)
        if self.general:
            self.nal = sum(d['nc'] for d in self.sys)
            sizes = [self.nx // self.n_sys] * self.n_sys
            sizes[0] += self.nx - sum(sizes)
            for d, n in zip(self.sys, sizes):
                d['fx'] = RandFun(rng, dict(dall, al=self.nal), n)
        zdims = dict(x=self.nx, z=self.nz, u=self.nu, p=self.npt + self.npg)
        if self.general and self.nz and rng.random() < .5:     # lifted step functions
            zdims['al'] = self.nal
        self.gz = RandFun(rng, zdims, self.nz) if self.nz else None
        # --- values
        self.x0 = rng.normal(size=self.nx)
        self.ptv = rng.normal(size=(self.N, self.npt))
        self.pg = rng.normal(size=self.npg)
        self.ptv_given = bool(self.npt and rng.random() < .7)
        bd = bool(pick(rng, f['bounds'], [True, True, False]))
        self.z0 = rng.normal(size=self.nz) if rng.random() < .7 else None

        def bnd(n):
            lo = rng.uniform(-3, -1, size=n)
            hi = rng.uniform(1, 3, size=n)
            lo[rng.random(n) < .25] = -np.inf
            hi[rng.random(n) < .25] = np.inf
            return lo, hi
        none = (None, None)
        self.bx = bnd(self.nx) if bd else none
        self.bu = bnd(self.nu) if bd else none
        self.bz = bnd(self.nz) if bd else none
        self.bv = bnd(self.nv) if bd else none
        self.u_guess = rng.normal(size=self.nu) if bd else None
        self.v_guess = rng.normal(size=self.nv) if bd else None
        # --- ocp
        dq = dict(x=self.nx, u=self.nu, p=self.npt + self.npg, v=self.nv)
        cost = bool(pick(rng, f['cost'], [True, True, False]))
        self.fq = RandFun(rng, dq, 1) if cost and not f['fq_zero'] and rng.random() < .85 else None
        self.fT = RandFun(rng, dict(x=self.nx, p=self.npt + self.npg, v=self.nv), 1) \
            if cost and (f['fq_zero'] or rng.random() < .85) else None
        ngp = int(pick(rng, f['gpath'], [0, 1, 2]))
        self.gp = RandFun(rng, dq, ngp) if ngp else None
        self.gp_fe = bool(pick(rng, f['gpath_fe'], [True, False]))
        self.gp_stg = bool(pick(rng, f['gpath_stg'], [True, False]))
        kind = rng.integers(3)
        self.gpb = (None, None) if kind == 0 else bnd(ngp)
        if kind == 2:   # some equalities with nonzero value
            eq = rng.random(ngp) < .5
            val = rng.normal(size=ngp)
            self.gpb = (np.where(eq, val, self.gpb[0]), np.where(eq, val, self.gpb[1]))
        if f['lsq']:
            self.gpb = (None, None)
        nt = int(pick(rng, f['terminal'], [0, 1, 2]))
        self.gT = RandFun(rng, dict(x=self.nx, p=self.npt + self.npg, v=self.nv), nt) if nt else None
        uc = pick(rng, f['ucomp'], [False, False, True])
        self.uc = []
        if uc:
            kinds = ['stage', 'stage_x', 'ctrl', 'ctrl_p', 'global']
            for k in list(rng.permutation(kinds)[:rng.integers(1, 5)]):
                if k == 'stage':
                    dd = dict(x=self.nx, z=self.nz, u=self.nu, p=self.npt + self.npg, v=self.nv)
                elif k == 'stage_x':
                    dd = dict(x=self.nx)
                elif k == 'ctrl':
                    if not self.nu:
                        continue
                    dd = dict(u=self.nu, pg=self.npg, v=self.nv)
                elif k == 'ctrl_p':
                    if not self.npt:
                        continue
                    dd = dict(pt=self.npt, v=self.nv)
                else:
                    if not (self.nv or self.npg):
                        continue
                    dd = dict(pg=self.npg, v=self.nv)
                # which of the two sides carries the variables that decide the category
                self.uc.append((k, RandFun(rng, dd, 1), RandFun(rng, dd if rng.random() < .5 else dict(v=self.nv), 1)))
                if rng.random() < .5:
                    self.uc[-1] = (self.uc[-1][0], self.uc[-1][2], self.uc[-1][1])
        self.lsq = bool(f['lsq'])
        self.rng_state = int(rng.integers(2**31))
        self.t_extra, self.varied = None, []
        if f['vary'] is not False:
            self.vary(np.random.default_rng([abs(int(seed)), 77]))

    def vary(self, r):
        """unusual values: horizons, bounds of every shape, sparse functions, clocks, repeated complementarities"""
        def some(name, p):
            hit = r.random() < p
            if hit:
                self.varied.append(name)
            return hit
        if some('horizon', .2):
            self.T = float([0.02, 0.1, 7.5, 40.0][r.integers(4)])
        if some('gamma', .2):
            self.gamma_h = float(np.round(r.uniform(0, 1), 3))
        if some('rho', .1) and not self.f['rho0']:
            self.rho_h = float([0.0, 1e-3, 100.0][r.integers(3)])
        if some('speed', .2):
            self.sot_min, self.sot_max = sorted(np.round(r.uniform(0.01, 3.0, size=2), 3).tolist())
        if some('sparse', .35):
            for d in self.sys:
                for k in ('c', 'g', 'fx'):
                    if k in d and r.random() < .5:
                        d[k].thin(r)
                for fun in d.get('F', []):
                    if r.random() < .7:
                        fun.thin(r)
            for fun in (self.fq, self.fT, self.gp, self.gT):
                if fun is not None and r.random() < .5:
                    fun.thin(r)
        if some('clock', .3):
            if self.tf:
                self.t_num = RandFun(r, dict(x=self.nx), 1, nonlin=bool(r.random() < .5))
            else:
                self.t_extra = int(r.integers(self.nx))
        if self.f['bounds'] is not False and some('bounds', .35):
            def bnd(n):
                lo, hi = np.sort(r.uniform(-4, 4, size=(2, n)), axis=0)
                kind = r.integers(5, size=n)
                lo[kind == 0], hi[kind == 1] = -np.inf, np.inf
                hi[kind == 2] = lo[kind == 2]
                pair = [lo, hi]
                m = r.integers(4)
                if m < 2:
                    pair[m] = None
                return tuple(pair)
            for k in ('bx', 'bu', 'bz', 'bv'):
                if getattr(self, k)[0] is not None and r.random() < .6:
                    setattr(self, k, bnd(len(getattr(self, k)[0])))
            if self.gp and self.gpb[0] is not None and r.random() < .6:
                self.gpb = bnd(self.gp.nout)
        if self.uc and some('ucomp', .4):
            for k, a, b in list(self.uc):
                if r.random() < .6:
                    new = tuple(RandFun(r, dict(fun.dims), 1) for fun in (a, b))
                    self.uc.insert(int(r.integers(len(self.uc) + 1)), (k, *new))

    # ------------------------------------------------------------------
    @property
    def trivial_ocp(self):
        return not (any(b is not None for b in (*self.bx, *self.bu, *self.bv))
                    or self.fq or self.fT or self.gp or self.gT or self.uc)

    @property
    def right(self):
        return self.scheme == IrkSchemes.RADAU_IIA

    def signature(self):
        return (self.N, tuple(self.nfe), self.scheme.name, self.rep.name, self.n_s, self.use_fesd, self.cross.name,
                self.equi, self.sot.name, self.tf, self.general, self.pss.name, self.gst, self.mpcc.name,
                self.stepeq.name, self.nx, self.nu, self.nz, self.nv, self.npt, self.npg,
                tuple((d['nf'], d['nc']) for d in self.sys), self.gp is not None, self.gp_fe, self.gp_stg,
                self.gT is not None, tuple(k for k, _, _ in self.uc), self.fq is not None, self.fT is not None,
                self.bx[0] is not None, tuple(self.varied))

    def describe(self):
        return dict(seed=self.seed, N_stages=self.N, Nfe=self.nfe, scheme=self.scheme.name, rep=self.rep.name,
                    n_s=self.n_s, fesd=self.use_fesd, cross=self.cross.name, mpcc=self.mpcc.name,
                    pss=self.pss.name, g_Stewart=bool(self.gst), general=self.general, stepeq=self.stepeq.name,
                    equidistant=self.equi, sot=self.sot.name, time_freezing=self.tf, nx=self.nx, nu=self.nu,
                    nz=self.nz, nv=self.nv, np_tv=self.npt, np_glob=self.npg,
                    subsystems=[(d['nf'], d['nc']) for d in self.sys], ucomp=[k for k, _, _ in self.uc])

    def opts(self, cls=NosnocOpts):
        o = cls()
        o.terminal_time = self.T
        o.use_fesd = self.use_fesd
        o.print_level = 0
        o.irk_representation = self.rep
        o.irk_scheme = self.scheme
        o.n_s = self.n_s
        o.cross_comp_mode = self.cross
        o.mpcc_mode = self.mpcc
        o.pss_mode = self.pss
        o.gamma_h = self.gamma_h
        o.N_stages = self.N
        if self.nfe_mode == 'list':
            o.Nfe_list = list(self.nfe)
        o.N_finite_elements = self.nfe_common
        o.sigma_0 = self.sigma_0
        o.step_equilibration = self.stepeq
        o.step_equilibration_sigma = self.eq_sigma
        o.rho_h = self.rho_h
        o.fb_ip_aug1_weight, o.fb_ip_aug2_weight = self.fbw
        o.equidistant_control_grid = self.equi
        o.g_path_at_fe = self.gp_fe
        o.g_path_at_stg = self.gp_stg
        o.s_elastic_0, o.s_elastic_min, o.s_elastic_max = self.s_el
        o.objective_scaling_direct = self.objdirect
        o.time_freezing = self.tf
        o.time_freezing_tolerance = self.tf_tol
        o.speed_of_time_variables = self.sot
        o.speed_of_time_min = self.sot_min
        o.speed_of_time_max = self.sot_max
        if self.lsq:
            o.constraint_handling = ConstraintHandling.LEAST_SQUARES
        return o

    def symbols(self):
        S = ca.SX.sym
        q = dict(x=S('x', self.nx), u=S('u', self.nu), z=S('z', self.nz), v=S('v', self.nv),
                 pt=S('pt', self.npt), pg=S('pg', self.npg))
        q['p'] = ca.vertcat(q['pt'], q['pg'])
        return q

    def model(self, x0=None, **extra):
        return NosnocModel(**self.model_kw(x0, **extra))

    def model_kw(self, x0=None, **extra):
        q = self.symbols()
        self.q = q
        kw = dict(x=q['x'], x0=np.array(self.x0 if x0 is None else x0))
        if self.nu:
            kw['u'] = q['u']
        if self.nz:
            kw.update(z=q['z'])
            if self.z0 is not None:
                kw['z0'] = self.z0.copy()
            for key, val in zip(('lbz', 'ubz'), self.bz):
                if val is not None:
                    kw[key] = val.copy()
        if self.nv:
            kw['v_global'] = q['v']
        if self.npt:
            kw['p_time_var'] = q['pt']
            if self.ptv_given:
                kw['p_time_var_val'] = self.ptv.copy()
        if self.npg:
            kw.update(p_global=q['pg'], p_global_val=self.pg.copy())
        if self.tf:
            kw['t_var'] = self.t_num.sym(x=q['x']) if hasattr(self, 't_num') else q['x'][self.nx - 1]
        elif self.t_extra is not None:
            kw['t_var'] = q['x'][self.t_extra]
        if self.general:
            al = [ca.SX.sym(f'al{i}', d['nc']) for i, d in enumerate(self.sys)]
            qa = dict(q, al=ca.vertcat(*al))
            if self.nz:
                kw['g_z'] = self.gz.sym(**qa)
            kw.update(c=[d['c'].sym(**q) for d in self.sys], alpha=al,
                      f_x=[d['fx'].sym(**qa) for d in self.sys])
        else:
            if self.nz:
                kw['g_z'] = self.gz.sym(**q)
            kw['F'] = [ca.horzcat(*[f.sym(**q) for f in d['F']]) for d in self.sys]
            if self.gst:
                kw['g_Stewart'] = [d['g'].sym(**q) for d in self.sys]
            else:
                kw['c'] = [d['c'].sym(**q) for d in self.sys]
                kw['S'] = [d['S'].copy() for d in self.sys]
        kw.update(extra)
        return kw

    def ocp(self, force=False):
        if self.trivial_ocp and not force:
            return None
        return NosnocOcp(**self.ocp_kw())

    def ocp_kw(self):
        q = self.q
        kw = {}

        def put(a, b, val, n=1):
            for key, value in zip((a, b), val):
                if value is not None:
                    kw[key] = value.copy()
        put('lbx', 'ubx', self.bx)
        if self.nu:
            put('lbu', 'ubu', self.bu)
            if self.u_guess is not None:
                kw['u_guess'] = self.u_guess.copy()
        if self.nv:
            put('lbv_global', 'ubv_global', self.bv)
            if self.v_guess is not None:
                kw['v_global_guess'] = self.v_guess.copy()
        if self.fq:
            kw['f_q'] = self.fq.sym(**q)
        if self.fT:
            kw['f_terminal'] = self.fT.sym(**q)
        if self.gp:
            kw['g_path'] = self.gp.sym(**q)
            put('lbg', 'ubg', self.gpb)
        if self.gT:
            kw['g_terminal'] = self.gT.sym(**q)
        if self.uc:
            kw['g_path_comp'] = ca.vertcat(*[ca.horzcat(a.sym(**q), b.sym(**q)) for _, a, b in self.uc])
        return kw

    def ptv_default(self):
        return self.ptv if self.ptv_given else np.zeros((self.N, self.npt))
