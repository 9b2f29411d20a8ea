"""Piecewise smooth initial value problems with their exact Filippov solution.

The exact solution is computed by an event driven integration of its own (numpy / scipy), the nosnoc objects are built from the
same coefficients.
"""
import numpy as np
from scipy.integrate import solve_ivp
from .env import (ca, NosnocModel, NosnocOpts, PssMode, IrkSchemes, MpccMode, StepEquilibrationMode, CrossComplementarityMode,
                  IrkRepresentation)
from .spec import dense_signs, sparse_signs
from .refnlp import collocation


class Reject(Exception):
    """drawn problem is outside the family (ambiguous event, nothing happens, ...)"""


class Field:
    """f(x, p) = b + A x + Bp p + s * sin(L x), coefficients by class"""

    def __init__(self, rng, nx, npar, cls, speed=1.0):
        self.b = rng.normal(size=nx) * speed
        self.A = rng.normal(size=(nx, nx)) * (0.0 if cls == 'const' else 0.35)
        self.Bp = rng.normal(size=(nx, npar)) * 0.4
        self.s = rng.normal(size=nx) * (0.3 if cls == 'smooth' else 0.0)
        self.L = rng.normal(size=(nx, nx))

    def num(self, x, p):
        return self.b + self.A @ x + self.Bp @ p + self.s * np.sin(self.L @ x)

    def sym(self, x, p):
        out = ca.SX(ca.DM(self.b)) + ca.mtimes(ca.DM(self.Bp), p)
        if np.any(self.A):
            out = out + ca.mtimes(ca.DM(self.A), x)
        if np.any(self.s):
            out = out + ca.DM(self.s) * ca.sin(ca.mtimes(ca.DM(self.L), x))
        return out


class Mode:
    """which side of every surface; at most one surface slides"""

    def __init__(self, signs, slide=None):
        self.signs, self.slide = tuple(signs), slide

    def __repr__(self):
        return f'{self.signs}{"" if self.slide is None else "s" + str(self.slide)}'


class Sim:

    def __init__(self, seed, cls='const', nx=None, n_sys=None, ncs=None, sparse=False, npg=0, npt=0, N=1, T=None, events=None, zc=False,
                 want=None, tries=400):
        self.rng = np.random.default_rng(seed)
        for self.attempt in range(tries):
            try:
                self.draw(cls, nx, n_sys, ncs, sparse, npg, npt, N, T, zc)
                self.exact()
                if events is not None and not events[0] <= len(self.events) <= events[1]:
                    raise Reject('events')
                if want and not any(e[1] == want for e in self.events):
                    raise Reject('kind')
                return
            except Reject:
                continue
        raise Reject('no problem found')

    def draw(self, cls, nx, n_sys, ncs, sparse, npg, npt, N, T, zc):
        rng = self.rng
        self.cls = cls
        self.nx = nx or int(rng.integers(1, 4))
        self.n_sys = n_sys or int(rng.integers(1, 3))
        self.npg, self.npt, self.N = npg, npt, N
        self.pg = rng.normal(size=npg)
        self.ptv = rng.normal(size=(N, npt))
        self.T = T or float(rng.uniform(0.6, 1.6))
        self.sys, self.surf = [], []
        for s in range(self.n_sys):
            nc = int(ncs[s]) if ncs else int(rng.integers(1, 3 if self.n_sys == 1 else 2))
            S = dense_signs(nc)
            if sparse and nc > 1:
                S = sparse_signs(rng, nc)
                if len(S) < 2:
                    raise Reject('one region')
            S = S[rng.permutation(len(S))]
            d = dict(nc=nc, S=S, F=[Field(rng, self.nx, npg + npt, cls) for _ in range(len(S))], surf=[])
            for j in range(nc):
                n = rng.normal(size=self.nx)
                n = n / np.linalg.norm(n) * rng.uniform(.7, 1.5)
                d['surf'].append(len(self.surf))
                self.surf.append((n, float(rng.normal() * .4)))
            self.sys.append(d)
        self.x0 = rng.normal(size=self.nx)
        self.NC = np.array([n for n, _ in self.surf])
        self.dC = np.array([d for _, d in self.surf])

    def c(self, x):
        return self.NC @ x - self.dC

    def region(self, d, signs):
        sg = np.array([signs[j] for j in d['surf']])
        ok = [i for i, r in enumerate(d['S']) if np.all(r * sg >= 0)]
        assert len(ok) == 1
        return ok[0]

    def regions(self, signs):
        return tuple(self.region(d, signs) for d in self.sys)

    def f(self, x, p, signs):
        return sum(d['F'][self.region(d, signs)].num(x, p) for d in self.sys)

    def sides(self, x, p, mode):
        j = mode.slide
        sp, sm = list(mode.signs), list(mode.signs)
        sp[j], sm[j] = 1, -1
        fp, fm = self.f(x, p, sp), self.f(x, p, sm)
        n = self.NC[j]
        return fp, fm, n @ fp, n @ fm

    def field(self, x, p, mode):
        if mode.slide is None:
            return self.f(x, p, mode.signs)
        fp, fm, ap, am = self.sides(x, p, mode)
        th = am / (am - ap)
        return th * fp + (1 - th) * fm

    def theta_plus(self, x, p, mode):
        fp, fm, ap, am = self.sides(x, p, mode)
        return am / (am - ap)

    def exact(self, x0=None):
        """-> events (t, kind, listed), pieces (t0, t1, mode, dense)"""
        x = np.array(self.x0 if x0 is None else x0, dtype=float)
        c = self.c(x)
        if np.min(np.abs(c)) < .05:
            raise Reject('x0 close to a surface')
        mode = Mode(np.sign(c).astype(int))
        self.events, self.pieces = [], []
        t = 0.0
        for k in range(self.N):
            p = np.concatenate([self.ptv[k], self.pg])
            tend = self.T * (k + 1) / self.N
            if k:
                self.check_stage_start(x, p, mode)
            for _ in range(30):
                if tend - t < 1e-12:
                    break
                t, x, mode = self.piece(t, tend, x, p, mode, k)
            else:
                raise Reject('too many events')
        self.x_end = x
        # well separated events, also from the stage boundaries
        ts = [0.0] + [e[0] for e in self.events] + [self.T * (k + 1) / self.N for k in range(self.N)]
        ts = np.sort(ts)
        if np.min(np.diff(ts)) < .06 * self.T / self.N:
            raise Reject('close events')

    def check_stage_start(self, x, p, mode):
        if mode.slide is not None:
            fp, fm, ap, am = self.sides(x, p, mode)
            if not (ap < -.05 and am > .05):
                raise Reject('sliding ends at a stage boundary')
        else:
            if np.min(np.abs(self.c(x))) < .02:
                raise Reject('surface at stage boundary')

    def piece(self, t, tend, x, p, mode, k):
        ev, what = [], []
        for j in range(len(self.surf)):
            if j == mode.slide:
                continue
            ev.append(lambda t, y, j=j: self.NC[j] @ y - self.dC[j])
            ev[-1].direction = -mode.signs[j]      # only towards the surface
            what.append(('surf', j))
        if mode.slide is not None:
            ev.append(lambda t, y: self.sides(y, p, mode)[2])
            ev[-1].direction = 1
            what.append(('exit', 1))
            ev.append(lambda t, y: self.sides(y, p, mode)[3])
            ev[-1].direction = -1
            what.append(('exit', -1))
        for e in ev:
            e.terminal = True
        sol = solve_ivp(lambda t, y: self.field(y, p, mode), (t, tend), x, method='DOP853', rtol=1e-11, atol=1e-12, dense_output=True,
                        events=ev, max_step=(tend - t) / 8 + 1e-9)
        hit = [i for i, te in enumerate(sol.t_events) if len(te)]
        t1 = float(sol.t[-1])
        self.pieces.append((t, t1, mode, sol.sol, k))
        y = sol.y[:, -1]
        if np.max(np.abs(y)) > 6:
            raise Reject('large states')
        # no touching of a surface without crossing it
        tt = np.linspace(t, t1, 60)
        Y = sol.sol(tt)
        for j in range(len(self.surf)):
            if j != mode.slide:
                v = np.abs(self.NC[j] @ Y - self.dC[j])
                if np.any((v[1:-1] < .03) & (v[1:-1] <= v[:-2]) & (v[1:-1] <= v[2:])):
                    raise Reject('touches a surface')
                # slow departure or approach
                if v[0] < 1e-6 and v[12] < 1e-4:
                    raise Reject('leaves slowly')
        if not hit or t1 >= tend - 1e-12:
            return tend, y, mode
        if len(hit) > 1:
            raise Reject('simultaneous events')
        kind, j = what[hit[0]]
        if kind == 'exit':
            # the field on the side where the flow stops pointing to the surface takes over
            s = list(mode.signs)
            s[mode.slide] = j
            new = Mode(s)
            f = self.f(y, p, s)
            # the normal velocity has to grow: second derivative test with finite differences
            n = self.NC[mode.slide]
            h = 1e-5
            a1 = n @ self.f(y + h * f, p, s)
            if j * a1 / h < .1:
                raise Reject('tangential exit')
            self.events.append((t1, 'exit', False))
            return t1, y, new
        if mode.slide is not None:
            raise Reject('second surface while sliding')
        n = self.NC[j]
        s_in = mode.signs[j]
        s = list(mode.signs)
        s[j] = -s_in
        fi, fo = self.f(y, p, mode.signs), self.f(y, p, s)
        ai, ao = n @ fi, n @ fo
        if abs(ai) < .15 or abs(ao) < .15:
            raise Reject('not transversal')
        same = self.regions(s) == self.regions(mode.signs)
        if same:
            return t1, y, Mode(s)      # no switch: surface without meaning here
        if ai * ao > 0:
            if np.max(np.abs(fi - fo)) < .2:
                raise Reject('hardly a switch')
            self.events.append((t1, 'cross', True))
            return t1, y, Mode(s)
        m = Mode(mode.signs, j)
        th = self.theta_plus(y, p, m)
        if not .2 < th < .8:
            raise Reject('sliding close to its end')
        self.events.append((t1, 'slide', True))
        return t1, y, m

    def mode_at(self, t):
        for t0, t1, mode, sol, k in self.pieces:
            if t0 <= t <= t1:
                return mode, k
        return self.pieces[-1][2], self.pieces[-1][4]

    def at(self, t):
        t = min(max(t, 0.0), self.T)
        for t0, t1, mode, sol, k in self.pieces:
            if t0 <= t <= t1:
                return sol(t)
        return self.x_end

    def enough(self, N_FE, nsim=1):
        """for each stage: enough elements for the switches and step bounds [0, 2h]?"""
        M = self.N * nsim
        for k in range(M):
            a, b = self.T * k / M, self.T * (k + 1) / M
            h = (b - a) / N_FE
            cut = [a] + [e[0] for e in self.events if a < e[0] < b] + [b]
            need = sum(int(np.ceil(L / (1.9 * h))) for L in np.diff(cut))
            if need > N_FE:
                return False
        return True

    def collocation_on(self, grid, scheme, n_s):
        """the scheme applied on the given grid to the sequence of modes of the exact solution"""
        c, A, b, _, _ = collocation(scheme, n_s)
        X = [self.x0.copy()]
        x = self.x0.copy()
        for t0, t1 in zip(grid[:-1], grid[1:]):
            h = t1 - t0
            mode, k = self.mode_at((t0 + t1) / 2)
            p = np.concatenate([self.ptv[k], self.pg])
            K = np.tile(self.field(x, p, mode), (n_s, 1))
            for _ in range(60):
                Kn = np.array([self.field(x + h * (A[i] @ K), p, mode) for i in range(n_s)])
                d = np.max(np.abs(Kn - K))
                K = Kn
                if d < 1e-13:
                    break
            x = x + h * (b @ K)
            X.append(x)
        return X

    def scheme_error(self, grid, scheme, n_s):
        """error of the scheme itself on this grid and on the grid moved to the exact events"""
        err = 0.0
        g2 = np.array(grid, dtype=float)
        for e in self.events:
            j = int(np.argmin(np.abs(g2[1:-1] - e[0]))) + 1 if len(g2) > 2 else None
            if j is not None:
                g2[j] = e[0]
        for g in (np.array(grid, dtype=float), np.sort(g2)):
            X = self.collocation_on(g, scheme, n_s)
            err = max(err, max(np.max(np.abs(x - self.at(t))) for x, t in zip(X, g)))
        return err

    # ---- nosnoc objects
    def model(self, name='sim', x0=None, form='S'):
        """form: S (switching functions), g (indicator functions), alpha (general inclusion of step variables)"""
        x = ca.SX.sym('x', self.nx)
        pt, pg = ca.SX.sym('pt', self.npt), ca.SX.sym('pg', self.npg)
        p = ca.vertcat(pt, pg)
        kw = {}
        if self.npt:
            kw.update(p_time_var=pt, p_time_var_val=self.ptv.copy())
        if self.npg:
            kw.update(p_global=pg, p_global_val=self.pg.copy())
        c = [ca.vertcat(*[ca.dot(ca.DM(self.NC[j]), x) - self.dC[j] for j in d['surf']]) for d in self.sys]
        F = [ca.horzcat(*[f.sym(x, p) for f in d['F']]) for d in self.sys]
        if form == 'S':
            kw.update(F=F, c=c, S=[d['S'].copy() for d in self.sys])
        elif form == 'g':
            kw.update(F=F, g_Stewart=[-ca.mtimes(ca.DM(d['S']), cc) for d, cc in zip(self.sys, c)])
        else:
            al = [ca.SX.sym(f'al{i}', d['nc']) for i, d in enumerate(self.sys)]
            f = ca.SX.zeros(self.nx, 1)
            for d, a, FF in zip(self.sys, al, F):
                for i, row in enumerate(d['S']):
                    w = 1
                    for j, r in enumerate(row):
                        w = w * (a[j] if r == 1 else 1 - a[j] if r == -1 else 1)
                    f = f + w * FF[:, i]
            kw.update(f_x=[f] if self.n_sys == 1 else self.split(f), c=c, alpha=al)
        return NosnocModel(x=x, x0=np.array(self.x0 if x0 is None else x0), name=name, **kw)

    def split(self, f):
        """one block of right hand sides per block of step variables"""
        k = self.nx // self.n_sys
        cut = [0] + [self.nx - k * (self.n_sys - 1 - i) for i in range(self.n_sys)]
        return [f[a:b] for a, b in zip(cut[:-1], cut[1:])]

    def describe(self):
        return dict(cls=self.cls, nx=self.nx, regions=[len(d['S']) for d in self.sys], T=round(self.T, 4), N=self.N,
                    events=[(round(e[0], 5), e[1]) for e in self.events], x0=np.round(self.x0, 4).tolist())


HEUR = [StepEquilibrationMode.HEURISTIC_DELTA, StepEquilibrationMode.HEURISTIC_MEAN, StepEquilibrationMode.L2_RELAXED,
        StepEquilibrationMode.L2_RELAXED_SCALED]


def options(rng, sim, pss, scheme=None, rep=None, n_s=None, cross=None, mpcc=None, nsim=1, comp_tol=1e-8):
    """settings for which the problem has enough elements"""
    o = NosnocOpts()
    o.print_level = 0
    o.terminal_time = sim.T / nsim
    o.N_stages = sim.N
    o.pss_mode = pss
    pick = lambda v, L: v if v is not None else L[rng.integers(len(L))]  # noqa: E731
    o.irk_scheme = pick(scheme, list(IrkSchemes))
    o.irk_representation = pick(rep, list(IrkRepresentation))
    o.n_s = int(pick(n_s, [1, 2, 3] if sim.cls == 'const' else [2, 3]))
    o.cross_comp_mode = pick(cross, list(CrossComplementarityMode))
    eq = o.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA
    # one equation per pair leaves no degrees of freedom for the NLP solver
    o.mpcc_mode = pick(mpcc, [MpccMode.SCHOLTES_INEQ] * 2 + ([MpccMode.SCHOLTES_EQ] if eq else []))
    o.step_equilibration = pick(None, HEUR)
    o.comp_tol = comp_tol
    o.sigma_N = comp_tol / 10
    n = int(rng.integers(2, 6))
    while not sim.enough(n, nsim):
        n += 1
        if n > 8:
            raise Reject('elements')
    o.N_finite_elements = n
    return o


def late_event(sim, tg, o, tol, nfe):
    """schemes without right boundary point: the last element of a control stage or simulation step has no multipliers at its end, an
    event after its last stage point is not seen"""
    if o.irk_scheme == IrkSchemes.RADAU_IIA:
        return False
    c = collocation(o.irk_scheme, o.n_s)[0][-1]
    for i in range(nfe, len(tg), nfe):
        a, b = tg[i - 1], tg[i]
        if any(a + c * (b - a) - tol <= e[0] <= b + tol for e in sim.events):
            return True
    return False


def simple_problem(rng, pss, mpcc, **kw):
    sim = Sim(int(rng.integers(2**31)), cls=['const', 'linear', 'smooth'][rng.integers(3)], events=(0, 2), **kw)
    cross = CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA if mpcc == 'SCHOLTES_EQ' else None
    o = options(rng, sim, PssMode[pss], mpcc=MpccMode[mpcc], cross=cross)
    info = dict(sim.describe(), switches=len(sim.events), scheme=o.irk_scheme.name, n_s=o.n_s)
    return sim.model(), o, info
