"""C19: automatic reformulation."""
import numpy as np
from mon.env import ca, Ctl, NosnocAutoModel, NosnocOpts, NosnocOcp, NosnocSolver, PssMode

ID = 'C19'
LEVEL = 'exploration'
RULE = ('random right hand sides built from smooth terms and sign, max, min of smooth arguments (sums, differences, negations, smooth '
        'factors, products and smooth functions of nonsmooth terms, repeated arguments); the returned model is evaluated region-wise (or with '
        'the step variables given by the signs of its switching functions) at random states and compared with the original expression; '
        'additive models are required to be handled for every such sum; the model is also handed to the solver; distinct = expression shape')
ASSUME = ['purely smooth right hand sides and nonsmooth functions of nonsmooth arguments are outside the documented scope']


def cases(tier, seed):
    n = 2400 if tier == 'quick' else 19200
    for k in range(n):
        yield dict(seed=seed * 100003 + k, kind=['additive', 'additive', 'nonlin', 'mixed'][k % 4], build=k % 8 < 2)


class Gen:

    def __init__(self, rng, x, u, p):
        self.rng, self.x, self.u, self.p = rng, x, u, p
        self.vars = [v[i] for v in (x, u, p) if v is not None for i in range(v.shape[0])]
        self.shape = []
        self.args = []
        self.pairs = []

    def const(self):
        return float(np.round(self.rng.uniform(.3, 2) * self.rng.choice([-1, 1]), 2))

    def smooth(self, depth=2):
        r = self.rng.integers(7 if depth else 2)
        v = self.vars[self.rng.integers(len(self.vars))]
        if r <= 1:
            return v
        if r == 2:
            return self.const() * self.smooth(depth - 1)
        if r == 3:
            return self.smooth(depth - 1) + self.const()
        if r == 4:
            return self.smooth(depth - 1) * self.smooth(depth - 1)
        if r == 5:
            return ca.sin(self.smooth(depth - 1))
        return -self.smooth(depth - 1)

    def arg(self):
        """argument of a nonsmooth function; must depend on the state somewhere"""
        if self.args and self.rng.random() < .4:
            a = self.args[self.rng.integers(len(self.args))]
            r = self.rng.integers(4)
            self.shape.append('same%d' % r)
            # the same argument again, with the opposite sign, scaled, shifted
            return a if r == 0 else -a if r == 1 else self.const() * a if r == 2 else a + self.const()
        while True:
            e = self.smooth() + self.const() * self.x[self.rng.integers(self.x.shape[0])] + self.const()
            if ca.depends_on(e, self.x):
                break
        self.args.append(e)
        return e

    def ns(self):
        k = str(self.rng.choice(['sign', 'max', 'min']))
        self.shape.append(k)
        if k == 'sign':
            return ca.sign(self.arg())
        if self.pairs and self.rng.random() < .25:
            self.shape.append('pair')
            a, b = self.pairs[self.rng.integers(len(self.pairs))]
        else:
            a, b = self.arg(), (self.const() if self.rng.random() < .3 else self.smooth())
            self.pairs.append((a, b))
        if self.rng.random() < .5:
            a, b = b, a
        return ca.fmax(a, b) if k == 'max' else ca.fmin(a, b)

    def factor(self, e):
        r = self.rng.integers(6)
        if r <= 1:
            return e
        self.shape.append('f%d' % r)
        if r == 2:
            return self.const() * e
        if r == 3:
            return self.smooth() * e
        if r == 4:
            return e * self.smooth()
        return -e

    def term(self, kind):
        if kind == 'additive':
            return self.factor(self.ns())
        r = self.rng.integers(6)
        self.shape.append('n%d' % r)
        if r == 0:
            return self.factor(self.ns()) * self.factor(self.ns())
        if r == 1:
            return ca.sin(self.factor(self.ns()))
        if r == 2:
            return (self.ns() + self.smooth()) * self.smooth()
        if r == 3:
            return ca.exp(0.2 * self.ns()) / (2 + ca.cos(self.smooth()))
        if r == 4:
            return self.smooth() * self.ns() * self.smooth()
        return (self.smooth() - self.ns())**2

    def component(self, kind, force=False):
        rng = self.rng
        n_ns = int(rng.integers(1 if force else 0, 4))
        n_sm = int(rng.integers(0, 3))
        if not n_ns and not n_sm:
            n_sm = 1
        terms = [('s', self.smooth()) for _ in range(n_sm)] + \
            [('n', self.term(kind if kind != 'mixed' or rng.random() < .5 else 'additive')) for _ in range(n_ns)]
        rng.shuffle(terms)
        out = None
        for t, e in terms:
            m = rng.integers(4)
            if out is None:
                out = -e if m == 0 else e
                self.shape.append(t + ('-' if m == 0 else '+'))
            elif m == 0:
                out = out - e
                self.shape.append(t + '-')
            elif m == 1:
                out = -(out - e)
                self.shape.append(t + '_')
            elif m == 2:
                out = e - out
                self.shape.append(t + '~')
            else:
                out = out + e
                self.shape.append(t + '+')
        self.shape.append('|')
        return out


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    nx = int(rng.integers(1, 4))
    nu = int(rng.integers(1, 3))
    np_ = int(rng.integers(0, 3))
    x, u = ca.SX.sym('x', nx), ca.SX.sym('u', nu)
    p = ca.SX.sym('p', np_) if np_ else None
    g = Gen(rng, x, u, p)
    ns_in = int(rng.integers(nx))
    f = ca.vertcat(*[g.component(case['kind'], force=i == ns_in) for i in range(nx)])
    x0 = rng.normal(size=nx)
    am = NosnocAutoModel(x=x, x0=x0, u=u, f_nonsmooth_ode=f, p=p)
    model = am.reformulate()
    if rng.random() < .3:
        model = am.reformulate()
    P = p if p is not None else ca.SX(0, 1)
    orig = ca.Function('o', [x, u, P], [f])
    general = bool(model.alpha is not None and (model.F is None))
    shape = ''.join(str(s) + ' ' for s in g.shape)
    if general:
        nal = ca.vertcat(*model.alpha).shape[0]
        al = ca.vertcat(*model.alpha)
        cf = ca.Function('c', [x, u, P], [ca.vertcat(*model.c)])
        ff = ca.Function('f', [x, u, P, al], [ca.vertcat(*[ca.vertcat(a) if not isinstance(a, list) else ca.vertcat(*a) for a in model.f_x])])
        if not obs.check(cf.size1_out(0) == nal, 'sizes', f'{cf.size1_out(0)} switching functions for {nal} step variables'):
            return
    else:
        if not obs.check(len(model.F) == len(model.c) == len(model.S), 'sizes', 'F, c, S of different lengths'):
            return
        if not obs.check(all(a is not None and np.array(a).dtype.kind in 'fi' for a in model.S) and all(c is not None for c in model.c), 'sizes',
                         lambda: f'incomplete region description: c={model.c}, S={model.S}, f={f}'):
            return
        cf = [ca.Function('c', [x, u, P], [c]) for c in model.c]
        Ff = [ca.Function('F', [x, u, P], [F]) for F in model.F]
        for F, S in zip(model.F, model.S):
            obs.check(F.shape == (nx, len(S)), 'sizes', f'F of shape {F.shape} for {len(S)} regions')
    obs.check(np.array_equal(np.array(model.x0).flatten(), x0) and model.u is u, 'data', 'x0 or u of the returned model differ')
    if np_:
        obs.check(model.p_global is p or (ca.is_equal(model.p_global, p, 3)), 'data', 'parameters are not those of the user')
    regions = set()
    for k in range(25):
        xv = rng.normal(size=nx) * rng.choice([.5, 2, 5])
        uv, pv = rng.normal(size=nu) * 2, rng.normal(size=np_) * 2
        e = np.array(orig(xv, uv, pv)).flatten()
        if general:
            c = np.array(cf(xv, uv, pv)).flatten()
            if np.min(np.abs(c)) < 1e-7:
                continue
            a = (c > 0).astype(float)
            regions.add(tuple(a))
            got = np.array(ff(xv, uv, pv, a)).flatten()
        else:
            got = np.zeros(nx)
            reg = []
            skip = False
            for C, F, S in zip(cf, Ff, model.S):
                c = np.array(C(xv, uv, pv)).flatten()
                if np.min(np.abs(c)) < 1e-7:
                    skip = True
                    break
                rows = [i for i, r in enumerate(np.array(S)) if np.all(r * c > 0)]
                if not obs.check(len(rows) == 1, 'regions', f'{len(rows)} regions contain a state: {S}, c={c}, f={f}'):
                    return
                reg.append(rows[0])
                got = got + np.array(F(xv, uv, pv))[:, rows[0]]
            if skip:
                continue
            regions.add(tuple(reg))
        obs.see('states_compared')
        if not obs.check(got.shape == e.shape and np.allclose(got, e, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(e)))), 'field',
                         lambda: f'reformulated field {got} instead of {e} at x={xv}, u={uv}, p={pv} for f={f}; c={model.c}, '
                                 f'F={model.F}, f_x={model.f_x}'):
            break
    obs.see('regions_visited', len(regions))
    obs.see('general_inclusions' if general else 'region_models')
    if case['build'] and len(model.c) <= 6 and sum(int(c.shape[0]) for c in model.c) <= 6:
        # switching functions of controls are outside the scope of the solver
        if not any(ca.depends_on(c, u) for c in model.c) and np.all([np.all(np.isfinite(np.array(x0)))]):
            o = NosnocOpts()
            o.n_s = 1
            o.N_finite_elements = 1
            o.N_stages = 1
            o.terminal_time = .1
            o.pss_mode = PssMode.STEP
            o.print_level = 0
            Ctl.reset(handler=lambda pr, c: (c.x0, 'Solve_Succeeded'))
            s = NosnocSolver(o, model, NosnocOcp())
            s.solve()
            obs.see('solvers_built')
    obs.sig(shape)
    obs.sample = dict(case=case, f=str(f)[:300], regions=len(regions), general=general)
