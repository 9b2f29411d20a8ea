"""C36: equal data in another representation give the same problem."""
import copy
import numpy as np
from mon.env import Ctl, NosnocSolver, NosnocSimLooper, NosnocModel, NosnocOcp, NosnocOpts, InitializationStrategy, ca
from mon.spec import Spec, decode
from mon.struct import gen
from checks.c14 import finger, diff
from checks.c34 import plain, differ, keepable

ID = 'C36'
LEVEL = 'exploration'
TECH = 'metamorphic runtime monitoring: the NLP reaching the solver is compared between representations of the same data'
RULE = ('random problems whose numbers are exactly representable are given twice: as contiguous double arrays and in another representation (integer, '
        'single precision, strided, Fortran ordered and read-only arrays, lists, tuples, columns, rows, CasADi matrices, scalars; states, controls, '
        'parameters built from scalar symbols, in slices, with names that collide with each other and with internal names; structural instead of '
        'numerical zeros) for model, optimal control problem, options, set and simulation loop; an accepted representation must give the same NLP, '
        'guesses and results; other array types must be accepted; distinct = (representations, problem signature)')
ASSUME = ['representations other than numpy arrays may be refused, but not misread']
SIM = dict(N_stages=1, nu=0, gpath=0, terminal=0, ucomp=False, cost=False, bounds=False, npt=0, equi=True)
NAMES = ['x', 'u', 'z', 'p', 'w', 'h', 'lambda', 'theta', 'alpha', 'mu', 'sigma', 'sigma_p', 'tau', 'tau_p', 'lambda00', 'x0', 'p_stage0', 's_elastic', 'sot', 'v', 'V',
         'X_0_0_0', 'x_0', 'g', 'a b', '1', 'T', 't', 'f', 'c', 'S', '', 'theta_0', 'alpha_0', 'lambda_n_0', 'h_0_0', 'p_global_dummy', 'u_dummy']


def cases(tier, seed):
    q = 1 if tier == 'quick' else 8
    for c in gen(seed, 320 * q, [], n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2]):
        yield dict(c, kind='numbers')
    for c in gen(seed + 1, 240 * q, [], n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2]):
        yield dict(c, kind='symbols')
    for c in gen(seed + 2, 160 * q, [], n_s_max=2, fe_max=2, stage_max=3, n_sys=[1, 2]):
        yield dict(c, kind='set')
    for c in gen(seed + 3, 80 * q, [], n_s_max=1, fe_max=2, n_sys=[1, 2], npg=[1, 2], **SIM):
        yield dict(c, kind='loop')


def strided(a):
    b = np.full(tuple(3 * n + 1 for n in a.shape), 99.0)
    v = b[tuple(slice(1, None, 3) for _ in a.shape)]
    v[...] = a
    return v


def readonly(a):
    b = a.copy()
    b.flags.writeable = False
    return b


def backwards(a):
    return a[::-1].copy()[::-1]


ARRAY = dict(integer=lambda a: np.round(a).astype(int), single=lambda a: a.astype(np.float32), strided=strided, fortran=np.asfortranarray, readonly=readonly,
             backwards=backwards, big_endian=lambda a: a.astype('>f8'), object_subclass=lambda a: a.view(type('Sub', (np.ndarray,), {})))
OTHER = dict(list=lambda a: a.tolist(), tuple=lambda a: tuple(a.tolist()), column=lambda a: a.reshape(-1, 1), row=lambda a: a.reshape(1, -1), dm=lambda a: ca.DM(a),
             objects=lambda a: a.astype(object), intlist=lambda a: [int(v) if float(v).is_integer() else v for v in np.asarray(a).flatten()],
             scalar=lambda a: float(a.flatten()[0]) if a.size == 1 else a.tolist(), npscalar=lambda a: a.flatten()[0] if a.size == 1 else a.tolist())


def exact(a):
    """multiples of 1/4"""
    a = np.asarray(a, dtype=float)
    return np.where(np.isfinite(a), np.round(4 * a) / 4, a)


def represent(a, form):
    if form == 'integer' and not (np.all(np.isfinite(a)) and np.array_equal(a, np.round(a))):
        return a
    f = ARRAY.get(form) or OTHER[form]
    return f(a)


def build(sp, m, o, opts):
    Ctl.reset()
    s = NosnocSolver(opts, NosnocModel(**m), NosnocOcp(**o) if o else None)
    return s, Ctl.proxies[0]


def pick(rng):
    if rng.random() < .65:
        return str(rng.choice(list(ARRAY))), True
    return str(rng.choice(list(OTHER))), False


def numbers(case, obs, sp, rng):
    whole = rng.random() < .5

    def data():
        m = sp.model_kw()
        o = sp.ocp_kw()
        for d in (m, o):
            for k, v in d.items():
                if isinstance(v, np.ndarray):
                    d[k] = exact(v)
                    if whole:
                        d[k] = np.where(np.isfinite(v), np.floor(v) if k.startswith('lb') else np.ceil(v), v)
        return m, o
    m, o = data()
    opts = sp.opts()
    later = dict(x0=rng.normal(size=sp.nx))
    if sp.npg:
        later['p_global'] = rng.normal(size=sp.npg)
    if sp.npt:
        later['p_time_var'] = rng.normal(size=(sp.N, sp.npt))

    def both(s, px):
        """the problem as given, and after other values were set"""
        a = finger(s, px)
        for k, v in later.items():
            s.set(k, v.copy())
        obs.see('changed_later')
        return a | {'later_' + k: v for k, v in finger(s, px).items()}
    ref = both(*build(sp, m, o, opts))
    m2, o2 = data()
    fields = [(d, k) for d in (m2, o2) for k, v in d.items() if isinstance(v, np.ndarray)]
    rng.shuffle(fields)
    must, used = True, {}
    every = rng.random() < .4
    form, arr = str(rng.choice(list(ARRAY))), True
    for d, k in fields if every else fields[:int(rng.integers(1, 4))]:
        if not every:
            form, arr = pick(rng)
        d[k] = represent(d[k], form)
        must &= arr
        used[k] = form
    if 'S' in m2 and rng.random() < .5:
        form = str(rng.choice(list(ARRAY)))
        m2['S'] = [represent(np.asarray(s, dtype=float), form) for s in m2['S']]
        used['S'] = form
    op2 = sp.opts()
    if rng.random() < .3 and float(op2.terminal_time) > 0:
        pass
    for key in used:
        obs.see('form_' + used[key])
    judge(obs, sp, lambda: both(*build(sp, m2, o2, op2)), ref, must, used)
    obs.sig((tuple(sorted(used.items())), sp.signature()))


def judge(obs, sp, f, ref, must, used, key='representation'):
    try:
        got = f()
    except Exception as e:  # noqa: BLE001
        if must:
            obs.alarm('refused-valid', f'{used} is refused: {type(e).__name__}: {e}\n{sp.describe()}')
        else:
            obs.see('refused')
        return
    d = diff(ref, got)
    obs.see('nlps_compared')
    obs.check(not d, key, lambda: f'{used} gives another problem: {d[:3]}\n{sp.describe()}')


class Named(Spec):
    """the same problem with other symbols"""

    def restyle(self, rng):
        self.style = rng.integers(2**31)
        return self

    def symbols(self):
        rng = np.random.default_rng(self.style)
        mode = int(rng.integers(4))
        one = str(rng.choice(NAMES))

        def sym(n):
            if n == 0 and rng.random() < .5:
                return ca.SX.sym(one, 0)
            if mode == 0:       # everything has the same name
                return ca.vertcat(*[ca.SX.sym(one) for _ in range(n)]) if n else ca.SX.sym(one, 0, 1)
            if mode == 1:       # names of internal symbols
                return ca.SX.sym(str(rng.choice(NAMES)), n)
            if mode == 2:       # slices of a larger vector
                v = ca.SX.sym(str(rng.choice(NAMES)), 2 * n + 2)
                return v[1:1 + n] if n == 0 or rng.random() < .5 else ca.vertcat(*[v[2 * i + 1] for i in range(n)])
            L = [ca.SX.sym(str(rng.choice(NAMES))) for _ in range(n)]
            return ca.vertcat(*L) if L else ca.SX.sym('e', 0, 1)
        q = dict(x=sym(self.nx), u=sym(self.nu), z=sym(self.nz), v=sym(self.nv), pt=sym(self.npt), pg=sym(self.npg))
        q['p'] = ca.vertcat(q['pt'], q['pg'])
        return q


def symbols(case, obs, sp, rng):
    zeros = rng.random() < .5 and not sp.general
    where = [(int(rng.integers(sp.nx)), int(rng.integers(d['nf']))) for d in sp.sys] if zeros else []

    def data(s, structural):
        m, o = s.model_kw(), s.ocp_kw()
        if zeros:
            for i, (r, c) in enumerate(where):
                F = ca.SX(m['F'][i])
                F[r, c] = 0
                m['F'][i] = ca.sparsify(F) if structural else ca.densify(F)
            if o.get('f_q') is not None and where[0][1] == 0:
                o['f_q'] = ca.SX(1, 1) if structural else ca.SX.zeros(1, 1)
            for k in ('g_path', 'g_terminal', 'f_terminal'):
                if o.get(k) is not None and o[k].shape[0] and (where[0][0] + len(k)) % 2:
                    g = ca.SX(o[k])
                    g[0] = 0
                    o[k] = ca.sparsify(g) if structural else ca.densify(g)
        return m, o
    m, o = data(sp, False)
    ref = finger(*build(sp, m, o, sp.opts()))
    sn = Named(case['seed'], **decode(case['feat'])).restyle(rng)
    m2, o2 = data(sn, True)
    used = dict(x=str(m2['x']), structural_zeros=bool(zeros), u=str(m2.get('u')), p=str(sn.q['p']))
    judge(obs, sp, lambda: finger(*build(sn, m2, o2, sn.opts())), ref, True, used, 'symbols')
    obs.see('structural_zeros', int(zeros))
    obs.sig((used['x'], sp.signature()))


def set_(case, obs, sp, rng):
    st = list(InitializationStrategy)[[0, 1, 2][int(rng.integers(3))]]
    if st == InitializationStrategy.RK4_SMOOTHENED:
        st = InitializationStrategy.EXTERNAL
    vals = dict(x0=rng.normal(size=sp.nx) * 2, p_global=rng.normal(size=sp.npg), p_time_var=rng.normal(size=(sp.N, sp.npt)), u=rng.normal(size=(sp.N, sp.nu)),
                v_global=rng.normal(size=sp.nv))
    vals = {k: np.round(v) if rng.random() < .5 else exact(v) for k, v in vals.items() if v.size}
    keys = list(vals)
    rng.shuffle(keys)
    wseed = int(rng.integers(2**31))
    forms = {k: pick(rng) for k in keys + ['w']}

    def go(change):
        o = sp.opts()
        o.initialization_strategy = st
        s, px = build(sp, sp.model_kw(), sp.ocp_kw(), o)
        if st == InitializationStrategy.EXTERNAL:
            w = exact(np.random.default_rng(wseed).normal(size=px.nw))
            s.set('w', represent(w, forms['w'][0]) if change else w)
        for k in keys:
            s.set(k, represent(vals[k], forms[k][0]) if change else vals[k].copy())
        out = finger(s, px)
        Ctl.handler = lambda p, c: (np.random.default_rng(3).normal(size=p.nw), 'Solve_Succeeded')
        r = s.solve()
        Ctl.handler = None
        for k, v in r.items():
            if 'cpu' not in k and k != 'nlp_iter':
                for n, a in enumerate(v if isinstance(v, list) else [v]):
                    try:
                        out[f'{k}{n}'] = np.array(a, dtype=float).flatten()
                    except (TypeError, ValueError):
                        pass
        return out
    ref = go(False)
    used = {k: forms[k][0] for k in keys + (['w'] if st == InitializationStrategy.EXTERNAL else [])}
    must = all(forms[k][1] for k in used)
    if not must:
        # only one field in a form that may be refused, so that the others are seen
        k = [k for k in used if not forms[k][1]][0]
        for j in used:
            if j != k:
                forms[j] = ('readonly', True)
        used = {j: forms[j][0] for j in used}
    for v in used.values():
        obs.see('form_' + v)
    judge(obs, sp, lambda: go(True), ref, must, used, 'set')
    obs.sig((tuple(sorted(used.items())), st.name, sp.signature()))


def loop(case, obs, sp, rng):
    n = 3
    pv, x0 = np.round(2 * rng.normal(size=(n, sp.npg))), np.round(2 * rng.normal(size=sp.nx))
    ext = rng.random() < .5
    fx, fp, fw = (pick(rng) for _ in range(3))

    def go(change):
        o = sp.opts()
        o.max_iter_homotopy = 1
        if ext:
            o.initialization_strategy = InitializationStrategy.EXTERNAL
        s, px = build(sp, sp.model_kw(), {}, o)
        W = [exact(np.random.default_rng(k).normal(size=px.nw)) for k in range(n)] if ext else None
        if change and W:
            W = [represent(w, fw[0]) for w in W]
        Ctl.handler = lambda p, c: (np.random.default_rng(len(p.calls)).normal(size=p.nw), 'Solve_Succeeded')
        L = NosnocSimLooper(s, represent(x0, fx[0]) if change else x0, n, p_values=represent(pv, fp[0]) if change else pv, w_init=W)
        L.run()
        Ctl.handler = None
        r = L.get_results()
        out = {k: np.array(r[k], dtype=float).flatten() for k in ('X_sim', 'time_steps', 't_grid', 'switch_times', 'cost_vals')}
        for k, c in enumerate(px.calls):
            out.update({f'{a}{k}': np.array(getattr(c, a)) for a in ('x0', 'p', 'lbx', 'ubx')})
        return out
    used = dict(x0=fx[0], p_values=fp[0], w_init=fw[0] if ext else 'none')
    for v in used.values():
        obs.see('form_' + v)
    judge(obs, sp, lambda: go(True), go(False), fx[1] and fp[1] and (fw[1] or not ext), used, 'loop')
    obs.sig((tuple(used.values()), sp.signature()))


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    obs.see('kind_' + case['kind'])
    dict(numbers=numbers, symbols=symbols, set=set_, loop=loop)[case['kind']](case, obs, sp, rng)
    Ctl.handler = None
    obs.sample = dict(case=case, problem=sp.describe())
