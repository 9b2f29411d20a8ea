"""C21: inconsistent inputs."""
import typing
import numpy as np
from mon.env import (Ctl, NosnocSolver, NosnocModel, NosnocOcp, NosnocOpts, NosnocSimLooper, InitializationStrategy, PssMode, IrkSchemes,
                     ConstraintHandling, ca)
from mon.spec import Spec, decode
from mon.core import Inconclusive
from mon.struct import gen, names

ID = 'C21'
LEVEL = 'exploration'
RULE = ('random consistent problems with one injected inconsistency each (dimension of every model, OCP and option value too large or too small, '
        'missing or contradictory parts, wrong type of every option, unsupported combinations, wrong sizes of every runtime value), which must '
        'raise at construction or in set; the consistent original must be accepted; after a refused runtime value the next solve is compared '
        'with that of a twin solver which never saw the value; distinct = (injected inconsistency, problem signature)')
S = ca.SX.sym


class Skip(Exception):
    pass


def need(cond):
    if not cond:
        raise Skip()


def resized(rng, a):
    """array with another number of entries along one axis"""
    a = np.array(a, dtype=float)
    ax = int(rng.integers(a.ndim))
    n = a.shape[ax]
    ch = [n + 1, n + 2] + ([n - 1] if n > 0 else [])
    m = int(rng.choice(ch))
    if a.ndim == 1 and rng.random() < .15:
        return np.repeat(a.reshape(-1, 1), 2, axis=1) if n else np.zeros((2,))
    shape = list(a.shape)
    shape[ax] = m
    return np.resize(a, shape) if a.size else np.zeros(shape)


MUT = {}


def mut(name):
    def deco(f):
        MUT[name] = f
        return f
    return deco


def array(where, key, have, base):
    """the value of this key gets another size"""
    def f(sp, m, o, p, rng):
        need(have(sp))
        (m if where == 'm' else o)[key] = resized(rng, base(sp))
    MUT[f'{key} size'] = f


array('m', 'x0', lambda s: True, lambda s: s.x0)
for _k in ('z0', 'lbz', 'ubz'):
    array('m', _k, lambda s: True, lambda s: np.zeros(s.nz))
array('m', 'p_global_val', lambda s: True, lambda s: s.pg)
array('m', 'p_time_var_val', lambda s: True, lambda s: s.ptv)
for _k in ('lbx', 'ubx'):
    array('o', _k, lambda s: True, lambda s: np.zeros(s.nx))
for _k in ('lbu', 'ubu', 'u_guess'):
    array('o', _k, lambda s: True, lambda s: np.zeros(s.nu))
for _k in ('lbv_global', 'ubv_global', 'v_global_guess'):
    array('o', _k, lambda s: True, lambda s: np.zeros(s.nv))


def _ng(s):
    return s.ocp_kw()["g_path"].shape[0] if s.gp else 0


for _k in ('lbg', 'ubg'):
    array('o', _k, lambda s: True, lambda s: np.zeros(_ng(s)))


def rows(e, rng):
    return ca.vertcat(e, e[0, :]) if rng.random() < .5 or e.shape[0] < 2 else e[:-1, :]


@mut('F rows')
def _(sp, m, o, p, rng):
    need(not sp.general)
    if rng.random() < .3 and sp.nx > 1:
        m['F'] = [f[0, :] for f in m['F']]
        return
    i = int(rng.integers(sp.n_sys))
    m['F'][i] = rows(m['F'][i], rng)


@mut('F columns')
def _(sp, m, o, p, rng):
    need(not sp.general)
    i = int(rng.integers(sp.n_sys))
    f = m['F'][i]
    m['F'][i] = ca.horzcat(f, f[:, 0]) if rng.random() < .5 or f.shape[1] < 3 else f[:, :-1]


@mut('single region')
def _(sp, m, o, p, rng):
    need(not sp.general)
    i = int(rng.integers(sp.n_sys))
    m['F'][i] = m['F'][i][:, 0]
    if sp.gst:
        m['g_Stewart'][i] = m['g_Stewart'][i][0]
    else:
        m['S'][i] = m['S'][i][:1]


@mut('S columns')
def _(sp, m, o, p, rng):
    need(not sp.general and not sp.gst)
    i = int(rng.integers(sp.n_sys))
    m['S'][i] = np.hstack([m['S'][i], m['S'][i][:, :1]]) if rng.random() < .5 else m['S'][i][:, :-1]


@mut('c entries')
def _(sp, m, o, p, rng):
    need(not sp.gst)
    i = int(rng.integers(sp.n_sys))
    m['c'][i] = rows(m['c'][i], rng)


@mut('S rows')
def _(sp, m, o, p, rng):
    need(not sp.general and not sp.gst)
    i = int(rng.integers(sp.n_sys))
    m['S'][i] = np.vstack([m['S'][i], m['S'][i][:1]]) if rng.random() < .5 else m['S'][i][:-1]


def listlen(key, cond):
    def f(sp, m, o, p, rng):
        need(cond(sp))
        m[key] = m[key] + m[key][:1] if rng.random() < .5 or sp.n_sys == 1 else m[key][:-1]
    MUT[f'{key} list length'] = f


listlen('F', lambda s: not s.general)
listlen('c', lambda s: not s.gst)
listlen('S', lambda s: not s.general and not s.gst)
listlen('g_Stewart', lambda s: s.gst)
listlen('alpha', lambda s: s.general)


@mut('c and S list length')
def _(sp, m, o, p, rng):
    need(not sp.general and not sp.gst)
    for k in ('c', 'S'):
        m[k] = m[k] + m[k][:1]


@mut('c and S shorter')
def _(sp, m, o, p, rng):
    need(not sp.general and not sp.gst and sp.n_sys > 1)
    for k in ('c', 'S'):
        m[k] = m[k][:-1]


@mut('c and alpha list length')
def _(sp, m, o, p, rng):
    need(sp.general)
    m['f_x'] = [rows(m['f_x'][0], rng)] + m['f_x'][1:]


def notlist(key, cond):
    def f(sp, m, o, p, rng):
        need(cond(sp))
        v = m[key]
        m[key] = (v[0] if len(v) == 1 else tuple(v)) if rng.random() < .5 else tuple(v)
    MUT[f'{key} no list'] = f


notlist('F', lambda s: not s.general)
notlist('c', lambda s: not s.gst)
notlist('S', lambda s: not s.general and not s.gst)
notlist('g_Stewart', lambda s: s.gst)


@mut('g_Stewart entries')
def _(sp, m, o, p, rng):
    need(sp.gst)
    i = int(rng.integers(sp.n_sys))
    m['g_Stewart'][i] = rows(m['g_Stewart'][i], rng)


@mut('both region descriptions')
def _(sp, m, o, p, rng):
    need(not sp.general and not sp.gst and sp.pss == PssMode.STEWART)
    m['g_Stewart'] = [-s @ c for s, c in zip(m['S'], m['c'])]


@mut('no region description')
def _(sp, m, o, p, rng):
    need(not sp.general)
    for k in ('c', 'S', 'g_Stewart'):
        m.pop(k, None)


@mut('c without S')
def _(sp, m, o, p, rng):
    need(not sp.general and not sp.gst)
    del m['S']


@mut('S without c')
def _(sp, m, o, p, rng):
    need(not sp.general and not sp.gst)
    del m['c']


@mut('no dynamics')
def _(sp, m, o, p, rng):
    m.pop('F', None)
    m.pop('f_x', None)


@mut('f_x without alpha')
def _(sp, m, o, p, rng):
    need(sp.general)
    del m['alpha']


@mut('F and f_x')
def _(sp, m, o, p, rng):
    if sp.general:
        m['F'] = [ca.horzcat(m['x'], -m['x'])] * sp.n_sys
        m['S'] = [np.ones((2, d['nc'])) for d in sp.sys]
    else:
        m['alpha'] = [S('a', 1)]
        m['f_x'] = [m['x'] * m['alpha'][0]]


@mut('indicators with steps')
def _(sp, m, o, p, rng):
    need(sp.gst)
    p['pss_mode'] = PssMode.STEP


@mut('general inclusion with Stewart')
def _(sp, m, o, p, rng):
    need(sp.general)
    p['pss_mode'] = PssMode.STEWART


@mut('general c without list')
def _(sp, m, o, p, rng):
    need(sp.general)
    m['c'] = m['c'][0]


@mut('f_x rows')
def _(sp, m, o, p, rng):
    need(sp.general)
    i = int(rng.integers(sp.n_sys))
    m['f_x'][i] = ca.vertcat(m['f_x'][i], m['f_x'][i][0])


@mut('g_z missing')
def _(sp, m, o, p, rng):
    need(sp.nz)
    del m['g_z']


@mut('g_z rows')
def _(sp, m, o, p, rng):
    need(sp.nz)
    m['g_z'] = ca.vertcat(m['g_z'], m['g_z'][0]) if rng.random() < .5 or sp.nz == 1 else m['g_z'][:-1]


@mut('g_z without z')
def _(sp, m, o, p, rng):
    need(not sp.nz)
    m['g_z'] = m['x'][0] - 1


@mut('no x0')
def _(sp, m, o, p, rng):
    m['x0'] = None


@mut('undeclared symbol')
def _(sp, m, o, p, rng):
    k = 'f_x' if sp.general else 'F'
    m[k] = [f + S('free') for f in m[k]]


@mut('undeclared control')
def _(sp, m, o, p, rng):
    need(sp.nu)
    del m['u']
    k = 'f_x' if sp.general else 'F'
    m[k] = [f + sp.q['u'][0] for f in m[k]]


@mut('undeclared parameter')
def _(sp, m, o, p, rng):
    k = 'f_x' if sp.general else 'F'
    need(sp.npg)
    m.pop('p_global')
    m.pop('p_global_val')
    m[k] = [f + sp.q['pg'][0] for f in m[k]]


@mut('no parameter values')
def _(sp, m, o, p, rng):
    need(sp.npg)
    m.pop('p_global_val')


@mut('complementarity width')
def _(sp, m, o, p, rng):
    o['g_path_comp'] = ca.repmat(m['x'][0], 1, int(rng.choice([1, 3, 4])))


@mut('cost is a vector')
def _(sp, m, o, p, rng):
    o[str(rng.choice(['f_q', 'f_terminal']))] = ca.vertcat(m['x'], m['x'])


@mut('terminal cost of a control')
def _(sp, m, o, p, rng):
    need(sp.nu)
    o[str(rng.choice(['f_terminal', 'g_terminal']))] = m['u'][0]


@mut('path constraint of an undeclared symbol')
def _(sp, m, o, p, rng):
    o[str(rng.choice(['g_path', 'f_q', 'f_terminal', 'g_terminal']))] = S('free')
    o.pop('lbg', None)
    o.pop('ubg', None)


@mut('element list length')
def _(sp, m, o, p, rng):
    p['Nfe_list'] = list(sp.nfe) + [2] if rng.random() < .5 or sp.N == 1 else list(sp.nfe)[:-1]


@mut('element count')
def _(sp, m, o, p, rng):
    n = list(sp.nfe)
    n[int(rng.integers(len(n)))] = 0
    p['Nfe_list'] = n


@mut('number of stages')
def _(sp, m, o, p, rng):
    p['n_s'] = int(rng.choice([0, -1, 10, 12]))


@mut('number of control stages')
def _(sp, m, o, p, rng):
    p['N_stages'] = int(rng.choice([0, -1]))
    p['Nfe_list'] = []


@mut('time freezing without clock')
def _(sp, m, o, p, rng):
    p['time_freezing'] = True
    m.pop('t_var', None)


@mut('least squares with inequalities')
def _(sp, m, o, p, rng):
    need(sp.use_fesd)
    p['constraint_handling'] = ConstraintHandling.LEAST_SQUARES
    o['g_path'] = m['x'][0]
    o['lbg'], o['ubg'] = -np.ones(1), np.ones(1)


def opt_types():
    out = []
    for a, t in NosnocOpts.__annotations__.items():
        args = typing.get_args(t) if typing.get_origin(t) is typing.Union else (t,)
        vals = dict(object=object, array=lambda: np.ones(1), string=lambda: 'text', none=lambda: None, tuple=lambda: (1, 2))
        if str in args:
            vals.pop('string')
        if type(None) in args:
            vals.pop('none')
        if np.ndarray in args:
            vals.pop('array')
        if float in args or int in args or bool in args:
            vals['complex'] = lambda: 1j
        if bool in args:
            vals['number'] = lambda: 0.5
        if int in args and float not in args:
            vals['float'] = lambda: 2.0
        for n, v in vals.items():
            out.append((a, n, v))
    return out


RUNTIME = ['x0', 'x', 'u', 'v_global', 'p_global', 'p_time_var', 'theta', 'w', 'unknown']


def cases(tier, seed):
    q = tier == 'quick'
    rep = 5 if q else 40
    ks = list(MUT)
    cells = []
    for k in ks:
        d = dict()
        if 'f_x' in k or 'general' in k or 'alpha' in k:
            d.update(general=True, n_sys=[1, 2])
        elif any(t in k for t in ('F ', 'S ', 'region', 'c and S')):
            d.update(general=False)
            if 'shorter' in k:
                d.update(n_sys=[2, 3])
            if k.startswith(('S ', 'c ')):
                d.update(regions='s')
            if k.startswith('both'):
                d.update(pss='STEWART')
        if 'g_Stewart' in k or k == 'indicators with steps':
            d.update(general=False, pss='STEWART', regions='g')
        if k.startswith('g_z') and 'without' not in k:
            d.update(nz=[1, 2])
        if k == 'g_z without z':
            d.update(nz=0)
        if 'control' in k and 'stages' not in k:
            d.update(nu=[1, 2])
        if 'parameter' in k:
            d.update(npg=[1, 2])
        if 'least' in k:
            d.update(use_fesd=True)
        cells.append(d)
    for c, k in zip(gen(seed, rep * len(ks), cells, n_s_max=2, fe_max=2), ks * rep):
        yield dict(c, kind='build', mut=k)
    n = 6 if q else 60
    for i, c in enumerate(gen(seed + 7, n * len(RUNTIME), [], n_s_max=2, nu=[1, 2], nv=[1, 2], npt=[1, 2], npg=[1, 2], fe_max=3)):
        yield dict(c, kind='runtime', field=RUNTIME[i % len(RUNTIME)])
    # one control stage, so that a column has as many entries as the row that is expected
    for i, c in enumerate(gen(seed + 8, 6 if q else 40, [], n_s_max=2, N_stages=1, nu=[2], nv=[1, 2], npt=[2, 3], npg=[1, 2], fe_max=2)):
        yield dict(c, kind='runtime', field=['p_time_var', 'u'][i % 3 == 2])
    for i, c in enumerate(gen(seed + 9, 12 if q else 100, [], n_s_max=1, N_stages=1, nu=0, gpath=0, terminal=0, ucomp=False, cost=False,
                              bounds=False, npt=0, npg=[1, 2], n_sys=1)):
        yield dict(c, kind='loop', what=['p_values rows', 'p_values columns', 'x0'][i % 3])
    for j in range(8):
        yield dict(seed=seed * 100 + j, kind='types', part=j, feat={})


def construct(sp, m, o, p, eager=True):
    Ctl.reset(eager=eager)
    opts = sp.opts()
    for k, v in p.items():
        setattr(opts, k, v)
    return NosnocSolver(opts, NosnocModel(**m), NosnocOcp(**o) if o else None)


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'types':
        return types(case, obs, rng)
    sp = Spec(case['seed'], **decode(case['feat']))
    if case['kind'] == 'build':
        m, p = sp.model_kw(), {}
        o = sp.ocp_kw()
        lsq = case['mut'].startswith('least')
        # the consistent original is accepted (least squares is decided by C25)
        construct(sp, m, o, p, eager=False)
        obs.see('accepted')
        m, o = sp.model_kw(), sp.ocp_kw()
        try:
            MUT[case['mut']](sp, m, o, p, rng)
        except Skip:
            obs.nontrivial = False
            obs.see('not_applicable')
            obs.sig(('skip',))
            return
        try:
            construct(sp, m, o, p, eager=case['mut'].startswith('cost'))
        except (Exception, Warning):
            obs.see('refused')
            obs.check(True, 'accepted', '')
        else:
            v = {k: str(getattr(a, 'shape', a))[:80] for k, a in list(m.items()) + list(o.items()) + list(p.items())}
            obs.alarm('accepted', f'inconsistent input ({case["mut"]}) is accepted: {v}\n{sp.describe()}')
        obs.sig((case['mut'], sp.signature()))
        obs.sample = dict(case=case, lsq=lsq)
    elif case['kind'] == 'runtime':
        runtime(case, obs, sp, rng)
    else:
        Ctl.reset(handler=lambda px, c: (c.x0, 'Solve_Succeeded'))
        o = sp.opts()
        n = int(rng.integers(1, 4))
        pv = rng.normal(size=(n, sp.npg))
        x0 = sp.x0.copy()
        if case['what'] == 'p_values rows':
            pv = rng.normal(size=(n + 1 if rng.random() < .5 or n == 1 else n - 1, sp.npg))
        elif case['what'] == 'p_values columns':
            pv = rng.normal(size=(n, sp.npg + int(rng.choice([-1, 1]))))
        else:
            x0 = resized(rng, np.zeros(sp.nx))
        s = NosnocSolver(o, sp.model(), None)
        NosnocSimLooper(s, sp.x0.copy(), 1, p_values=np.ones((1, sp.npg))).run()
        obs.see('accepted')
        try:
            NosnocSimLooper(s, x0, n, p_values=pv).run()
        except Exception:
            obs.see('refused')
            obs.check(True, 'accepted', '')
        else:
            obs.alarm('accepted', f'simulation loop over {n} steps accepts p_values {pv.shape}, x0 {x0.shape}\n{sp.describe()}')
        obs.sig((case['what'], sp.signature()))


def twin(sp, strategy, seq):
    """first NLP call of each solve while the values are set one after the other"""
    Ctl.reset(handler=lambda px, c: (c.x0 + 1.0, 'Solve_Succeeded'))
    o = sp.opts()
    o.initialization_strategy = strategy
    o.max_iter_homotopy = 1
    s = NosnocSolver(o, sp.model(), sp.ocp())
    px = Ctl.proxies[0]
    refusals = []
    for op, v in seq:
        if op == 'solve':
            s.solve()
            continue
        try:
            s.set(op, v)
        except Exception as e:
            refusals.append(type(e).__name__)
        else:
            refusals.append(None)
    return px.calls, refusals, s


def runtime(case, obs, sp, rng):
    st = InitializationStrategy.EXTERNAL
    Ctl.reset()
    nw = len(NosnocSolver(sp.opts(), sp.model(), sp.ocp()).problem.w0)
    nth = sum(d['nf'] for d in sp.sys) if sp.pss == PssMode.STEWART else 0
    ne = sum(sp.nfe)
    shapes = dict(x0=(sp.nx,), x=(ne, sp.nx), u=(sp.N, sp.nu), v_global=(sp.nv,), p_global=(sp.npg,), p_time_var=(sp.N, sp.npt),
                  theta=(ne, nth), w=(nw,), unknown=(1,))
    f = case['field']
    if f == 'theta' and not nth:
        f = 'w'
    good = {k: rng.normal(size=v) for k, v in shapes.items() if k != 'unknown' and (k != 'theta' or nth)}
    shape = shapes[f]
    tries = []
    for _ in range(4):
        bad = resized(rng, np.zeros(shape))
        bad = rng.normal(size=bad.shape)
        sh = bad.shape
        # sizes that broadcasting makes meaningful for a single guess
        if f in ('u', 'v_global') and (bad.size == 1 or sh == (1, sp.nu) or sh[1:] == (1,)):
            continue
        if f == 'x' and len(sh) == 2 and sh[1] == sp.nx and sh[0] == sp.N:
            continue
        if f in ('v_global', 'p_global', 'x0') and bad.size == shape[0]:
            continue
        tries.append(bad)
    # shapes that would spread over all rows or columns
    if len(shape) == 2 and f in ('x', 'p_time_var', 'theta'):
        for sh in {(shape[0], 1), (1, shape[1]), (1, 1), (sp.N, 1)}:
            if sh != shape and sh != (sp.N, shape[1] if f == 'x' else -1):
                tries.append(rng.normal(size=sh))
    # the right number of entries in another arrangement
    for bad in ([np.zeros(shape).T, np.zeros(int(np.prod(shape)))] if len(shape) == 2 else [np.zeros((1, nw)), np.zeros((nw, 1))] if f == 'w' else []):
        if bad.shape == shape or (f == 'x' and bad.shape == (sp.N, sp.nx)) or (f == 'u' and bad.shape in ((sp.nu,), (1,))):
            continue
        if f == 'u' and bad.shape[1:] == (sp.nu,) and bad.shape[0] == 1:
            continue
        tries.append(rng.normal(size=bad.shape))
    if f == 'unknown':
        tries = [rng.normal(size=sp.nx)]
    if not tries:
        obs.nontrivial = False
        obs.sig(('skip',))
        return
    pre = [(k, good[k]) for k in good if rng.random() < .6]
    a, ra, _ = twin(sp, st, pre + [('solve', None), ('solve', None)])
    obs.check(not any(ra), 'refused-valid', lambda: f'set refuses values of the documented size: {[(k, v.shape) for k, v in pre]}, {ra}')
    name = f if f != 'unknown' else str(rng.choice(['y', 'lambda', 'X0', 'p', '']))
    for bad in tries:
        b, rb, _ = twin(sp, st, pre + [(name, bad), ('solve', None), ('solve', None)])
        if not obs.check(rb[-1] is not None, 'accepted', lambda: f'set({name!r}) accepts a value of shape {bad.shape} instead of {shape}\n{sp.describe()}'):
            continue
        obs.see('refused')
        for k, (c, d) in enumerate(zip(a, b)):
            for what in ('x0', 'p', 'lbx', 'ubx', 'lbg', 'ubg'):
                obs.check(np.array_equal(getattr(c, what), getattr(d, what)), 'altered',
                          lambda: f'after the refused set({name!r}) of shape {bad.shape} solve {k} uses another {what}\n{sp.describe()}')
        obs.sig((name, bad.shape, sp.signature()))
    obs.sample = dict(case=case, shapes=[t.shape for t in tries])


def types(case, obs, rng):
    L = opt_types()[case['part']::8]
    if not L:
        raise Inconclusive('no option types')
    sp = Spec(case['seed'], general=False, regions='s', n_sys=1, n_s_max=1, tf=False, scheme=IrkSchemes.RADAU_IIA)
    construct(sp, sp.model_kw(), {}, {}, eager=False)
    obs.see('accepted')
    for a, n, v in L:
        try:
            construct(sp, sp.model_kw(), {}, {a: v()}, eager=False)
        except (Exception, Warning):
            obs.see('refused')
            obs.check(True, 'accepted', '')
        else:
            obs.alarm('accepted', f'option {a} accepts a value of wrong type ({n}: {v()!r})')
        obs.sig((a, n))
    obs.sample = dict(options=[(a, n) for a, n, _ in L[:10]])
