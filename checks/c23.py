"""C23: dumped problems."""
import copy
import os
import pickle
import tempfile
import numpy as np
from mon.env import Ctl, MpccMode, NosnocSolver, PssMode, ca
from mon.spec import Spec, decode
from mon.refnlp import Layout, flat
from mon.struct import gen, grid, names
from mon.script import lam00

ID = 'C23'
LEVEL = 'exploration'
RULE = ('random problems of every MPCC mode, DCS form and constraint handling, dumped right after construction, after settings and after solves; '
        'the file is loaded again and its functions, bounds, guess, index lists and parameters are compared with what the NLP solver receives '
        'in the next solve at random points; a twin that is never dumped must see the same NLP calls; distinct = (problem signature, moment)')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(mpcc=names(MpccMode), pss=names(PssMode), use_fesd=[True, True, False])
    for i, c in enumerate(gen(seed, 576 if q else 4608, cells, big=12, n_s_max=2)):
        yield dict(c, when=['built', 'set', 'solved'][i % 3])
    for i, c in enumerate(gen(seed + 5, 144 if q else 1152, grid(pss=names(PssMode)), lsq=True, n_s_max=2, mpcc=['FISCHER_BURMEISTER', 'SCHOLTES_EQ', 'FISCHER_BURMEISTER_IP_AUG'],
                              stepeq=['DIRECT', 'HEURISTIC_DELTA', 'L2_RELAXED'], tf=False)):
        yield dict(c, when=['built', 'set', 'solved'][i % 3])


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.array(a), np.array(b))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


class View:
    """the loaded data with attributes, as the layout reader expects them"""

    def __init__(self, data):
        self.__dict__.update(data)


def drive(case, sp, seed, path):
    """set / solve / (dump) / solve; returns loaded data, NLP calls, ..."""
    rng = np.random.default_rng(seed)
    o = sp.opts()
    o.max_iter_homotopy = 1
    Ctl.reset(handler=lambda p, c: (rng.normal(size=p.nw), 'Solve_Succeeded'))
    s = NosnocSolver(o, sp.model(), sp.ocp())
    px = Ctl.proxies[0]
    x0, ptv, pg = sp.x0, sp.ptv_default(), sp.pg
    if case['when'] != 'built':
        x0 = rng.normal(size=sp.nx)
        s.set('x0', x0.copy())
        if sp.npg:
            pg = rng.normal(size=sp.npg)
            s.set('p_global', pg.copy())
        if sp.npt:
            ptv = rng.normal(size=(sp.N, sp.npt))
            s.set('p_time_var', ptv.copy())
        if sp.nu:
            s.set('u', rng.normal(size=(sp.N, sp.nu)))
    if case['when'] == 'solved':
        s.solve()
    data, before = None, None
    if path:
        before = {k: copy.deepcopy(v) for k, v in vars(s.problem).items() if isinstance(v, (list, np.ndarray, int, float)) and k not in ('w', 'stages')
                  and not any(isinstance(e, ca.SX) for e in (v if isinstance(v, list) else []))}
        if case['seed'] % 2:    # the file exists already
            with open(path, 'wb') as f:
                f.write(pickle.dumps(dict(f=None, g=None, lbw=[1., 2.], old='x' * (1000 * (case['seed'] % 997 + 1)))))
        s.problem.dump(path)
        with open(path, 'rb') as f:
            data = pickle.load(f)
    n0 = len(px.calls)
    s.solve()
    return s, px, n0, data, before, (x0, ptv, pg)


def run(case, obs):
    sp = Spec(case['seed'], **decode(case['feat']))
    if sp.lsq:
        sp.gamma_h = 1.0
    if sp.lsq and sp.uc:
        sp.uc = []
    with tempfile.TemporaryDirectory(prefix='verif_c23_') as tmp:
        s, px, n0, data, before, (x0, ptv, pg) = drive(case, sp, case['seed'], os.path.join(tmp, 'problem.pickle'))
    proxy_calls = px.calls
    c = proxy_calls[n0]
    desc = f'{case["when"]} {sp.describe()}'
    rng = np.random.default_rng(case['seed'] + 1)
    for k in ('f', 'g', 'lbw', 'ubw', 'w0', 'p0', 'w_shape', 'p_shape', 'ind_x', 'ind_h', 'ind_u'):
        obs.check(k in data, 'incomplete', f'{k} is missing in the dumped data {desc}')
    if obs.alarms:
        return
    # functions
    for _ in range(3):
        w, p = rng.normal(size=px.nw), np.abs(rng.normal(size=px.np_)) + .05
        f1, g1 = px.fg(w, p)
        f2 = float(data['f'](w, p))
        g2 = np.array(ca.DM(data['g'](w, p)).full()).flatten()
        obs.check(np.isclose(f1, f2, rtol=1e-12, atol=1e-12), 'objective', lambda: f'dumped objective {f2} instead of {f1} {desc}')
        obs.check(g1.shape == g2.shape and np.allclose(g1, g2, rtol=1e-12, atol=1e-12), 'constraints', lambda: f'dumped constraints {g2.shape} differ {desc}')
        obs.see('points_compared')
    for key, v in (('lbw', c.lbx), ('ubw', c.ubx), ('lbg', c.lbg), ('ubg', c.ubg)):
        got = np.array(data.get(key, []), dtype=float).flatten()
        obs.check(np.array_equal(got, v), 'bounds', lambda: f'{key} differs from the bounds of the next solve {desc}')
        obs.see('bounds_compared', v.size)
    obs.check(tuple(data['w_shape'])[0] == px.nw and tuple(data['p_shape'])[0] == px.np_, 'shape', f'{data["w_shape"]} {data["p_shape"]} {desc}')
    # index lists
    a, b = Layout(sp, s.problem), Layout(sp, View(data))
    obs.check(same(a.fe, b.fe) and same(a.u, b.u) and same(a.sot, b.sot) and same(a.v, b.v) and same(a.sel, b.sel), 'indices', lambda: f'index lists differ {desc}')
    # parameters: homotopy parameters are free, everything else belongs to the current setting
    want = np.concatenate([np.concatenate([ptv[k], pg]) for k in range(sp.N)] + [lam00(sp, x0, ptv, pg), x0])
    p0 = np.array(data['p0'], dtype=float).flatten()
    obs.check(p0.size == px.np_, 'parameters', lambda: f'parameter vector has {p0.size} entries instead of {px.np_} {desc}')
    if p0.size == px.np_:
        diff = np.where(np.abs(p0 - c.p) > 1e-12)[0]
        # the two homotopy parameters are free
        sig = sp.sigma_0
        hom = np.where(np.isclose(c.p, sig, rtol=1e-12, atol=0) | np.isclose(c.p, min(sig**1.5, sig), rtol=1e-12, atol=0))[0]
        obs.check(len(hom) == 2 or sig >= 1, 'parameters', lambda: f'homotopy parameters not found in {c.p} {desc}')
        obs.check(set(diff) <= set(hom), 'parameters', lambda: f'parameter vector {p0} differs from that of the next solve {c.p} {desc}')
        got = np.delete(p0, hom)
        obs.check(np.allclose(np.sort(got), np.sort(want), rtol=1e-9, atol=1e-12), 'parameters', lambda: f'parameters {got} instead of {want} {desc}')
        obs.see('parameters_compared', p0.size)
    # guess: the dump is made before the solve's own initialisation
    # nothing changed
    w0 = np.array(data['w0'], dtype=float).flatten()
    obs.check(w0.shape == (px.nw,) and np.array_equal(w0, before['w0']), 'guess', lambda: f'dumped guess differs from the problem\'s {desc}')
    if case['when'] != 'solved':
        ix = np.array([j for st in a.fe for d in st for q in d['x'] for j in q], dtype=int)
        keep = np.setdiff1d(np.arange(px.nw), ix)
        obs.check(np.array_equal(w0[keep], c.x0[keep]), 'guess', lambda: f'dumped guess differs from the start of the next solve {desc}')
    for k, v in before.items():
        obs.check(same(v, data[k]) if k in data else True, 'data', lambda: f'{k} in the file differs from the problem {desc}')
        obs.see('fields_compared', k in data)
    _, px2, n2, _, _, _ = drive(case, sp, case['seed'], None)
    for u, v in zip(proxy_calls, px2.calls):
        for what in ('x0', 'p', 'lbx', 'ubx', 'lbg', 'ubg', 'f', 'g'):
            obs.check(np.array_equal(getattr(u, what), getattr(v, what)), 'changed', lambda: f'dumping changes {what} of a later solve {desc}')
    obs.sig((sp.signature(), case['when'], sp.lsq))
    obs.sample = dict(case=case, fields=sorted(data))

