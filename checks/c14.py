"""C14: independence of history, no modification of user data."""
import copy
import numpy as np
from mon.env import Ctl, NosnocSolver, NosnocOpts, ca, MpccMode, IrkSchemes, IrkRepresentation, PssMode, InitializationStrategy, CrossComplementarityMode
from mon.spec import Spec, RandFun, decode
from mon.struct import gen

ID = 'C14'
LEVEL = 'exploration'
RULE = ('histories of builds and solves: rebuilding after other problems, reuse of options / model / OCP objects with the same and with other '
        'discretisation settings, repeated solves, re-solve after set() and set() back; compared are the complete NLP (bounds, guess, parameters, '
        'objective and constraint values at random points, NLP options) and results, and byte-wise snapshots of all arrays passed in and of all results '
        'returned earlier; distinct = '
        '(history kind, problem signature)')
KNOWN = {'shared-live-model': dict(seed=4242, kind='live', feat=dict(n_s_max=2, fe_max=2, stage_max=2, regions='s'))}


def cases(tier, seed):
    kinds = ['rebuild', 'reuse_opts', 'reuse_all', 'repeat', 'reuse_model', 'inputs', 'real', 'near_opts', 'near_model', 'near_all', 'edit', 'keep', 'alias']
    n = 832 if tier == 'quick' else 6500
    for c, k in zip(gen(seed, n, [], n_s_max=2, fe_max=2, n_sys=[1, 2]), kinds * n):
        c = dict(c, kind=k)
        if k == 'real':
            c['feat'] = dict(c['feat'], fe_max=2, stage_max=1, n_sys=1, ucomp=False, gpath=0, terminal=0, mpcc='SCHOLTES_INEQ', tf=False, bounds=False)
        yield c


def build(sp, opts=None, model=None, ocp=None, own_ocp=True):
    Ctl.reset()
    opts = sp.opts() if opts is None else opts
    model = sp.model() if model is None else model
    ocp = sp.ocp() if (ocp is None and own_ocp) else ocp
    s = NosnocSolver(opts, model, ocp)
    return s, Ctl.proxies[0], opts, model, ocp


def finger(solver, proxy, rng_seed=5):
    """everything that reaches the NLP solver in one scripted solve"""
    rng = np.random.default_rng(rng_seed)
    n0 = len(proxy.calls)

    def handler(p, c):
        return np.random.default_rng(77).normal(size=p.nw), 'Solve_Succeeded'
    Ctl.handler = handler
    solver.solve()
    Ctl.handler = None
    calls = proxy.calls[n0:]
    out = dict(ncalls=len(calls), nlpopts=copy.deepcopy(proxy.opts_copy), plugin=proxy.plugin)
    for k, c in enumerate(calls[:3]):
        for a in ('x0', 'lbx', 'ubx', 'lbg', 'ubg', 'p', 'g'):
            out[f'{a}{k}'] = np.array(getattr(c, a))
        out[f'f{k}'] = np.array([c.f])
    return out


def diff(a, b):
    bad = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                if x.shape == y.shape:
                    fin = np.isfinite(x) & np.isfinite(y)
                    if np.array_equal(x[~fin], y[~fin], equal_nan=True) and np.allclose(x[fin], y[fin], rtol=1e-12, atol=1e-12):
                        continue
                bad.append(f'{k}: {x} vs {y}'[:400])
        elif x != y:
            bad.append(f'{k}: {x} vs {y}'[:400])
    return bad


def variant(sp, rng):
    """same problem data, other discretisation"""
    v = copy.copy(sp)
    v.N = int(rng.integers(1, 4))
    v.nfe_mode = str(rng.choice(['common', 'list']))
    v.nfe = [int(rng.integers(1, 3))] * v.N if v.nfe_mode == 'common' else [int(rng.integers(1, 3)) for _ in range(v.N)]
    v.nfe_common = v.nfe[0]
    v.n_s = int(rng.integers(1, 4))
    v.scheme = list(IrkSchemes)[rng.integers(2)]
    v.rep = list(IrkRepresentation)[rng.integers(3)]
    v.cross = list(CrossComplementarityMode)[rng.integers(2)]
    v.use_fesd = bool(rng.random() < .7)
    v.equi = bool(rng.random() < .5)
    if not (sp.general or sp.gst):
        v.pss = list(PssMode)[rng.integers(2)] if all(np.all(d['S'] != 0) for d in sp.sys) else PssMode.STEP
    v.ptv = rng.normal(size=(v.N, v.npt))
    if v.mpcc == MpccMode.FISCHER_BURMEISTER_IP_AUG:
        v.cross = CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER
    return v


def near(sp, rng):
    """same problem data, only one or two discretisation options differ"""
    v = copy.copy(sp)
    names = ['n_s', 'scheme', 'rep', 'cross', 'use_fesd', 'equi', 'pss', 'T', 'sigma_0', 'stepeq', 'rho_h', 'gamma_h', 'nfe', 'gp_fe', 'gp_stg', 's_el', 'mpcc',
             'sot', 'sot_min', 'tf_tol', 'eq_sigma', 'objdirect', 'fbw', 'scheme', 'rep', 'n_s', 'nfe']
    changed = []
    for k in rng.choice(names, size=int(rng.integers(1, 3)), replace=False):
        k = str(k)
        if k == 'n_s':
            v.n_s = sp.n_s % 3 + 1
        elif k in ('scheme', 'rep', 'cross', 'stepeq', 'mpcc', 'sot', 'pss'):
            old = getattr(sp, k)
            L = [m for m in type(old) if m != old and m.name != 'BOOLEAN']
            setattr(v, k, L[rng.integers(len(L))])
        elif k == 'nfe':
            v.nfe = [n % 3 + 1 for n in sp.nfe]
            v.nfe_common = v.nfe[0] if v.nfe_mode == 'common' else v.nfe_common
        elif k in ('use_fesd', 'equi', 'gp_fe', 'gp_stg', 'objdirect'):
            setattr(v, k, not getattr(sp, k))
        elif k in ('s_el', 'fbw'):
            setattr(v, k, tuple(1.1 * a for a in getattr(sp, k)))
        elif k == 'gamma_h':
            v.gamma_h = 0.75
        else:
            setattr(v, k, 1.1 * getattr(sp, k))
        changed.append(k)
    if v.general or any(np.any(d['S'] == 0) for d in v.sys if 'S' in d):
        v.pss = PssMode.STEP
    if v.gst:
        v.pss = PssMode.STEWART
    if v.mpcc == MpccMode.FISCHER_BURMEISTER_IP_AUG:
        v.cross = CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER
    return v


def apply(opts, v):
    """set all options of v on an existing options object"""
    new = v.opts()
    for k in type(opts).__dataclass_fields__:
        if k not in ('Nfe_list', 'max_iter_homotopy'):
            setattr(opts, k, getattr(new, k))
    if v.nfe_mode == 'list':
        opts.Nfe_list = list(v.nfe)
    return new


def edit(sp, rng, model, ocp):
    """change values in model and ocp; returns the specification of the changed problem"""
    v = copy.copy(sp)
    v.x0 = rng.normal(size=sp.nx)
    model.x0 = v.x0.copy()
    if sp.npg:
        v.pg = rng.normal(size=sp.npg)
        model.p_global_val = v.pg.copy()
    if sp.npt and rng.random() < .7:
        v.ptv, v.ptv_given = rng.normal(size=(sp.N, sp.npt)), True
        model.p_time_var_val = v.ptv.copy()
    if sp.nz:
        v.z0 = rng.normal(size=sp.nz)
        model.z0 = v.z0.copy()
        lo = rng.uniform(-3, -1, size=sp.nz)
        v.bz = (lo, lo + 4)
        model.lbz, model.ubz = lo.copy(), lo + 4
    if ocp is not None:
        q = dict(x=model.x, u=model.u, z=model.z, v=model.v_global, p=ca.vertcat(model.p_time_var, model.p_global))
        lo = rng.uniform(-3, -1, size=sp.nx)
        v.bx = (lo, lo + 5)
        ocp.lbx, ocp.ubx = lo.copy(), lo + 5
        if sp.nu:
            lo = rng.uniform(-3, -1, size=sp.nu)
            v.bu, v.u_guess = (lo, lo + 5), lo + 1
            ocp.lbu, ocp.ubu, ocp.u_guess = lo.copy(), lo + 5, lo + 1
        if sp.nv:
            lo = rng.uniform(-3, -1, size=sp.nv)
            v.bv, v.v_guess = (lo, lo + 5), lo + 1
            ocp.lbv_global, ocp.ubv_global, ocp.v_global_guess = lo.copy(), lo + 5, lo + 1
        dq = dict(x=sp.nx, p=sp.npt + sp.npg, v=sp.nv)
        if rng.random() < .6:
            v.fT = RandFun(rng, dq, 1)
            ocp.f_terminal = v.fT.sym(**q)
        if rng.random() < .6:
            v.gT = RandFun(rng, dq, int(rng.integers(1, 3)))
            ocp.g_terminal = v.gT.sym(**q)
        if rng.random() < .6:
            v.fq = RandFun(rng, dict(dq, u=sp.nu), 1)
            ocp.f_q = v.fq.sym(**q)
        if sp.gp:
            v.gp = RandFun(rng, dict(dq, u=sp.nu), sp.gp.nout)
            ocp.g_path = v.gp.sym(**q)
    return v


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    return a == b or a is b


def spoil(v, obs):
    if isinstance(v, dict):
        for a in v.values():
            spoil(a, obs)
    elif isinstance(v, (list, tuple)):
        for a in v:
            spoil(a, obs)
    elif isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.flags.writeable:
        v[...] = 777.0
        obs.see('results_spoiled')


def snapshot(sp, opts, model, ocp):
    out = {}
    for name, obj in (('model', model), ('ocp', ocp)):
        if obj is None:
            continue
        for k, v in vars(obj).items():
            if isinstance(v, np.ndarray):
                out[f'{name}.{k}'] = (v, v.copy())
            elif isinstance(v, list) and v and isinstance(v[0], np.ndarray):
                for i, a in enumerate(v):
                    out[f'{name}.{k}[{i}]'] = (a, a.copy())
    return out


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    kind = case['kind']
    obs.see('kind_' + kind)
    desc = f'{kind}: {sp.describe()}'
    ext = False
    opts = sp.opts()
    if kind == 'repeat':
        ext = bool(rng.random() < .5)
        if ext:
            opts.initialization_strategy = InitializationStrategy.EXTERNAL
        opts.fix_active_set_fe0 = bool(rng.random() < .5)
        opts.do_polishing_step = bool(rng.random() < .3)
        obs.see('external' if ext else 'default_guess')
    s, px, *_ = build(sp, opts=opts)
    w_before = s.problem.w0.copy()
    ref = finger(s, px)
    obs.see('nlps_compared')

    def same(b, key, what, a=ref):
        obs.see('nlps_compared')
        d = diff(a, b)
        obs.check(not d, key, lambda: f'{what}: {d[:3]}\n{desc}')

    if kind == 'rebuild':
        for k in range(3):
            o = Spec(case['seed'] + 31 * (k + 1), **decode(case['feat']))
            s2, p2, *_ = build(o)
            finger(s2, p2)
        s3, p3, *_ = build(sp)
        same(finger(s3, p3), 'rebuild', 'the same problem built again after other problems differs')
    elif kind == 'reuse_opts':
        s2, p2, opts, _, _ = build(sp)
        finger(s2, p2)
        v = variant(sp, rng)
        if sp.nfe_mode == 'common' and v.nfe_mode == 'common' or v.nfe_mode == 'list':
            apply(opts, v)
            s3, p3, *_ = build(v, opts=opts)
            fr = finger(*build(v)[:2])
            same(finger(s3, p3), 'reuse_opts', f'options object used before gives another problem than fresh ones for {v.describe()}', fr)
        else:
            s3, p3, *_ = build(sp, opts=opts)
            same(finger(s3, p3), 'reuse_opts', 'options object used before gives another problem')
    elif kind == 'reuse_all':
        s2, p2, opts, model, ocp = build(sp)
        finger(s2, p2)
        s3, p3, *_ = build(sp, opts=opts, model=model, ocp=ocp, own_ocp=False)
        same(finger(s3, p3), 'reuse_all', 'building again from the same objects gives another problem')
    elif kind == 'reuse_model':
        s2, p2, opts, model, ocp = build(sp)
        finger(s2, p2)
        v = variant(sp, rng)
        if not v.npt or not sp.ptv_given:
            v.ptv_given = False
            s3, p3, *_ = build(v, model=model, ocp=ocp, own_ocp=False)
            f3 = finger(s3, p3)
            same(f3, 'reuse_model', f'model and ocp used before give another problem than fresh ones for {v.describe()}', finger(*build(v)[:2]))
        s4, p4, *_ = build(sp, model=model, ocp=ocp, own_ocp=False)
        same(finger(s4, p4), 'reuse_model', 'model and ocp used before with other settings give another problem')
    elif kind in ('near_opts', 'near_model', 'near_all'):
        # a chain of problems that differ in one or two options, from the same objects
        s2, p2, opts, model, ocp = build(sp)
        finger(s2, p2)
        v = sp
        for k in range(4):
            v = near(v, rng) if rng.random() < .8 else sp
            kw = {}
            if kind != 'near_model':
                apply(opts, v)
                kw['opts'] = opts
            if kind != 'near_opts':
                kw.update(model=model, ocp=ocp, own_ocp=False)
            s3, p3, *_ = build(v, **kw)
            f3 = finger(s3, p3)
            same(f3, kind, f'objects used before give another problem than fresh ones for {v.describe()}', finger(*build(v)[:2]))
    elif kind == 'edit':
        s2, p2, opts, model, ocp = build(sp)
        finger(s2, p2)
        for k in range(2):
            v = edit(sp, rng, model, ocp)
            s3, p3, *_ = build(v, opts=opts, model=model, ocp=ocp, own_ocp=False)
            f3 = finger(s3, p3)
            sf, pf, *_ = build(v, ocp=None)
            same(f3, 'edit', 'objects whose values were changed after use give another problem than fresh ones with these values', finger(sf, pf))
            sp = v
    elif kind == 'repeat':
        for k in range(3):
            same(finger(s, px), 'repeat', f'solve number {k + 2} differs from the first one')
        for k in range(3):
            x1 = rng.normal(size=sp.nx) * 2
            s.set('x0', x1.copy())
            f1 = finger(s, px)
        s.set('x0', sp.x0.copy())
        same(finger(s, px), 'repeat-set', 'solve after setting another initial state and back differs')
        fresh = Spec(case['seed'], **decode(case['feat']))
        fresh.x0 = x1
        # default guesses of states follow the current state
        if ext:
            obs.check(np.array_equal(s.problem.w0, w_before), 'guess-modified', lambda: f'the stored initial guess is changed by solves {desc}')
        else:
            of = sp.opts()
            of.fix_active_set_fe0, of.do_polishing_step = opts.fix_active_set_fe0, opts.do_polishing_step
            d = [t for t in diff(f1, finger(*build(fresh, opts=of)[:2]))]
            obs.check(not d, 'set-equals-model', lambda: f'setting x0 differs from giving it in the model: {d[:3]}\n{desc}')
    elif kind == 'inputs':
        opts, model, ocp = sp.opts(), sp.model(), sp.ocp()
        snap = snapshot(sp, opts, model, ocp)
        o0 = {k: copy.deepcopy(v) for k, v in vars(opts).items() if not k.startswith('_')}
        Ctl.reset()
        sv = NosnocSolver(opts, model, ocp)
        p2 = Ctl.proxies[0]
        vals = dict(x0=rng.normal(size=sp.nx), p_global=rng.normal(size=sp.npg), p_time_var=rng.normal(size=(sp.N, sp.npt)),
                    u=rng.normal(size=(sp.N, sp.nu)), v_global=rng.normal(size=sp.nv))
        opts.initialization_strategy = list(InitializationStrategy)[rng.integers(3)]
        o0['initialization_strategy'] = opts.initialization_strategy
        keep = {k: v.copy() for k, v in vals.items()}
        for f in vals:
            if keep[f].size:
                if f == 'v_global':
                    sv.set(f, vals[f].reshape(1, -1) if False else vals[f])
                else:
                    sv.set(f, vals[f])
        wi = rng.normal(size=p2.nw)
        wk = wi.copy()
        if opts.initialization_strategy == InitializationStrategy.EXTERNAL:
            sv.set('w', wi)
        for _ in range(2):
            finger(sv, p2)
        for name, (a, c) in snap.items():
            obs.see('arrays_compared')
            if name in ('model.x0',):
                pass
            obs.check(np.array_equal(a, c, equal_nan=True), 'input-modified', lambda: f'array {name} changed from {c} to {a}\n{desc}')
        for f in vals:
            obs.check(np.array_equal(vals[f], keep[f]), 'input-modified', lambda: f'array passed to set({f!r}) changed\n{desc}')
            obs.see('arrays_compared')
        obs.check(np.array_equal(wi, wk), 'input-modified', lambda: f'array passed to set("w") changed\n{desc}')
        unset = {'max_iter_homotopy', 'Nfe_list', 'opts_casadi_nlp'}
        for k, v in o0.items():
            if k in unset:
                continue
            obs.check(repr(getattr(opts, k)) == repr(v), 'options-modified', lambda: f'option {k} changed from {v} to {getattr(opts, k)}\n{desc}')
        for k, v in o0['opts_casadi_nlp']['ipopt'].items():
            obs.check(v is None or opts.opts_casadi_nlp['ipopt'][k] == v, 'options-modified', lambda: f'NLP option {k} changed')
    elif kind == 'real':
        outs = []
        for k in range(2):
            o = sp.opts()
            o.nlp_max_iter = 40
            o.max_iter_homotopy = 3
            sv, p2, opts, *_ = build(sp, opts=o)
            r = sv.solve()
            outs.append((r['w_sol'].copy(), r['cost_val'], r['status']))
            if k == 1:
                r2 = sv.solve()
                outs.append((r2['w_sol'].copy(), r2['cost_val'], r2['status']))
            else:
                finger(*build(Spec(case['seed'] + 7, **decode(case['feat'])))[:2])
        for o in outs[1:]:
            obs.see('real_solves_compared')
            obs.check(np.array_equal(o[0], outs[0][0]) and o[1] == outs[0][1] and o[2] == outs[0][2], 'real-repeat',
                      lambda: f'repeated solve differs by {np.max(np.abs(o[0] - outs[0][0]))}, {outs[0][1:]} vs {o[1:]}\n{desc}')
    elif kind == 'keep':
        # results returned earlier stay what they were
        strat = [InitializationStrategy.ALL_XCURRENT_W0_START, InitializationStrategy.ALL_XCURRENT_WOPT_PREV, InitializationStrategy.EXTERNAL]
        o = sp.opts()
        o.initialization_strategy = strat[int(rng.integers(3))]
        o.fix_active_set_fe0, o.do_polishing_step = bool(rng.random() < .5), bool(rng.random() < .3)
        sv, p2, *_ = build(sp, opts=o)
        kept = []
        for k in range(4):
            if k:
                sv.set('x0', rng.normal(size=sp.nx))
                if sp.npg:
                    sv.set('p_global', rng.normal(size=sp.npg))
                if sp.nu:
                    sv.set('u', rng.normal(size=(sp.N, sp.nu)))
            if o.initialization_strategy == InitializationStrategy.EXTERNAL and rng.random() < .5:
                sv.set('w', rng.normal(size=p2.nw))
            Ctl.handler = lambda p, c: (rng.normal(size=p.nw), 'Solve_Succeeded')
            r = sv.solve()
            Ctl.handler = None
            kept.append((r, copy.deepcopy(r), [np.array(a) for a in r['w_all']]))
            for j, (a, b, w) in enumerate(kept):
                for key in b:
                    obs.see('results_kept')
                    obs.check(equal(a[key], b[key]), 'result-modified', lambda: f'{key} of solve {j + 1} changed from {b[key]} to {a[key]} in solve {k + 1}, {o.initialization_strategy.name}\n{desc}')
    elif kind == 'alias':
        # the caller goes on using the arrays that were passed to set() and those that were returned
        strat = [InitializationStrategy.ALL_XCURRENT_W0_START, InitializationStrategy.ALL_XCURRENT_WOPT_PREV, InitializationStrategy.EXTERNAL]
        st = strat[int(rng.integers(3))]
        flags = bool(rng.random() < .5), bool(rng.random() < .3)
        pair = []
        for _ in range(2):
            o = sp.opts()
            o.initialization_strategy = st
            o.fix_active_set_fe0, o.do_polishing_step = flags
            sv, p2, *_ = build(sp, opts=o)
            pair.append((sv, p2))
        for k in range(3):
            new = dict(x0=rng.normal(size=sp.nx), p_global=rng.normal(size=sp.npg), p_time_var=rng.normal(size=(sp.N, sp.npt)), u=rng.normal(size=(sp.N, sp.nu)),
                       v_global=rng.normal(size=sp.nv))
            new = {f: v for f, v in new.items() if v.size and rng.random() < .6}
            if st == InitializationStrategy.EXTERNAL:
                new['w'] = rng.normal(size=pair[0][1].nw)
            for i, (sv, p2) in enumerate(pair):
                for f, v in new.items():
                    a = v.copy()
                    sv.set(f, a)
                    if i:
                        a[...] = 1e3
                        obs.see('arrays_reused')
            same(finger(*pair[1]), 'set-alias', f'arrays passed to set ({sorted(new)}) and changed afterwards by their owner change the problem, {st.name}', finger(*pair[0]))
            wk = rng.normal(size=pair[0][1].nw)
            res = []
            for sv, p2 in pair:
                Ctl.handler = lambda p, c: (wk.copy(), 'Solve_Succeeded')
                res.append(sv.solve())
                Ctl.handler = None
            spoil(res[1], obs)
            same(finger(*pair[1]), 'result-alias', f'changing returned results changes the solver, {st.name}', finger(*pair[0]))
    elif kind == 'live':
        # two solvers that share the model object and are used alternately
        s2, p2, opts, model, ocp = build(sp)
        f2 = finger(s2, p2)
        px2 = p2
        Ctl.reset()
        s3 = NosnocSolver(sp.opts(), model, ocp)
        s3.set('x0', sp.x0 + 1.0)
        d = diff(f2, finger(s2, px2))
        obs.check(not d, 'shared-live-model', lambda: f'setting x0 of another solver of the same model object changes this solver: {d[:2]}')
    obs.sig((kind, sp.signature()))
    obs.sample = dict(case=case, problem=sp.describe())
