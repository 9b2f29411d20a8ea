"""C32: diagnostic output is faithful and never changes results."""
import contextlib
import io
import re
import numpy as np
from mon.env import ca, Ctl, NosnocOpts, NosnocSolver, NosnocSimLooper, MpccMode, PssMode, ConstraintHandling, StepEquilibrationMode
from mon.env import IrkSchemes, InitializationStrategy, nlpsol
from mon.core import Inconclusive
from mon.script import Script, GOOD, BAD, protocol
from mon.spec import Spec, decode
from mon.struct import grid, names

ID = 'C32'
LEVEL = 'exploration'
TECH = 'differential monitor of scripted runs at all print levels plus an oracle reading the printed text against the recorded NLP solves'
RULE = ('random problems with scripted NLP solver (residuals, objectives, statuses), solved at print level 0 to 3 with identical settings: the recorded '
        'NLP solves and the results must be identical, level 0 must print nothing but warnings, and at higher levels every NLP solve must be reported '
        'in order with its homotopy parameter, residual, objective, iterations and status; printed problems are parsed and compared row by row with '
        'bounds, guesses and conflicts planted into them; distinct = (kind, print level, outcomes, problem signature)')
ASSUME = ['numbers are compared to the printed number of digits; the meaning of the column nlp_res is not judged (it is the largest constraint value, '
          'not the distance to the bounds)']

NUM = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)(?![\w.])')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(mpcc=names(MpccMode), pss=names(PssMode), polish=[False, True], fix=[False, True])
    for i in range(288 if q else 2880):
        c = cells[i % len(cells)]
        yield dict(kind='levels', i=i, seed=seed * 1000003 + i, polish=c['polish'], fix=c['fix'],
                   feat=dict(mpcc=c['mpcc'], pss=c['pss'], n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2], regions='s', general=False))
    for i in range(32 if q else 320):
        yield dict(kind='lsq', i=i, seed=seed * 1000003 + i,
                   feat=dict(mpcc=['FISCHER_BURMEISTER', 'SCHOLTES_EQ'][i % 2], stepeq='L2_RELAXED', lsq=True, tf=False, n_s_max=2, fe_max=2, stage_max=2))
    cells = grid(mpcc=names(MpccMode), scheme=names(IrkSchemes))
    for i in range(160 if q else 1600):
        c = cells[i % len(cells)]
        yield dict(kind='print', i=i, seed=seed * 1000003 + i, feat=dict(c, n_s_max=2, fe_max=2, stage_max=2))
    for i in range(48 if q else 480):
        yield dict(kind='loop', i=i, seed=seed * 1000003 + i,
                   feat=dict(N_stages=1, nu=0, nv=0, npt=0, tf=False, sot='NONE', cost=False, terminal=False, gpath=False, gpath_fe=False,
                             gpath_stg=False, ucomp=False, n_sys=[1, 2], regions='s', general=False, n_s_max=2, fe_max=2))
    for i in range(16 if q else 160):
        yield dict(kind='fail', i=i, seed=seed * 1000003 + i, feat=dict(n_s_max=2, fe_max=2, stage_max=2))


def run(case, obs):
    globals()['k_' + case['kind']](case, obs, np.random.default_rng(case['seed'] + 3))


def catch(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f(*a, **k)
    return r, buf.getvalue()


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    try:
        return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)
    except (TypeError, ValueError):
        return a == b


def numbers(s):
    return [float(t) for t in NUM.findall(s)]


def has(nums, v, rel):
    """a number printed with few digits"""
    return any((not np.isfinite(v) and (n == v)) or abs(n - v) <= rel * abs(v) for n in nums)


def calls_equal(A, B):
    return len(A) == len(B) and all(np.array_equal(getattr(a, k), getattr(b, k)) for a, b in zip(A, B) for k in ('x0', 'lbx', 'ubx', 'lbg', 'ubg', 'p'))


def k_levels(case, obs, rng):
    sp = Spec(case['seed'], **decode(case['feat']))
    nmax = int(rng.integers(1, 5))
    tot = nmax + 1 + sp.N + 2
    ptot = [float(10.0**rng.uniform(-3, 1)) for _ in range(tot)]
    if rng.random() < .4:
        ptot[int(rng.integers(nmax))] = 1e-9
    good = rng.random()
    st = [str(rng.choice(GOOD if rng.random() < good else BAD)) for _ in range(tot)]
    fv = [float(v) for v in 10.0**rng.uniform(-2, 3, size=tot) * rng.choice([-1, 1], size=tot)]
    slope = float(rng.uniform(.05, .5))
    ref = None
    reps = int(rng.integers(1, 3))
    for lev in (0, 1, 2, 3):
        o = sp.opts()
        o.comp_tol = 1e-4
        o.sigma_0 = 1.0
        o.sigma_N = 1e-12
        o.max_iter_homotopy = nmax
        o.homotopy_update_slope = slope
        o.do_polishing_step = case['polish']
        o.fix_active_set_fe0 = case['fix']
        o.print_level = lev
        r2 = np.random.default_rng(case['seed'] + 17)
        sc = Script(sp, o, r2)
        out = []
        for rep in range(reps):
            sc.set_params()
            (res, calls), txt = catch(sc.solve, ptot, st, fv)
            out.append((res, calls))
            text(txt, lev, calls, o, sp, obs, case, ptot, st, fv)
        if ref is None:
            ref = out
            continue
        for (ra, ca_), (rb, cb) in zip(ref, out):
            obs.check(calls_equal(ca_, cb), 'level-changes-nlp', lambda: f'print level {lev} changes the NLP solves: {len(cb)} instead of {len(ca_)} solves {sp.describe()}')
            diff = [k for k in ra if k not in rb or k != 'cpu_time_nlp' and not same(ra[k], rb[k])] + [k for k in rb if k not in ra]
            obs.check(not diff, 'level-changes-results', lambda: f'print level {lev} changes the results {diff} {sp.describe()}')
            obs.see('results_compared')
    obs.sig(('levels', len(calls), case['polish'], case['fix'], tuple(s in GOOD for s in st[:len(calls)]), sp.signature()))
    obs.sample = dict(case=case, solves=len(calls), last_output=txt[-600:])


def text(txt, lev, calls, o, sp, obs, case, ptot, st, fv):
    lines = [s for s in txt.splitlines() if s.strip()]
    desc = f'print level {lev}, polishing {case["polish"]}, output:\n{txt[-1200:]}\n{sp.describe()}'
    warn = [s for s in lines if 'arning' in s]
    bad = [c.status for c in calls if c.status not in GOOD]
    # every failing NLP solve is announced at any level, nothing else is
    for b in set(bad):
        n = sum(b in s for s in warn)
        obs.check(n == bad.count(b), 'warning', lambda: f'{n} warnings about {b} instead of {bad.count(b)}: {desc}')
    some = {c.status for c in calls}
    for s in warn:
        obs.check(any(b in s for b in some), 'warning-status', lambda: f'warning {s} names no status of this run {sorted(some)}: {desc}')
    nh = len(calls)
    if not case['polish']:
        obs.check(len(warn) == len(bad), 'warning-count', lambda: f'{len(warn)} warnings, {len(bad)} failing NLP solves: {desc}')
    obs.see('warnings', len(warn))
    if lev == 0:
        obs.check(len(lines) == len(warn), 'not-quiet', lambda: f'output at print level 0: {desc}')
        return
    rest = [s for s in lines if s not in warn]
    sig = protocol(1.0, 1e-12, o.comp_tol, o.homotopy_update_rule, o.homotopy_update_slope, o.homotopy_update_exponent, o.max_iter_homotopy, ptot)
    pos = -1
    for k, c in enumerate(calls):
        mine = [i for i, s in enumerate(rest) if re.search(rf'(?<![\w.]){c.iter_count}(?![\w.])', s) and c.status in s]
        if not obs.check(len(mine) == 1, 'step-line', lambda: f'{len(mine)} lines report NLP solve {k} ({c.iter_count} iterations, {c.status}): {desc}'):
            continue
        obs.check(mine[0] > pos, 'step-order', lambda: f'NLP solve {k} reported out of order: {desc}')
        pos = mine[0]
        nums = numbers(rest[mine[0]])
        obs.check(has(nums, ptot[k], .006), 'step-residual', lambda: f'residual {ptot[k]} of NLP solve {k} not in "{rest[mine[0]]}": {desc}')
        obs.check(has(nums, fv[k], .006), 'step-cost', lambda: f'objective {fv[k]} of NLP solve {k} not in "{rest[mine[0]]}": {desc}')
        if k < len(sig):
            obs.check(has(nums, sig[k], .06), 'step-sigma', lambda: f'homotopy parameter {sig[k]} of NLP solve {k} not in "{rest[mine[0]]}": {desc}')
        obs.see('step_lines')
    if case['polish']:
        obs.check(len(calls) > len(sig), 'steps', lambda: f'{len(calls)} NLP solves {desc}')
    if lev > 1 and case['fix'] and sp.pss == PssMode.STEWART:
        # the variables that are fixed are named
        c = calls[0]
        fixed = [i for i in np.where((c.lbx == 0) & (c.ubx == 0))[0]]
        w = Ctl.proxies[0].nlp['x']
        nm = [w[int(i)].name() for i in fixed]
        obs.check(all(re.search(rf'(?<!\w){re.escape(n)}(?!\w)', txt) for n in nm), 'fixed-names', lambda: f'fixed variables {nm} are not all named: {desc}')
        obs.see('fixed_named', len(nm))


def k_lsq(case, obs, rng):
    """violations listed at print level 2 are the residuals of the problem"""
    sp = Spec(case['seed'], **decode(case['feat']))
    sp.lsq = False
    oe, ol = sp.opts(), sp.opts()
    Ctl.reset(handler=lambda p, c: (np.zeros(p.nw), 'Solve_Succeeded'))
    oe.max_iter_homotopy = ol.max_iter_homotopy = 1
    ol.constraint_handling = ConstraintHandling.LEAST_SQUARES
    ol.print_level = 2
    NosnocSolver(oe, sp.model(), sp.ocp())
    pe = Ctl.proxies[-1]
    try:
        s = NosnocSolver(ol, sp.model(), sp.ocp())
    except Exception as err:
        obs.see('refused')
        obs.sig(('lsq-refused', sp.signature()))
        obs.nontrivial = False
        return
    px = Ctl.proxies[-1]
    for scale in (0.0, 1.0, 1e-7):
        w = rng.normal(size=px.nw)
        Ctl.handler = lambda p, c: (w, 'Solve_Succeeded')
        if scale != 1.0:
            # nearly feasible: objective reported as tiny
            Ctl.handler = lambda p, c: (w, 'Solve_Succeeded', scale)
        res, txt = catch(s.solve)
        c = px.calls[-1]
        g = np.abs(pe.fg(c.w, c.p)[1])
        f = c.f
        thr = max(np.sqrt(f) / 100 if f > 0 else 0.0, ol.comp_tol * 1e2, 1e-5)
        rows = {int(a): float(b) for a, b in re.findall(r'g_val\[(\d+)\]\|\s*=\s*([-+.\deE]+)', txt)}
        desc = f'threshold {thr}, residuals {g.tolist()}, output:\n{txt[-1500:]}\n{sp.describe()}'
        for i, v in rows.items():
            obs.check(i < len(g) and abs(v - g[i]) <= .006 * g[i], 'lsq-value', lambda: f'residual {i} listed as {v}: {desc}')
        big = [i for i in range(len(g)) if g[i] > 1.01 * thr]
        if f >= 0:
            obs.check(all(i in rows for i in big) and not any(g[i] < .99 * thr for i in rows if i < len(g)), 'lsq-rows', lambda: f'listed {sorted(rows)} instead of {big}: {desc}')
        obs.see('violations', len(rows))
    obs.sig(('lsq', sp.signature()))


def listing(txt, nrow, nw):
    """rows of the two tables"""
    L = [s for s in txt.splitlines()]
    R = [re.match(r'\s*(\d+)\s*:\s*(.*)$', s) for s in L]
    return [(int(m.group(1)), m.group(2)) for m in R if m]


def num(t):
    return float(t)


def rows_ok(obs, prob, txt, desc):
    w, g = prob.w, prob.g
    nrow, nw = len(prob.lbg), len(prob.lbw)
    T = listing(txt, nrow, nw)
    if not obs.check(len(T) == nrow + nw and [i for i, _ in T] == list(range(nrow)) + list(range(nw)), 'rows', lambda: f'{len(T)} rows listed, problem has {nrow} constraints and {nw} variables {desc}'):
        return
    for (i, s) in T[:nrow]:
        t = s.split()
        obs.check(len(t) > 2 and np.isclose(num(t[0]), prob.lbg[i], rtol=1e-3) and np.isclose(num(t[1]), prob.ubg[i], rtol=1e-3), 'constraint-bounds',
                  lambda: f'constraint {i} with bounds {prob.lbg[i], prob.ubg[i]} listed as "{s[:200]}" {desc}')
        obs.check(s.rstrip().endswith(str(g[i]).rstrip()), 'constraint-expression', lambda: f'constraint {i} {str(g[i])[:300]} listed as "{s[:300]}" {desc}')
    bad = 0
    for (i, s) in T[nrow:]:
        t = s.split()
        ok = len(t) >= 4 and t[0] == w[i].name() and all(np.isclose(num(a), b, rtol=6e-3, atol=0) or num(a) == b for a, b in zip(t[1:4], (prob.w0[i], prob.lbw[i], prob.ubw[i])))
        obs.check(ok, 'variable', lambda: f'variable {w[i].name()} with guess and bounds {prob.w0[i], prob.lbw[i], prob.ubw[i]} listed as "{s}" {desc}')
        conflict = prob.lbw[i] > prob.ubw[i] or prob.w0[i] < prob.lbw[i] or prob.w0[i] > prob.ubw[i]
        bad += bool(conflict)
        obs.check(('ERROR' in s) == bool(conflict), 'conflict', lambda: f'variable with guess and bounds {prob.w0[i], prob.lbw[i], prob.ubw[i]} listed as "{s}" {desc}')
    m = re.search(r'errors:\s*(\d+)', txt)
    obs.check(m and int(m.group(1)) == bad, 'error-count', lambda: f'{bad} conflicts, printed {m and m.group(0)} {desc}')
    obs.check(str(prob.cost) in txt, 'cost', lambda: f'objective not printed {desc}')
    obs.see('rows_compared', nrow + nw)
    obs.see('conflicts', bad)


def k_print(case, obs, rng):
    sp = Spec(case['seed'], **decode(case['feat']))
    Ctl.reset(handler=lambda p, c: (rng.normal(size=p.nw), 'Solve_Succeeded'))
    o = sp.opts()
    o.max_iter_homotopy = 1
    s = NosnocSolver(o, sp.model(), sp.ocp())
    prob = s.problem
    desc = sp.describe()
    for k in range(3):
        if k == 1:
            s.set('x0', rng.normal(size=sp.nx))
            s.solve()
        if k == 2:
            # planted conflicts
            for _ in range(int(rng.integers(1, 6))):
                i = int(rng.integers(len(prob.lbw)))
                mode = rng.integers(3)
                if mode == 0:
                    prob.lbw[i], prob.ubw[i] = 1.0, 0.5
                elif mode == 1:
                    prob.lbw[i], prob.ubw[i], prob.w0[i] = -1.0, 1.0, 2.5
                else:
                    prob.lbw[i], prob.ubw[i], prob.w0[i] = -1.0, 1.0, -2.5
        before = [np.array(a) for a in (prob.w0, prob.lbw, prob.ubw, prob.lbg, prob.ubg)]
        _, txt = catch(s.print_problem)
        rows_ok(obs, prob, txt, desc)
        for a, b in zip((prob.w0, prob.lbw, prob.ubw, prob.lbg, prob.ubg), before):
            obs.check(np.array_equal(a, b), 'print-modifies', lambda: f'printing changes the problem {desc}')
    obs.sig(('print', sp.signature()))


def k_loop(case, obs, rng):
    sp = Spec(case['seed'], **decode(case['feat']))
    N = int(rng.integers(1, 5))
    st = [str(rng.choice(GOOD if rng.random() < .7 else BAD)) for _ in range(N)]
    W = None
    ref = None
    lev_o = [0, 1][int(rng.integers(2))]
    for lev in (None, 0, 1, 2):
        o = sp.opts()
        o.max_iter_homotopy = 1
        o.print_level = lev_o
        Ctl.reset()
        s = NosnocSolver(o, sp.model(), None)
        px = Ctl.proxies[-1]
        if not s.problem.is_sim_problem():
            raise Inconclusive('no simulation problem')
        if W is None:
            W = [rng.normal(size=px.nw) for _ in range(N)]
        Ctl.handler = lambda p, c: (W[len(p.calls)], st[len(p.calls)])
        lo = NosnocSimLooper(s, sp.x0, N, **({} if lev is None else dict(print_level=lev)))
        _, txt = catch(lo.run)
        res = lo.get_results()
        lines = [t for t in txt.splitlines() if re.search(r'\bstep\b', t, re.I) and 'arning' not in t]
        eff = lev_o if lev is None else lev
        desc = f'option {lev_o}, loop {lev}, output:\n{txt[-800:]}'
        want = N if eff > 0 else 0
        obs.check(len(lines) == want, 'loop-lines', lambda: f'{len(lines)} lines instead of {want}: {desc}')
        if want and len(lines) == want:
            for i, t in enumerate(lines):
                nm = 'SUCCESS' if st[i] in GOOD else 'INFEASIBLE'
                obs.check(numbers(t.replace('/', ' '))[:2] == [i + 1, N] and nm in t, 'loop-line', lambda: f'step {i + 1} of {N} ({nm}) reported as "{t}": {desc}')
                obs.see('loop_lines')
        if ref is None:
            ref = res
        else:
            diff = [k for k in ref if k not in ('cpu_nlp',) and not same(ref[k], res[k])]
            obs.check(not diff, 'loop-changes-results', lambda: f'print level changes {diff}: {desc}')
    obs.sig(('loop', N, lev_o, tuple(a in GOOD for a in st)))


class Boom(RuntimeError):
    pass


def k_fail(case, obs, rng):
    """an NLP solver that cannot be created: the problem is shown and the error passed on"""
    sp = Spec(case['seed'], **decode(case['feat']))
    Ctl.reset()
    o, m, c = sp.opts(), sp.model(), sp.ocp()
    s0 = NosnocSolver(sp.opts(), sp.model(), sp.ocp())

    def broken(*a, **k):
        raise Boom('planted failure')
    buf = io.StringIO()
    ca.nlpsol = broken
    try:
        with contextlib.redirect_stdout(buf):
            NosnocSolver(o, m, c)
        err = None
    except Exception as e:
        err = e
    finally:
        ca.nlpsol = nlpsol
    obs.check(isinstance(err, Boom) and 'planted failure' in str(err), 'error-lost', lambda: f'failure of the NLP solver construction ends as {err!r} {sp.describe()}')
    T = listing(buf.getvalue(), 0, 0)
    n = len(s0.problem.lbg) + len(s0.problem.lbw)
    obs.check(len(T) == n, 'fail-print', lambda: f'{len(T)} rows of the problem shown instead of {n} {sp.describe()}')
    obs.see('failures')
    obs.sig(('fail', sp.signature()))
