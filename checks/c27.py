"""C27: polishing."""
import numpy as np
from mon.core import Inconclusive
from mon.env import Ctl, NosnocOpts, Status, PssMode, MpccMode, NosnocSolver
from mon.resref import expected_results, same
from mon.script import Script, GOOD, BAD
from mon.spec import Spec, decode, ELASTIC
from mon.refnlp import flat
from mon.struct import gen, grid, names

ID = 'C27'
LEVEL = 'fault_enumeration'
RULE = ('random problems of every MPCC mode and reformulation with scripted NLP solutions in which every multiplier is clearly zero, clearly one or '
        'clearly undecided and every other variable takes values including exactly zero and one: the bounds, start, parameters of the polishing '
        'solves and the reported fields are compared with the specification, for random outcomes of the polishing solve and over repeated solves; '
        'simulations solved by IPOPT compare the complementarity violation before and after polishing; distinct = (mode, problem class, outcome)')
ASSUME = ['multipliers between 3 and 300 times the complementarity tolerance away from a decided value are left open: the statement names no threshold']


def cases(tier, seed):
    q = tier == 'quick'
    # binaries of BOOLEAN mode are included: they are no multipliers
    for c in gen(seed, 600 if q else 4800, grid(mpcc=names(MpccMode), pss=names(PssMode)), big=10, n_s_max=3, fe_max=3, stage_max=3):
        yield dict(c, kind='script')
    for i in range(64 if q else 512):
        yield dict(seed=seed * 1000003 + i, kind='e2e', pss=names(PssMode)[i % 2],
                   mpcc=['SCHOLTES_INEQ', 'SCHOLTES_EQ', 'ELASTIC_TWO_SIDED', 'ELASTIC_INEQ'][(i // 2) % 4])


def run(case, obs):
    if case['kind'] == 'e2e':
        return e2e(case, obs)
    rng = np.random.default_rng(case['seed'] + 71)
    sp = Spec(case['seed'], **decode(case['feat']))
    o = sp.opts()
    o.comp_tol = float(10.0**rng.uniform(-11, -4))
    o.sigma_N = float(10.0**rng.uniform(-9, -6))
    o.max_iter_homotopy = int(rng.integers(1, 4))
    o.do_polishing_step = True
    sc = Script(sp, o, rng)
    lay, nw, tol = sc.lay, sc.nw, o.comp_tol
    mult = np.zeros(nw, dtype=int)     # 1: region or step multiplier, 2: convex or step variable
    for (name, _, _), ind in lay.groups():
        if name in ('lam', 'ln', 'lp'):
            mult[ind] = 1
        elif name in ('th', 'al'):
            mult[ind] = 2
    bounds0 = None
    for rep in range(2):
        sc.set_params()

        def sol():
            w = rng.normal(size=nw)
            sel = rng.random(nw)
            w[sel < .15] = 0.0
            w[(sel >= .15) & (sel < .3)] = 1.0
            kind = rng.integers(0, 4, size=nw)     # 0 zero, 1 one, 2 undecided, 3 slightly undecided
            zero = tol * rng.uniform(-1, 1, size=nw)
            und = rng.uniform(.05, .95, size=nw)
            near = np.where(rng.random(nw) < .5, 0.0, 1.0)
            close = np.abs(near - tol * rng.uniform(5e2, 5e3, size=nw))
            m = mult > 0
            val = np.choose(kind, [zero, 1.0 + zero, und, close])
            w[m] = val[m]
            return w, kind, near
        stat = [str(rng.choice(GOOD + BAD))]
        n0 = len(sc.proxy.calls)
        W = []

        def handler(p, c):
            w, kind, near = sol()
            W.append((w, kind, near))
            s = str(rng.choice(GOOD + BAD))
            return w, s, float(rng.normal())
        Ctl.handler = handler
        # the solutions of repeated polishing solves must be the same: same NLP
        state = {}

        def handler2(p, c):
            key = (c.p.tobytes(), c.lbx.tobytes(), c.ubx.tobytes(), c.x0.tobytes())
            if key not in state:
                state[key] = handler(p, c)
                state[key] = state[key] + (W[-1],)
            else:
                W.append(state[key][3])
            return state[key][:3]
        Ctl.handler = handler2
        res = sc.solver.solve()
        Ctl.handler = None
        calls = sc.proxy.calls[n0:]
        obs.see('nlp_calls', len(calls))
        # homotopy NLPs have the bounds of the problem, polishing ones the fixed multipliers
        L0, U0 = calls[0].lbx, calls[0].ubx
        if bounds0 is None:
            bounds0 = (L0.copy(), U0.copy(), calls[0].lbg.copy(), calls[0].ubg.copy())
        obs.check(np.array_equal(L0, bounds0[0]) and np.array_equal(U0, bounds0[1]), 'bounds-persist',
                  'polishing of the previous solve changed the variable bounds of the next solve')
        sig0 = sc.expected_p(1.0)
        nsig = next((i for i in range(len(sig0)) if i == len(sc.user_p())), None)
        sigN = o.sigma_N if sp.mpcc in ELASTIC else 0.0
        # the polishing solves are the last ones: those with vanished relaxation
        hom = o.max_iter_homotopy
        # the homotopy may end earlier (scripted residuals are not prescribed): count by parameters
        pol = [k for k in range(len(calls)) if k and np.allclose(np.sort(calls[k].p), np.sort(sc.expected_p(sigN, 0.0)), rtol=1e-12, atol=0)]
        if not obs.check(bool(pol) and pol[-1] == len(calls) - 1, 'polish-parameters', lambda: f'the last NLP is not solved with vanished relaxation: '
                         f'parameters {np.sort(calls[-1].p)} instead of {np.sort(sc.expected_p(sigN, 0.0))}\n{sp.describe()}'):
            continue
        first = next(k for k in range(len(calls)) if k in pol and all(j in pol for j in range(k, len(calls))))
        obs.see('polishing_solves', len(calls) - first)
        w, kind, near = W[first - 1]
        for k in range(first, len(calls)):
            c = calls[k]
            obs.check(np.array_equal(c.x0, w) or (k > first and np.array_equal(c.x0, W[k - 1][0])), 'start', 'polishing does not start from the preceding solution')
            obs.check(np.array_equal(c.lbg, bounds0[2]) and np.array_equal(c.ubg, bounds0[3]), 'rows', 'polishing changes constraint bounds')
            fixed0 = (c.lbx == 0) & (c.ubx == 0)
            fixed1 = (c.lbx == 1) & (c.ubx == 1)
            same_b = (c.lbx == L0) & (c.ubx == U0)
            must0 = (mult > 0) & (kind == 0)
            must1 = (mult == 2) & (kind == 1)
            free = ~(must0 | must1)
            if k > first:
                break
            bad = np.where(free & ~same_b)[0]
            obs.check(bad.size == 0, 'fixes-undecided', lambda: f'{len(bad)} variables that are not decided multipliers get other bounds, e.g. component {bad[0]} '
                      f'({label(lay, bad[0])}) with value {w[bad[0]]} gets [{c.lbx[bad[0]]}, {c.ubx[bad[0]]}] instead of [{L0[bad[0]]}, {U0[bad[0]]}]\n{sp.describe()}')
            b0 = np.where(must0 & ~fixed0)[0]
            obs.check(b0.size == 0, 'fix-zero', lambda: f'{len(b0)} vanished multipliers are not fixed, e.g. {label(lay, b0[0])} = {w[b0[0]]}\n{sp.describe()}')
            b1 = np.where(must1 & ~fixed1)[0]
            obs.check(b1.size == 0, 'fix-one', lambda: f'{len(b1)} active multipliers are not fixed to one, e.g. {label(lay, b1[0])} = {w[b1[0]]}\n{sp.describe()}')
            obs.see('fixed_zero', must0.sum())
            obs.see('fixed_one', must1.sum())
            obs.see('left_free', free.sum())
        last = calls[-1]
        want = Status.SUCCESS if last.status in GOOD else Status.INFEASIBLE
        obs.check(res['status'] == want, 'status', lambda: f'status {res["status"]} although polishing ended with {last.status}')
        obs.check(float(res['cost_val']) == last.f, 'cost_val', lambda: f'cost_val {res["cost_val"]} is not the objective {last.f} of the polished solution')
        exp = expected_results(sp, lay, last.w, np.asarray(sc.x0, dtype=float))
        for name, val in exp.items():
            if name in ('lambda_list', 'theta_list') and sp.pss != PssMode.STEWART or name not in res:
                continue
            t = same(name, res[name], val)
            obs.check(not t, 'field:' + name, lambda: f'not of the polished solution: {t}\n{sp.describe()}')
        it = [i for i in res['nlp_iter'] if i is not None]
        obs.check(it and it[-1] == last.iter_count, 'nlp_iter', lambda: f'last iteration count {it} instead of {last.iter_count}')
        obs.sig((sp.mpcc.name, sp.pss.name, sp.rep.name, sp.scheme.name, sp.use_fesd, want.name, first))
    obs.sample = dict(case=case, problem=sp.describe(), nlps=len(calls), first_polishing=first)


def label(lay, j):
    for lab, ind in lay.groups():
        if j in ind:
            return lab
    return '?'


def e2e(case, obs):
    """violation before and after"""
    from mon.sims import simple_problem
    rng = np.random.default_rng(case['seed'])
    model, o, info = simple_problem(rng, case['pss'], case['mpcc'])
    o.do_polishing_step = True
    Ctl.reset()
    s = NosnocSolver(o, model)
    p = Ctl.proxies[0]
    res = s.solve()
    calls = p.calls
    obs.see('nlp_calls', len(calls))
    # first solve with bounds changed is the polishing
    k = next((i for i in range(1, len(calls)) if not np.array_equal(calls[i].lbx, calls[0].lbx)), None)
    if k is None or calls[k - 1].status not in GOOD[:2] or res['status'] != Status.SUCCESS:
        obs.nontrivial = False
        raise Inconclusive('homotopy or polishing not successful')
    a, b = violation(s.problem, case, calls[k - 1].w), violation(s.problem, case, np.asarray(res['w_sol']))
    if a > 1e2 * o.comp_tol:
        raise Inconclusive('homotopy ended in a point that violates the complementarities')
    obs.check(b <= max(a, o.comp_tol) * (1 + 1e-9), 'worse', lambda: f'largest complementarity product {b:.3e} after polishing, {a:.3e} before ({case}, {info})')
    obs.see('compared_residuals')
    obs.sig(('e2e', case['pss'], case['mpcc'], info['switches']))
    obs.sample = dict(case=case, before=a, after=b)


def violation(prob, case, w):
    r = 0.0
    for st in range(len(prob.ind_x)):
        for i in range(len(prob.ind_x[st])):
            if case['pss'] == 'STEWART':
                T = [w[flat(a)] for a in prob.ind_theta[st][i]]
                L = [w[flat(a)] for a in prob.ind_lam[st][i]]
                r = max(r, max(np.max(np.abs(t * la)) for t in T for la in L))
            else:
                A = [w[flat(a)] for a in prob.ind_alpha[st][i]]
                N = [w[flat(a)] for a in prob.ind_lambda_n[st][i]]
                P = [w[flat(a)] for a in prob.ind_lambda_p[st][i]]
                r = max(r, max(np.max(np.abs(a * n)) for a in A for n in N), max(np.max(np.abs((1 - a) * p)) for a in A for p in P))
    return float(r)
