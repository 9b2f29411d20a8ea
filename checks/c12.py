"""C12: status and results belong to the last NLP."""
import numpy as np
from mon.env import Ctl, Status, ConstraintHandling
from mon.script import Script, GOOD, BAD
from mon.spec import Spec, decode
from mon.struct import names

ID = 'C12'
LEVEL = 'fault_enumeration'
RULE = ('random problems with scripted NLP solver: every IPOPT return status as outcome of the last NLP (also with all combinations of good and '
        'bad earlier outcomes), with and without polishing and early stops; status, solution, cost, iterates and statistics in the results '
        'are compared with what the scripted solver returned; distinct = (statuses pattern, number of NLPs, polishing)')


def cases(tier, seed):
    n = 1536 if tier == 'quick' else 12288
    alls = GOOD + BAD
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, last=alls[i % len(alls)], n=1 + (i // len(alls)) % 4, polish=bool((i // 64) % 2),
                   feat=dict(n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2], regions='s', general=False))


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    o = sp.opts()
    o.comp_tol = 1e-4
    o.sigma_N = 1e-12
    o.max_iter_homotopy = case['n'] + int(rng.integers(0, 2))
    o.do_polishing_step = case['polish']
    o.sigma_0 = sp.sigma_0 = 1.0
    sc = Script(sp, o, rng)
    for rep in range(3):
        sc.set_params()
        n = case['n']
        R = [1.0] * (n - 1) + [1e-9] * 3
        St = [str(rng.choice(GOOD + BAD)) for _ in range(n)]
        tot = n
        if case['polish']:
            # the polishing step may be solved repeatedly with identical data
            St += [case['last']] * (sp.N + 2)
            R += [1e-9] * (sp.N + 2)
        else:
            St[n - 1] = case['last']
        fv = rng.normal(size=len(R) + 2)
        res, calls = sc.solve(R, St + ['Internal_Error'] * 3, fv)
        obs.see('homotopies')
        obs.see('nlp_calls', len(calls))
        last = calls[-1]
        if not case['polish']:
            obs.check(len(calls) == n, 'steps', lambda: f'{len(calls)} NLP solves instead of {n}: statuses {St}')
        else:
            obs.check(len(calls) > n, 'steps', lambda: f'{len(calls)} NLP solves with polishing, expected more than {n}: statuses {St}')
        want = Status.SUCCESS if last.status in GOOD else Status.INFEASIBLE
        obs.check(res['status'] == want, 'status', lambda: f'status {res["status"]} after last NLP ended with {last.status} (all: {[c.status for c in calls]})')
        obs.check(np.array_equal(np.array(res['w_sol']), last.w), 'w_sol', 'w_sol is not the solution of the last NLP')
        obs.check(float(res['cost_val']) == last.f, 'cost_val', lambda: f'cost_val {res["cost_val"]} is not the objective {last.f} of the last NLP')
        ends = np.array(sc.lay.fe[-1][-1]['x'][-1])
        obs.check(np.array_equal(np.array(res['x_out']).flatten(), last.w[ends]), 'x_out', 'x_out is not taken from the last NLP solution')
        obs.check(np.array_equal(np.array(res['u_list']).flatten(), last.w[np.array(sum(sc.lay.u, []), dtype=int)]), 'u_list', 'u_list is not taken from the last NLP solution')
        hom = calls[:n]
        wa = [np.array(w) for w in res['w_all']]
        exp = [calls[0].x0] + [c.w for c in hom]
        ok = len(wa) >= len(exp) and all(np.array_equal(a, b) for a, b in zip(wa, exp)) and \
            all(np.array_equal(a, last.w) for a in wa[len(exp):]) and len(wa) <= len(exp) + 1
        obs.check(ok, 'w_all', lambda: f'w_all has {len(wa)} entries, expected initial guess and the {len(hom)} iterates in order')
        it = [i for i in res['nlp_iter'] if i is not None]
        want_it = [c.iter_count for c in hom] + ([last.iter_count] if case['polish'] else [])
        obs.check(it == want_it and list(res['nlp_iter'])[:n] == want_it[:n], 'nlp_iter', lambda: f'nlp_iter {res["nlp_iter"]} instead of {want_it}')
        ct = list(res['cpu_time_nlp'])
        base = calls[0].iter_count - 1000
        want_ct = [0.25 + 0.5 * (base + k) for k in range(n)]
        obs.check(ct[:n] == want_ct, 'cpu_time_nlp', lambda: f'cpu_time_nlp {ct} instead of {want_ct}')
        obs.check(len(ct) == len(res['nlp_iter']), 'stat-length', 'statistics have different lengths')
        obs.sig((tuple(s in GOOD for s in St[:n]), case['last'], case['polish'], n))
        obs.see('last_good' if want == Status.SUCCESS else 'last_bad')
    obs.sample = dict(case=case, statuses=[c.status for c in calls], reported=str(res['status']))
