"""C17: result extraction."""
import numpy as np
from mon.env import Ctl, NosnocSolver, PssMode, get_results_from_primal_vector
from mon.spec import Spec, decode
from mon.refnlp import Layout, structure_errors
from mon.resref import expected_results, same, marked, with_regions
from mon.struct import gen, grid, names

ID = 'C17'
LEVEL = 'exploration'
RULE = ('random problems of every formulation; the scripted NLP solver returns vectors whose components are all distinct (so every component is '
        'recognisable) and vectors with prescribed region sequences; every result entry is compared with the components the variable layout '
        'assigns to it, the switch times with the prescribed changes, and the layout is checked to partition the vector; distinct = problem '
        'signature')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(pss=['STEWART', 'STEP'], rep=['INTEGRAL', 'DIFFERENTIAL', 'DIFFERENTIAL_LIFT_X'], scheme=['RADAU_IIA', 'GAUSS_LEGENDRE'],
                 use_fesd=[True, False], sot=['NONE', 'LOCAL', 'GLOBAL'])
    yield from gen(seed, 1152 if q else 9216, cells, big=10, n_s_max=3, n_sys=[1, 1, 2, 3])
    yield from gen(seed + 3, 96 if q else 768, [dict(mpcc='BOOLEAN')], n_s_max=2, fe_max=2)


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    o = sp.opts()
    o.max_iter_homotopy = 1
    Ctl.reset()
    s = NosnocSolver(o, sp.model(), sp.ocp())
    px = Ctl.proxies[0]
    lay = Layout(sp, s.problem)
    err = structure_errors(sp, s.problem, lay, px.nw)
    obs.check(not err, 'layout', lambda: f'{err[:4]}\n{sp.describe()}')
    # the temporal order of the layout is the order of the chained dynamics: names of the decision variables agree with it
    order_of_layout(sp, lay, px, obs)
    x0 = sp.x0
    for k in range(4):
        w = marked(sp, lay, px.nw, rng)
        ch = None
        if k:
            ch = with_regions(sp, lay, w, rng, p_change=[0, .5, .9, .15][k], frac=.25 if k < 3 else .9, drift=0 if k < 3 else .9)
        if k == 2:
            x0 = rng.normal(size=sp.nx)
            s.set('x0', x0.copy())
        Ctl.handler = lambda p, c: (w.copy(), 'Solve_Succeeded')
        res = s.solve()
        exp = expected_results(sp, lay, w, x0)
        res2 = get_results_from_primal_vector(s.problem, w.copy())
        for name, e in exp.items():
            for r in (res, res2):
                if r is res2 and name == 'w_sol':
                    continue
                if not obs.check(name in r, 'missing-entry', f'result has no {name}'):
                    continue
                t = same(name, r[name], e)
                obs.check(not t, 'entry:' + name, lambda: f'{t}\n{sp.describe()}')
                obs.see('entries_compared')
        if ch is not None:
            tg = exp['t_grid']
            t = same('switch_times', res['switch_times'], np.array([tg[i] for i in ch]), 1e-12)
            obs.check(not t, 'switch_times', lambda: f'{t} (t_grid {tg}, changes after elements {ch})\n{sp.describe()}')
            obs.see('switches', len(ch))
            obs.see('switch_lists')
    obs.sig(sp.signature())
    obs.sample = dict(case=case, problem=sp.describe(), w=list(np.round(w[:8], 3)), switches_after_elements=ch)


def order_of_layout(sp, lay, px, obs):
    """the continuity rows decide which element follows which: perturbing the end state of element k changes rows of element k+1"""
    fes = [d for st in lay.fe for d in st]
    if len(fes) < 2:
        return
    import casadi as ca
    sp_ = ca.jacobian(px.nlp['g'], px.nlp['x']).sparsity()
    r, c = sp_.get_triplet()
    r, c = np.array(r), np.array(c)
    rows_of = {}
    for a, b in zip(r, c):
        rows_of.setdefault(b, set()).add(a)
    for k in range(len(fes) - 1):
        ends = fes[k]['x'][-1]
        nxt = [j for a in fes[k + 1]['v'] + fes[k + 1]['x'] for j in a]
        shared = any(rows_of.get(e, set()) & rows_of.get(n, set()) for e in ends for n in nxt)
        obs.check(shared, 'order', lambda: f'element {k + 1} of the results does not start at the end of element {k}\n{sp.describe()}')
        obs.see('successors')
