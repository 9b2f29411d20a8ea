"""C15: initial guesses."""
import numpy as np
from mon.env import Ctl, NosnocSolver, InitializationStrategy, PssMode, NosnocSimLooper
from mon.spec import Spec, decode
from mon.refnlp import Layout, bounds, flat
from mon.struct import gen, grid, names
from checks import c24

ID = 'C15'
LEVEL = 'exploration'
RULE = ('random problems and random sequences of guesses (states per control stage or per element, controls, convex multipliers, global '
        'variables, whole vector), initial state changes and solves, for each initialisation strategy; the starting point of the first NLP of '
        'every solve is compared component-wise with an executable specification of the strategies (for the smoothed simulation: an independent simulation of the smoothed field over the nominal grid); distinct = (strategy, operations, '
        'problem signature)')


def cases(tier, seed):
    n = 960 if tier == 'quick' else 7680
    for c, st in zip(gen(seed, n, [], big=8, n_s_max=3, n_sys=[1, 2, 3]), ['ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV', 'EXTERNAL', 'EXTERNAL'] * n):
        yield dict(c, strategy=st)
    for c in c24.init_cases(seed + 11, n // 12):
        yield dict(c, strategy='RK4_SMOOTHENED')


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    st = InitializationStrategy[case['strategy']]
    if st == InitializationStrategy.RK4_SMOOTHENED:
        return c24.init(case, obs, sp, rng)
    o = sp.opts()
    o.initialization_strategy = st
    o.max_iter_homotopy = int(rng.integers(1, 4))
    o.comp_tol = 1e-9
    Ctl.reset()
    s = NosnocSolver(o, sp.model(), sp.ocp())
    px = Ctl.proxies[0]
    lay = Layout(sp, s.problem)
    exp = bounds(sp, lay, px.nw)[2]
    ix = np.array([j for k in lay.fe for d in k for a in d['x'] for j in a], dtype=int)
    x0 = sp.x0.copy()
    ops = []

    def setx(field, v):
        try:
            s.set(field, v)
        except Warning:        # told that the strategy may overwrite it
            obs.check(st != InitializationStrategy.EXTERNAL, 'warning', f'set({field!r}) refused although the guess is external')

    for k in range(7):
        op = str(rng.choice(['x_stage', 'x_fe', 'u', 'theta', 'v', 'w', 'x0', 'solve']))
        if k in (2, 6):
            op = 'solve'
        if op in ('x_stage', 'x_fe'):
            n = sp.N if op == 'x_stage' else sum(sp.nfe)
            if op == 'x_fe' and n == sp.N and any(a != 1 for a in sp.nfe):
                continue
            if st != InitializationStrategy.EXTERNAL and rng.random() < .5:
                continue
            v = rng.normal(size=(n, sp.nx))
            setx('x', v)
            m = 0
            for kk, stage in enumerate(lay.fe):
                for d in stage:
                    for a in d['x']:
                        exp[a] = v[kk] if op == 'x_stage' else v[m]
                    m += 1
        elif op == 'u' and sp.nu:
            v = rng.normal(size=(sp.N, sp.nu))
            s.set('u', v)
            for kk in range(sp.N):
                exp[lay.u[kk]] = v[kk]
        elif op == 'theta' and sp.pss == PssMode.STEWART:
            v = rng.random(size=(sum(sp.nfe), sum(d['nf'] for d in sp.sys)))
            s.set('theta', v)
            m = 0
            for stage in lay.fe:
                for d in stage:
                    for a in d['th']:
                        exp[flat(a)] = v[m]
                    m += 1
        elif op == 'v' and sp.nv:
            v = rng.normal(size=sp.nv)
            s.set('v_global', v)
            exp[lay.v] = v
        elif op == 'w':
            v = rng.normal(size=px.nw)
            setx('w', v.copy())
            exp = v.copy()
        elif op == 'x0':
            x0 = rng.normal(size=sp.nx)
            s.set('x0', x0.copy())
        elif op == 'solve':
            sols = []

            def handler(p, c):
                sols.append(rng.normal(size=p.nw))
                return sols[-1], str(rng.choice(['Solve_Succeeded', 'Infeasible_Problem_Detected']))
            Ctl.handler = handler
            n0 = len(px.calls)
            s.solve()
            Ctl.handler = None
            if st != InitializationStrategy.EXTERNAL:
                for kk in lay.fe:
                    for d in kk:
                        for a in d['x']:
                            exp[a] = x0
            got = px.calls[n0].x0
            bad = np.where(~(np.abs(got - exp) < 1e-12))[0]

            def txt():
                lab = bounds(sp, lay, px.nw)[3]
                return (f'guess of {lab[bad[0]]} (w[{bad[0]}]) is {got[bad[0]]} instead of {exp[bad[0]]} ({len(bad)} differ) after '
                        f'{ops} with {st.name}\n{sp.describe()}')
            obs.check(not len(bad), 'guess', txt)
            obs.see('components_compared', px.nw)
            obs.see('solves')
            if st == InitializationStrategy.ALL_XCURRENT_WOPT_PREV:
                exp = sols[-1].copy()
        else:
            continue
        ops.append(op)
    obs.sig((st.name, tuple(ops), sp.signature()))
    obs.sample = dict(case=case, operations=ops)
