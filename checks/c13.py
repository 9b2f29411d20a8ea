"""C13: parameters and initial state reach the stages they belong to."""
import numpy as np
from mon.struct import gen, grid, make_spec
from mon.match import Capture, compare

ID = 'C13'
LEVEL = 'exploration'
RULE = ('random models whose dynamics, switching functions, costs and constraints depend on global and time varying parameters, several control '
        'stages, parameters given in the model, left at their defaults or set later; random sequences of set() calls on random subsets of the '
        'fields interleaved with solves; all rows and the objective of the NLP recorded at each solve are compared with a reference evaluated '
        'at the latest values; distinct = (problem signature, sequence of set fields)')


def cases(tier, seed):
    n = 720 if tier == 'quick' else 5760
    yield from gen(seed, n, grid(npt=[0, 1, 2], npg=[0, 1, 2], N_stages=[1, 2, 3, 4]), big=10, n_s_max=2, n_sys=[1, 2], cost=True)


def run(case, obs):
    sp = make_spec(case)
    rng = np.random.default_rng(case['seed'])
    cap = Capture(sp, K=0, seed=case['seed'] % 997)
    seq = []
    for k in range(5):
        if k or rng.random() < .5:
            m = int(rng.integers(0, 3))
            fields = [str(f) for f in rng.choice(['x0', 'p_time_var', 'p_global'], size=m, replace=True)]
            if k == 2:
                fields = ['p_time_var']
            if k == 3:
                fields = ['p_global']
            eps = float(10.0**rng.uniform(-10, 0)) if rng.random() < .5 else None
            cap.set_all(fields, eps=eps)
            seq.append(tuple(fields) + (('tiny',) if eps else ()))
        cap.point(float(10.0**rng.uniform(-2, 1)))
        # the values themselves, to the last digit
        c = cap.points[-1]['call']
        have = np.concatenate((c.p, c.lbx, c.ubx))
        for f, v in (('x0', cap.x0), ('p_time_var', cap.ptv), ('p_global', cap.pg)):
            for a in np.ravel(v if v is not None else []):
                obs.check(np.min(np.abs(have - a)) <= 1e-13 * (1 + abs(a)), 'value', lambda: f'value {a!r} of {f} is not among the values passed to the NLP solver '
                          f'(nearest {have[np.argmin(np.abs(have - a))]!r}), sets {seq} {sp.describe()}')
                obs.see('values')
    o = compare(cap)
    obs.see('solves', len(cap.points))
    obs.see('set_calls', sum(len(s) for s in seq))
    obs.see('rows_matched', o['matched'])
    obs.see('assertions', o['matched'])
    desc = f'{sp.describe()} sets {seq}'
    obs.check(not o['struct'] and not o['bounds'], 'structure', lambda: f'{o["struct"][:2]} {o["bounds"][:2]} {desc}')
    obs.check(not o['missing'], 'rows', lambda: f'{len(o["missing"])} rows do not carry the current parameters: {o["missing"][0]} {desc}')
    obs.check(not o['cost'], 'objective', lambda: f'{o["cost"][:2]} {desc}')
    obs.nontrivial = sp.npt + sp.npg > 0
    obs.sig((sp.signature(), tuple(seq)))
    obs.sample = dict(case=case, sets=seq, problem=sp.describe())
