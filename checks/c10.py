"""C10: step equilibration."""
from mon.struct import gen, grid, judge, names
from mon.env import MpccMode, StepEquilibrationMode, PssMode, IrkSchemes

ID = 'C10'
LEVEL = 'exploration'
RULE = ('random models for every step equilibration mode x DCS form x scheme x switch detection, several control stages with differing element '
        'counts; cost terms and rows recorded at the NLP solver boundary at random points are compared with the documented ones; distinct = '
        'problem signature')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(stepeq=names(StepEquilibrationMode), pss=names(PssMode), scheme=names(IrkSchemes), use_fesd=[True, True, True, False])
    yield from gen(seed, 896 if q else 7168, cells, big=10, mpcc=['SCHOLTES_EQ', 'SCHOLTES_INEQ', 'FISCHER_BURMEISTER'], n_sys=[1, 2],
                   n_s_max=2, cost=False, nfe=[1, 2, 3, 4], ucomp=False)
    yield from gen(seed + 5, 192 if q else 1536, [dict(stepeq=m) for m in ('DIRECT_COMPLEMENTARITY', 'HEURISTIC_DELTA_H_COMP', 'DIRECT')], big=6,
                   mpcc=['ELASTIC_EQ', 'ELASTIC_INEQ', 'ELASTIC_TWO_SIDED', 'FISCHER_BURMEISTER'], n_sys=1, n_s_max=2, nfe=[2, 3], use_fesd=True)


def run(case, obs):
    sp, cap, o = judge(case, obs, rows=('stepeq',), cost=not (sp_cost(case)), extras=('stepeq',), K=5)
    obs.nontrivial = sp.use_fesd and max(sp.nfe) > 1
    obs.see('neighbouring_pairs', sum(n - 1 for n in sp.nfe) if sp.use_fesd else 0)


def sp_cost(case):
    return case['feat'].get('cost') is not False
