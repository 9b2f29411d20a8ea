"""C05: objective and reported cost."""
from mon.struct import gen, grid, judge, names
from mon.env import IrkSchemes, IrkRepresentation, MpccMode, SpeedOfTimeVariableMode

ID = 'C05'
LEVEL = 'exploration'
RULE = ('random stage and terminal costs (of state, control, parameters, global variables) for every scheme x representation x speed of '
        'time mode; the objective value at the NLP solver boundary and the reported cost are compared with an independent quadrature at '
        'random points; distinct = problem signature with a nonzero cost')
ASSUME = ['quadrature weights are recomputed from Legendre polynomial roots by the monitor']


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(scheme=names(IrkSchemes), rep=names(IrkRepresentation), n_s=[1, 2, 3], sot=names(SpeedOfTimeVariableMode))
    yield from gen(seed, 648 if q else 5184, cells, big=8, cost=True, mpcc='SCHOLTES_EQ', n_sys=1, stepeq=['HEURISTIC_DELTA', 'HEURISTIC_MEAN', 'DIRECT'])
    yield from gen(seed + 31, 216 if q else 1728, grid(mpcc=['ELASTIC_INEQ', 'ELASTIC_EQ', 'ELASTIC_TWO_SIDED'], objdirect=[True, False]), cost=True)
    yield from gen(seed + 47, 144 if q else 1152, [], cost=True)


def run(case, obs):
    sp, cap, o = judge(case, obs, cost=True, K=4)
    obs.nontrivial = bool(sp.fq or sp.fT)
    for pt, r in zip(cap.points, cap.refs()):
        v = float(pt['res']['cost_val'])
        obs.check(abs(v - r.cost) < 1e-7 * (1 + abs(r.cost)), 'cost_val', lambda: f'cost_val {v} instead of {r.cost}\n{sp.describe()}')
        obs.see('objective_values')
        obs.see('negative_objectives', r.cost < 0)
