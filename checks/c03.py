"""C03: the NLP's equations are the collocation equations."""
from mon.struct import gen, grid, names, judge
from mon.env import IrkSchemes, IrkRepresentation, PssMode

ID = 'C03'
LEVEL = 'exploration'
RULE = ('random models (all features) for every scheme x representation x stage number x DCS form; the NLP recorded at the '
        'NLP solver boundary is evaluated at random points and its rows are matched one to one with independently computed '
        'collocation, algebraic and continuity residuals; non-trivial = distinct problem signature with dynamics rows')
ASSUME = ['collocation coefficients are recomputed from Legendre polynomial roots by the monitor']


def cases(tier, seed):
    ns = [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 9]
    cells = grid(scheme=names(IrkSchemes), rep=names(IrkRepresentation), n_s=ns, pss=names(PssMode))
    cells = cells[::-1]
    small = dict(fe_max=3, stage_max=3)
    for c in cells:
        if c['n_s'] > 4:
            c.update(n_sys=1, fe_max=2, stage_max=2, regions='s')
    yield from gen(seed, 480 if tier == 'quick' else 3840, cells, big=5)
    yield from gen(seed + 500, 96 if tier == 'quick' else 768, grid(general=[True], scheme=names(IrkSchemes), rep=names(IrkRepresentation)), big=4)


def run(case, obs):
    judge(case, obs, rows=('dyn', 'lift', 'cont', 'alg_switch', 'alg_convex', 'alg_user', 'bnd'), extras='base', struct=True)
