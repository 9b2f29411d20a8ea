"""C06: bounds, path and terminal constraints."""
from mon.struct import gen, grid, judge, names
from mon.env import IrkSchemes, IrkRepresentation

ID = 'C06'
LEVEL = 'exploration'
RULE = ('random bounds (one sided, two sided, infinite), path constraints (inequalities, equalities with nonzero values) and terminal '
        'constraints for every scheme x representation x requested place; rows and bounds recorded at the NLP solver boundary are '
        'matched with the expected instances; distinct = problem signature with path or terminal rows or variable bounds')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(scheme=names(IrkSchemes), rep=names(IrkRepresentation), gpath_fe=[True, False], gpath_stg=[True, False])
    yield from gen(seed, 720 if q else 5760, cells, big=8, gpath=[1, 2], terminal=[0, 1, 2], n_sys=1, bounds=[True, True, False])
    yield from gen(seed + 9, 240 if q else 1920, [], gpath=[0, 1, 2], bounds=True)


def run(case, obs):
    sp, cap, o = judge(case, obs, rows=('gpath', 'terminal'), extras=('gpath', 'terminal'),
                       bounds=lambda lab: lab.split('[')[0] in ('x', 'u', 'z', 'v_global', 'sot', 'v', 'mu'))
    obs.nontrivial = bool(sp.gp or sp.gT or sp.bx[0] is not None)
