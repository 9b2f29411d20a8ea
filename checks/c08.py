"""C08: relaxation of each MPCC mode."""
from mon.struct import gen, grid, judge, names
from mon.env import MpccMode, CrossComplementarityMode, PssMode

ID = 'C08'
LEVEL = 'exploration'
RULE = ('random models in every MPCC mode x cross mode x DCS form with user complementarities; at random points and homotopy parameters the '
        'rows, bounds of multipliers and slack, and objective recorded at the NLP solver boundary are compared with the documented '
        'relaxation; distinct = problem signature')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(mpcc=names(MpccMode), cross=names(CrossComplementarityMode), pss=names(PssMode), objdirect=[True, False])
    yield from gen(seed, 896 if q else 7168, cells, big=10, n_sys=[1, 2], n_s_max=2, fe_max=2, ucomp=[True, False])


def run(case, obs):
    def mult(lab):
        return lab.split('[')[0] in ('theta/lambda', 'alpha', 'lambda_n', 'lambda_p', 'bool', 's_elastic', 'mu')
    sp, cap, o = judge(case, obs, rows=('ucomp', 'cross'), bounds=mult,
                       cost=sp_elastic(case), K=5)


def sp_elastic(case):
    return 'ELASTIC' in case['feat']['mpcc']
