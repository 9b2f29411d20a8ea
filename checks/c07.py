"""C07: user complementarities."""
from mon.struct import gen, grid, judge, names
from mon.env import MpccMode

ID = 'C07'
LEVEL = 'exploration'
RULE = ('random complementarity pairs of each dependency kind (state/algebraic, control/time varying parameter, global only), mixed, in every '
        'MPCC mode, with common and individual element counts; the recorded NLP rows are matched with the expected instances; distinct = '
        'problem signature with at least one user complementarity')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(mpcc=names(MpccMode), nfe=[[1, 2, 3, 4], None, [1]], nv=[0, 2])
    yield from gen(seed, 960 if q else 7680, cells, big=10, ucomp=True, n_sys=1, n_s_max=2, npg=[1, 2, 0], npt=[0, 1], nu=[0, 1, 2])


def run(case, obs):
    sp, cap, o = judge(case, obs, rows=('ucomp',), extras=('ucomp',))
    obs.nontrivial = bool(sp.uc)
    for k, _, _ in sp.uc:
        obs.see('kind_' + k)
