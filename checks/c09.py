"""C09: cross complementarity."""
import numpy as np
from mon.struct import gen, grid, judge, names
from mon.env import MpccMode, CrossComplementarityMode, PssMode, IrkSchemes, Ctl
from mon.refnlp import flat

ID = 'C09'
LEVEL = 'exploration'
RULE = ('random models for every cross complementarity mode x scheme x DCS form x switch detection on/off (also several control stages and '
        'element counts, several ragged subsystems); the set of coupled multiplier pairs is observed through the rows of the recorded NLP, '
        'and the stopping residual through its values; distinct = problem signature')


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(cross=names(CrossComplementarityMode), scheme=names(IrkSchemes), pss=names(PssMode), use_fesd=[True, True, False])
    modes = [m for m in names(MpccMode)]
    yield from gen(seed, 600 if q else 4800, cells, big=8, mpcc=[m for m in modes if m not in ('BOOLEAN', 'FISCHER_BURMEISTER_IP_AUG')], n_s_max=3)
    yield from gen(seed + 3, 80 if q else 640, cells, mpcc='BOOLEAN', n_s_max=2, fe_max=2)


def run(case, obs):
    sp, cap, o = judge(case, obs, rows=('cross',), extras='base')
    obs.see('finite_elements', sum(sp.nfe))
    residual(sp, cap, obs, np.random.default_rng(case['seed']))


def residual(sp, cap, obs, rng, most=14):
    """the residual that stops the homotopy sees every coupled pair: a solution vector with exactly one violated pair
    (product 6) must keep the homotopy going at tolerance 5 and stop it at tolerance 7"""
    lay = cap.lay
    lam00 = cap.refs()[-1].lambda00(cap.refs()[-1].z0_used)    # the solver still has the last point's values
    stewart = sp.pss == PssMode.STEWART
    pairs = []          # (description, coupled, {index: value}, base value of all step variables)
    prev = None
    for k, st in enumerate(lay.fe):
        for i, d in enumerate(st):
            if stewart:
                kinds = [([flat(d['th'][j]) for j in range(sp.n_s)], [flat(a) for a in d['lam']], 0.0, 2.0)]
            else:
                al = [flat(d['al'][j]) for j in range(sp.n_s)]
                kinds = [(al, [flat(a) for a in d['ln']], 0.0, 2.0), (al, [flat(a) for a in d['lp']], 1.0, -1.0)]
            for q, (th, lams, base, val) in enumerate(kinds):
                groups = [(f'stage {jj}', L, sp.use_fesd or None) for jj, L in enumerate(lams)]
                if prev is not None and sp.use_fesd:
                    groups.append(('end of previous element', prev[q], True))
                for j in range(sp.n_s):
                    for jj, (what, L, coup) in enumerate(groups):
                        m = int(rng.integers(len(th[j])))
                        if k == 0 and i == 0 and stewart:
                            z = np.where(lam00 == 0)[0]
                            m = int(z[rng.integers(len(z))])
                        if k == 0 and i == 0 and not stewart:
                            l0 = lam00[:len(th[j])] if q == 0 else lam00[len(th[j]):]
                            z = np.where(l0 == 0)[0]
                            if not len(z):
                                continue
                            m = int(z[rng.integers(len(z))])
                        coupled = True if coup else jj == j
                        pairs.append((f'multiplier {m} of stage {j} of element {k},{i} and multiplier of {what}', coupled,
                                      {th[j][m]: val, L[m]: 3.0}, base))
            prev = [kk[1][-1] for kk in kinds]
    o = cap.opts
    alphas = [a for st in lay.fe for d in st for a in flat(d['al'])]
    # other elements: step variables so that they do not meet the initial multipliers
    first = lay.fe[0][0]
    o.max_iter_homotopy = 2
    o.sigma_0, o.sigma_N = 1.0, 1e-6
    for n in rng.permutation(len(pairs))[:most]:
        what, coupled, vals, base = pairs[n]
        w = np.zeros(cap.nw)
        w[alphas] = base
        if not stewart:
            nc = len(lam00) // 2
            for j in range(sp.n_s):      # first element: alpha on the side of the initial state
                a = np.array(flat(first['al'][j]))
                if sp.use_fesd:
                    w[a] = np.where(lam00[:nc] > 0, 0.0, np.where(lam00[nc:] > 0, 1.0, base))
        for ind, v in vals.items():
            w[ind] = v
        Ctl.handler = lambda p, c: (w, 'Solve_Succeeded')
        got = []
        for tol in (5.0, 7.0):
            o.comp_tol = tol
            n0 = len(cap.proxy.calls)
            cap.solver.solve()
            got.append(len(cap.proxy.calls) - n0)
        obs.see('residual_pairs')
        if coupled:
            obs.check(got == [2, 1], 'residual', lambda: f'pair ({what}) with product 6: homotopy steps at tolerance 5 and 7 are {got} '
                      f'instead of [2, 1]\n{sp.describe()}')
        else:
            obs.check(got == [1, 1], 'residual-extra', lambda: f'pair ({what}) is not coupled but homotopy steps are {got}\n{sp.describe()}')
    Ctl.handler = None
