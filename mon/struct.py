"""Cases and judgement shared by the structural monitors."""
import itertools
import numpy as np
from .spec import Spec, decode
from .match import Capture, compare
from .env import StepEquilibrationMode

TOGGLES = {
    'gpath': lambda s: setattr(s, 'gp', None),
    'terminal': lambda s: setattr(s, 'gT', None),
    'ucomp': lambda s: setattr(s, 'uc', []),
    'stepeq': lambda s: setattr(s, 'stepeq', StepEquilibrationMode.HEURISTIC_DELTA),
    'tf': lambda s: setattr(s, 'tf', False),
}


# problems that are large in one respect
BIG = [
    dict(N_stages=[5, 6, 7, 9, 12], n_s=[1, 2], nfe=[1, 2], n_sys=1, nc=1),
    dict(nfe=[5, 6, 8, 11], N_stages=[1, 2], n_s=[1, 2], n_sys=1, nc=1),
    dict(n_s=[4, 5, 6, 7, 8, 9], N_stages=[1, 2], nfe=[1, 2], n_sys=1),
    dict(n_sys=[4, 5, 6], n_s=1, N_stages=[1, 2], nfe=[1, 2, 3], nx=[4, 6], nc=[1, 2], nf=[2, 3]),
    dict(nc=[3, 4], nf=[9, 12], n_sys=[1, 2], n_s=[1, 2], N_stages=1, nfe=[1, 2]),
    dict(nx=[6, 8, 11], nu=[3, 5], nz=[3, 4], nv=[3, 5], npt=[3, 5], npg=[3, 5], n_s=[1, 2], N_stages=[1, 2, 3], nfe=[1, 2], n_sys=1),
]


def gen(seed, n, cells, big=0, **base):
    """n cases; the forced feature combinations (cells) are cycled, all other features are random; then one large problem for every `big` of them"""
    cells = list(cells) or [{}]
    for i in range(n):
        yield dict(seed=int(seed) * 1000003 + i, feat=dict(base, **cells[i % len(cells)]))
    for i in range(n // big if big else 0):
        kind, cell = BIG[i % len(BIG)], cells[(i * 11 + i // len(BIG)) % len(cells)]
        fixed = {k for k, v in base.items() if not isinstance(v, list)}
        yield dict(seed=int(seed) * 1000003 + 500000 + i, feat=dict(base, **cell) | {k: v for k, v in kind.items() if k not in fixed})


def grid(**kw):
    keys = list(kw)
    return [dict(zip(keys, v)) for v in itertools.product(*kw.values())]


def names(enum, *drop):
    return [m.name for m in enum if m.name not in drop]


def make_spec(case, off=()):
    sp = Spec(case['seed'], **decode(case['feat']))
    for t in off:
        TOGGLES[t](sp)
    return sp


def judge(case, obs, rows=(), cost=False, bounds=None, extras=None, K=4, struct=False, post=None, sp=None, opts=None):
    """
    rows: categories of constraint rows whose absence this property forbids
    cost: objective belongs to this property
    bounds: predicate on the variable label
    extras: 'base' (rows nobody asked for whatever the features), or feature names whose rows must not multiply
    """
    sp = make_spec(case) if sp is None else sp
    cap = Capture(sp, K=K, seed=case['seed'] % 997, opts=opts)
    o = compare(cap)
    obs.see('nlp_points', K)
    obs.see('rows_matched', o['matched'])
    obs.see('nlp_calls', len(cap.proxy.calls))
    for c in rows:
        obs.see('rows_' + c, o['by_cat'].get(c, 0))
    if struct:
        obs.check(not o['struct'], 'layout', lambda: f'{o["struct"][:4]}\n{sp.describe()}')
    elif o['struct']:
        from .core import Inconclusive
        raise Inconclusive('variable layout differs from the expectation: ' + str(o['struct'][:2]))
    miss = [m for m in o['missing'] if m[0] in rows or (m[0] == 'bool' and 'cross' in rows)]
    for cat in sorted({m[0] for m in miss}):
        L = [m[1] for m in miss if m[0] == cat]
        obs.alarm('missing:' + cat, f'{len(L)} expected rows not imposed: {L[0]}\n{sp.describe()}')
    if extras and o['extra']:
        if extras == 'base':
            c2 = compare(Capture(make_spec(case, TOGGLES), K=K, seed=case['seed'] % 997))
            mine = bool(c2['extra'])
        else:
            c2 = compare(Capture(make_spec(case, extras), K=K, seed=case['seed'] % 997))
            mine = len(c2['extra']) < len(o['extra'])
        if mine:
            obs.alarm('extra', f'{len(o["extra"])} rows restrict the problem additionally: {o["extra"][0]}\n{sp.describe()}')
    if cost:
        obs.check(not o['cost'], 'objective', lambda: f'{o["cost"][:2]}\n{sp.describe()}')
    if bounds:
        b = [t for lab, t in o['bounds'] if bounds(lab)]
        obs.check(not b, 'bounds', lambda: f'{len(b)}: {b[:3]}\n{sp.describe()}')
        obs.see('bounds_compared', 2 * cap.nw * K)
    obs.see('assertions', o['matched'])
    if post:
        post(sp, cap, obs)
    obs.sig(sp.signature())
    obs.sample = dict(case=case, problem=sp.describe(), rows=o['by_cat'], matched=o['matched'])
    return sp, cap, o


def worth(by, cats):
    return any(by.get(c, 0) for c in cats)
