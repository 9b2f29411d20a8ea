"""C11: homotopy protocol."""
import numpy as np
from mon.env import HomotopyUpdateRule, MpccMode, NosnocOpts, Ctl
from mon.script import Script, protocol, GOOD, BAD
from mon.spec import Spec, decode
from mon.struct import names

ID = 'C11'
LEVEL = 'fault_enumeration'
RULE = ('random problems and homotopy options (initial/final parameter, tolerance, both update rules, slopes, exponents, explicit and default '
        'iteration limits); the NLP solver is scripted to return solutions with a prescribed complementarity residual and status per '
        'homotopy step (including failing steps, stopping at every possible step, residuals just above and below the tolerance); the '
        'sequence of NLP calls is checked against an executable specification; distinct = (options class, number of steps, stopping reason)')
ASSUME = ['the NLP parameters are compared as a multiset here; which parameter enters where is decided by C08 and C13']


def cases(tier, seed):
    n = 960 if tier == 'quick' else 7680
    modes = [m for m in names(MpccMode)]
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, kind='default' if i % 3 == 0 else 'script',
                   feat=dict(n_s_max=2, fe_max=2, stage_max=2, n_sys=[1, 2], mpcc=modes[i % len(modes)], regions='s', general=False))


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = Spec(case['seed'], **decode(case['feat']))
    o = sp.opts()
    o.sigma_0 = float(10.0**rng.uniform(-3, 2))
    o.comp_tol = float(10.0**rng.uniform(-13, -1))
    o.sigma_N = float(10.0**rng.uniform(-13, -1)) if rng.random() < .6 else o.comp_tol
    o.homotopy_update_rule = HomotopyUpdateRule.LINEAR if rng.random() < .5 else HomotopyUpdateRule.SUPERLINEAR
    o.homotopy_update_slope = float(rng.choice([0.1, 0.2, 0.5, 0.3, 0.05]))
    o.homotopy_update_exponent = float(rng.choice([1.5, 1.2, 2.0]))
    default = case['kind'] == 'default'
    if default:
        if o.sigma_0 < o.comp_tol:
            o.sigma_0 = 1.0
    else:
        o.max_iter_homotopy = int(rng.integers(1, 12))
    sp.sigma_0 = o.sigma_0
    sc = Script(sp, o, rng)
    for rep in range(3):
        if rep:
            sc.set_params()
        limit = 1000 if default else o.max_iter_homotopy
        stop = int(rng.integers(0, 12)) if rng.random() < .5 else 10**6
        near = rng.random() < .5
        hi = o.comp_tol * (1 + 1e-3) if near else 1.0
        lo = o.comp_tol * (1 - 1e-3) if near else o.comp_tol * 1e-3
        R = [lo if k >= stop else hi for k in range(400)]
        St = [str(rng.choice(GOOD + BAD)) for _ in range(400)]
        res, calls = sc.solve(R, St)
        sig = protocol(o.sigma_0, o.sigma_N, o.comp_tol, o.homotopy_update_rule, o.homotopy_update_slope,
                       o.homotopy_update_exponent, min(limit, 400), R)
        obs.see('homotopies')
        obs.see('nlp_calls', len(calls))
        if default:
            # the limit is derived: the protocol may be cut short only once the tolerance level is reached
            ok = len(calls) <= len(sig) and (len(calls) == len(sig) or
                                             sig[len(calls) - 1] <= max(o.sigma_N, o.comp_tol) * (1 + 1e-5))
            obs.check(ok, 'default-limit', lambda: f'homotopy with default limit ends after {len(calls)} steps at sigma '
                      f'{sig[min(len(calls), len(sig)) - 1]}, sigma_N {o.sigma_N} comp_tol {o.comp_tol} sigma_0 {o.sigma_0} slope '
                      f'{o.homotopy_update_slope} {o.homotopy_update_rule}')
            sig = sig[:len(calls)]
        elif not obs.check(len(calls) == len(sig), 'steps', lambda: f'{len(calls)} NLP solves instead of {len(sig)} (limit {limit}, '
                           f'stop at {stop}, sigmas {sig})'):
            continue
        if len(calls) > len(sig):
            continue
        w0 = calls[0].x0
        for k, (c, s) in enumerate(zip(calls, sig)):
            e = sc.expected_p(s)
            obs.check(c.p.shape == e.shape and np.allclose(np.sort(c.p), np.sort(e), rtol=1e-9, atol=1e-14), 'parameters',
                      lambda: f'NLP {k} is solved with parameters {c.p} instead of {e} (sigma {s})')
            if k:
                obs.check(np.array_equal(c.x0, calls[k - 1].w), 'warm-start', lambda: f'NLP {k} does not start from the previous solution')
            for a in ('lbx', 'ubx', 'lbg', 'ubg'):
                obs.check(np.array_equal(getattr(c, a), getattr(calls[0], a)), 'same-problem', lambda: f'NLP {k} has other {a}')
        w_all = res['w_all']
        obs.check(np.array_equal(np.array(w_all[0]), w0), 'first-guess', 'the first NLP does not start from the initial guess')
        why = 'residual' if R[len(calls) - 1] < o.comp_tol else ('sigma_N' if sig[-1] <= o.sigma_N else 'limit')
        obs.see('stopped_by_' + why)
        obs.sig((o.homotopy_update_rule.name, sp.mpcc.name, len(calls), why, default, near))
    obs.sample = dict(case=case, sigma=[float(s) for s in sig], stopped=why)
