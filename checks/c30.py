"""C30: options reach the NLP solver, derived defaults."""
import copy
import numpy as np
from mon.env import Ctl, NosnocOpts, NosnocSolver, HomotopyUpdateRule
from mon.script import Script
from mon.spec import Spec, decode
from mon.refnlp import Layout, flat
from mon.struct import names

ID = 'C30'
LEVEL = 'exploration'
RULE = ('random problems with several option objects alive at a time, NLP options set by key, by property or not at all, explicit and unset tolerances, '
        'iteration limits and element lists, objects used again after changes: the options recorded at the NLP solver boundary, the size of the '
        'problem, the number of NLP solves and the option objects afterwards are compared with an executable specification; distinct = (what was set, history)')
TOLS = ('tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target')
KEYS = {'max_iter': [7, 50, 333, 5000], 'mu_init': [1e-1, 1e-3], 'acceptable_tol': [1e-5, 1e-7], 'mu_strategy': ['monotone', 'adaptive'],
        'hessian_approximation': ['exact', 'limited-memory'], 'bound_relax_factor': [1e-9, 1e-12], 'max_cpu_time': [10.0, 100.0],
        'warm_start_init_point': ['yes', 'no'], 'linear_solver': ['mumps'], 'nlp_scaling_method': ['none', 'gradient-based'],
        'print_level': [0, 3, 5], 'mu_oracle': ['loqo', 'probing']}
TOP = {'print_time': [0, 1], 'verbose': [True, False], 'record_time': [True], 'calc_f': [True], 'error_on_fail': [False], 'expand': [True, False]}


def cases(tier, seed):
    n = 600 if tier == 'quick' else 4800
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, feat=dict(n_s_max=2, fe_max=2, stage_max=3, n_sys=[1, 2], regions='s', general=False))


class One:
    """an option object with what was set explicitly"""

    def __init__(self, rng, sp):
        self.rng, self.sp = rng, sp
        o = self.o = sp.opts()
        o.sigma_0, o.sigma_N = 1.0, 1e-18
        o.homotopy_update_rule = HomotopyUpdateRule.LINEAR
        self.ip, self.top = {}, {}
        o.comp_tol = float(10.0**rng.uniform(-15, -1))
        o.homotopy_update_slope = float(rng.choice([.1, .2, .5]))
        o.N_finite_elements = int(rng.integers(1, 4))
        o.Nfe_list = []
        self.explicit = {}
        if rng.random() < .5:
            self.explicit['Nfe_list'] = [int(a) for a in rng.integers(1, 4, size=sp.N)]
            o.Nfe_list = list(self.explicit['Nfe_list'])
        if rng.random() < .5:
            self.explicit['max_iter_homotopy'] = int(rng.integers(1, 9))
            o.max_iter_homotopy = self.explicit['max_iter_homotopy']
        self.tol = {}
        self.set_some()

    def set_some(self):
        rng, o = self.rng, self.o
        if rng.random() < .4:
            self.tol = dict.fromkeys(TOLS, float(10.0**rng.uniform(-13, -5)))
            o.tol_ipopt = self.tol['tol']
        if rng.random() < .4:
            for k in rng.permutation(TOLS)[:rng.integers(1, 3)]:
                v = float(10.0**rng.uniform(-13, -5))
                o.opts_casadi_nlp['ipopt'][str(k)] = v
                self.tol[str(k)] = v
        if rng.random() < .5:
            n = int(rng.integers(3, 900))
            o.nlp_max_iter = n
            self.ip['max_iter'] = n
        for k in rng.permutation(list(KEYS))[:rng.integers(0, 5)]:
            v = KEYS[k][rng.integers(len(KEYS[k]))]
            o.opts_casadi_nlp['ipopt'][str(k)] = v
            self.ip[str(k)] = v
        for k in rng.permutation(list(TOP))[:rng.integers(0, 3)]:
            v = TOP[k][rng.integers(len(TOP[k]))]
            o.opts_casadi_nlp[str(k)] = v
            self.top[str(k)] = v

    def change(self):
        """use again with other settings"""
        rng, o = self.rng, self.o
        if rng.random() < .7:
            o.comp_tol = float(10.0**rng.uniform(-15, -1))
        if rng.random() < .5:
            o.N_finite_elements = int(rng.integers(1, 4))
        if rng.random() < .3:
            o.homotopy_update_slope = float(rng.choice([.1, .2, .5]))
        if rng.random() < .3 and not self.sp.npt:      # values of time varying parameters have one row per stage
            o.N_stages = int(rng.integers(1, 4))
            if 'Nfe_list' in self.explicit:
                self.explicit['Nfe_list'] = [int(a) for a in rng.integers(1, 4, size=o.N_stages)]
                o.Nfe_list = list(self.explicit['Nfe_list'])
        if rng.random() < .3:
            self.set_some()

    def attrs(self):
        return {k: copy.deepcopy(v) for k, v in vars(self.o).items() if k in type(self.o).__dataclass_fields__}


def run(case, obs):
    rng = np.random.default_rng(case['seed'] + 11)
    Ctl.reset()
    objs = [One(rng, Spec(case['seed'] + 7919 * i, **decode(case['feat']))) for i in range(3)]
    pristine = NosnocOpts()
    base = copy.deepcopy(pristine.opts_casadi_nlp)
    order = [int(a) for a in rng.integers(0, 3, size=6)]
    used = [0, 0, 0]
    for step, i in enumerate(order):
        a = objs[i]
        if used[i]:
            a.change()
        used[i] += 1
        before = a.attrs()
        others = [copy.deepcopy((b.attrs(), b.o.opts_casadi_nlp)) for j, b in enumerate(objs) if j != i]
        o = a.o
        n0 = len(Ctl.proxies)
        ocp = None
        model = a.sp.model()
        ocp = a.sp.ocp()
        s = NosnocSolver(o, model, ocp)
        p = Ctl.proxies[n0]
        obs.see('solvers_built')
        hist = dict(object=i, use=used[i], step=step)
        # NLP options
        got = p.opts_copy
        obs.check(p.plugin == 'ipopt', 'plugin', f'NLP solver {p.plugin}')
        ip = got.get('ipopt', {})
        for k in TOLS:
            exp_tol = a.tol.get(k, 1e-2 * o.comp_tol)
            obs.check(k in ip and ip[k] is not None and abs(ip[k] - exp_tol) <= 1e-9 * exp_tol, 'tolerance', lambda: f'ipopt.{k} is {ip.get(k)} instead of {exp_tol} (comp_tol {o.comp_tol}, '
                      f'explicit {a.tol}) {hist}')
        for k, v in a.ip.items():
            obs.check(k in ip and ip[k] == v, 'ipopt-option', lambda: f'ipopt.{k} is {ip.get(k)} instead of the given {v} {hist}')
        for k, v in a.top.items():
            obs.check(k in got and got[k] == v, 'casadi-option', lambda: f'NLP option {k} is {got.get(k)} instead of the given {v} {hist}')
        for k, v in base['ipopt'].items():
            if k not in a.ip and k not in TOLS:
                obs.check(k in ip and ip[k] == v, 'default-option', lambda: f'ipopt.{k} is {ip.get(k)} although nothing but the default {v} was set {hist}')
        for k in ip:
            obs.check(k in a.ip or k in TOLS or k in base['ipopt'], 'foreign-option', lambda: f'ipopt.{k} = {ip[k]} was never set on this object {hist}')
        for k in got:
            obs.check(k in a.top or k in base, 'foreign-option', lambda: f'{k} = {got[k]} was never set on this object {hist}')
        # explicit values stay
        after = a.attrs()
        for k, v in before.items():
            if k in ('Nfe_list', 'max_iter_homotopy') and k not in a.explicit:
                continue
            obs.check(same(after[k], v), 'overridden', lambda: f'option {k} was {v} and is {after[k]} after building a solver {hist}')
        for b, (at, nlp) in zip([b for j, b in enumerate(objs) if j != i], others):
            obs.check(b.o.opts_casadi_nlp == nlp and all(same(v, at[k]) for k, v in b.attrs().items()), 'shared', lambda: f'building a solver changes another option object {hist}')
        obs.check(pristine.opts_casadi_nlp == base, 'shared', 'an untouched option object changes')
        # derived element list and iteration limit, as they act
        nfe = a.explicit.get('Nfe_list') or [o.N_finite_elements] * o.N_stages
        have = [len(st) for st in s.problem.ind_x]
        obs.check(have == nfe, 'elements', lambda: f'{have} elements instead of {nfe} (explicit {a.explicit.get("Nfe_list")}, N_finite_elements {o.N_finite_elements}) {hist}')
        # the scripted solver never reaches the tolerance
        w = np.full(p.nw, 0.9)
        cnt = []

        def handler(pp, c):
            cnt.append(1)
            return w, 'Solve_Succeeded', 0.0
        Ctl.handler = handler
        s.solve()
        Ctl.handler = None
        obs.see('nlp_calls', len(cnt))
        if 'max_iter_homotopy' in a.explicit:
            want = {a.explicit['max_iter_homotopy']}
        else:
            n = np.log(o.comp_tol / o.sigma_0) / np.log(o.homotopy_update_slope)
            want = {int(np.ceil(n - 1e-6)) + 1} if abs(n - round(n)) > 1e-4 else {int(round(n)) + 1, int(round(n)) + 2}
        obs.check(len(cnt) in want, 'iterations', lambda: f'{len(cnt)} homotopy iterations instead of {want} (explicit {a.explicit.get("max_iter_homotopy")}, comp_tol {o.comp_tol}, slope '
                  f'{o.homotopy_update_slope}) {hist}')
        obs.sig((tuple(sorted(a.explicit)), tuple(sorted(a.tol)), tuple(sorted(a.ip)), tuple(sorted(a.top)), used[i], o.N_stages))
    new = NosnocOpts()
    obs.check(new.opts_casadi_nlp == base, 'shared', lambda: f'a new option object starts with NLP options {new.opts_casadi_nlp} instead of the defaults')
    obs.sample = dict(case=case, ipopt={k: str(v) for k, v in ip.items()}, elements=have, iterations=len(cnt))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b
