"""Structural monitor: the NLP that really reaches the NLP solver, observed at random points,
against the independent reference model of refnlp."""
import numpy as np
from .env import ca, Ctl, NosnocSolver, MpccMode, nosnoc
from .refnlp import Layout, Ref, bounds, structure_errors, flat


class Near:
    """values close to the present ones"""

    def __init__(self, cap, eps):
        self.rng, self.eps = cap.rng, eps

    def normal(self, size):
        old = np.asarray(self.old, dtype=float).reshape(size)
        return old + self.eps * self.rng.normal(size=size)


class Capture:
    """build the solver for a specification and record what reaches the NLP solver at K points"""

    def __init__(self, spec, K=4, seed=0, opts=None, model=None, ocp=None, check_results=False):
        rng = np.random.default_rng([seed, spec.rng_state])
        self.spec = spec
        Ctl.reset()
        self.opts = opts if opts is not None else spec.opts()
        self.opts.max_iter_homotopy = 1
        self.opts.do_polishing_step = False
        self.opts.comp_tol = 1e-9
        self.model = model if model is not None else spec.model()
        self.ocp = ocp if ocp is not None else spec.ocp()
        n0 = len(Ctl.proxies)
        self.solver = NosnocSolver(self.opts, self.model, self.ocp)
        self.prob = self.solver.problem
        self.proxy = Ctl.proxies[n0]
        self.nw = self.proxy.nw
        self.lay = Layout(spec, self.prob)
        self.points = []
        self.rng = rng
        self.x0, self.ptv, self.pg = spec.x0, spec.ptv_default(), spec.pg
        for k in range(K):
            sigma = None
            if k > 0:
                self.set_all()
                sigma = float(10.0**rng.uniform(-2, 1))
            self.point(sigma)
        self.opts.sigma_0 = spec.sigma_0

    def set_all(self, fields=('x0', 'p_time_var', 'p_global'), eps=None):
        """new values for some fields; eps: relative size of the change"""
        spec = self.spec
        rng = self.rng if eps is None else Near(self, eps)
        for f in fields:
            if eps is not None:
                rng.old = dict(x0=self.x0, p_time_var=self.ptv, p_global=self.pg)[f]
            if f == 'x0':
                self.x0 = rng.normal(size=spec.nx)
                self.solver.set('x0', self.x0.copy())
            elif f == 'p_time_var' and spec.npt:
                self.ptv = rng.normal(size=(spec.N, spec.npt))
                self.solver.set('p_time_var', self.ptv.copy())
            elif f == 'p_global' and spec.npg:
                self.pg = rng.normal(size=spec.npg)
                self.solver.set('p_global', self.pg.copy())

    def point(self, sigma=None):
        """one solve() with a scripted NLP solver that returns a random point"""
        if sigma is not None:
            self.opts.sigma_0 = sigma
        sigma = self.opts.sigma_0
        Ctl.handler = lambda proxy, call: (self.rng.normal(size=proxy.nw) * 0.8, 'Solve_Succeeded')
        res = self.solver.solve()
        Ctl.handler = None
        self.points.append(dict(x0=self.x0, ptv=self.ptv, pg=self.pg, sigma=sigma, tau=min(sigma**1.5, sigma),
                                call=self.proxy.calls[-1], res=res))

    def refs(self, **kw):
        return [Ref(self.spec, self.lay, pt['call'].w, pt['x0'], pt['ptv'], pt['pg'], pt['sigma'], pt['tau'], **kw)
                for pt in self.points]


def actual_rows(points):
    """rows as seen by the NLP solver -> list of (kind, index, K-vector of slacks)"""
    G = np.array([pt['call'].g for pt in points])
    lb = np.array([pt['call'].lbg for pt in points])
    ub = np.array([pt['call'].ubg for pt in points])
    rows = []
    for i in range(G.shape[1]):
        lo, hi = lb[:, i], ub[:, i]
        if np.all(lo == hi):
            rows.append(('eq', i, G[:, i] - lo))
            continue
        if np.all(np.isfinite(lo)):
            rows.append(('ge', i, G[:, i] - lo))
        elif np.any(np.isfinite(lo)):
            rows.append(('ge', i, np.full(len(lo), np.nan)))
        if np.all(np.isfinite(hi)):
            rows.append(('ge', i, hi - G[:, i]))
        elif np.any(np.isfinite(hi)):
            rows.append(('ge', i, np.full(len(lo), np.nan)))
    return rows


def canon(kind, v):
    """scale (and for equalities sign) invariant form; None for rows that are always satisfied"""
    s = np.max(np.abs(v))
    if not np.isfinite(s):
        return v
    if s < 1e-10:
        return None
    v = v / s
    if kind == 'eq':
        j = int(np.argmax(np.abs(v) > 0.3))
        if v[j] < 0:
            v = -v
    return v


def vacuous(kind, v):
    """an inequality between constants that always holds"""
    return kind == 'ge' and np.ptp(v) < 1e-12 and v[0] >= 0


def match(expected, actual, tol=1e-6):
    """expected: (category, kind, K-vector); returns (missing, extra, n_matched)"""
    missing, matched = [], 0
    used = np.zeros(len(actual), dtype=bool)
    by = {}
    for kind in ('eq', 'ge'):
        ids = [i for i, (k, _, v) in enumerate(actual) if k == kind]
        ids = [i for i in ids if canon(kind, actual[i][2]) is not None]
        by[kind] = (np.array(ids, dtype=int), np.array([canon(kind, actual[i][2]) for i in ids]))
    hit = []
    for cat, kind, v in expected:
        cv = canon(kind, v)
        if cv is None or vacuous(kind, v):
            continue
        ids, M = by[kind]
        best = None
        if len(ids):
            with np.errstate(invalid='ignore'):
                d = np.max(np.abs(M - cv), axis=1)
                if kind == 'eq':
                    d = np.minimum(d, np.max(np.abs(M + cv), axis=1))
            ok = np.where(d < tol)[0]
            free = [j for j in ok if not used[ids[j]]]
            if free:
                best = free[0]
                used[ids[best]] = True
            elif len(ok):
                best = ok[0]        # several identical expectations, one row imposes all of them
        if best is None:
            missing.append((cat, kind, v))
        else:
            matched += 1
            hit.append((kind, cv))
    extra = []
    H = {k: np.array([cv for kk, cv in hit if kk == k]) for k in ('eq', 'ge')}
    for kind in ('eq', 'ge'):
        ids, M = by[kind]
        for i, cv in zip(ids, M):
            if used[i] or vacuous(kind, actual[i][2]):
                continue
            if len(H[kind]):
                d = np.max(np.abs(H[kind] - cv), axis=1)
                if kind == 'eq':
                    d = np.minimum(d, np.max(np.abs(H[kind] + cv), axis=1))
                if np.min(d) < tol:
                    continue   # literal repetition restricts nothing
            extra.append((actual[i][1], kind, actual[i][2]))
    return missing, extra, matched


def boolean_pairs(cap):
    """(K-vector x, K-vector y) that each binary variable switches between, and the rows used"""
    px = cap.proxy
    ib = [j for st in cap.lay.fe for d in st for j in d['bool']] + []
    allb = sorted(set(flat(cap.prob.ind_bool)))
    ib = allb
    J = ca.jacobian(px.nlp['g'], px.nlp['x'][ib]).sparsity() if ib else None
    rows_of = {k: [] for k in range(len(ib))}
    used = set()
    if ib:
        r, c = J.get_triplet()
        for a, b in zip(r, c):
            rows_of[b].append(a)
            used.add(a)
    X = np.zeros((len(cap.points), len(ib), 2, 2))
    bad = []
    for n, pt in enumerate(cap.points):
        vals = []
        for zv in (0.0, 1.0):
            w = pt['call'].w.copy()
            w[ib] = zv
            vals.append(px.fg(w, pt['call'].p)[1])
        lo, hi = pt['call'].lbg, pt['call'].ubg
        for k in range(len(ib)):
            for zi in (0, 1):
                # interval that the small rows imply for a common quantity q: rows +-q >= 0
                sl = []
                for i in rows_of[k]:
                    g = vals[zi][i]
                    for s in ([g - lo[i]] if np.isfinite(lo[i]) else []) + ([hi[i] - g] if np.isfinite(hi[i]) else []):
                        if abs(s) < 1e4:
                            sl.append(s)
                if len(sl) != 2 or abs(sl[0] + sl[1]) > 1e-5 * (1 + abs(sl[0])):
                    bad.append((k, zi, sl))
                else:
                    X[n, k, zi, 0] = sl[0]
    return X[:, :, :, 0], used, bad, ib


def compare(cap, cats=None):
    """-> dict(missing=[(cat, text)], extra=[text], cost=[text], bounds=[text], struct=[text], n=matched rows)"""
    spec = cap.spec
    out = dict(missing=[], extra=[], cost=[], bounds=[], w0=[], struct=[], matched=0, by_cat={})
    out['struct'] = structure_errors(spec, cap.prob, cap.lay, cap.nw)
    if out['struct']:
        return out
    refs = cap.refs()
    n = len(refs[0].rows)
    exp = [(refs[0].rows[i][0], refs[0].rows[i][1], np.array([r.rows[i][2] for r in refs])) for i in range(n)]
    act = actual_rows(cap.points)
    if spec.mpcc == MpccMode.BOOLEAN:
        X, used, bad, ib = boolean_pairs(cap)
        act = [a for a in act if a[1] not in used]
        for k, zi, sl in bad[:3]:
            out['missing'].append(('bool', f'binary variable {k} at {zi}: rows {sl}'))
        ex = [(refs[0].pairs[i][0], np.array([[r.pairs[i][1], r.pairs[i][2]] for r in refs])) for i in range(len(refs[0].pairs))]
        free = list(range(X.shape[1]))
        for cat, P in ex:
            hit = None
            for k in free:
                for a in (X[:, k, :], X[:, k, ::-1]):
                    if all(np.max(np.abs(np.abs(a[:, s]) - np.abs(P[:, s]))) < 1e-5 * (1 + np.max(np.abs(P))) for s in (0, 1)):
                        hit = k
                        break
                if hit is not None:
                    break
            if hit is None:
                if np.max(np.abs(P[:, 0])) > 1e-9 and np.max(np.abs(P[:, 1])) > 1e-9:
                    out['missing'].append((cat, 'pair without binary variable'))
            else:
                free.remove(hit)
                out['matched'] += 1
        if len(ex) != X.shape[1]:
            out['extra'].append(f'{X.shape[1]} binary variables for {len(ex)} pairs')
    missing, extra, m = match(exp, act)
    out['matched'] += m
    for cat, kind, v in missing:
        out['missing'].append((cat, f'{kind} row of {cat} not imposed, values {np.array2string(v, precision=5)}'))
    for i, kind, v in extra:
        out['extra'].append(f'row {i} ({kind}) {str(cap.proxy.nlp["g"][i])[:160]} is not part of the problem, values '
                            f'{np.array2string(v, precision=5)}')
    for e in exp:
        out['by_cat'][e[0]] = out['by_cat'].get(e[0], 0) + 1
    for pt, r in zip(cap.points, refs):
        if abs(r.cost - pt['call'].f) > 1e-7 * (1 + abs(r.cost)):
            out['cost'].append(f'objective {pt["call"].f!r} instead of {r.cost!r}')
    lb, ub, w0, lab = bounds(spec, cap.lay, cap.nw)
    c0 = cap.points[0]['call']
    for k, pt in enumerate(cap.points):
        c = pt['call']
        for name, a, e in (('lower bound', c.lbx, lb), ('upper bound', c.ubx, ub)):
            badi = np.where(~((a == e) | (np.abs(a - e) < 1e-9)))[0]
            for j in badi[:3]:
                out['bounds'].append((lab[j] or 'bool/unknown', f'{name} of {lab[j]} (w[{j}]) is {a[j]} instead of {e[j]}'))
    return out
