"""C37: repeated use does not accumulate anything."""
import ctypes
import gc
import json
import sys
import weakref
import numpy as np
from collections import Counter
from mon.env import Ctl, NosnocSolver, NosnocSimLooper, InitializationStrategy, ca, nosnoc
from mon.spec import Spec, decode
from mon.struct import gen

ID = 'C37'
LEVEL = 'exploration'
TECH = 'runtime monitoring of container sizes, live objects, weak references and heap (mallinfo2) over repeated operations'
RULE = ('random problems are solved, changed, simulated, printed, dumped and rebuilt again and again; after a warm-up the number of live Python objects by type, '
        'the sizes of all containers and arrays reachable from solver, problem, model, options, optimal control problem and the modules of nosnoc, and the '
        'allocated bytes of the heap (mallinfo2) are measured between rounds and must not grow; dropped solvers must be freed; distinct = '
        '(operation, problem signature)')
ASSUME = ['what the caller keeps (results, loops) and the records of the monitors are dropped before every measurement',
          'a growth of the heap below 1 kB per repetition is not judged (caches of the allocator and of the NLP solver)']
SIM = dict(N_stages=1, nu=0, gpath=0, terminal=0, ucomp=False, cost=False, bounds=False, npt=0, equi=True)


def cases(tier, seed):
    q = 1 if tier == 'quick' else 8
    for k, n in (('solve', 96), ('rebuild', 64), ('loop', 48), ('free', 48), ('print', 48)):
        f = SIM if k == 'loop' else dict(stage_max=2)
        for c in gen(seed + ord(k[0]), n * q, [], n_s_max=2, fe_max=2, n_sys=[1, 2], **f):
            yield dict(c, kind=k)


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


try:
    _m = ctypes.CDLL(None).mallinfo2
    _m.restype = Mallinfo
except AttributeError:
    _m = None


def heap():
    m = _m() if _m else None
    return m.uordblks + m.hblkhd if m else 0


def sizes(roots, limit=200000):
    """number of elements of every container and array reachable from the roots, by the path of attribute names"""
    seen, out = {}, Counter()
    todo = [(name, o) for name, o in roots.items()]
    while todo and len(seen) < limit:
        path, o = todo.pop()
        if id(o) in seen or isinstance(o, (str, bytes, int, float, bool, type(None))) or callable(o) and not hasattr(o, '__dict__'):
            continue
        seen[id(o)] = o
        if isinstance(o, np.ndarray):
            out[path] += o.size
            continue
        if isinstance(o, (ca.SX, ca.DM, ca.MX)):
            out[path] += o.numel()
            continue
        if isinstance(o, dict):
            out[path] += len(o)
            todo += [(f'{path}[{k!r}]'[:150], v) for k, v in list(o.items())]
            continue
        if isinstance(o, (list, tuple, set, frozenset)):
            out[path] += len(o)
            todo += [(path + '[]', v) for v in list(o)]
            continue
        if type(o).__module__.startswith('nosnoc'):
            d = getattr(o, '__dict__', {})
            out[path] += len(d)
            todo += [(f'{path}.{k}', v) for k, v in list(d.items())]
    return out


def module_roots():
    out = {}
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] != 'nosnoc':
            continue
        for k, v in list(vars(m).items()):
            if isinstance(v, (list, dict, set)) and not k.startswith('__'):
                out[f'{name}.{k}'] = v
            if isinstance(v, type) and v.__module__.startswith('nosnoc'):
                for a, b in list(vars(v).items()):
                    if isinstance(b, (list, dict, set)) and not a.startswith('__'):
                        out[f'{name}.{k}.{a}'] = b
                    d = getattr(b, '__defaults__', None)
                    if d:
                        out[f'{name}.{k}.{a}()'] = list(d)
            elif getattr(v, '__defaults__', None) and getattr(v, '__module__', '').startswith('nosnoc'):
                out[f'{name}.{k}()'] = list(v.__defaults__)
            if getattr(v, '__dict__', None) and getattr(v, '__module__', '').startswith('nosnoc') and not isinstance(v, type):
                out[f'{name}.{k} attributes'] = dict(vars(v))
    return out


def census():
    gc.collect()
    return Counter(type(o).__module__ + '.' + type(o).__qualname__ for o in gc.get_objects())


def forget():
    for p in Ctl.proxies:
        p.calls.clear()


def rounds(obs, sp, what, f, roots, n=4, per=3):
    """f is repeated; nothing may grow from round to round"""
    for _ in range(3):
        f()
    forget()
    marks = []          # text only: the monitor's own records are no objects of the garbage collector
    H = []
    for k in range(n + 1):
        if k:
            gc.collect()
            h = heap()
            for _ in range(per):
                f()
            forget()
            gc.collect()
            H.append(heap() - h)
        marks.append((json.dumps(sizes(dict(roots(), **module_roots()))), json.dumps(census())))
        obs.see('measurements')
    marks = [(json.loads(a), json.loads(b)) for a, b in marks]
    obs.see('containers_measured', sum(len(m[0]) for m in marks))

    def growing(i):
        return {p: [m[i].get(p, 0) for m in marks] for p in marks[-1][i] if all(marks[j + 1][i].get(p, 0) > marks[j][i].get(p, 0) for j in range(1, n))}
    g = growing(0)
    obs.check(not g, 'containers', lambda: f'{what} makes containers grow: {list(g.items())[:4]}\n{sp.describe()}')
    more = {t: v for t, v in growing(1).items() if not t.startswith(('mon.', 'checks.'))}
    obs.check(not more, 'objects', lambda: f'{what} leaves objects behind: {list(more.items())[:4]}\n{sp.describe()}')
    rate = min(H) / per
    obs.check(rate < 1024, 'heap', lambda: f'{what} leaves at least {rate:.0f} bytes per repetition on the heap: {H}\n{sp.describe()}')
    return rate, H


def run(case, obs):
    rng = np.random.default_rng(case['seed'])
    kind = case['kind']
    sp = Spec(case['seed'], **decode(case['feat']))
    obs.see('kind_' + kind)
    Ctl.reset(handler=lambda p, c: (np.random.default_rng(len(p.calls)).normal(size=p.nw), 'Solve_Succeeded'))
    try:
        go(case, obs, rng, kind, sp)
    finally:
        Ctl.reset()
    obs.sig((kind, sp.signature()))
    obs.sample = dict(case=case, problem=sp.describe(), rate=getattr(obs, 'rate', None))


def go(case, obs, rng, kind, sp):
    st = [InitializationStrategy.ALL_XCURRENT_W0_START, InitializationStrategy.ALL_XCURRENT_WOPT_PREV, InitializationStrategy.EXTERNAL][int(rng.integers(3))]

    def options():
        o = sp.opts()
        o.initialization_strategy, o.max_iter_homotopy = st, 2
        o.do_polishing_step, o.fix_active_set_fe0 = bool(case['seed'] % 3 == 0), bool(case['seed'] % 2)
        return o
    if kind == 'free':
        refs = []
        for k in range(3):
            s = NosnocSolver(options(), sp.model(), sp.ocp())
            r = s.solve()
            refs += [weakref.ref(s), weakref.ref(s.problem)]
            try:
                refs.append(weakref.ref(s.problem.model))
            except TypeError:
                pass
            if s.problem.is_sim_problem():
                L = NosnocSimLooper(s, sp.x0, 2)
                L.run()
                refs.append(weakref.ref(L))
                del L
            del s, r
            Ctl.proxies = []
        sp.q = None
        gc.collect()
        obs.see('objects_dropped', len(refs))
        alive = [type(r()).__name__ for r in refs if r() is not None]
        obs.check(not alive, 'not-freed', lambda: f'dropped objects stay alive: {alive}\n{sp.describe()}')
        return
    opts, model, ocp = options(), sp.model(), sp.ocp()
    s = NosnocSolver(opts, model, ocp)
    box = dict(s=s)
    roots = lambda: dict(solver=box['s'], problem=box['s'].problem, opts=opts, model=model, ocp=ocp)  # noqa: E731
    nw = Ctl.proxies[0].nw

    def change():
        s.set('x0', rng.normal(size=sp.nx))
        if sp.npg:
            s.set('p_global', rng.normal(size=sp.npg))
        if sp.npt:
            s.set('p_time_var', rng.normal(size=(sp.N, sp.npt)))
        if sp.nu:
            s.set('u', rng.normal(size=(sp.N, sp.nu)))
        if st == InitializationStrategy.EXTERNAL:
            s.set('w', rng.normal(size=nw))

    def solve():
        change()
        s.solve()
        forget()

    def rebuild():
        box['s'] = None
        Ctl.proxies = []
        box['s'] = NosnocSolver(opts, model, ocp)
        box['s'].solve()

    def loop():
        NosnocSimLooper(s, sp.x0, 3).run()
        forget()

    def show():
        s.print_problem()
        repr(opts), repr(model)
        nosnoc.get_results_from_primal_vector(s.problem, np.ones(nw))
        sys.stdout.seek(0)
        sys.stdout.truncate(0)
    f = dict(solve=solve, rebuild=rebuild, loop=loop, print=show)[kind]
    obs.rate = rounds(obs, sp, dict(solve='setting values and solving', rebuild='building from the same objects', loop='simulating', print='printing')[kind], f, roots)
