"""C31: plots show the data they are given."""
import contextlib
import io
import os
import tempfile
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt     # noqa: E402
from mon.env import Ctl, NosnocSolver, nosnoc
from mon.refnlp import Layout, flat
from mon.spec import Spec, decode
from mon.struct import grid, names
from mon.env import IrkRepresentation, IrkSchemes

ID = 'C31'
LEVEL = 'exploration'
TECH = 'monitor of the artists on the drawn figures (headless backend) against the data passed to the plot functions'
RULE = ('random problems, iterates, timing tables and point sets; every line, bar, marker, text and title on the figures is read back from the plotting '
        'library and compared with the data by an independent reading of the solution vector; files are written to a scratch directory and must be '
        'non-empty; inputs must be unchanged; distinct = (plot function, shape of the data, options)')
ASSUME = ['rendering of LaTeX text is not exercised: no LaTeX installation', 'colour, line style and legend of curves are not judged']


def cases(tier, seed):
    q = tier == 'quick'
    cells = grid(scheme=names(IrkSchemes), rep=names(IrkRepresentation), n_sys=[1, 2, 3])
    for i in range(72 if q else 720):
        yield dict(kind='iterates', i=i, seed=seed * 1000003 + i, feat=dict(cells[i % len(cells)], n_s_max=3, fe_max=3, stage_max=3, pss='STEWART', general=False))
    for i in range(8 if q else 60):
        yield dict(kind='step', i=i, seed=seed * 1000003 + i, feat=dict(n_s_max=2, fe_max=2, stage_max=2, pss='STEP'))
    for k in ('timings', 'colored', 'scatter', 'voronoi'):
        for i in range(40 if q else 400):
            yield dict(kind=k, i=i, seed=seed * 1000003 + i)


def curves(ax):
    return [np.array(li.get_ydata(), dtype=float) for li in ax.get_lines()]


def same_curves(got, want):
    """equal up to order"""
    left = list(got)
    for w in want:
        k = next((k for k, g in enumerate(left) if g.shape == w.shape and np.array_equal(g, w)), None)
        if k is None:
            return False
        left.pop(k)
    return not left


def run(case, obs):
    plt.close('all')
    rc = dict(matplotlib.rcParams)
    shown = []
    show = plt.show
    plt.show = lambda *a, **k: shown.append(len(plt.get_fignums()))
    try:
        with tempfile.TemporaryDirectory(prefix='verif-c31-') as tmp:
            globals()['k_' + case['kind']](case, obs, np.random.default_rng(case['seed'] + 3), tmp, shown)
    finally:
        plt.show = show
        plt.close('all')
    diff = [k for k, v in rc.items() if k in ('text.usetex', 'font.family', 'axes.labelsize', 'legend.fontsize') and matplotlib.rcParams[k] != v]
    obs.check(not diff, 'settings', lambda: f'global plot settings {diff} are changed although no LaTeX style was requested')


def quiet(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f(*a, **k)
    return r, buf.getvalue()


def stored(path, obs, desc):
    ok = os.path.isfile(path) and os.path.getsize(path) > 200
    obs.check(ok, 'file', lambda: f'no figure stored at the given path {desc}')
    obs.see('files')


def k_iterates(case, obs, rng, tmp, shown):
    sp = Spec(case['seed'], **decode(case['feat']))
    Ctl.reset()
    s = NosnocSolver(sp.opts(), sp.model(), sp.ocp())
    lay = Layout(sp, s.problem)
    nw = Ctl.proxies[-1].nw
    n = int(rng.integers(1, 4))
    its = [rng.normal(size=nw) for _ in range(n)]
    keep = [a.copy() for a in its]
    kw = {}
    titles = [f'title {k}' for k in range(n)] if rng.random() < .6 else None
    if titles:
        kw['title_list'] = list(titles)
    path = os.path.join(tmp, 'fig.' + str(rng.choice(['png', 'pdf', 'svg'])))
    if rng.random() < .5:
        kw['figure_filename'] = path
    before = [a.copy() for a in (s.problem.w0, s.problem.lbw, s.problem.ubw)]
    desc = f'{n} iterates {sorted(kw)} {sp.describe()}'
    quiet(nosnoc.plot_iterates, s.problem, its, **kw)
    obs.see('figures')
    if 'figure_filename' in kw:
        stored(path, obs, desc)
    axes = plt.gcf().axes
    obs.check(len(axes) == 3 * n, 'axes', lambda: f'{len(axes)} axes instead of {3 * n} {desc}')
    if len(axes) != 3 * n:
        return
    # by position: columns belong to iterates, rows to multipliers, convex multipliers, states
    plt.gcf().canvas.draw()
    pos = sorted(axes, key=lambda a: (round(a.get_position().x0, 3), -round(a.get_position().y0, 3)))
    els = [d for st in lay.fe for d in st]
    for k in range(n):
        w = keep[k]
        lam = np.array([w[flat(d['lam'][-1])] for d in els]).T
        mu = np.array([w[flat(d['mu'][-1])] for d in els]).T
        th = np.array([w[flat(d['th'][-1])] for d in els]).T
        x = np.array([sp.x0] + [w[a] for d in els for a in d['x']]).T
        for r, (want, name) in enumerate(((list(lam) + list(mu), 'multipliers'), (list(th), 'convex multipliers'), (list(x), 'states'))):
            a = pos[3 * k + r]
            obs.check(same_curves(curves(a), want), name, lambda: f'{name} of iterate {k}: drawn {curves(a)} instead of {want} {desc}')
            obs.see('curves_compared', len(want))
            # every curve is named after its component
            lab = {}
            for li in a.get_lines():
                lab.setdefault(str(li.get_label()), []).append(np.array(li.get_ydata(), dtype=float))
            if r > 0:
                obs.check(all(any(str(i + 1) in L and any(np.array_equal(c, v) for c in C) for L, C in lab.items()) for i, v in enumerate(want)),
                          'label', lambda: f'{name}: labels {sorted(lab)} do not belong to the components drawn {desc}')
        if titles:
            t = [pos[3 * k + r].get_title() for r in range(3)]
            obs.check(titles[k] in t, 'title', lambda: f'titles {t} of column {k} instead of {titles[k]} {desc}')
    for a, b in zip(its, keep):
        obs.check(np.array_equal(a, b), 'input-modified', lambda: f'iterates changed {desc}')
    for a, b in zip((s.problem.w0, s.problem.lbw, s.problem.ubw), before):
        obs.check(np.array_equal(a, b), 'input-modified', lambda: f'problem changed {desc}')
    obs.sig(('iterates', n, sorted(kw), sp.signature()))
    obs.sample = dict(case=case, axes=len(axes), problem=sp.describe())


def k_step(case, obs, rng, tmp, shown):
    """other reformulations are refused"""
    sp = Spec(case['seed'], **decode(case['feat']))
    Ctl.reset()
    s = NosnocSolver(sp.opts(), sp.model(), sp.ocp())
    try:
        quiet(nosnoc.plot_iterates, s.problem, [rng.normal(size=Ctl.proxies[-1].nw)])
        ok = False
    except NotImplementedError:
        ok = True
    obs.check(ok, 'refusal', f'iterates of a step reformulation are accepted: {len(plt.gcf().axes)} axes {sp.describe()}')
    obs.see('refusals')
    obs.sig(('step', case['i']))


def k_timings(case, obs, rng, tmp, shown):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    T = rng.uniform(0, 2, size=(n, m)) * (rng.random(size=(n, m)) < .8)
    keep = T.copy()
    kw = {}
    if rng.random() < .5:
        kw['title'] = 'some title'
    path = os.path.join(tmp, 'fig.png')
    if rng.random() < .4:
        kw['figure_filename'] = path
    quiet(nosnoc.plot_timings, T, latexify=False, **kw)
    desc = f'timings {keep.tolist()} {sorted(kw)}'
    obs.see('figures')
    ax = plt.gca()
    bars = [(p.get_x() + p.get_width() / 2, p.get_y(), p.get_height()) for c in ax.containers for p in c]
    obs.check(len(bars) == n * m, 'bars', lambda: f'{len(bars)} bars instead of {n * m} {desc}')
    for i in range(n):
        mine = sorted((b for b in bars if abs(b[0] - i) < .45), key=lambda b: (b[1], b[1] + b[2]))
        obs.check(np.allclose(sorted(b[2] for b in mine), np.sort(keep[i]), rtol=0, atol=1e-12), 'bars', lambda: f'heights {mine} of step {i} {desc}')
        y = 0.0
        for b in mine:
            obs.check(abs(b[1] - y) < 1e-9, 'stack', lambda: f'bars of step {i} are not stacked: {mine} {desc}')
            y = b[1] + b[2]
        obs.check(abs(y - keep[i].sum()) < 1e-9, 'stack', lambda: f'height {y} of step {i} {desc}')
        obs.see('bars_compared', len(mine))
    for j, c in enumerate(ax.containers):
        obs.check(np.allclose([p.get_height() for p in c], keep[:, j]) and str(j + 1) in str(c.get_label()), 'label', lambda: f'bars named {c.get_label()} do not belong to iteration {j + 1} {desc}')
    mean = keep.sum(axis=1).mean()
    obs.check(any(np.allclose(c, mean) for c in curves(ax)), 'mean', lambda: f'no line at the mean time {mean}: {curves(ax)} {desc}')
    lo, hi = ax.get_xlim()
    obs.check(lo <= -.4 and hi >= n - .6, 'range', lambda: f'range {lo, hi} hides steps {desc}')
    if 'title' in kw:
        obs.check(ax.get_title() == kw['title'], 'title', lambda: f'title {ax.get_title()} {desc}')
    if 'figure_filename' in kw:
        stored(path, obs, desc)
    obs.check(np.array_equal(T, keep), 'input-modified', lambda: f'timings changed to {T} {desc}')
    obs.sig(('timings', n, m, tuple(sorted(kw))))
    obs.sample = dict(case=case, bars=len(bars))


def offsets(sc):
    return np.array([np.array(a, dtype=float) for a in sc._offsets3d])


def k_colored(case, obs, rng, tmp, shown):
    from nosnoc.plot_utils import plot_colored_line_3d
    n = int(rng.integers(3, 12))
    x, y, z = rng.normal(size=(3, n))
    t = np.cumsum(rng.uniform(.05, 1, size=n)) + rng.normal()
    order = str(rng.choice(['rising', 'falling', 'mixed']))
    t = t if order == 'rising' else t[::-1].copy() if order == 'falling' else rng.permutation(t)
    ax0 = None
    if rng.random() < .5:
        ax0 = plt.figure().add_subplot(projection='3d')
    kw = dict(label_4d=None) if rng.random() < .4 else {}
    args = [a.copy() for a in (x, y, z, t)]
    lists = rng.random() < .3
    ax, _ = quiet(plot_colored_line_3d, *[a.tolist() if lists else a for a in args], ax=ax0, **kw)
    desc = f'{n} points, own axis {ax0 is None} {kw}'
    obs.check(ax0 is None or ax is ax0, 'axis', 'drawn into another axis than the given one')
    sc = offsets(ax.collections[0])
    obs.check(np.array_equal(sc, np.array([x, y, z])), 'points', lambda: f'markers at {sc} instead of {x, y, z} {desc}')
    obs.check(np.array_equal(np.array(ax.collections[0].get_array(), dtype=float), t), 'colour-data', lambda: f'fourth dimension {ax.collections[0].get_array()} instead of {t} {desc}')
    seg = [np.array(li.get_data_3d(), dtype=float) for li in ax.get_lines()]
    for i in range(n - 1):
        want = np.array([x[i:i + 2], y[i:i + 2], z[i:i + 2]])
        obs.check(any(s.shape == want.shape and np.array_equal(s, want) for s in seg) or any(s.shape[1] > 2 for s in seg), 'line', lambda: f'segment {i} from {want} is not drawn {desc}')
        obs.see('segments')
    # colours show the fourth dimension, relative to its range
    if len(seg) == n - 1:
        for i in range(n - 1):
            want = np.array([x[i:i + 2], y[i:i + 2], z[i:i + 2]])
            got = [matplotlib.colors.to_rgba(li.get_color()) for li, s in zip(ax.get_lines(), seg) if s.shape == want.shape and np.array_equal(s, want)]
            col = plt.cm.hot((t[i] - t.min()) / (t.max() - t.min()))
            obs.check(any(np.allclose(g, col, atol=1e-6) for g in got), 'colour', lambda: f'segment {i} of value {t[i]} in colour {got} instead of {col}, values {t} {desc}')
    obs.check((len(ax.figure.axes) > 1) == (kw == {}), 'colorbar', lambda: f'{len(ax.figure.axes)} axes {desc}')
    for a, b in zip(args, (x, y, z, t)):
        obs.check(np.array_equal(a, b), 'input-modified', desc)
    obs.sig(('colored', n, order, ax0 is None, bool(kw)))


def k_scatter(case, obs, rng, tmp, shown):
    from nosnoc.plot_utils import scatter_3d
    n = int(rng.integers(1, 9))
    Z = rng.normal(size=(n, 3))
    keep = Z.copy()
    ann, sh = bool(rng.integers(2)), bool(rng.integers(2))
    ax0 = plt.figure().add_subplot(projection='3d') if rng.random() < .5 else None
    ax, _ = quiet(scatter_3d, Z.tolist() if rng.random() < .5 else Z, show=sh, ax=ax0, annotate=ann)
    desc = f'{n} points annotate {ann} show {sh}'
    obs.check(ax0 is None or ax is ax0, 'axis', 'drawn into another axis than the given one')
    obs.check(np.array_equal(offsets(ax.collections[0]), keep.T), 'points', lambda: f'markers at {offsets(ax.collections[0])} instead of {keep} {desc}')
    texts(ax, keep, ann, obs, desc, 3)
    obs.check(bool(shown) == sh, 'show', lambda: f'figure shown {len(shown)} times {desc}')
    obs.see('points', n)
    obs.check(np.array_equal(Z, keep), 'input-modified', desc)
    obs.sig(('scatter', n, ann, sh, ax0 is None))


def texts(ax, Z, ann, obs, desc, dim):
    T = [(t.get_text(), np.array(t.get_position_3d() if dim == 3 else t.get_position(), dtype=float)) for t in ax.texts]
    if not ann:
        obs.check(not T, 'annotation', lambda: f'unwanted annotations {T} {desc}')
        return
    for i, p in enumerate(Z):
        obs.check(any(str(i + 1) in s and np.allclose(q, p) for s, q in T), 'annotation', lambda: f'point {i + 1} at {p} is not annotated: {T} {desc}')


def k_voronoi(case, obs, rng, tmp, shown):
    from nosnoc.plot_utils import plot_voronoi_2d
    n = int(rng.integers(4, 9))
    Z = rng.normal(size=(n, 2))
    keep = Z.copy()
    ann, sh = bool(rng.integers(2)), bool(rng.integers(2))
    ax0 = plt.figure().add_subplot() if rng.random() < .5 else None
    ax, _ = quiet(plot_voronoi_2d, Z.tolist() if rng.random() < .5 else Z, show=sh, annotate=ann, ax=ax0)
    desc = f'{n} points annotate {ann} show {sh} own axis {ax0 is None}'
    obs.check(ax0 is None or ax is ax0, 'axis', 'drawn into another axis than the given one')
    pts = [np.array(li.get_xydata(), dtype=float) for li in ax.get_lines()]
    obs.check(any(p.shape == keep.shape and np.allclose(p[np.lexsort(p.T)], keep[np.lexsort(keep.T)]) for p in pts), 'points', lambda: f'markers {pts} instead of {keep} {desc}')
    # every ridge is equally far from its two nearest points
    for c in ax.collections:
        for sgm in c.get_segments():
            mid = np.asarray(sgm).mean(axis=0)
            d = np.sort(np.linalg.norm(keep - mid, axis=1))
            obs.check(abs(d[0] - d[1]) < 1e-6 * (1 + d[0]), 'ridge', lambda: f'point {mid} of a region boundary has distances {d[:2]} to the nearest points {desc}')
            obs.see('ridges')
    texts(ax, keep, ann, obs, desc, 2)
    obs.check(bool(shown) == sh, 'show', lambda: f'figure shown {len(shown)} times {desc}')
    obs.check(np.array_equal(Z, keep), 'input-modified', desc)
    obs.sig(('voronoi', n, ann, sh, ax0 is None))
