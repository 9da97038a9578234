# PY: venv
# STUBS: core scipylite
"""P31: animations show the roadmap they are given, plots of logged planning runs show those runs."""
import collections
import contextlib
import io
import math
import os
import runpy
import shutil
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.animation as animation
import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from vlib.core import REPO, Sub, require
from vlib import gen, refbound, roads

ID = 'P31'
PLOTS = os.path.join(REPO, 'exps', 'tamp_environment', 'turtlebot_move')


# --- animation of a roadmap -----------------------------------------------------------------------------

@st.composite
def movies(draw):
    w = draw(roads.world(distinct=True))
    w['dim'] = 2
    n = draw(st.one_of(st.integers(4, 30), st.integers(2, 6).map(lambda m: 5 * m), st.integers(4, 150)))
    steps = [n] + [n + draw(st.integers(1, 12)) for _ in range(draw(st.sampled_from([0, 0, 1])))]
    path = draw(st.sampled_from(['query', 'query', 'query with ends', 'none', 'none as list', 'one point', 'two points',
                                 'long']))
    return dict(w, k=draw(st.integers(1, 8)), steps=steps, path=path, q=draw(gen.seeds()),
                node_batches=draw(st.sampled_from([None, 1, 2, 5, 7, 50, 1000])),
                edge_batches=draw(st.sampled_from([None, 1, 3, 5, 10, 100, 1000])),
                limit=draw(st.booleans()), kept=draw(st.sampled_from([None, None, 1, 2])))


class Reel(animation.AbstractMovieWriter):
    """Notes what the axes hold at every frame instead of writing pixels."""

    def __init__(self):
        super().__init__(fps=5)
        self.frames = []

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile, self.dpi = fig, outfile, 10

    def grab_frame(self, **kw):
        self.frames.append(picture(self.fig))

    def finish(self):
        pass


def colour(c):
    return tuple(round(float(x), 6) for x in mcolors.to_rgba(c)[:3])


RED = colour('r')


def runs(xy, col):
    """The segments of a polyline, which a nan interrupts."""
    return [(a, b, col) for a, b in zip(xy, xy[1:]) if not any(math.isnan(v) for v in a + b)]


def picture(fig):
    """(axes limits, points, point colours, segments with colours) of everything visible."""
    axes = fig.get_axes()
    require(len(axes) == 1, 'the animation has %d axes', len(axes))
    ax = axes[0]
    pts, cols, segs = [], set(), []
    for coll in ax.collections:
        if not coll.get_visible():
            continue
        if hasattr(coll, 'get_segments'):       # segments drawn as one collection
            cc = [colour(c) for c in coll.get_colors()]
            for i, xy in enumerate(coll.get_segments()):
                segs += runs([tuple(map(float, p)) for p in xy], cc[i % len(cc)] if cc else None)
            continue
        pts += [tuple(map(float, p)) for p in np.ma.getdata(coll.get_offsets()).reshape(-1, 2)]
        cols |= {colour(c) for c in coll.get_facecolor()} | {colour(c) for c in coll.get_edgecolor()}
    for line in ax.lines:
        if line.get_visible():
            segs += runs([tuple(map(float, p)) for p in line.get_xydata()], colour(line.get_color()))
    return ax.get_xlim(), ax.get_ylim(), pts, cols, segs


def undirected(a, b):
    return (a, b) if a <= b else (b, a)


def run_movie(case, ctx):
    _, P = roads.modules('pynndescent')
    w = roads.World(case)
    prm = P.SimpleNearestNeighborRadiusPRM(case['k'], w.check_motion, w.sample, w.dist_to_path)
    try:
        for n in case['steps']:
            if n > prm.num_vertices() if prm.prm_samples is not None else True:
                prm.grow_to_n_samples(n)
        if case['kept'] is not None:
            prm.set_nearest_neighbors(min(case['kept'], case['k']))
        pts = [tuple(map(float, p)) for p in np.array(prm.prm_samples, dtype=float)]
        rng = np.random.default_rng(case['q'])
        lo, hi = np.min(pts, axis=0), np.max(pts, axis=0)
        start, goal = rng.uniform(lo, hi), rng.uniform(lo, hi)
        if case['path'] in ('query', 'query with ends'):
            with contextlib.redirect_stdout(io.StringIO()):
                _, sol = prm.query_best_solution(start, goal)
            if case['path'] == 'query with ends' and len(sol):
                sol = np.concatenate([[start], sol, [goal]]).tolist()
        else:
            m = {'none': 0, 'none as list': 0, 'one point': 1, 'two points': 2, 'long': 12}[case['path']]
            sol = rng.uniform(lo, hi, size=(m, 2))
            if case['path'] == 'none as list':
                sol = []
        edges = collections.Counter(undirected(pts[u], pts[v]) for u, v in prm.prm_graph.iterEdges())
        legs = [(tuple(map(float, sol[i])), tuple(map(float, sol[i + 1]))) for i in range(len(sol) - 1)]
        args = {}
        for key in ('node_batches', 'edge_batches'):
            if case[key] is not None:
                args[key] = case[key]
        if case['limit']:
            args['animation_embed_limit'] = 2 ** 50
        reel = Reel()
        plt.close('all')
        with contextlib.redirect_stdout(io.StringIO()), matplotlib.rc_context():
            ani = P.animate_knn_prm(prm, sol, **args)
            for fig in map(plt.figure, plt.get_fignums()):
                fig.canvas.draw_idle = lambda *a, **k: None
                fig.canvas.draw = lambda *a, **k: None
            ani.save('movie', writer=reel)
        check_movie(reel.frames, pts, edges, legs, len(sol) == 0, case, args)
        ctx.label('no path' if len(sol) == 0 else 'a path')
        ctx.nt(len(edges) > 1 and (len(legs) > 0 or len(sol) == 0))
    finally:
        plt.close('all')
        with contextlib.redirect_stdout(io.StringIO()):
            prm.reset()


def check_movie(frames, pts, edges, legs, failed, case, args):
    require(frames, 'the animation has no frames')
    nb, eb = args.get('node_batches', 5), args.get('edge_batches', 5)
    shown, drawn, leg_count = 0, 0, 0
    for i, (_, _, p, _, segs) in enumerate(frames):
        require(p == pts[:len(p)], 'frame %d shows points that are not the first samples', i)
        require(shown <= len(p) <= shown + nb, 'frame %d shows %d samples after %d, %d at a time', i, len(p), shown, nb)
        if segs:
            require(len(p) == len(pts), 'frame %d has edges, but only %d of the %d samples', i, len(p), len(pts))
        total = len(segs)
        e = min(total, sum(edges.values()))
        require(drawn <= e <= drawn + eb, 'frame %d shows %d edges after %d, %d at a time', i, e, drawn, eb)
        require(total - e == 0 or e == sum(edges.values()), 'frame %d draws the path before all edges', i)
        require(leg_count <= total - e <= leg_count + 1, 'frame %d draws %d legs of the path at once', i,
                total - e - leg_count)
        shown, drawn, leg_count = len(p), e, total - e
        have = collections.Counter(undirected(a, b) for a, b, _ in segs[:e])
        require(not have - edges, 'frame %d shows %r, which is no edge of the roadmap', i, list((have - edges))[:1])
    xlim, ylim, p, cols, segs = frames[-1]
    require(len(p) == len(pts), 'at the end %d of %d samples are shown', len(p), len(pts))
    m = sum(edges.values())
    have = collections.Counter(undirected(a, b) for a, b, _ in segs[:m])
    require(have == edges, 'at the end the edges %r are missing', list((edges - have))[:2])
    got = [(a, b) for a, b, _ in segs[m:]]
    require(got == legs, 'the path is drawn as %r, it is %r', got[:3], legs[:3])
    for k, lim in enumerate((xlim, ylim)):
        require(min(lim) <= min(q[k] for q in pts) and max(q[k] for q in pts) <= max(lim),
                'samples lie outside the picture')
    red = cols == {RED} and all(c == RED for _, _, c in segs)
    if failed:
        require(red, 'without a path not everything is red at the end')
    else:
        require(RED not in cols and all(c != RED for _, _, c in segs), 'something is red although there is a path')
        edge_colours = {c for _, _, c in segs[:m]}
        require(not any(c in edge_colours for _, _, c in segs[m:]), 'the path has the colour of the edges')
    for i, (_, _, _, cols, segs) in enumerate(frames):
        if len(segs) < m:
            require(RED not in cols and all(c != RED for _, _, c in segs), 'frame %d is red before the end', i)


# --- plots of logged runs ----------------------------------------------------------------------------------

@st.composite
def histories(draw):
    settings = draw(st.lists(st.tuples(st.integers(0, 30000), st.integers(0, 30000), st.booleans()), min_size=1,
                             max_size=4, unique=True))
    if len(settings) > 1 and draw(st.booleans()):
        settings[1] = (settings[0][0], settings[0][1], not settings[0][2])
    runs = []
    for i in range(draw(st.integers(1, 14))):
        runs.append({'setting': draw(st.integers(0, len(settings) - 1)),
                     'delta': draw(st.one_of(gen.in_range(0.01, 0.2), st.sampled_from([0.05, 0.2, 1e-05]))),
                     'solved': draw(st.booleans()), 'searches': draw(st.integers(1, 3)),
                     'samples': [draw(st.one_of(st.integers(1, 40000).map(float), gen.in_range(1.0, 40000.0)))
                                 for _ in range(3)],
                     'whole': draw(st.booleans()),
                     'time': draw(st.one_of(gen.in_range(0.0, 500.0), st.sampled_from([1e-05, 12345.678])))})
    if not any(r['solved'] for r in runs):
        runs[0]['solved'] = True
    return {'settings': [list(s) for s in settings], 'runs': runs, 'depth': draw(st.integers(1, 3)),
            'other': draw(st.booleans())}


def write_logs(case, tmp):
    """The logs as the turtlebot's planning runs leave them."""
    for i, r in enumerate(case['runs']):
        lo, hi, adaptive = case['settings'][r['setting']]
        d = os.path.join(tmp, 'runs', *['--%d' % i, '17000%d.5' % i, 'x'][:case['depth']])
        os.makedirs(os.path.join(d, 'pddl'), exist_ok=True)
        args = {'problem': 'x', 'cfree': False, 'deterministic': False, 'optimal': False, 'min_samples': lo,
                'max_samples': hi, 'factor': 1.1, 'delta': 0.05, 'seed': i, 'save_dir': './runs/--%d' % i, 'vis': False,
                'ani': False, 'randomize_delta': True, 'num_targets': 1, 'adaptive_n': adaptive, 'simulate': False}
        lines = ['Experiment arguments:', str(args), 'Delta: %s' % r['delta'], 'Min samples: %s' % lo,
                 'Max samples: %s' % hi, "Init: [('HFree',)]", 'Goal: (and)']
        for s in range(r['searches']):
            if not r['solved'] and s == r['searches'] - 1:
                lines += ['[Inside MP] min_samples: %s' % lo, 'Num samples: %s' % hi, 'Path: []', 'Max samples reached']
                break
            x = r['samples'][s]
            lines += ['[Inside MP] delta: 0.3', '[Inside MP] min_samples: %s' % lo, 'Num samples: %d' % x,
                      'Path: [[0.1 0.2]]', 'Found solution in', str(int(x) if r['whole'] else x)]
        for it, solved in enumerate([False] * (i % 3) + [r['solved']]):
            lines.append('Iteration: %d | Complexity: 2 | Skeletons: 0 | Calls: 3 | Evaluations: 4 | Solved: %s | Cost: inf | '
                         'Search Time: 0.001 | Sample Time: 0.010 | Total Time: 0.011' % (it + 1, solved))
        lines += ['Summary: {complexity: 2, cost: inf, evaluations: 4, iterations: 1, run_time: 0.011, solved: %s}' % r['solved'],
                  '', 'Solved: %s' % r['solved'], 'Cost: %s' % (2.0 if r['solved'] else 'inf'), 'Length: 2',
                  'Time: %s' % r['time']]
        with open(os.path.join(d, '17005%d.25.log' % i), 'w') as f:
            f.write('\n'.join(lines) + '\n')
        with open(os.path.join(d, 'pddl', 'notes.txt'), 'w') as f:
            f.write('\n'.join(lines))
    if case['other']:
        with open(os.path.join(tmp, 'outside.log'), 'w') as f:
            f.write('Time: 1\nSolved: True\nDelta: 0.1\nFound solution in\n4\n')


def plot(script, tmp):
    """Run a plotting script in tmp; the figure it shows."""
    plt.close('all')
    shown = []
    saved, here = plt.show, os.getcwd()
    plt.show = lambda *a, **k: shown.append(plt.gcf())
    os.chdir(tmp)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(PLOTS, script), run_name='__main__')
    finally:
        os.chdir(here)
        plt.show = saved
    require(shown, '%s shows nothing', script)
    return shown[-1]


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(b))


def run_bars(case, ctx):
    tmp = tempfile.mkdtemp(prefix='vp31_')
    try:
        write_logs(case, tmp)
        fig = plot('time_success_plot.py', tmp)
        want = {}
        for r in case['runs']:
            lo, hi, adaptive = case['settings'][r['setting']]
            want.setdefault((lo, hi, bool(adaptive)), []).append(r)
        axes = [a for a in fig.get_axes() if a.containers]
        require(len(axes) == 2, 'the plot has %d axes with bars, not 2', len(axes))
        labels = [t.get_text() for t in axes[0].get_xticklabels()]
        names = {}
        for lo, hi, adaptive in want:
            for a in (str(int(adaptive)), str(bool(adaptive))):
                names['%s-%s-%s' % (lo, hi, a)] = (lo, hi, adaptive)
        require(sorted(map(repr, (names.get(x, x) for x in labels))) == sorted(map(repr, want)),
                'the groups are labelled %r', labels)
        pos = list(axes[0].get_xticks())
        require(len(pos) == len(labels), 'ticks and labels differ in number')
        for ax, what in zip(axes, ('success', 'time')):
            bars = [b for c in ax.containers if hasattr(c, 'patches') for b in c.patches]
            require(len(bars) == len(want), '%s: %d bars for %d settings', what, len(bars), len(want))
            for b in bars:
                mid = b.get_x() + b.get_width() / 2
                j = min(range(len(pos)), key=lambda t: abs(pos[t] - mid))
                rs = want[names[labels[j]]]
                xs = [float(r['solved']) if what == 'success' else float(r['time']) for r in rs]
                mean = math.fsum(xs) / len(xs)
                require(close(b.get_height(), mean), '%s of setting %s is shown as %r, the mean of its %d runs is %r', what,
                        labels[j], b.get_height(), len(xs), mean)
            errs = [seg for c in ax.containers if hasattr(c, 'patches') and c.errorbar is not None
                    for lc in c.errorbar[2] for seg in lc.get_segments()]
            require(len(errs) == len(want), '%s: %d error bars for %d settings', what, len(errs), len(want))
            for seg in errs:
                j = min(range(len(pos)), key=lambda t: abs(pos[t] - seg[0][0]))
                rs = want[names[labels[j]]]
                xs = [float(r['solved']) if what == 'success' else float(r['time']) for r in rs]
                mean = math.fsum(xs) / len(xs)
                std = math.sqrt(math.fsum((x - mean) ** 2 for x in xs) / len(xs)) / math.sqrt(len(xs))
                half = abs(seg[1][1] - seg[0][1]) / 2
                require(abs(half - std) <= 1e-8 * (1 + mean + std), '%s of setting %s: error bar %r, standard error %r',
                        what, labels[j], half, std)
        ctx.nt(len(want) > 1 and len(case['runs']) > len(want))
        ctx.label('%d settings' % len(want))
    finally:
        plt.close('all')
        shutil.rmtree(tmp, ignore_errors=True)


def run_scatter(case, ctx):
    tmp = tempfile.mkdtemp(prefix='vp31_')
    try:
        write_logs(case, tmp)
        fig = plot('bound_plot.py', tmp)
        want = []
        for r in case['runs']:
            n = r['searches'] if r['solved'] else r['searches'] - 1
            if n:
                x = r['samples'][n - 1]
                want.append((float(r['delta']), float(int(x) if r['whole'] else x)))
        axes = fig.get_axes()
        require(len(axes) == 1, 'the plot has %d axes', len(axes))
        got = sorted(tuple(map(float, p)) for c in axes[0].collections
                     for p in np.ma.getdata(c.get_offsets()).reshape(-1, 2))
        require(got == sorted(want), 'the plot shows the runs %r, the logs hold %r', got[:4], sorted(want)[:4])
        lines = [l for l in axes[0].lines]
        require(len(lines) == 1, 'the plot has %d curves', len(lines))
        xs, ys = map(list, (lines[0].get_xdata(), lines[0].get_ydata()))
        require(len(xs) >= 10 and xs == sorted(xs) and close(xs[0], 0.025) and close(xs[-1], 0.2),
                'the curve covers %r to %r', xs[0], xs[-1])
        check_curve(xs, ys)
        ctx.nt(len(want) > 1)
    finally:
        plt.close('all')
        shutil.rmtree(tmp, ignore_errors=True)


def check_curve(xs, ys):
    import nonasymptotic.bound as B
    for x, y in list(zip(xs, ys))[::7]:
        want, _ = B.compute_numerical_bound(x, 0.9, 1, 2, None)
        require(close(float(y), float(want)), 'the curve at %r is %r, the bound %r', x, y, want)


SUBS = [
    Sub('animation of a roadmap', movies(), run_movie, quick=260, thorough=4000),
    Sub('bars of logged runs', histories(), run_bars, quick=240, thorough=3000),
    Sub('scatter of logged runs', histories(), run_scatter, quick=60, thorough=800),
]
