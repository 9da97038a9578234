# PY: venv
# STUBS: core scipylite tamp
"""P24: interpolation and the turtlebot's sampling-based motion generator."""
import importlib.util
import math
import os
import random

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import LineString, MultiPoint, Point

from vlib import gen, stats, tamp
from vlib.core import Sub, VERIF, require

ID = 'P24'
_s = importlib.util.spec_from_file_location('p22_geometry', os.path.join(VERIF, 'checks', 'p22_planar_robot.py'))
p22 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(p22)
EPS = 1e-7
THRESHOLD = 0.025


# ---- interpolation

@st.composite
def point_lists(draw):
    dim = draw(st.sampled_from([1, 2, 2, 2, 3, 6]))
    thr = draw(st.one_of(st.sampled_from([0.025, 0.5, 1.0, 0.1]), st.integers(1, 1000).map(lambda i: i / 500)))
    pts = []
    for i in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['any', 'any', 'same', 'multiple', 'close', 'grid']))
        if i == 0 or kind == 'any':
            p = [draw(st.integers(-2000, 2000)) / 1000 for _ in range(dim)]
        elif kind == 'grid':
            p = [float(draw(st.integers(-2, 2))) for _ in range(dim)]
        elif kind == 'same':
            p = list(pts[-1])
        else:                   # a multiple of the threshold away, or just about it
            u = np.array([draw(st.integers(-9, 9)) for _ in range(dim)], dtype=float)
            if not np.any(u):
                u[0] = 1.0
            if draw(st.booleans()):
                u = np.eye(dim)[draw(st.integers(0, dim - 1))]
            u /= np.linalg.norm(u)
            m = draw(st.integers(1, 7)) if kind == 'multiple' else draw(st.sampled_from([1 - 1e-6, 1 + 1e-6, 0.5, 1e-9]))
            p = (np.array(pts[-1]) + m * thr * u).tolist()
        pts.append(p)
    return {'pts': pts, 'thr': thr}


def check_dense(pts, thr, out, what):
    """Every given point in order, only points on the segments between them, no step above the threshold."""
    pts, out = np.asarray(pts, dtype=float), np.asarray(out, dtype=float)
    require(out.ndim == 2 and out.shape[1] == pts.shape[1], '%s has shape %s', what, out.shape)
    tol = 1e-9 * (1 + float(np.max(np.abs(pts))))
    require(np.max(np.abs(out[0] - pts[0])) <= tol, '%s starts at %s instead of %s', what, out[0].tolist(), pts[0].tolist())
    require(np.max(np.abs(out[-1] - pts[-1])) <= tol, '%s ends at %s instead of %s', what, out[-1].tolist(),
            pts[-1].tolist())
    steps = np.linalg.norm(np.diff(out, axis=0), axis=1)
    require(len(steps) == 0 or steps.max() <= thr + tol, '%s has a step of %.6g, the threshold is %.6g', what,
            steps.max() if len(steps) else 0, thr)
    # walk along: position (segment, parameter) must never go back, and every point must be met
    i, t, j = 0, -1.0, 0
    met = [False] * len(pts)
    for p in out:
        placed = False
        while True:
            if i + 1 >= len(pts):
                placed = np.max(np.abs(p - pts[-1])) <= tol
                break
            a, b = pts[i], pts[i + 1]
            d = b - a
            L = float(np.dot(d, d))
            u = float(np.dot(p - a, d)) / L if L > 0 else 0.0
            u = min(1.0, max(0.0, u))
            if np.linalg.norm(a + u * d - p) <= 2 * tol and u >= t - 1e-7:
                t = u
                placed = True
                if np.max(np.abs(p - a)) <= tol:
                    met[i] = True
                if np.max(np.abs(p - b)) <= tol:
                    met[i + 1] = True
                    # the end of this segment may be the start of the next
                    while i + 1 < len(pts) - 1 and np.max(np.abs(pts[i + 2] - pts[i + 1])) <= tol:
                        i += 1
                        met[i + 1] = True
                    i, t = i + 1, -1.0
                break
            if not met[i + 1]:
                break
            i, t = i + 1, -1.0
        require(placed or any(np.max(np.abs(p - q)) <= tol for q in pts[:i + 1]),
                '%s has the point %s, which is not on the way from %s to %s', what, p.tolist(),
                pts[min(i, len(pts) - 1)].tolist(), pts[min(i + 1, len(pts) - 1)].tolist())
        j += 1
    # in order, as a subsequence
    k = 0
    for p in out:
        while k < len(pts) and np.max(np.abs(p - pts[k])) <= tol:
            k += 1
    require(k == len(pts), '%s leaves out the given point %d: %s', what, k, pts[k].tolist() if k < len(pts) else None)


def run_interpolate(case, ctx):
    f = tamp.load('turtlebot', 'streams').interpolate_vectors
    keep = [list(p) for p in case['pts']]
    out = f(case['pts'], case['thr'])
    require(case['pts'] == keep, 'interpolating changed its argument')
    ctx.nt(len(case['pts']) > 2 and len(out) > len(case['pts']))
    check_dense(case['pts'], case['thr'], out, 'the interpolation')
    n = sum(max(0, math.ceil(float(np.linalg.norm(np.subtract(a, b))) / case['thr']) + 1)
            for a, b in zip(case['pts'], case['pts'][1:]))
    require(len(out) <= n + len(case['pts']), 'interpolating %d points gave %d, far more than the threshold asks for',
            len(case['pts']), len(out))


# ---- the motion generator

@st.composite
def worlds(draw):
    layout = draw(st.sampled_from(['scatter', 'scatter', 'wall', 'wall', 'closed', 'frame']))
    robot = draw(st.sampled_from(['box', 'box', 'turtlebot', 'held']))
    size = [draw(st.integers(2, 20)) / 50, draw(st.integers(2, 20)) / 50]
    obs = []
    if layout == 'scatter':
        obs = draw(st.lists(p22.obstacle(), min_size=2, max_size=5))
    else:
        gap = draw(st.integers(2, 60)) / 50 + (size[1] if layout == 'wall' else 0)
        if layout == 'closed':
            gap = 0.5 * size[1]
        y0 = draw(st.integers(-30, 30)) / 50
        for lo, hi in ((-2.2, y0 - gap / 2), (y0 + gap / 2, 2.2)):
            if hi - lo > 0.05:
                obs.append({'size': [0.1, hi - lo], 'off': [0, 0], 'yaw': 0.0, 'at': [0.0, (lo + hi) / 2]})
        for x, y, w, h in ((-2, 0, 0.1, 4.2), (2, 0, 0.1, 4.2), (0, -2, 4.2, 0.1), (0, 2, 4.2, 0.1)):
            obs.append({'size': [w, h], 'off': [0, 0], 'yaw': 0.0, 'at': [float(x), float(y)]})
        if layout == 'frame':
            obs = obs[2:]
    lo = draw(st.sampled_from([3, 4, 5, 6, 8, 10, 20, 30, 40]))
    factor = draw(st.sampled_from([1.0, 1.02, 1.1, 1.1, 1.5, 1.5, 2, 3.7]))
    # (every count up to the largest is built: few of them when they grow slowly)
    hi = lo + draw(st.sampled_from([0, 1, 2, 5, 8] if factor <= 1.1 else [0, 1, 2, 5, 10, 20, 30]))
    start = [draw(st.integers(-190, 190)) / 100 for _ in range(2)]
    goal = [draw(st.integers(-190, 190)) / 100 for _ in range(2)]
    if layout in ('wall', 'closed'):
        start[0], goal[0] = -abs(start[0]), abs(goal[0])
    return {'obs': obs, 'robot': robot, 'size': size, 'lo': lo, 'hi': hi,
            'factor': factor, 'start': start, 'goal': goal,
            'adaptive': draw(st.sampled_from([None] * 7 + [2, 3, 4])), 'seed': draw(gen.seeds()),
            'teleport_first': draw(st.booleans())}


@st.composite
def big_worlds(draw):
    """Many small obstacles in a wide area, with long ways through many samples."""
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 31 - 1)))
    half = draw(st.sampled_from([2.0, 3.5, 7.0]))
    n = draw(st.one_of(st.integers(8, 18), st.integers(20, 45)))
    size = [draw(st.integers(2, 20)) / 50, draw(st.integers(2, 20)) / 50]
    obs = [{'size': rng.uniform(0.05, 0.16 * half * min(1.0, (20 / n) ** 0.5), 2).tolist(), 'off': [0.0, 0.0],
            'yaw': float(rng.choice([0.0, rng.uniform(-3, 3)])), 'at': rng.uniform(-half, half, 2).tolist()} for _ in range(n)]
    lo = draw(st.sampled_from([24, 34, 44]))
    return {'obs': obs, 'robot': draw(st.sampled_from(['box', 'turtlebot', 'held'])), 'size': size, 'lo': lo,
            'hi': lo + draw(st.sampled_from([0, 0, 15])), 'factor': draw(st.sampled_from([1.2, 1.5])),
            'start': rng.uniform(-half, half, 2).tolist(), 'goal': rng.uniform(-half, half, 2).tolist(), 'adaptive': None,
            'seed': draw(gen.seeds()), 'teleport_first': draw(st.booleans())}


class Recorder:
    """Records the growth and query calls of the roadmap (public interface) while active."""

    def __enter__(self):
        from nonasymptotic import prm
        self.cls = prm.SimpleNearestNeighborRadiusPRM
        self.grown, self.answers = [], []
        g, q = self.cls.grow_to_n_samples, self.cls.query_best_solution
        self.old = (self.cls.__dict__.get('grow_to_n_samples'), self.cls.__dict__.get('query_best_solution'))

        def grow(me, n):
            self.grown.append(n)
            return g(me, n)

        def query(me, *a, **k):
            r = q(me, *a, **k)
            self.answers.append(len(r[1]))
            return r
        self.cls.grow_to_n_samples, self.cls.query_best_solution = grow, query
        return self

    def __exit__(self, *a):
        for name, old in zip(('grow_to_n_samples', 'query_best_solution'), self.old):
            if old is None:
                delattr(self.cls, name)
            else:
                setattr(self.cls, name, old)
        return False


def check_schedule(rec, lo, hi, factor, found, ctx):
    ns = rec.grown
    if not ns:
        ctx.label('no schedule seen')
        return
    require(ns[0] == int(lo), 'the first sample count is %s, not %s', ns[0], lo)
    require(all(a < b for a, b in zip(ns, ns[1:])), 'sample counts %s do not grow', ns)
    require(ns[-1] <= hi, 'grew to %d samples, more than the %d allowed', ns[-1], hi)
    for a, b in zip(ns, ns[1:]):
        require(b <= max((a + 1) * factor, a + 1) + 1e-9, 'sample counts jump from %d to %d with factor %s', a, b, factor)
    if not found:
        # the counts may be kept with or without their fractions
        at, most = float(lo), (ns[-1] + 1) * factor
        for a, b in zip(ns, ns[1:]):
            fit = [x for x in (max(at * factor, a + 1), max(a * factor, a + 1)) if abs(x - b) < 1e-6 or int(x) == b]
            if not fit:
                break
            at = fit[0]
        else:
            most = max(at * factor, ns[-1] * factor)
        require(int(max(most, ns[-1] + 1) + 1e-9) > hi - 1e-9,
                'gave up after %d samples although %d are allowed (factor %s)', ns[-1], hi, factor)
    if rec.answers:
        require(len(rec.answers) == len(ns), '%d queries for %d sample counts', len(rec.answers), len(ns))
        require((rec.answers[-1] > 0) == found, 'the last query %s, but %s was returned',
                'found a path' if rec.answers[-1] else 'found nothing', 'a path' if found else 'nothing')


def run_motion(case, ctx):
    import pybullet_tools.utils as pbu
    import tampworld as tw
    streams, problems = tamp.load('turtlebot', 'streams'), tamp.load('turtlebot', 'problems')
    tw.W.reset()
    obstacles = []
    for o in case['obs']:
        b = pbu.create_box(o['size'][0], o['size'][1], 0.1)
        c, s = math.cos(o['yaw']), math.sin(o['yaw'])
        x = o['at'][0] + c * o['off'][0] - s * o['off'][1]
        y = o['at'][1] + s * o['off'][0] + c * o['off'][1]
        pbu.set_pose(b, pbu.Pose(pbu.Point(x, y, 0.05), pbu.Euler(yaw=o['yaw'])))
        obstacles.append(b)
    start, goal = np.array(case['start']), np.array(case['goal'])
    rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=0.5)
    held = None
    if case['robot'] == 'turtlebot':
        size = [2 * tw.TURTLEBOT_RADIUS * 0.5] * 2
    elif case['robot'] == 'held':
        held = pbu.create_box(case['size'][0], case['size'][1], 0.1)
        pbu.set_point(held, pbu.Point(1.0, 1.3, 0.05))
        size = case['size']
    else:
        rover = pbu.create_box(case['size'][0], case['size'][1], 0.1)
        pbu.set_point(rover, pbu.Point(0.4, -0.3, 0.05))
        size = case['size']
    rc = [(sx * size[0] / 2, sy * size[1] / 2) for sx in (-1, 1) for sy in (-1, 1)]
    ms = [p22.minkowski(p22.obstacle_corners(o), rc) for o in case['obs']]
    ms = [(m, m.buffer(-EPS)) for m in ms]
    joints = (0, 1)
    problem = problems.RoversProblem(rover, obstacles=obstacles, limits=[])
    lo, hi, factor = case['lo'], case['hi'], case['factor']
    kw = dict(start_samples=lo, end_samples=hi, factor=factor, holding=held is not None)
    if case['adaptive']:
        from nonasymptotic.bound import compute_numerical_bound
        delta = float(case['adaptive'])
        problem.hallway_gap = delta + size[0] - 0.05
        kw['adaptive_n'] = True
        n, _ = compute_numerical_bound(problem.hallway_gap - size[0] + 0.05, 0.99, 16, 2, None)
        if n > 100:
            ctx.label('too many samples')
            return
        lo, hi = n - 1, n

    class Q:
        def __init__(self, v):
            self.values, self.joints = tuple(float(x) for x in v), joints

    ends = [p22.verdict(ms, p, p) for p in (start, goal)]

    def generate(teleport):
        random.seed(case['seed'])
        np.random.seed(case['seed'] % 2 ** 32)
        before = {b: pbu.get_pose(b) for b in obstacles}
        with tamp.quiet(), Recorder() as rec:
            fn = streams.get_anytime_motion_fn(problem, custom_limits={}, teleport=teleport, **kw)
            try:
                out = fn(rover, Q(start), Q(goal), held) if held is not None else fn(rover, Q(start), Q(goal))
            except AssertionError:
                if 'accept' in ends and ends.count('accept') == 2:
                    raise
                out = 'refused'
        require(before == {b: pbu.get_pose(b) for b in obstacles}, 'planning moved an obstacle')
        return out, rec

    order = [True, False] if case['teleport_first'] else [False, True]
    res = {}
    for t in order:
        res[t] = generate(t)
    if 'reject' in ends:
        for t in order:
            require(res[t][0] is None or res[t][0] == 'refused', 'a motion %s was returned',
                    'from a colliding start' if ends[0] == 'reject' else 'to a colliding goal')
        ctx.label('start or goal in collision')
        return
    if res[True][0] == 'refused' or res[False][0] == 'refused':
        ctx.label('too close to call')
        return
    for t in order:
        check_schedule(res[t][1], lo, hi, factor, res[t][0] is not None, ctx)
    require((res[True][0] is None) == (res[False][0] is None), 'with the same random numbers, a path is found %s',
            'only without interpolation' if res[True][0] is not None else 'only with interpolation')
    if res[True][0] is None:
        ctx.label('no path')
        ctx.nt(len(res[True][1].grown) > 1)
        return
    paths = {}
    for t in order:
        out = res[t][0]
        require(isinstance(out, (tuple, list)) and len(out) == 1, 'a result other than one trajectory: %r', out)
        traj = out[0]
        require(all(tuple(c.joints) == joints and c.body == rover for c in traj.path),
                'the trajectory is for other joints or another body')
        paths[t] = np.array([c.values for c in traj.path], dtype=float)
    way = paths[True]
    blocked = p22.verdict(ms, start, goal) != 'accept'
    ctx.label('path around something' if blocked else 'path in the open')
    ctx.nt(blocked or len(way) > 3)
    require(np.max(np.abs(way[0] - start)) <= 1e-12, 'the path starts at %s instead of %s', way[0].tolist(), start.tolist())
    require(np.max(np.abs(way[-1] - goal)) <= 1e-12, 'the path ends at %s instead of %s', way[-1].tolist(), goal.tolist())
    for a, b in zip(way, way[1:]):
        require(p22.verdict(ms, a, b) != 'reject', 'the leg from %s to %s of the path collides', a.tolist(), b.tolist())
    check_dense(way, THRESHOLD, paths[False], 'the interpolated path')


# ---- several questions to generators that live on

@st.composite
def histories(draw):
    """One or two generators, each with its own obstacles, and questions put to them in turn."""
    gens = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        w = draw(worlds())
        lo = min(w['lo'], 10)
        gens.append({'obs': w['obs'], 'lo': lo, 'hi': lo + min(w['hi'] - w['lo'], 20), 'factor': w['factor'],
                     'holding': draw(st.sampled_from([True, True, False]))})
    spots = [[draw(st.integers(-190, 190)) / 100 for _ in range(2)] for _ in range(draw(st.integers(2, 3)))]
    sizes = [[draw(st.integers(1, 20)) / 50 for _ in range(2)] for _ in range(draw(st.integers(1, 3)))]
    if len(sizes) > 1 and draw(st.booleans()):
        sizes[1] = [sizes[0][1], sizes[0][0]]
    asks = [[draw(st.integers(0, len(gens) - 1)), draw(st.integers(0, len(spots) - 1)),
             draw(st.integers(0, len(spots) - 1)), draw(st.integers(0, len(sizes) - 1))]
            for _ in range(draw(st.integers(2, 5)))]
    return {'gens': gens, 'spots': spots, 'sizes': sizes, 'asks': asks, 'seed': draw(gen.seeds()),
            'move': draw(st.booleans())}


def run_history(case, ctx):
    import pybullet_tools.utils as pbu
    import tampworld as tw
    streams, problems = tamp.load('turtlebot', 'streams'), tamp.load('turtlebot', 'problems')
    tw.W.reset()
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 32)
    bodies = []
    for i, s in enumerate(case['sizes']):
        b = pbu.create_box(s[0], s[1], 0.1)
        pbu.set_point(b, pbu.Point(0.3 * i, -0.2 * i, 0.05))
        bodies.append(b)
    rover = pbu.create_box(0.1, 0.1, 0.1)
    fns, obstacles = [], []
    for g in case['gens']:
        obs = []
        for o in g['obs']:
            b = pbu.create_box(o['size'][0], o['size'][1], 0.1)
            c, s = math.cos(o['yaw']), math.sin(o['yaw'])
            pbu.set_pose(b, pbu.Pose(pbu.Point(o['at'][0] + c * o['off'][0] - s * o['off'][1],
                                               o['at'][1] + s * o['off'][0] + c * o['off'][1], 0.05), pbu.Euler(yaw=o['yaw'])))
            obs.append(b)
        obstacles.append(obs)
        with tamp.quiet():
            fns.append(streams.get_anytime_motion_fn(
                problems.RoversProblem(rover, obstacles=obs, limits=[]), custom_limits={}, teleport=True,
                start_samples=g['lo'], end_samples=g['hi'], factor=g['factor'], holding=g['holding']))

    class Q:
        def __init__(self, v):
            self.values, self.joints = tuple(float(x) for x in v), (0, 1)

    seen = set()
    for n, (gi, a, b, oi) in enumerate(case['asks']):
        g = case['gens'][gi]
        start, goal = np.array(case['spots'][a]), np.array(case['spots'][b])
        size = case['sizes'][oi]
        if case['move']:            # where the object stands must not matter, it is carried
            pbu.set_point(bodies[oi], pbu.Point(0.1 * n, 0.4, 0.05))
        rc = [(sx * size[0] / 2, sy * size[1] / 2) for sx in (-1, 1) for sy in (-1, 1)]
        ms = [p22.minkowski(p22.obstacle_corners(o), rc) for o in g['obs']]
        ms = [(m, m.buffer(-EPS)) for m in ms]
        ends = [p22.verdict(ms, p, p) for p in (start, goal)]
        what = 'question %d (%s)' % (n, 'after others' if n else 'the first')
        with tamp.quiet(), Recorder() as rec:
            try:
                if g['holding']:
                    out = fns[gi](rover, Q(start), Q(goal), bodies[oi])
                else:
                    out = fns[gi](bodies[oi], Q(start), Q(goal))
            except AssertionError:
                if ends == ['accept', 'accept']:
                    raise
                continue
        ctx.nt(n > 0 and oi not in seen)
        seen.add(oi)
        require('reject' not in ends or out is None, '%s: a motion %s was returned', what,
                'from a colliding start' if ends[0] == 'reject' else 'to a colliding goal')
        if 'accept' not in ends or ends.count('accept') != 2:
            continue
        check_schedule(rec, g['lo'], g['hi'], g['factor'], out is not None, ctx)
        if out is None:
            continue
        way = np.array([c.values for c in out[0].path], dtype=float)
        require(np.max(np.abs(way[0] - start)) <= 1e-12 and np.max(np.abs(way[-1] - goal)) <= 1e-12,
                '%s: the path leads from %s to %s, asked was %s to %s', what, way[0].tolist(), way[-1].tolist(),
                start.tolist(), goal.tolist())
        for p, q in zip(way, way[1:]):
            require(p22.verdict(ms, p, q) != 'reject', '%s: the leg from %s to %s of the path collides', what, p.tolist(),
                    q.tolist())


# ---- the sampler behind it

@st.composite
def sampler_worlds(draw):
    return {'obs': draw(st.lists(p22.obstacle(), min_size=1, max_size=4)), 'seed': draw(gen.seeds()),
            'cut': [draw(st.integers(1, 9)) / 10 for _ in range(2)]}


def run_sampler(case, ctx):
    with tamp.quiet():
        env, _, _ = p22.build({'obs': case['obs'], 'robot': [0.2, 0.2], 'roff': [0, 0]})
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 32)
    pts = np.array([env.sample_from_env() for _ in range(1500)])
    require(pts.shape == (1500, 2), 'a sample has shape %s', pts.shape)
    cs = np.array([p for o in case['obs'] for p in p22.obstacle_corners(o)])
    lo, hi = cs.min(axis=0), cs.max(axis=0)
    require(np.all(pts >= lo - 1e-9) and np.all(pts <= hi + 1e-9), 'a sample lies outside the box around the obstacles')
    u = (pts - lo) / (hi - lo)
    ctx.nt(len(case['obs']) > 1)
    a, b = case['cut']
    for k, c in ((0, a), (1, b)):
        require(stats.likely(int(np.sum(u[:, k] < c)), len(u), c), 'coordinate %d: %d of %d samples below %.2f of the range',
                k, int(np.sum(u[:, k] < c)), len(u), c)
    both = int(np.sum((u[:, 0] < a) & (u[:, 1] < b)))
    require(stats.likely(both, len(u), a * b), '%d of %d samples in a corner with share %.3f', both, len(u), a * b)


SUBS = [
    Sub('interpolation', point_lists(), run_interpolate, quick=6000),
    Sub('generator', worlds(), run_motion, quick=350, thorough=9000),
    Sub('wide worlds', big_worlds(), run_motion, quick=24, thorough=900, cpu_limit=400),
    Sub('history', histories(), run_history, quick=250, thorough=6000),
    Sub('sampler', sampler_worlds(), run_sampler, quick=250),
]
