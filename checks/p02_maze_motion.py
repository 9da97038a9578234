# PY: venv
# STUBS: core
"""P02: motions in the Gray-code maze use doorways only and keep clear of closed walls."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, geo
from nonasymptotic.envs import GrayCodeWalls

ID = 'P02'
MARGIN = 1e-9
SIZES = [(2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1)]
thick = st.one_of(st.just(0.0), st.just(0.0), st.sampled_from([0.0625, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.45]),
                  gen.in_range(0.0, 0.49))


@st.composite
def local(draw, dim, th, doors):
    """A point of the unit cell, biased to its free part."""
    kind = draw(st.sampled_from(['free', 'free', 'free', 'any', 'door', 'wall']))
    u = [draw(gen.unit()) for _ in range(dim)]
    if kind == 'any':
        return u
    p = [th + (1 - 2 * th) * v for v in u]
    if kind == 'door' and doors:
        ax, s = draw(st.sampled_from(doors))
        d = th * draw(gen.unit()) if th > 0 else draw(gen.unit()) * 0.1
        p[ax] = 1 - d if s > 0 else d
    if kind == 'wall':
        ax = draw(st.integers(0, dim - 1))
        d = max(1e-7, th + draw(gen.tiny())) if th else draw(gen.unit()) * 1e-3
        p[ax] = min(max(draw(st.sampled_from([d, 1 - d])), 1e-6), 1 - 1e-6)
    return p


def door_of(path, k):
    for ax, (x, y) in enumerate(zip(path[k], path[k + 1])):
        if x != y:
            return ax, max(x, y)


@st.composite
def door_point(draw, path, k, th):
    """A point on the face between cells k and k+1, often near a door post."""
    ax, face = door_of(path, k)
    q = []
    for i in range(len(path[k])):
        how = draw(st.sampled_from(['in', 'in', 'post', 'post_near']))
        u = draw(gen.unit())
        if how == 'in':
            v = th + (1 - 2 * th) * u
        elif how == 'post':
            v = draw(st.sampled_from([th, 1 - th])) + draw(gen.tiny()) * 0.1
        else:
            v = draw(st.sampled_from([th + 0.1 * u, 1 - th - 0.1 * u]))
        q.append(path[k][i] + min(max(v, 1e-6), 1 - 1e-6))
    q[ax] = float(face)
    return q


def inside(p, cell):
    return all(c + 1e-9 < x < c + 1 - 1e-9 for x, c in zip(p, cell))


def extend(frm, to, cell):
    """A point beyond `to`, seen from `frm`, that lies in `cell` if possible."""
    for s in (0.9, 0.5, 0.25, 0.1, 0.03, 0.01):
        p = [t + s * (t - f) for f, t in zip(frm, to)]
        if inside(p, cell):
            return p
    return None


@st.composite
def run_motion(draw, path, th):
    """A motion through as many consecutive cells as a straight line can take, crossing the faces in path order."""
    dim = len(path[0])
    runs = []
    for k in range(len(path) - 1):
        axes = []
        for j in range(k, len(path) - 1):
            ax, face = door_of(path, j)
            if ax in axes:
                break
            axes.append(ax)
            if len(axes) >= 2:
                runs.append((k, len(axes)))
    best = max((r[1] for r in runs), default=1)
    pool = [r for r in runs if r[1] == best] if draw(st.booleans()) else runs
    k, steps = draw(st.sampled_from(pool or [(0, 1)]))
    tight = draw(st.sampled_from([False, False, True, True, None]))     # (None: from corner to corner)
    ts = sorted((0.05 + 0.9 * u) if tight is not None else 0.45 + 0.1 * u for u in [draw(gen.unit()) for _ in range(steps)])
    a, b = [0.0] * dim, [0.0] * dim
    for i in range(dim):
        lo, hi = path[k][i] + th, path[k][i] + 1 - th
        a[i], b[i] = lo + (hi - lo) * draw(gen.unit()), lo + (hi - lo) * draw(gen.unit())
    for j, t in enumerate(ts):
        ax, face = door_of(path, k + j)
        sign = path[k + j + 1][ax] - path[k + j][ax]
        top = 0.95 * min(1 / t, 1 / (1 - t)) * (1 - th)
        v = top * draw(gen.unit()) * (0.3 if tight else 1.0) if tight is not None else top * (0.9 + 0.1 * draw(gen.unit()))
        a[ax], b[ax] = face - sign * v * t, face + sign * v * (1 - t)
    return a, b


@st.composite
def cases(draw):
    dim, length = draw(st.sampled_from(SIZES))
    th = draw(thick)
    path = geo.maze_path(dim, length)
    n = len(path)
    mode = draw(st.sampled_from(['cell', 'next', 'next', 'far', 'aim', 'aim', 'aim', 'three', 'run', 'run', 'run']))
    k = draw(st.integers(0, n - 1))
    a = b = None
    if mode == 'run':
        a, b = draw(run_motion(path, th))
        if draw(st.booleans()):
            a, b = b, a
        return {'dim': dim, 'length': length, 'thickness': th, 'start': a, 'goal': b}
    if mode == 'cell':
        j = k
    elif mode in ('next', 'aim'):
        k = min(k, n - 2)
        j = k + 1
    elif mode == 'far':
        j = draw(st.integers(0, n - 1))
    else:
        k = min(k, max(n - 3, 0))
        j = min(k + 2, n - 1)
    if mode == 'aim':
        a = [c + x for c, x in zip(path[k], draw(local(dim, th, geo.maze_doors(path, k))))]
        q = draw(door_point(path, k, th))
        b = extend(a, q, path[j])
    elif mode == 'three' and j == k + 2:
        q1, q2 = draw(door_point(path, k, th)), draw(door_point(path, k + 1, th))
        a, b = extend(q2, q1, path[k]), extend(q1, q2, path[j])
    if a is None:
        a = [c + x for c, x in zip(path[k], draw(local(dim, th, geo.maze_doors(path, k))))]
    if b is None:
        b = [c + x for c, x in zip(path[j], draw(local(dim, th, geo.maze_doors(path, j))))]
    if draw(st.integers(0, 5)) == 0:   # share some coordinates: axis-parallel motions
        keep = draw(st.lists(st.booleans(), min_size=dim, max_size=dim))
        b2 = [x if m and math.floor(x) == math.floor(y) else y for x, y, m in zip(a, b, keep)]
        b = b2
    if draw(st.booleans()):
        a, b = b, a
    return {'dim': dim, 'length': length, 'thickness': th, 'start': a, 'goal': b}


def run(case, ctx):
    dim, length, th = case['dim'], case['length'], case['thickness']
    a, b = case['start'], case['goal']
    path = geo.maze_path(dim, length)
    index = {c: i for i, c in enumerate(path)}
    if any(abs(x - round(x)) < MARGIN for x in a + b):
        return
    env = GrayCodeWalls(dim, length, th)
    for p in (a, b):
        k = index[tuple(math.floor(x) for x in p)]
        want = geo.maze_cell_slack(path, k, p, th)
        got = float(env.distance_to_wall(np.array(p)))
        require(abs(got - want) < 1e-9, 'distance of %s to the walls is %r, reported %r', p, want, got)
    slack, cells = geo.maze_motion_slack(path, index, a, b, th)
    if slack is None or abs(slack) < MARGIN:
        return
    aa, bb = np.array(a), np.array(b)
    got = bool(env.is_motion_valid(aa, bb))
    require(aa.tolist() == a and bb.tolist() == b, 'the motion check changed its arguments')
    ctx.label('%s, %s cells' % ('free' if slack > 0 else 'blocked', cells if cells < 4 else '4+'))
    ctx.nt(cells > 1)
    require(got == (slack > 0), 'motion %s -> %s (thickness %r): accepted=%s, but it is %s', a, b, th, got,
            'free (margin %r)' % slack if slack > 0 else 'blocked (%r)' % slack)


@st.composite
def crowds(draw):
    dim, length = draw(st.sampled_from(SIZES + [(2, 7), (2, 12), (2, 30), (3, 5), (4, 3), (5, 2), (6, 1), (7, 1)]))
    return {'dim': dim, 'length': length, 'thickness': draw(thick), 'seed': draw(gen.seeds()),
            'n': draw(st.integers(2, 60)), 'reach': draw(st.sampled_from([1, 2, 2, 4]))}


@st.composite
def large(draw):
    dim, length = draw(st.sampled_from([(2, 80), (2, 300), (3, 70), (7, 3), (8, 1), (9, 1), (10, 1), (11, 1)]))
    return {'dim': dim, 'length': length, 'thickness': draw(thick), 'seed': draw(gen.seeds()), 'n': 40,
            'reach': draw(st.sampled_from([1, 2, 200, 1000]))}


def run_crowd(case, ctx):
    """Many motions judged by one maze, some of them again and backward."""
    dim, length, th = case['dim'], case['length'], case['thickness']
    path = geo.maze_path(dim, length)
    index = {c: i for i, c in enumerate(path)}
    env = GrayCodeWalls(dim, length, th)
    rng = np.random.default_rng(case['seed'])
    asked, seen = [], set()
    for _ in range(case['n']):
        if asked and rng.uniform() < 0.2:
            a, b = asked[rng.integers(0, len(asked))]
            if rng.uniform() < 0.7:
                a, b = b, a
        else:
            k = int(rng.integers(0, len(path)))
            j = min(max(k + int(rng.integers(-case['reach'], case['reach'] + 1)), 0), len(path) - 1)
            a, b = (np.array(path[c]) + (th + (1 - 2 * th) * rng.uniform(0, 1, dim) if rng.uniform() < 0.8 else
                                         rng.uniform(0, 1, dim)) for c in (k, j))
            if abs(k - j) == 1 and rng.uniform() < 0.7:     # straight through the door, or off it a little
                ax = int(np.argmax(np.array(path[k]) != np.array(path[j])))
                off = rng.choice([0.0, 0.05, 0.3]) * rng.uniform(-1, 1, dim)
                b = np.where(np.arange(dim) == ax, b, a + off)
                if tuple(np.floor(b).astype(int)) not in index:
                    continue
            asked.append((a, b))
        for p in (a, b):
            if np.abs(p - np.round(p)).min() > MARGIN:
                want = geo.maze_cell_slack(path, index[tuple(np.floor(p).astype(int).tolist())], p.tolist(), th)
                require(abs(float(env.distance_to_wall(p)) - want) < 1e-9, 'the distance of %s to the walls is %r', p.tolist(), want)
        slack, cells = geo.maze_motion_slack(path, index, a.tolist(), b.tolist(), th)
        if slack is None or abs(slack) < MARGIN or min(np.abs(x - np.round(x)).min() for x in (a, b)) < MARGIN:
            continue
        keep = a.copy(), b.copy()
        got = bool(env.is_motion_valid(a, b))
        require(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), 'the motion check changed its arguments')
        if cells > 1:
            seen.add(slack > 0)
        require(got == (slack > 0), 'motion %s -> %s (thickness %r): accepted=%s, but it is %s', a.tolist(), b.tolist(),
                th, got, 'free (margin %r)' % slack if slack > 0 else 'blocked (%r)' % slack)
    ctx.nt(len(seen) == 2)


@st.composite
def doorways(draw):
    dim, length = draw(st.sampled_from(SIZES))
    th = draw(thick)
    path = geo.maze_path(dim, length)
    k = draw(st.integers(0, len(path) - 2))
    a = draw(door_point(path, k, th))
    j = min(max(k + draw(st.sampled_from([0, 0, 1, 1, -1, 2])), 0), len(path) - 1)
    if draw(st.integers(0, 2)) == 0 and j != k and j < len(path) - 1:
        b = draw(door_point(path, j, th))
    else:
        b = [c + x for c, x in zip(path[j], draw(local(dim, th, geo.maze_doors(path, j))))]
    if draw(st.booleans()):
        a, b = b, a
    return {'dim': dim, 'length': length, 'thickness': th, 'start': a, 'goal': b}


def run_doorway(case, ctx):
    """Motions with an end exactly in a doorway (as every second leg of the curve has): judged by what lies between."""
    dim, length, th = case['dim'], case['length'], case['thickness']
    a, b = case['start'], case['goal']
    path = geo.maze_path(dim, length)
    index = {c: i for i, c in enumerate(path)}
    if any(abs(x - y) < 1e-3 for x, y in zip(a, b) if min(abs(x - round(x)), abs(y - round(y))) < MARGIN):
        return      # along the doorway's face
    for p in (a, b):
        if any(MARGIN <= abs(x - round(x)) < 1e-5 for x in p):
            return      # (moving the end inward below would take it to another cell)
        ax = [i for i, x in enumerate(p) if abs(x - round(x)) < MARGIN]
        sides = [tuple(round(x) - d if i in ax else math.floor(x) for i, x in enumerate(p)) for d in (0, 1)]
        if ax and any(c not in index or geo.maze_cell_slack(path, index[c], p, th) < 1e-4 for c in sides):
            return      # at a door post, or on a closed wall
    inner = [x + 1e-6 * (y - x) for x, y in zip(a, b)], [y + 1e-6 * (x - y) for x, y in zip(a, b)]
    slack, cells = geo.maze_motion_slack(path, index, *inner, th)
    if slack is None or abs(slack) < 1e-4:
        return
    got = bool(GrayCodeWalls(dim, length, th).is_motion_valid(np.array(a), np.array(b)))
    ctx.label('%s, %s cells' % ('free' if slack > 0 else 'blocked', cells))
    ctx.nt(slack > 0)
    require(got == (slack > 0), 'motion %s -> %s (thickness %r), with an end in a doorway: accepted=%s, but it is %s',
            a, b, th, got, 'free (margin %r)' % slack if slack > 0 else 'blocked (%r)' % slack)


SUBS = [Sub('doorways', doorways(), run_doorway, quick=4000, thorough=60000),
        Sub('motions', cases(), run, quick=16000, thorough=300000, examples=[
    {'dim': 2, 'length': 2, 'thickness': 0.1, 'start': [0.5, 0.5], 'goal': [0.5, 1.5]}]),
        Sub('large mazes', large(), run_crowd, quick=120, thorough=3000),
        Sub('many motions', crowds(), run_crowd, quick=2400, thorough=40000)]
