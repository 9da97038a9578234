# PY: venv
# STUBS: core
"""P01: straight motions in the narrow-passage world are accepted iff they stay in the free space."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, geo
from nonasymptotic.envs import NarrowPassage

ID = 'P01'
MARGIN = 1e-9


@st.composite
def endpoint(draw, dim, c):
    kind = draw(st.sampled_from(['left', 'right', 'hall', 'hall_edge', 'mouth', 'lane']))
    side = draw(st.sampled_from([-1, 1]))
    if kind in ('left', 'right'):
        x = (-1.0 if kind == 'left' else 1.0) + (draw(gen.unit()) - 0.5)
        ys = [draw(gen.unit()) - 0.5 for _ in range(dim - 1)]
    elif kind == 'hall':
        x = draw(gen.unit()) - 0.5
        ys = [(2 * draw(gen.unit()) - 1) * c for _ in range(dim - 1)]
    elif kind == 'hall_edge':
        x = draw(gen.unit()) - 0.5
        ys = [(2 * draw(gen.unit()) - 1) * c for _ in range(dim - 1)]
        i = draw(st.integers(0, dim - 2))
        ys[i] = side * c * (1 - draw(st.sampled_from([1e-6, 1e-4, 1e-2])))
    elif kind == 'mouth':
        x = side * (0.5 + draw(st.sampled_from([-1e-3, 1e-6, 1e-4, 1e-2])))
        ys = [(2 * draw(gen.unit()) - 1) * c for _ in range(dim - 1)]
    else:  # end region, but within the hallway's cross section
        x = side * (0.5 + draw(gen.unit()))
        ys = [(2 * draw(gen.unit()) - 1) * c for _ in range(dim - 1)]
    return [x] + ys


@st.composite
def motion(draw, dim, c):
    a = draw(endpoint(dim, c))
    kind = draw(st.sampled_from(['free', 'free', 'corner', 'corner', 'axis', 'point', 'copy_some']))
    if kind == 'free':
        return a, draw(endpoint(dim, c))
    if kind == 'point':
        return a, list(a)
    if kind == 'axis':
        b = draw(endpoint(dim, c))
        keep = draw(st.integers(0, dim - 1))
        b = [b[i] if i == keep else a[i] for i in range(dim)]
        return a, b
    if kind == 'copy_some':
        b = draw(endpoint(dim, c))
        mask = [draw(st.booleans()) for _ in range(dim)]
        return a, [x if m else y for x, y, m in zip(a, b, mask)]
    # aim close to an edge of the hallway mouth, then carry on
    q = [draw(st.sampled_from([-0.5, 0.5]))] + [(2 * draw(gen.unit()) - 1) * c for _ in range(dim - 1)]
    i = draw(st.integers(1, dim - 1))
    q[i] = draw(st.sampled_from([-1, 1])) * c + draw(gen.tiny())
    s = 1.0 + draw(st.sampled_from([0.05, 0.2, 0.5, 1.0, 2.0, 4.0]))
    for _ in range(6):
        b = [x + s * (y - x) for x, y in zip(a, q)]
        if geo.narrow_free_margin(b, c) > MARGIN:
            return a, b
        s = 1.0 + (s - 1.0) / 3
    return a, draw(endpoint(dim, c))


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([2, 2, 3, 3, 4, 5, 7, 9, 14]))
    c = draw(st.one_of(gen.in_range(0.0, 0.5), st.sampled_from([0.001, 0.01, 0.1, 0.125, 0.25, 0.3, 0.49])))
    n = draw(st.integers(0, 6))
    ms = [draw(motion(dim, c)) for _ in range(n)]
    return {'dim': dim, 'clearance': c, 'starts': [m[0] for m in ms], 'goals': [m[1] for m in ms]}


def run(case, ctx):
    dim, c = case['dim'], case['clearance']
    env = NarrowPassage(dim, c, 0)
    keep = [i for i in range(len(case['starts']))
            if geo.narrow_free_margin(case['starts'][i], c) > MARGIN
            and geo.narrow_free_margin(case['goals'][i], c) > MARGIN]
    a = np.array([case['starts'][i] for i in keep], dtype=float).reshape(-1, dim)
    b = np.array([case['goals'][i] for i in keep], dtype=float).reshape(-1, dim)
    a0, b0 = a.copy(), b.copy()
    got = np.asarray(env.is_motion_valid(a, b))
    require(np.array_equal(a, a0) and np.array_equal(b, b0), 'the motion check changed its arguments')
    require(got.shape == (len(keep),), 'a batch of %d motions got %s verdicts', len(keep), got.shape)
    rev = np.asarray(env.is_motion_valid(b, a))
    hard = False
    for i in range(len(keep)):
        slack, gap = geo.narrow_motion_slack(a[i], b[i], c)
        if slack is None:
            if gap < MARGIN:
                continue
            want = True
        else:
            if abs(slack) < MARGIN:
                continue
            want = slack > 0
            hard = True
            ctx.label('blocked' if not want else 'through the hallway')
        if np.array_equal(a[i], b[i]):
            ctx.label('zero length')
        require(bool(got[i]) == want, 'motion %s -> %s (clearance %r): accepted=%s, but it is %s', a[i].tolist(),
                b[i].tolist(), c, bool(got[i]), 'free (slack %r)' % slack if want else 'colliding (slack %r)' % slack)
        require(bool(rev[i]) == want, 'motion %s -> %s (reverse of a decided one) judged differently', b[i].tolist(),
                a[i].tolist())
        one = np.asarray(env.is_motion_valid(a[i:i + 1], b[i:i + 1]))
        require(bool(one[0]) == want, 'motion judged differently alone than in a batch')
    ctx.nt(hard)


@st.composite
def crowds(draw):
    return {'dim': draw(st.sampled_from([2, 2, 3, 4, 6, 16, 32])), 'clearance': draw(gen.in_range(0.02, 0.48)),
            'seed': draw(gen.seeds()), 'n': draw(st.one_of(st.integers(7, 80), st.integers(80, 1100), st.integers(80, 1100), st.integers(1100, 9000))),
            'repeat': draw(st.sampled_from([0, 0, 1, 5]))}


def crowd_points(rng, n, dim, c):
    p = np.empty((n, dim))
    for i in range(n):
        where = rng.integers(0, 4)
        half = 0.5 if where == 0 else c
        p[i, 1:] = rng.uniform(-half, half, dim - 1)
        p[i, 0] = rng.uniform(-0.5, 0.5) if where in (1, 2) else rng.choice([-1, 1]) * rng.uniform(0.5, 1.5)
    return p


def run_crowd(case, ctx):
    """Large batches, as the roadmaps ask for them; the verdicts do not depend on the company."""
    dim, c, n = case['dim'], case['clearance'], case['n']
    rng = np.random.default_rng(case['seed'])
    a, b = crowd_points(rng, n, dim, c), crowd_points(rng, n, dim, c)
    for _ in range(case['repeat']):
        i, j = rng.integers(0, n, 2)
        a[i], b[i] = a[j], b[j]
        a[rng.integers(0, n)] = b[rng.integers(0, n)]
    got = np.asarray(NarrowPassage(dim, c, 0).is_motion_valid(a, b))
    require(got.shape == (n,), 'a batch of %d motions got %s verdicts', n, got.shape)
    seen = set()
    judged = range(n) if n <= 1100 else sorted(set(rng.integers(0, n, 300).tolist()) | set(range(n - 60, n)))
    for i in judged:
        slack, gap = geo.narrow_motion_slack(a[i], b[i], c)
        if (gap if slack is None else abs(slack)) < MARGIN:
            continue
        want = slack is None or slack > 0
        seen.add(want)
        require(bool(got[i]) == want, 'motion %d of %d, %s -> %s (clearance %r): accepted=%s, expected %s', i, n,
                a[i].tolist(), b[i].tolist(), c, bool(got[i]), want)
    ctx.nt(len(seen) == 2)


SUBS = [Sub('motions', cases(), run, quick=6000, thorough=150000),
        Sub('large batches', crowds(), run_crowd, quick=1600, thorough=30000)]
