# PY: venv
# STUBS: core scipylite tamp
"""P22: the planar overlap test and the turtlebot's motion check."""
import math

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import LineString, MultiPoint, Point

from vlib import tamp
from vlib.core import Sub, require

ID = 'P22'
EPS = 1e-7
STEP = 0.08


def sat():
    return tamp.load('turtlebot', 'separating_axis')


# ---- polygons

def coord():
    return st.one_of(st.integers(-8, 8).map(float), st.integers(-800, 800).map(lambda i: i / 100),
                     st.integers(-10 ** 9, 10 ** 9).map(lambda i: i / 10 ** 8))


@st.composite
def polygon(draw):
    kind = draw(st.sampled_from(['cloud', 'box', 'regular', 'sliver', 'tri', 'grid']))
    if kind == 'cloud':
        pts = draw(st.lists(st.tuples(coord(), coord()), min_size=3, max_size=9))
    elif kind == 'grid':
        pts = draw(st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3)), min_size=3, max_size=6))
    elif kind == 'tri':
        pts = draw(st.lists(st.tuples(coord(), coord()), min_size=3, max_size=3))
    else:
        w, h = draw(st.integers(1, 60)) / 10, draw(st.integers(1, 60)) / 10
        if kind == 'sliver':
            h = draw(st.integers(1, 20)) / 1000
        a = draw(st.one_of(st.sampled_from([0, 0, math.pi / 4, math.pi / 6]), st.integers(0, 628).map(lambda i: i / 100)))
        if kind == 'regular':
            n = draw(st.integers(3, 13))
            pts = [(w * math.cos(a + 2 * math.pi * i / n), w * math.sin(a + 2 * math.pi * i / n)) for i in range(n)]
        else:
            c, s = math.cos(a), math.sin(a)
            pts = [(c * x - s * y, s * x + c * y) for x, y in ((w, h), (-w, h), (-w, -h), (w, -h))]
        x, y = draw(coord()), draw(coord())
        pts = [(px + x / 2, py + y / 2) for px, py in pts]
    hull = MultiPoint([(float(x), float(y)) for x, y in pts]).convex_hull
    if hull.geom_type != 'Polygon' or hull.area < 1e-4:
        hull = MultiPoint([(0, 0), (1, 0), (0, 1)]).convex_hull
    v = [list(p) for p in hull.exterior.coords[:-1]]
    if draw(st.booleans()):
        v = v[::-1]
    k = draw(st.integers(0, len(v) - 1))
    return v[k:] + v[:k]


@st.composite
def pairs(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        a, b = draw(polygon()), draw(polygon())
        mode = draw(st.sampled_from(['any', 'any', 'same', 'beside', 'beside', 'inside', 'corner']))
        if mode == 'same':
            b = [list(p) for p in a]
        if mode in ('beside', 'same', 'corner'):
            # slide b until it almost touches a, in some direction, and leave a small gap or overlap
            d = draw(st.integers(0, 360)) * math.pi / 180 if mode != 'corner' else draw(st.integers(0, 7)) * math.pi / 4
            gap = draw(st.sampled_from([1e-7, 1e-6, 1e-5, 1e-3, 0.01, 0.1, 0.5])) * draw(st.sampled_from([-1, 1]))
            b = beside(a, b, d, gap)
        elif mode == 'inside':
            f = draw(st.sampled_from([0.01, 0.1, 0.4]))
            m = np.mean(a, axis=0)
            b = [[float(m[0] + f * (x - b[0][0])), float(m[1] + f * (y - b[0][1]))] for x, y in b]
        f = draw(st.sampled_from([1.0, 1.0, 1.0, 100.0, 1e-3]))
        out.append([[[f * x, f * y] for x, y in a], [[f * x, f * y] for x, y in b]])
    return {'pairs': out}


def minkowski(a, b):
    """The points p such that b moved by p meets a."""
    return MultiPoint([(x - u, y - v) for x, y in a for u, v in b]).convex_hull


def beside(a, b, angle, gap):
    m = minkowski(a, b)
    u = (math.cos(angle), math.sin(angle))
    c = m.centroid
    ray = LineString([(c.x, c.y), (c.x + 1e3 * u[0], c.y + 1e3 * u[1])]).intersection(m.exterior)
    p = ray if ray.geom_type == 'Point' else Point(*ray.geoms[0].coords[0]) if hasattr(ray, 'geoms') else c
    return [[x + p.x + gap * u[0], y + p.y + gap * u[1]] for x, y in b]


def margin(a, b):
    """Signed: how far the polygons are apart (> 0) or how far one must move to part them (< 0)."""
    m = minkowski(a, b)
    d = m.exterior.distance(Point(0, 0))
    return -d if m.contains(Point(0, 0)) else d


def run_overlap(case, ctx):
    s = sat()
    groups = {}
    for a, b in case['pairs']:
        d = margin(a, b)
        size = float(max(np.max(np.abs(a)), np.max(np.abs(b))))
        if abs(d) < 1e-9 * size:
            ctx.label('too close to call')
            continue
        want = d < 0
        ctx.nt(abs(d) < 0.05 * size)
        ctx.label('overlap' if want else 'apart')
        for x, y in ((a, b), (b, a)):
            got = s.separating_axis_theorem(np.array(x), np.array(y))
            require(bool(got) == want, 'separating_axis_theorem says %s for polygons %s by %.3g', bool(got),
                    'that overlap' if want else 'apart', abs(d))
        require(bool(s.separating_axis_theorem([tuple(p) for p in a], [tuple(p) for p in b])) == want,
                'separating_axis_theorem on lists of points says otherwise')
        groups.setdefault((len(a), len(b)), []).append((a, b, want))
    for (na, nb), items in groups.items():
        pa, pb = np.array([i[0] for i in items]), np.array([i[1] for i in items])
        want = [i[2] for i in items]
        ka, kb = pa.copy(), pb.copy()
        got = [bool(v) for v in np.asarray(s.vec_separating_axis_theorem(pa, pb))]
        require(got == want, 'batch of %d polygons with %d and %d corners: %s instead of %s', len(items), na, nb, got, want)
        got = [bool(v) for v in np.asarray(s.vec_separating_axis_theorem(pb, pa))]
        require(got == want, 'batch (other way round) of polygons with %d and %d corners: %s instead of %s', nb, na, got,
                want)
        require(np.array_equal(ka, pa) and np.array_equal(kb, pb), 'the batch test changed its arguments')


@st.composite
def batches(draw):
    """Many pairs with one corner count each, so that the batched test sees real batches."""
    na, nb = draw(st.integers(3, 6)), draw(st.integers(3, 6))
    same = draw(st.booleans())
    if same:
        nb = na
    n = draw(st.integers(0, 8))
    out = []
    for _ in range(n):
        ab = []
        for k in (na, nb):
            r, e = draw(st.integers(1, 40)) / 10, draw(st.sampled_from([1.0, 1.0, 0.5, 0.1, 0.01]))
            a, x, y = draw(st.integers(0, 628)) / 100, draw(coord()) / 2, draw(coord()) / 2
            t = draw(st.integers(0, 628)) / 100
            p = [(r * math.cos(t + 2 * math.pi * i / k), e * r * math.sin(t + 2 * math.pi * i / k)) for i in range(k)]
            ab.append([[x + math.cos(a) * u - math.sin(a) * v, y + math.sin(a) * u + math.cos(a) * v] for u, v in p])
        if draw(st.booleans()):
            ab[1] = beside(ab[0], ab[1], draw(st.integers(0, 360)) * math.pi / 180,
                           draw(st.sampled_from([-1, 1])) * draw(st.sampled_from([1e-5, 1e-3, 0.05])))
        out.append(ab)
    return {'na': na, 'nb': nb, 'pairs': out}


def run_batch(case, ctx):
    s = sat()
    pairs_ = case['pairs']
    pa = np.array([p[0] for p in pairs_], dtype=float).reshape(len(pairs_), case['na'], 2)
    pb = np.array([p[1] for p in pairs_], dtype=float).reshape(len(pairs_), case['nb'], 2)
    got = np.asarray(s.vec_separating_axis_theorem(pa, pb))
    require(got.shape == (len(pairs_),), 'verdicts of a batch of %d have shape %s', len(pairs_), got.shape)
    ctx.nt(len(pairs_) > 1)
    for i, (a, b) in enumerate(pairs_):
        d = margin(a, b)
        if abs(d) < EPS:
            continue
        require(bool(got[i]) == (d < 0), 'item %d of the batch: says %s for polygons whose signed gap is %.3g', i,
                bool(got[i]), d)


@st.composite
def crowds(draw):
    return {'na': draw(st.integers(3, 6)), 'nb': draw(st.integers(3, 6)), 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'n': draw(st.one_of(st.integers(9, 60), st.integers(60, 700))), 'spread': draw(st.sampled_from([1.0, 3.0, 8.0])),
            'one': draw(st.sampled_from([0, 0, 1])), 'whole': draw(st.integers(0, 4)) == 0}


def run_crowd(case, ctx):
    """Large batches, as the motion check of many roadmap edges makes them, with repeated polygons and of integers."""
    s, n = sat(), case['n']
    rng = np.random.default_rng(case['seed'])

    def some(k):
        t = rng.uniform(0, 2 * np.pi, (n, 1)) + 2 * np.pi * np.arange(k) / k
        p = rng.uniform(0.2, 1.5, (n, 1, 1)) * np.stack([np.cos(t), rng.choice([1.0, 0.4, 0.05], (n, 1)) * np.sin(t)], -1)
        a = rng.uniform(0, 2 * np.pi, n)
        r = np.stack([np.stack([np.cos(a), -np.sin(a)], -1), np.stack([np.sin(a), np.cos(a)], -1)], 1)
        return np.einsum('nij,nkj->nki', r, p) + rng.uniform(-1, 1, (n, 1, 2)) * case['spread']
    a, b = some(case['na']), some(case['nb'])
    if case['whole']:       # right triangles on a grid
        a, b = (rng.integers(-6, 7, (n, 1, 2)) + np.array([[0, 0], [3, 0], [0, 2]]) for _ in range(2))
    if case['one']:         # one obstacle against many places of the robot
        b = np.tile(b[:1], (n, 1, 1))
    for _ in range(3):
        i, j = rng.integers(0, n, 2)
        a[i] = a[j]
    got = np.asarray(s.vec_separating_axis_theorem(a, b))
    require(got.shape == (n,), 'verdicts of a batch of %d have shape %s', n, got.shape)
    seen = set()
    for i in range(n):
        d = margin(a[i].tolist(), b[i].tolist())
        if abs(d) < EPS:
            continue
        seen.add(d < 0)
        require(bool(got[i]) == (d < 0), 'item %d of a batch of %d: says %s for polygons %s and %s whose signed gap is %.3g',
                i, n, bool(got[i]), a[i].tolist(), b[i].tolist(), d)
    ctx.nt(len(seen) == 2)


# ---- motions

@st.composite
def obstacle(draw):
    w, l = draw(st.integers(1, 60)) / 50, draw(st.integers(1, 60)) / 50
    if draw(st.integers(0, 2)) == 0:
        w = draw(st.sampled_from([0.02, 0.03, 0.05]))
    off = [0.0, 0.0] if draw(st.booleans()) else [draw(st.integers(-20, 20)) / 40, draw(st.integers(-20, 20)) / 40]
    yaw = draw(st.one_of(st.just(0.0), st.just(0.0), st.integers(-31, 31).map(lambda i: i / 10)))
    x, y = draw(st.integers(-100, 100)) / 50, draw(st.integers(-100, 100)) / 50
    return {'size': [w, l], 'off': off, 'yaw': yaw, 'at': [x, y]}


@st.composite
def motions(draw):
    obs = draw(st.lists(obstacle(), min_size=1, max_size=4))
    unit = draw(st.sampled_from([50, 50, 47.3]))
    robot = [draw(st.integers(1, 50)) / unit, draw(st.integers(1, 50)) / unit]
    roff = [0.0, 0.0] if draw(st.integers(0, 3)) else [draw(st.integers(-10, 10)) / 40, draw(st.integers(-10, 10)) / 40]
    moves = []
    for _ in range(draw(st.integers(0, 5))):
        kind = draw(st.sampled_from(['any', 'any', 'across', 'across', 'graze', 'still', 'into', 'tiny', 'tip', 'tip']))
        o = draw(st.integers(0, len(obs) - 1))
        a = draw(st.integers(0, 628)) / 100
        moves.append([kind, o, a, draw(st.integers(-300, 300)) / 100, draw(st.integers(-300, 300)) / 100,
                      draw(st.integers(1, 300)) / 100, draw(st.integers(-100, 100)) / 100])
    return {'obs': obs, 'robot': robot, 'roff': roff, 'moves': moves}


def obstacle_corners(o):
    c, s = math.cos(o['yaw']), math.sin(o['yaw'])
    out = []
    for sx, sy in ((-1, -1), (1, -1), (1, 1), (-1, 1)):
        x, y = o['off'][0] + sx * o['size'][0] / 2, o['off'][1] + sy * o['size'][1] / 2
        out.append((o['at'][0] + c * x - s * y, o['at'][1] + s * x + c * y))
    return out


def concrete(case, ms):
    """The motions, placed relative to the region M of robot positions that hit an obstacle."""
    starts, goals = [], []
    for kind, o, a, x, y, length, t in case['moves']:
        m = ms[o]
        c = m.centroid
        u = np.array([math.cos(a), math.sin(a)])
        n = np.array([-u[1], u[0]])
        mid = np.array([c.x, c.y])
        reach = max(np.dot(np.array(p) - mid, n) for p in m.exterior.coords)
        if kind == 'any':
            p, q = np.array([x, y]), np.array([x, y]) + length * u
        elif kind == 'still':
            p = mid + x * u
            q = p.copy()
        elif kind == 'tiny':
            p = mid + x * u
            q = p + 0.01 * length * n
        elif kind == 'tip':         # near one corner only, moving off or along
            vs = np.array(m.exterior.coords)[:-1]
            v = vs[int(abs(x) * 100) % len(vs)]
            out = (v - mid) / max(1e-9, float(np.linalg.norm(v - mid)))
            p = v - [0.3, 0.05, 0.004][int(abs(y) * 100) % 3] * t * out
            q = p + [0.0, 0.02, 0.2][int(length * 100) % 3] * length * (out if x > 0 else u)
            if y < 0:
                p, q = q, p
        elif kind == 'into':
            p, q = mid + (reach + 1) * u + 0.3 * x * n, mid + 0.2 * t * n
        elif kind == 'across':      # cuts off a corner or passes right through
            off = mid + t * reach * n
            p, q = off - (length + 0.3) * u, off + (length + 0.3) * u
        else:                       # passes close by, without touching or just touching
            gap = [1e-5, 1e-3, 0.02][int(abs(x) * 100) % 3] * (1 if y > 0 else -1)
            off = mid + (reach + gap) * n
            p, q = off - length * u, off + (length + 0.1) * u
        starts.append(p)
        goals.append(q)
    n = len(starts)
    return np.array(starts, dtype=float).reshape(n, 2), np.array(goals, dtype=float).reshape(n, 2)


def verdict(ms, p, q):
    """'reject', 'accept' or None (within what the resolution leaves open)."""
    clear = True
    for m, small in ms:
        for e in (p, q):
            if small.contains(Point(e)):
                return 'reject'
        if np.array_equal(p, q):
            if m.distance(Point(p)) <= EPS:
                clear = False
            continue
        seg = LineString([p, q])
        if m.distance(seg) <= EPS:
            clear = False
        cut = small.intersection(seg)
        if not cut.is_empty and cut.length > 0:
            if cut.length / seg.length * float(np.max(np.abs(q - p))) >= STEP + EPS:
                return 'reject'
    return 'accept' if clear else None


def build(case):
    import pybullet_tools.utils as pbu
    st_ = tamp.load('turtlebot', 'streams')
    oobbs = []
    for o in case['obs']:
        lo = [o['off'][i] - o['size'][i] / 2 for i in range(2)] + [-0.05]
        hi = [o['off'][i] + o['size'][i] / 2 for i in range(2)] + [0.05]
        oobbs.append(pbu.OOBB(pbu.AABB(np.array(lo), np.array(hi)),
                              pbu.Pose(pbu.Point(o['at'][0], o['at'][1], 0.05), pbu.Euler(yaw=o['yaw']))))
    r, f = case['robot'], case['roff']
    shape = pbu.AABB(np.array([f[0] - r[0] / 2, f[1] - r[1] / 2, 0.0]), np.array([f[0] + r[0] / 2, f[1] + r[1] / 2, 0.3]))
    env = st_.BagOfBoundingBoxes(seed=0, robot_shape=shape, obstacle_oobbs=oobbs, custom_limits={})
    rc = [(f[0] + sx * r[0] / 2, f[1] + sy * r[1] / 2) for sx in (-1, 1) for sy in (-1, 1)]
    ms = [minkowski(obstacle_corners(o), rc) for o in case['obs']]
    return env, [(m, m.buffer(-EPS)) for m in ms], ms


def run_motion(case, ctx):
    with tamp.quiet():
        env, ms, raw = build(case)
    starts, goals = concrete(case, raw)
    ks, kg = starts.copy(), goals.copy()
    with tamp.quiet():
        got = np.asarray(env.is_motion_valid(starts, goals))
        again = np.asarray(env.is_motion_valid(starts, goals))
        alone = [bool(np.asarray(env.is_motion_valid(starts[i:i + 1], goals[i:i + 1]))[0]) for i in range(len(starts))]
    require(got.shape == (len(starts),), 'a batch of %d motions got verdicts of shape %s', len(starts), got.shape)
    require(np.array_equal(ks, starts) and np.array_equal(kg, goals), 'the motion check changed its arguments')
    require(np.array_equal(got, again), 'the same batch got two verdicts: %s and %s', got.tolist(), again.tolist())
    for i in range(len(starts)):
        v = verdict(ms, starts[i], goals[i])
        ctx.label(str(v))
        if v is None:
            continue
        ctx.nt(case['moves'][i][0] in ('across', 'graze', 'into', 'tip'))
        for who, g in (('in the batch', bool(got[i])), ('alone', alone[i])):
            require(g == (v == 'accept'), 'motion %d from %s to %s (%s) was %s, must be %s', i, starts[i].tolist(),
                    goals[i].tolist(), who, 'accepted' if g else 'rejected', v + 'ed')


@st.composite
def halls(draw):
    return {'seed': draw(st.integers(0, 2 ** 31 - 1)), 'n': draw(st.integers(10, 300)), 'n_obs': draw(st.integers(3, 30)),
            'robot': [draw(st.integers(1, 30)) / 47.3, draw(st.integers(1, 30)) / 47.3],
            'batches': draw(st.lists(st.sampled_from([1, 2, 7, 40]), max_size=3)), 'reach': draw(st.sampled_from([0.1, 0.6, 2.5])), 'last': draw(st.booleans())}


def run_hall(case, ctx):
    """Many motions among many obstacles: in one batch, and parts of it again in batches of other sizes."""
    rng = np.random.default_rng(case['seed'])
    obs = [{'size': rng.uniform(0.05, 0.8, 2).tolist(), 'off': (rng.uniform(-.3, .3, 2) * rng.integers(0, 2)).tolist(),
            'yaw': float(rng.choice([0.0, rng.uniform(-3, 3)])), 'at': rng.uniform(-2.5, 2.5, 2).tolist()}
           for _ in range(case['n_obs'])]
    n = case['n']
    with tamp.quiet():
        env, ms, _ = build({'obs': obs, 'robot': case['robot'], 'roff': [0.0, 0.0]})
    starts = rng.uniform(-3, 3, (n, 2))
    goals = starts + rng.uniform(-1, 1, (n, 2)) * case['reach']
    if case['last']:        # the longest ones at one end
        goals[-8:] = starts[-8:] + rng.uniform(-1, 1, goals[-8:].shape) * 3
    want = [verdict(ms, p, q) for p, q in zip(starts, goals)]
    ctx.nt('accept' in want and 'reject' in want)
    rounds = [(np.arange(n))] + [rng.integers(0, n, k) for k in case['batches']] + [np.arange(n)[::-1]]
    for idx in rounds:
        with tamp.quiet():
            got = np.asarray(env.is_motion_valid(starts[idx], goals[idx]))
        require(got.shape == (len(idx),), 'a batch of %d motions got verdicts of shape %s', len(idx), got.shape)
        for g, i in zip(got, idx):
            require(want[i] is None or bool(g) == (want[i] == 'accept'), 'motion from %s to %s in a batch of %d was %s, must '
                    'be %sed', starts[i].tolist(), goals[i].tolist(), len(idx), 'accepted' if g else 'rejected', want[i])


SUBS = [
    Sub('overlap', pairs(), run_overlap, quick=4000),
    Sub('batched overlap', batches(), run_batch, quick=2500),
    Sub('motions', motions(), run_motion, quick=2500),
    Sub('large batches', crowds(), run_crowd, quick=160, thorough=4000),
    Sub('many motions', halls(), run_hall, quick=160, thorough=4000),
]
