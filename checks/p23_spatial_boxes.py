# PY: venv
# STUBS: core scipylite tamp
"""P23: the oriented-box overlap test and the arm domain's motion check."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import tamp
from vlib.core import Sub, require

ID = 'P23'
EPS = 1e-7
STEP = 0.03


def angle():
    return st.one_of(st.sampled_from([0.0, 0.0, math.pi / 2, -math.pi / 2, math.pi / 4, math.pi]),
                     st.integers(-314, 314).map(lambda i: i / 100), st.integers(-9, 9).map(lambda i: i / 10 ** 6))


def rotation(e):
    import tampworld as tw
    return tw.matrix(tw.from_euler(e))


@st.composite
def box(draw, big=2.0):
    half = [draw(st.one_of(st.integers(1, 100).map(lambda i: big * i / 100), st.sampled_from([0.005, 0.001, 0.03])))
            for _ in range(3)]
    return {'c': [draw(st.one_of(st.integers(-3, 3).map(float), st.integers(-3000, 3000).map(lambda i: i / 1000)))
                  for _ in range(3)], 'h': half, 'e': [draw(angle()) for _ in range(3)]}


@st.composite
def box_pairs(draw):
    out = []
    for _ in range(draw(st.integers(0, 6))):
        a, b = draw(box()), draw(box())
        mode = draw(st.sampled_from(['any', 'near', 'near', 'near', 'edges', 'rods', 'rods', 'same-turn', 'inside']))
        if mode == 'same-turn':
            b['e'] = list(a['e'])
        if mode == 'rods':      # long, standing on an edge, crossing at a small angle
            yaw = draw(angle())
            for x, turn in ((a, 0), (b, draw(st.sampled_from([-1, 1])) * draw(st.integers(1, 200)) / 1000)):
                w = draw(st.integers(1, 30)) / 100
                x['h'] = [draw(st.integers(5, 30)) / 10, w, w * draw(st.sampled_from([1.0, 0.7]))]
                x['e'] = [math.pi / 4 + draw(st.integers(-9, 9)) / 100, 0.0, yaw + turn]
        u = [draw(st.integers(-100, 100)) / 100 for _ in range(3)]
        out.append([a, b, mode, u, draw(st.sampled_from([-0.1, -1e-3, -1e-5, 1e-5, 1e-3, 0.02, 0.1])),
                    0 if mode == 'rods' else draw(st.integers(0, 2)), 0 if mode == 'rods' else draw(st.integers(0, 2))])
    return {'pairs': out}


def as_box(b):
    return np.array(b['c'], dtype=float), np.array(b['h'], dtype=float), rotation(b['e'])


def place(item):
    """The two boxes of a case: the second is moved along a direction until the gap is (about) the wanted one."""
    a, b, mode, u, gap, i, j = item
    a, b = as_box(a), as_box(b)
    if mode == 'any':
        return a, b
    if mode == 'inside':
        return a, (a[0] + 0.3 * np.array(u) * a[1].min(), b[1] * 0.05, b[2])
    d = np.array(u)
    if mode in ('edges', 'rods'):     # approach along the direction that only the two crossing edges separate
        d = np.cross(a[2][:, i], b[2][:, j])
    if np.linalg.norm(d) < 1e-3:
        d = np.array([1.0, 0.0, 0.0])
    d = d / np.linalg.norm(d)
    lo, hi = 0.0, 2 * (np.linalg.norm(a[1]) + np.linalg.norm(b[1])) + 1
    for _ in range(50):
        mid = (lo + hi) / 2
        if tamp.boxes_meet(a, (a[0] + mid * d, b[1], b[2])):
            lo = mid
        else:
            hi = mid
    return a, (a[0] + (hi + gap) * d, b[1], b[2])


def run_overlap(case, ctx):
    s = tamp.load('kuka', 'separating_axis')
    import pybullet_tools.utils as pbu
    items = [place(i) for i in case['pairs']]
    n = len(items)
    vec = [[], []]
    for pair in items:
        for k in (0, 1):
            c, h, r = pair[k]
            vec[k].append(s.OBB(center=c, half_extents=h, orientation=r).to_vectorized())
    a = np.array(vec[0], dtype=float).reshape(n, 15)
    b = np.array(vec[1], dtype=float).reshape(n, 15)
    ka, kb = a.copy(), b.copy()
    got = np.asarray(s.separating_axis_theorem(a, b))
    back = np.asarray(s.separating_axis_theorem(b, a))
    require(got.shape == (n,) and back.shape == (n,), 'verdicts of %d pairs have shape %s', n, got.shape)
    require(np.array_equal(a, ka) and np.array_equal(b, kb), 'the overlap test changed its arguments')
    for i, (p, q) in enumerate(items):
        want = True if tamp.boxes_meet(p, q, -EPS) else False if not tamp.boxes_meet(p, q, EPS) else None
        ctx.label(str(want))
        if want is None:
            continue
        ctx.nt(case['pairs'][i][2] in ('near', 'edges', 'rods', 'same-turn') and n > 1)
        require(bool(got[i]) == want and bool(back[i]) == want,
                'pair %d: says %s (swapped: %s) for boxes %s', i, bool(got[i]), bool(back[i]),
                'that overlap' if want else 'apart')
    # an oriented box made from an extent and a pose is the box with that extent and pose
    for (c, h, r), item in zip([p for pr in items for p in pr], [x for it in case['pairs'] for x in it[:2]]):
        o = s.OBB.from_oobb(pbu.OOBB(pbu.AABB(-h, h), pbu.Pose(pbu.Point(*c), pbu.Euler(*item['e']))))
        v = o.to_vectorized()
        require(np.allclose(v, np.concatenate([c, h, r.flatten()]), atol=1e-9), 'the box of pose %s and half extents %s is %s',
                item['c'], item['h'], v.tolist())


@st.composite
def crowds(draw):
    return {'seed': draw(st.integers(0, 2 ** 31 - 1)), 'n': draw(st.one_of(st.integers(7, 60), st.integers(60, 900))),
            'turned': draw(st.sampled_from(['all', 'all', 'some', 'none'])), 'one': draw(st.sampled_from([0, 0, 1])),
            'spread': draw(st.sampled_from([0.7, 1.5, 3.0])), 'thin': draw(st.sampled_from([0.0, 0.3]))}


def some_boxes(rng, n, spread, turned, thin, size=1.0):
    c, h = rng.uniform(-1, 1, (n, 3)) * spread, rng.uniform(0.05, 1.0, (n, 3)) * size
    h = np.where(rng.uniform(0, 1, (n, 3)) < thin, 0.004, h)
    e = rng.uniform(-3, 3, (n, 3))
    if turned == 'none':
        e[:] = 0
    elif turned == 'some':
        e = np.where(rng.uniform(0, 1, (n, 3)) < 0.6, 0.0, e)
    return c, h, np.array([rotation(x) for x in e])


def run_crowd(case, ctx):
    """Large batches, as the motion check of many roadmap edges makes them, with repeated boxes."""
    s = tamp.load('kuka', 'separating_axis')
    rng, n = np.random.default_rng(case['seed']), case['n']
    a, b = (some_boxes(rng, n, case['spread'], case['turned'], case['thin']) for _ in range(2))
    if case['one']:
        a = tuple(np.repeat(x[:1], n, axis=0) for x in a)
    for _ in range(3):
        i, j = rng.integers(0, n, 2)
        for x in b:
            x[i] = x[j]
    va, vb = (np.concatenate([c, h, r.reshape(n, 9)], axis=1) for c, h, r in (a, b))
    got = np.asarray(s.separating_axis_theorem(va, vb))
    require(got.shape == (n,), 'verdicts of %d pairs have shape %s', n, got.shape)
    sure, maybe = tamp.boxes_meet_many(a, b, -EPS), tamp.boxes_meet_many(a, b, EPS)
    bad = np.where((sure & ~got.astype(bool)) | (~maybe & got.astype(bool)))[0]
    require(not len(bad), 'pair %s of a batch of %d: says %s, boxes %s and %s', bad[:1].tolist(), n,
            bool(got[bad[0]]) if len(bad) else None, va[bad[:1]].tolist(), vb[bad[:1]].tolist())
    ctx.nt(bool(sure.any() and (~maybe).any()))


# ---- motions

@st.composite
def motions(draw):
    obs = []
    for _ in range(draw(st.integers(1, 3))):
        o = draw(box(0.3))
        o['c'] = [draw(st.integers(-60, 60)) / 100 for _ in range(3)]
        obs.append(o)
    body = [draw(st.integers(1, 40)) / 200 for _ in range(3)]
    if draw(st.integers(0, 3)) == 0:        # a rod
        body = [0.01, 0.015, 0.012]
        body[draw(st.integers(0, 2))] = draw(st.integers(15, 40)) / 100
    moves = []
    for _ in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(['any', 'across', 'across', 'graze', 'turn', 'turn', 'swing', 'swing', 'still', 'tip', 'far']))
        moves.append([kind, draw(st.integers(0, len(obs) - 1)), [draw(st.integers(-100, 100)) / 100 for _ in range(9)],
                      draw(st.sampled_from([0, 0, 1, 1, 2]))])
    return {'obs': obs, 'body': body, 'moves': moves}


def concrete(case):
    obs = [as_box(o) for o in case['obs']]
    body = np.array(case['body'])
    S, G = [], []
    for kind, o, f, turn in case['moves']:
        f = np.array(f)
        c, h, r = obs[o]
        e0 = f[6:9] * (0.0 if turn == 0 else 0.5)
        e1 = e0 + (f[3:6] * 0.8 if turn == 2 else 0.0)
        d = f[:3] / max(np.linalg.norm(f[:3]), 1e-3)
        n = np.cross(d, f[3:6] + np.array([0.01, 0.02, 0.03]))
        n = n / max(np.linalg.norm(n), 1e-9)
        if kind == 'any':
            p, q = f[:3] * 0.6, f[3:6] * 0.6
        elif kind == 'still':
            p = c + f[:3] * 0.5
            q, e1 = p.copy(), e0
        elif kind == 'turn':      # mostly a rotation near an obstacle
            p = c + d * (np.linalg.norm(h) * abs(f[8]) + np.min(body) + 0.02)
            q, e1 = p + 0.01 * f[3:6], e0 + f[3:6]
        elif kind == 'swing':     # turns (almost) in place, with a far end at the obstacle halfway
            e1, e0 = e0 + f[3:6], e0 - f[3:6]
            arm = np.zeros(3)
            arm[int(np.argmax(body))] = max(body) * (0.9 if f[0] > 0 else -0.9)
            p = c + 0.2 * f[:3] * h - rotation((e0 + e1) / 2) @ arm
            q = p + 0.01 * f[:3]
        elif kind == 'across':
            off = c + f[6] * n * (np.linalg.norm(h) + np.linalg.norm(body)) * 0.8
            p, q = off - d * 0.4, off + d * 0.4
        elif kind == 'far':       # a long way past or through the obstacle
            off = c + f[6] * n * (np.linalg.norm(h) + np.linalg.norm(body)) * 0.8
            p, q = off - d * (0.5 + 2.5 * abs(f[7])), off + d * (0.5 + 2.5 * abs(f[8]))
        elif kind == 'tip':       # ends just inside or just outside
            p, q = c + d * (np.linalg.norm(h) + np.linalg.norm(body) + 0.2), c + d * (abs(f[7]) * np.linalg.norm(h))
        else:
            lo, hi = 0.0, 3.0
            for _ in range(40):
                mid = (lo + hi) / 2
                at = (c + mid * n, body, rotation(e0))
                lo, hi = (mid, hi) if tamp.boxes_meet(at, (c, h, r)) else (lo, mid)
            off = c + (hi + [-0.01, 1e-4, 0.005, 0.05][int(abs(f[8]) * 100) % 4]) * n
            p, q = off - 0.3 * d, off + 0.3 * d
        S.append(np.concatenate([p, e0]))
        G.append(np.concatenate([q, e1]))
    m = len(S)
    return np.array(S, dtype=float).reshape(m, 6), np.array(G, dtype=float).reshape(m, 6), obs


def verdict(body, obs, s, g):
    """'reject' | 'accept' | None, following the motion much more finely than the resolution."""
    import tampworld as tw
    norm = float(np.linalg.norm(s - g))
    q0, q1 = tw.from_euler(s[3:]), tw.from_euler(g[3:])
    theta = 2 * math.acos(min(1.0, abs(float(np.dot(tw.unit_quat(q0), tw.unit_quat(q1))))))
    k = max(1, int(math.ceil(norm / 0.003)))
    fr = np.arange(k + 1) / k
    cen = s[None, :3] + fr[:, None] * (g - s)[None, :3]
    rot = np.array([tw.matrix(tw.slerp(q0, q1, float(x))) for x in fr])
    half = np.tile(body, (k + 1, 1))
    slack = (float(np.linalg.norm((g - s)[:3])) + float(np.linalg.norm(body)) * theta) / k
    clear = True
    for c, h, r in obs:
        other = (np.tile(c, (k + 1, 1)), np.tile(h, (k + 1, 1)), np.tile(r, (k + 1, 1, 1)))
        ends = tamp.boxes_meet_many((cen[[0, -1]], half[:2], rot[[0, -1]]), tuple(x[:2] for x in other), -EPS)
        if np.any(ends):
            return 'reject'
        sure = tamp.boxes_meet_many((cen, half, rot), other, -slack - EPS)
        run = best = 0
        for x in sure:
            run = run + 1 if x else 0
            best = max(best, run)
        if best > 1 and (best - 1) / k * norm >= STEP + EPS:
            return 'reject'
        if np.any(tamp.boxes_meet_many((cen, half, rot), other, slack + EPS)):
            clear = False
    return 'accept' if clear else None


def run_motion(case, ctx):
    import pybullet_tools.utils as pbu
    run = tamp.load('kuka', 'run')
    S, G, obs = concrete(case)
    body = np.array(case['body'])
    aabb = pbu.AABB(-body, body)
    oobbs = [pbu.OOBB(pbu.AABB(-h, h), pbu.Pose(pbu.Point(*c), pbu.Euler(*o['e'])))
             for (c, h, r), o in zip(obs, case['obs'])]
    start = pbu.OOBB(aabb, pbu.Pose(pbu.Point(*(S[0][:3] if len(S) else (0, 0, 0)))))
    with tamp.quiet():
        env = run.BagOfBoundingBoxes(seed=0, start_oobb=start, end_oobb=start, obstacle_oobbs=oobbs, theta_margin=0.3)
        ks, kg = S.copy(), G.copy()
        got = np.asarray(env.is_motion_valid(S, G))
        again = np.asarray(env.is_motion_valid(S, G))
        alone = [bool(np.asarray(env.is_motion_valid(S[i:i + 1], G[i:i + 1]))[0]) for i in range(len(S))]
    require(got.shape == (len(S),), 'a batch of %d motions got verdicts of shape %s', len(S), got.shape)
    require(np.array_equal(ks, S) and np.array_equal(kg, G), 'the motion check changed its arguments')
    require(np.array_equal(got, again), 'the same batch got two verdicts')
    for i in range(len(S)):
        v = verdict(body, obs, S[i], G[i])
        ctx.label(str(v))
        if v is None:
            continue
        ctx.nt(case['moves'][i][0] not in ('any', 'still'))
        for who, g in (('in the batch', bool(got[i])), ('alone', alone[i])):
            require(g == (v == 'accept'), 'motion %d from %s to %s (%s) was %s, must be %s', i, S[i].tolist(),
                    G[i].tolist(), who, 'accepted' if g else 'rejected', v + 'ed')


@st.composite
def halls(draw):
    return {'seed': draw(st.integers(0, 2 ** 31 - 1)), 'n': draw(st.one_of(st.integers(5, 60), st.integers(5, 60), st.integers(200, 700))), 'n_obs': draw(st.integers(3, 14)),
            'body': [draw(st.integers(1, 40)) / 200 for _ in range(3)], 'turned': draw(st.sampled_from(['all', 'some', 'none'])),
            'reach': draw(st.sampled_from([0.02, 0.1, 0.4, 2.5])), 'batches': draw(st.lists(st.sampled_from([1, 2, 9]), max_size=2))}


def run_hall(case, ctx):
    """Many motions among many obstacles: in one batch, and parts of it again in batches of other sizes."""
    import pybullet_tools.utils as pbu
    import tampworld as tw
    run = tamp.load('kuka', 'run')
    rng, n = np.random.default_rng(case['seed']), case['n']
    e = rng.uniform(-3, 3, (case['n_obs'], 3)) * {'all': 1, 'none': 0}.get(case['turned'], rng.integers(0, 2, (case['n_obs'], 3)))
    obs = [(rng.uniform(-.8, .8, 3), rng.uniform(0.01, 0.2, 3), tw.matrix(tw.from_euler(x))) for x in e]
    body = np.array(case['body'])
    aabb = pbu.AABB(-body, body)
    S = np.concatenate([rng.uniform(-1, 1, (n, 3)), rng.uniform(-1, 1, (n, 3)) * rng.integers(0, 2, (n, 1))], axis=1)
    G = S + rng.uniform(-1, 1, (n, 6)) * min(case['reach'], 0.1 if n > 60 else 9) * np.array([1, 1, 1, .7, .7, .7])
    if n > 60:      # the longest ones at one end
        G[-24:] = S[-24:] + rng.uniform(-1, 1, (24, 6)) * case['reach'] * np.array([1, 1, 1, .1, .1, .1])
    oobbs = [pbu.OOBB(pbu.AABB(-h, h), pbu.Pose(pbu.Point(*c), pbu.Euler(*x))) for (c, h, r), x in zip(obs, e)]
    start = pbu.OOBB(aabb, pbu.Pose(pbu.Point(*S[0][:3])))
    with tamp.quiet():
        env = run.BagOfBoundingBoxes(seed=0, start_oobb=start, end_oobb=start, obstacle_oobbs=oobbs, theta_margin=0.3)
    judged = set(range(n)) if n <= 60 else set(rng.integers(0, n, 30).tolist()) | set(range(n - 24, n))
    want = [verdict(body, obs, S[i], G[i]) if i in judged else None for i in range(n)]
    ctx.nt('accept' in want and 'reject' in want)
    for idx in [np.arange(n)] + [rng.integers(0, n, k) for k in case['batches']] + [np.arange(n)[::-1]]:
        with tamp.quiet():
            got = np.asarray(env.is_motion_valid(S[idx], G[idx]))
        require(got.shape == (len(idx),), 'a batch of %d motions got verdicts of shape %s', len(idx), got.shape)
        for g, i in zip(got, idx):
            require(want[i] is None or bool(g) == (want[i] == 'accept'), 'motion from %s to %s in a batch of %d was %s, must '
                    'be %sed', S[i].tolist(), G[i].tolist(), len(idx), 'accepted' if g else 'rejected', want[i])


SUBS = [
    Sub('overlap', box_pairs(), run_overlap, quick=2400),
    Sub('motions', motions(), run_motion, quick=800),
    Sub('large batches', crowds(), run_crowd, quick=1600, thorough=40000),
    Sub('many motions', halls(), run_hall, quick=80, thorough=2000),
]
