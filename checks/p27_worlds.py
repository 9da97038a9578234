# PY: venv
# STUBS: core scipylite tamp
"""P27: the constructed worlds have the geometry they advertise."""
import random

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import Point as SPoint, Polygon, box as sbox
from shapely.ops import unary_union

from vlib import gen, tamp
from vlib.core import Sub, require

ID = 'P27'
BOT = 0.179


def fresh(seed=0):
    import tampworld as tw
    tw.W.reset()
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    return tw


def bounds(centre, half, rot):
    ext = np.abs(rot) @ half
    return np.concatenate([centre - ext, centre + ext])


def oobb_bounds(tw, oobb):
    """(lower, upper) in the world of an oriented box, given as local extents and a pose."""
    aabb, pose = oobb
    lo, hi = np.asarray(aabb[0], dtype=float), np.asarray(aabb[1], dtype=float)
    at = tw.compose(pose, (tuple((lo + hi) / 2), (0., 0., 0., 1.)))
    return bounds(np.asarray(at[0]), (hi - lo) / 2, tw.matrix(at[1]))


# ---- hollow boxes

SIDES = {'tray': [{-1, 1}, {-1, 1}, {-1}], 'bin': [{-1, 1}, {-1, 1}, {-1}], 'cubby': [{-1}, {-1, 1}, {-1, 1}],
         'fence': [{-1, 1}, {-1, 1}, set()], 'x_walls': [{-1, 1}, set(), {-1}], 'y_walls': [set(), {-1, 1}, {-1}]}


@st.composite
def hollows(draw):
    size = lambda: draw(st.one_of(st.integers(2, 40).map(lambda i: i / 20.0), st.floats(0.1, 2.0)))  # noqa: E731
    w, l, h = size(), size(), size()
    t = draw(st.floats(0.01, 0.9)) * min(w, l, h) if draw(st.booleans()) else 0.01
    sides = [draw(st.lists(st.sampled_from([-1, 1]), max_size=2, unique=True)) for _ in range(3)]
    return {'w': w, 'l': l, 'h': h, 't': t, 'sides': sides, 'category': draw(st.sampled_from([None] + sorted(SIDES))),
            'defaults': draw(st.integers(0, 9)) == 0}


def expected_walls(sides, w, l, h, t):
    lo, hi = np.array([-w / 2, -l / 2, 0.0]), np.array([w / 2, l / 2, h])
    out = {}
    for k in range(3):
        for s in sides[k]:
            a, b = lo.copy(), hi.copy()
            if s < 0:
                b[k] = lo[k] + t
            else:
                a[k] = hi[k] - t
            out[k, s] = np.concatenate([a, b])
    return out


def match(got, want, what):
    """Each wanted wall is there exactly once, and nothing else."""
    left = dict(want)
    for g in got:
        hit = [k for k, v in left.items() if np.max(np.abs(v - g)) < 1e-9]
        require(hit, '%s: a box from %s to %s stands where no wall is asked for', what, g[:3].round(6), g[3:].round(6))
        del left[hit[0]]
    require(not left, '%s: no wall on the sides %s', what, sorted(left))


def run_hollow(case, ctx):
    run = tamp.load('kuka', 'run')
    tw = fresh()
    import pybullet_tools.utils as pbu
    w, l, h, t = (case[k] for k in 'wlht')
    if case['defaults']:
        w, l, h, t = 0.30, 0.4, 0.15, 0.01
        kw = {}
    else:
        kw = dict(width=w, length=l, height=h, thickness=t)
    body = None
    with tamp.quiet():
        if case['category'] is None:
            sides = [list(s) for s in case['sides']]
            shapes, oobbs = run.create_hollow_shapes(sides, **kw)
            if shapes:
                _, geoms, poses = zip(*shapes)
                body = run.create_link_body(geoms, poses)
        else:
            sides = SIDES[case['category']]
            body, oobbs = run.create_hollow(case['category'], pbu.GREY, **kw)
            shapes = None
    want = expected_walls(sides, w, l, h, t)
    obst = [oobb_bounds(tw, o) for o in oobbs]
    match(obst, want, 'obstacle boxes')
    links = [[] if body is None else tw.W.bodies[body].shapes.get(i, []) for i in range(len(want))]
    if body is not None:
        require(len(tw.W.bodies[body].shapes) == len(want), 'the body has %d pieces for %d sides',
                len(tw.W.bodies[body].shapes), len(want))
        pose = tw.W.bodies[body].pose
        for i, pieces in enumerate(links):
            require(len(pieces) == 1, 'piece %d is missing', i)
            half, p, q = pieces[0]
            at = tw.compose(pose, (p, q))
            b = bounds(np.asarray(at[0]), np.asarray(half), tw.matrix(at[1]))
            require(np.max(np.abs(b - obst[i])) < 1e-9, 'obstacle box %d spans %s, but the piece of geometry it stands '
                    'for spans %s', i, obst[i].round(6), b.round(6))
    ctx.label(case['category'] or '%d sides' % len(want))
    ctx.nt(not case['defaults'] and len(want) > 1)


# ---- the arm's world

@st.composite
def arm_worlds(draw):
    return {'gap': draw(st.one_of(st.sampled_from([0.03, 0.04, 0.06]), st.floats(0.021, 0.3))), 'seed': draw(gen.seeds())}


def run_arm_world(case, ctx):
    run = tamp.load('kuka', 'run')
    tw = fresh(case['seed'])
    gap = case['gap']
    with tamp.quiet():
        robot, names, movable, oobbs, fixed, links = run.load_world(min_gap=gap)
    W = tw.W
    bins = [b for b in fixed if 'sink' in names[b]]
    require(set(names) == set(W.bodies) - {robot}, 'the bodies %s are named, %s exist', sorted(names), sorted(W.bodies))
    require(len(bins) == len(oobbs) and len(bins) >= len(movable), '%d bins, %d sets of obstacle boxes, %d objects',
            len(bins), len(oobbs), len(movable))
    require(robot not in fixed and not set(movable) & set(fixed), 'what moves is listed as fixed')
    require(any('stove' in names[b] for b in fixed), 'there is no stove')
    side = 0.06 + gap
    outer = []
    for b, obs in zip(bins, oobbs):
        walls = [bounds(*x) for x in tw.boxes_of(b)]
        obs = [oobb_bounds(tw, o) for o in obs]
        require(len(walls) == len(obs) and all(np.max(np.abs(a - c)) < 1e-9 for a, c in zip(walls, obs)),
                'the obstacle boxes of bin %s are not its walls', names[b])
        lo, hi = np.min(walls, axis=0)[:3], np.max(walls, axis=0)[3:]
        require(np.max(np.abs(hi[:2] - lo[:2] - side)) < 1e-9, 'bin %s measures %s instead of %s', names[b], hi - lo, side)
        match([x - np.concatenate([(lo + hi) / 2 * [1, 1, 0] + [0, 0, lo[2]]] * 2) for x in walls],
              expected_walls(SIDES['bin'], side, side, hi[2] - lo[2], 0.01), 'bin %s' % names[b])
        outer.append((lo, hi))
        # the link that objects are placed on is the bottom plate
        plate = tw.body_aabb(b, links[b])
        require(np.allclose(plate[0], lo) and np.allclose(plate[1], [hi[0], hi[1], lo[2] + 0.01]),
                'objects for bin %s are placed on the piece from %s to %s', names[b], plate[0], plate[1])
    for i in range(len(outer)):
        for j in range(i):
            over = np.minimum(outer[i][1], outer[j][1]) - np.maximum(outer[i][0], outer[j][0])
            require(np.min(over) < 1e-9, 'bins %s and %s overlap', names[bins[i]], names[bins[j]])
    stove = next(b for b in fixed if 'stove' in names[b])
    top = tw.body_aabb(stove)
    widths = []
    for o in movable:
        a = tw.body_aabb(o)
        widths.append(max((a[1] - a[0])[:2]))
        require(np.all(a[0][:2] >= top[0][:2] - 1e-6) and np.all(a[1][:2] <= top[1][:2] + 1e-6)
                and abs(a[0][2] - top[1][2]) < 0.01, 'object %s does not stand on the stove', names[o])
        ctx.label('object')
    for o in movable:
        half = [x[1] for x in tw.boxes_of(o)][0]
        require(2 * max(half[:2]) <= side - 0.02 + 1e-9, 'object %s of width %s does not fit a bin', names[o], 2 * max(half[:2]))
        for b in list(movable) + list(fixed):
            if b != o:
                require(not any(tamp.boxes_meet(x, y, grow=-1e-9) for x in tw.boxes_of(o) for y in tw.boxes_of(b)),
                        'objects %s and %s overlap', names[o], names[b])
    ctx.nt(gap not in (0.03, 0.04, 0.06))


# ---- the turtlebot's worlds

@st.composite
def hallways(draw):
    s = draw(st.one_of(st.sampled_from([0.2, 0.3]), st.floats(0.05, 0.7)))
    d = draw(st.one_of(st.sampled_from([0.01, 0.05, 0.1, 0.2]), st.floats(0.01, 0.25)))
    return {'kind': draw(st.sampled_from(['hallway', 'hallway_manip', 'hallway_manip'])), 'scale': s, 'dd': d,
            'n': draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 9))), 'seed': draw(gen.seeds())}


def footprint(tw, b):
    """The union of a box's rectangles in the plane, and its vertical span."""
    polys, lo, hi = [], np.inf, -np.inf
    for c, h, r in tw.boxes_of(b):
        polys.append(Polygon([tuple((c + r @ (np.array([sx, sy, 0]) * h))[:2]) for sx, sy in
                              ((-1, -1), (1, -1), (1, 1), (-1, 1))]))
        lo, hi = min(lo, c[2] - h[2]), max(hi, c[2] + h[2])
    return unary_union(polys), lo, hi


def walls_of(tw, prob, height):
    """The union of the obstacles; every standing body except robot and targets must be one of them."""
    free = set(prob.targets) | {prob.rover}
    polys = []
    for b in sorted(tw.W.bodies):
        if b in free:
            continue
        poly, lo, hi = footprint(tw, b)
        if hi < 0.02:
            require(b not in prob.obstacles, 'a floor is an obstacle')
            continue
        require(lo < 0.01 and hi >= height - 1e-9, 'the obstacle %s hovers from %s to %s', b, lo, hi)
        require(b in prob.obstacles, 'the wall at %s is not listed as an obstacle', poly.bounds)
        polys.append(poly)
    require(len(polys) == len(set(prob.obstacles)), 'obstacles without a body: %s', prob.obstacles)
    return unary_union(polys)


def region(walls, radius, at):
    """Where the centre of a disc of the given radius can go from a point; None when it does not fit there."""
    hit = walls.buffer(radius, quad_segs=24)
    free = sbox(-50, -50, 50, 50).difference(hit)
    parts = list(free.geoms) if hasattr(free, 'geoms') else [free]
    p = SPoint(*at)
    for part in parts:
        if part.contains(p):
            return part
    return None


def passes(walls, radius, a, b):
    part = region(walls, radius, a)
    return part is not None and part.contains(SPoint(*b))


def run_hallway(case, ctx):
    problems = tamp.load('turtlebot', 'problems')
    tw = fresh(case['seed'])
    s, d = case['scale'], case['dd']
    r = BOT * s
    manip = case['kind'] == 'hallway_manip'
    with tamp.quiet():
        if manip:
            prob = problems.hallway_manip(robot_scale=s, dd=d, num_target=case['n'])
        else:
            prob = problems.hallway(robot_scale=s, dd=d)
    walls = walls_of(tw, prob, 0.1)
    start = tuple(prob.init_conf.values[:2])
    require(np.allclose(tw.W.bodies[prob.rover].pose[0][:2], start), 'the robot is at %s, not at its first configuration %s',
            tw.W.bodies[prob.rover].pose[0], start)
    # the world is closed, and is its own mirror image
    inside = region(walls, 1e-4, start)
    require(inside is not None, 'the robot starts inside a wall')
    x0, y0, x1, y1 = inside.bounds
    require(max(abs(x0), x1) < 10 and y1 - y0 < 10, 'the rooms are not closed: one gets out as far as %s', inside.bounds)
    length = 1.5 if manip else 1.0
    mid = length / 2
    from shapely.affinity import scale as flip
    for name, f in (('left and right', (-1, 1)), ('up and down', (1, -1))):
        other = flip(inside, f[0], f[1], origin=(0, mid))
        require(inside.symmetric_difference(other).area < 1e-6, 'the rooms are not mirror images of each other (%s)', name)
    require(start[0] < -1.5 and region(walls, r, start) is not None, 'the robot does not fit where it starts, %s', start)
    far = (-start[0], start[1])
    require(inside.contains(SPoint(*far)), 'the other room cannot be reached')
    # rooms and hallway have the stated size
    for x, want in ((-1.5 - length / 2, length - 0.1), (1.5 + length / 2, length - 0.1)):
        line = inside.intersection(sbox(x - 1e-6, -10, x + 1e-6, 10))
        require(abs(line.bounds[3] - line.bounds[1] - want) < 1e-3, 'a room is %s deep at x=%s instead of %s',
                line.bounds[3] - line.bounds[1], x, want)
    if manip:
        sizes = prob.target_sizes
        require(len(prob.targets) == case['n'] == len(prob.target_init_poses) == len(prob.target_goal_poses),
                '%d targets, %d first and %d last poses', len(prob.targets), len(prob.target_init_poses),
                len(prob.target_goal_poses))
        for t in prob.targets:
            actual = tw.body_shapes(t)[0][0][1]
            require(abs(actual - sizes[t]) < 1e-9, 'target %s has radius %s, its listed size is %s', t, actual, sizes[t])
            require(r - 1e-9 <= actual <= r + 0.1 + 1e-9, 'target of radius %s for a robot of radius %s', actual, r)
        big = max(sizes[t] for t in prob.targets)
        require(abs(big - r - 0.1) < 1e-9, 'the largest target has radius %s', big)
        gap = 2 * big + d
        require(abs(prob.hallway_gap - gap) < 1e-9, 'the stated gap is %s, targets are %s wide and dd is %s',
                prob.hallway_gap, 2 * big, d)
        for kind, poses, sign in (('first', prob.target_init_poses, 1), ('last', prob.target_goal_poses, -1)):
            at = []
            for t, p in zip(prob.targets, poses):
                (x, y, z), _ = p.pose
                room = region(walls, sizes[t], (x, y))
                require(room is not None and inside.contains(SPoint(x, y)) and sign * x > 1.5,
                        'the %s pose of target %s, %s, is not free in its room', kind, t, (x, y))
                require(0 <= z - 0.05 < 0.01, 'target %s hovers at %s', t, z)
                for (u, v, w) in at:
                    require(np.hypot(x - u, y - v) > sizes[t] + w, 'targets overlap at their %s poses', kind)
                at.append((x, y, sizes[t]))
                if kind == 'first':
                    require(np.allclose(tw.W.bodies[t].pose[0], (x, y, z)), 'target %s is not at its first pose', t)
    else:
        goal = tuple(prob.goal_conf.values[:2])
        require(goal[0] > 1.5 and region(walls, r, goal) is not None, 'the robot does not fit where it is to go, %s', goal)
        require(passes(walls, r, start, goal), 'the robot cannot pass the hallway')
        gap = 2 * r + d
    e = 2e-4
    if gap < length - 0.12:
        require(passes(walls, gap / 2 - e, (start[0], mid), (far[0], mid)), 'a disc a little narrower than the hallway '
                'of width %s cannot pass', gap)
        require(not passes(walls, gap / 2 + e, (start[0], mid), (far[0], mid)), 'a disc wider than the hallway of width '
                '%s can pass', gap)
        ctx.label('gap judged')
    ctx.label(case['kind'])
    ctx.nt(s not in (0.2, 0.3) and gap < length - 0.12)


@st.composite
def open_worlds(draw):
    return {'kind': draw(st.sampled_from(['corner', 'random_obstacles'])),
            'scale': draw(st.one_of(st.sampled_from([0.2, 0.3]), st.floats(0.1, 1.0))),
            'dd': draw(st.floats(0.0, 0.3)), 'n': draw(st.integers(0, 50)), 'seed': draw(gen.seeds())}


def run_open(case, ctx):
    problems = tamp.load('turtlebot', 'problems')
    tw = fresh(case['seed'])
    r = BOT * case['scale']
    with tamp.quiet():
        if case['kind'] == 'corner':
            prob = problems.corner(robot_scale=case['scale'], dd=case['dd'])
        else:
            prob = problems.random_obstacles(n_obstacles=case['n'], robot_scale=case['scale'])
    walls = walls_of(tw, prob, 0.1)
    start, goal = tuple(prob.init_conf.values[:2]), tuple(prob.goal_conf.values[:2])
    inside = region(walls, 1e-4, start)
    require(inside is not None and max(abs(v) for v in inside.bounds) < 10, 'the world is not closed')
    require(region(walls, r, start) is not None, 'the robot does not fit where it starts')
    require(region(walls, r, goal) is not None, 'the robot does not fit where it is to go')
    if case['kind'] == 'corner':
        require(passes(walls, r, start, goal), 'the robot cannot get around the block')
        for side in (1, -1):      # both ways around
            plug = unary_union([walls, sbox(0, 0, 3, 3) if side > 0 else sbox(-3, -3, 0, 0)])
            require(passes(plug, r + min(case['dd'] / 4, 0.04), start, goal), 'one way around the block is too narrow')
    else:
        n = len(prob.obstacles) - 4
        require(n == case['n'], '%d obstacles instead of %d', n, case['n'])
    ctx.label(case['kind'])
    ctx.nt(case['kind'] == 'corner' or case['n'] > 5)


SUBS = [
    Sub('hollow boxes', hollows(), run_hollow, quick=3000),
    Sub('arm worlds', arm_worlds(), run_arm_world, quick=80),
    Sub('hallways', hallways(), run_hallway, quick=400),
    Sub('open worlds', open_worlds(), run_open, quick=150),
]
