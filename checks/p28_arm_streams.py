# PY: venv
# STUBS: core scipylite tamp
"""P28: the arm's motion, placement and grasp generators deliver what they certify."""
import importlib.util
import itertools
import math
import os
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, stats, tamp
from vlib.core import Sub, VERIF, require

ID = 'P28'


def sibling(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(VERIF, 'checks', name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


p23, p24 = sibling('p23_spatial_boxes'), sibling('p24_turtlebot_motion')
APPROACH = 0.01


def fresh(seed=0):
    import tampworld as tw
    import pybullet_tools.utils as pbu
    tw.W.reset()
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    return tw, tw.W, pbu


def flat_pose(tw, f):
    return tuple(float(v) for v in f[:3]), tuple(float(v) for v in tw.from_euler(f[3:]))


def pose_gap(a, b):
    """Distance of two poses: positions, and rotations up to sign."""
    d = max(abs(x - y) for x, y in zip(a[0], b[0]))
    q, r = np.asarray(a[1]), np.asarray(b[1])
    return max(d, min(float(np.max(np.abs(q - r))), float(np.max(np.abs(q + r)))))


def tool(tw, conf):
    return tuple(conf[:3]), tuple(float(v) for v in tw.from_euler(conf[3:6]))


COORD = st.integers(-40, 40).map(lambda i: i / 20.0)
ANGLE = st.integers(-30, 30).map(lambda i: i / 10.0)


# ---- free and holding motions

@st.composite
def transits(draw):
    n = draw(st.integers(5, 12) if draw(st.integers(0, 5)) == 0 else st.integers(1, 4))
    return {'fixed': draw(st.integers(3, 14) if draw(st.integers(0, 5)) == 0 else st.integers(0, 2)), 'movable': n, 'at': [[draw(COORD) for _ in range(3)] for _ in range(n)],
            'fluents': [draw(st.booleans()) for _ in range(n)], 'q': [[draw(ANGLE) for _ in range(7)] for _ in range(2)],
            'holding': draw(st.booleans()), 'teleport': draw(st.booleans()), 'fails': draw(st.integers(0, 7)) == 0,
            'calls': draw(st.integers(4, 9) if draw(st.integers(0, 5)) == 0 else st.integers(1, 3)), 'strange': draw(st.integers(0, 11)) == 0}


def run_transit(case, ctx):
    kp = tamp.load('kuka', 'kuka_primitives')
    tw, W, pbu = fresh()
    arm = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    fixed = [pbu.create_box(0.1, 0.2, 0.3) for _ in range(case['fixed'])]
    movable = [pbu.create_box(0.1, 0.1, 0.2) for _ in range(case['movable'])]
    for i, b in enumerate(fixed):
        pbu.set_point(b, pbu.Point(5 + i))
    keep_fixed = list(fixed)
    joints = pbu.get_movable_joints(arm)
    q1, q2 = (kp.BodyConf(arm, tuple(q), joints) for q in case['q'])
    grasp = kp.BodyGrasp(movable[0], pbu.Pose(pbu.Point(z=0.1)), pbu.Pose(), arm, pbu.link_from_name(arm, 'tool'))
    make = kp.get_holding_motion_gen if case['holding'] else kp.get_free_motion_gen
    fn = make(arm, fixed, case['teleport'])
    fluents, where = [], {}
    for b, f, at in zip(movable, case['fluents'], case['at']):
        if f and not (case['holding'] and b == movable[0]):
            p = kp.BodyPose(b, pbu.Pose(pbu.Point(*at)))
            fluents.append(('atpose', b, p))
            where[b] = p.pose
        else:
            pbu.set_point(b, pbu.Point(9, 9, 9))
    args = (movable[0], grasp) if case['holding'] else ()
    for turn in range(case['calls']):
        # where things happen to be before must not matter
        pbu.set_joint_positions(arm, joints, [0.3 * turn - 7] * len(joints))
        for b in where:
            pbu.set_point(b, pbu.Point(-6, turn, 0))
        W.log, W.no_motion = [], case['fails']
        if case['strange'] and not case['teleport']:
            ok = False
            try:
                fn(q1, q2, *args, fluents=fluents + [('holds', movable[0], grasp)])
            except ValueError:
                ok = True
            require(ok, 'a fluent that is not understood is silently dropped')
            W.log = []
        out = fn(q1, q2, *args, fluents=list(fluents))
        plans = [e for e in W.log if e[0] == 'plan']
        if not case['teleport']:
            require(len(plans) >= 1, 'a motion came without motion planning')
            for _, robot, js, end, obst, held, start, kw, seen in plans:
                require(robot == arm and js == tuple(joints) and np.allclose(end, q2.values),
                        'planned for joints %s of %s to %s', js, robot, end)
                require(np.allclose(start, q1.values), 'planning starts at %s instead of %s', start, q1.values)
                require(set(obst) == set(keep_fixed) | set(where), 'planning avoids %s instead of %s', sorted(obst),
                        sorted(set(keep_fixed) | set(where)))
                for b, p in where.items():
                    require(pose_gap(seen[b], p) < 1e-9, 'while planning, object %s is at %s instead of %s', b, seen[b], p)
                require(set(held) == ({movable[0]} if case['holding'] else set()), 'planning carries %s', held)
                require(kw.get('self_collisions', True), 'self-collisions are ignored')
            if case['fails']:
                require(out is None, 'planning fails, but %s was returned', out)
                ctx.label('no motion')
                continue
        require(out is not None and len(out) == 1, 'no single command: %s', out)
        paths = out[0].body_paths
        require(len(paths) == 1 and paths[0].body == arm and tuple(paths[0].joints) == tuple(joints),
                'the command does not move the arm alone')
        path = paths[0].path
        require(np.allclose(path[0], q1.values) and np.allclose(path[-1], q2.values), 'the motion goes from %s to %s',
                path[0], path[-1])
        require([a.body for a in paths[0].attachments] == [a for a in args[:1]], 'the motion carries %s',
                [a.body for a in paths[0].attachments])
    require(fixed == keep_fixed, 'the list of fixed bodies has changed to %s', fixed)
    ctx.label(('holding' if case['holding'] else 'free') + (' teleport' if case['teleport'] else ''))
    ctx.nt(len(where) > 0 and not case['teleport'])


# ---- insertions

@st.composite
def insertions(draw):
    layout = draw(st.sampled_from(['bin', 'bin', 'scatter', 'plate', 'plate']))
    w, h = draw(st.integers(2, 8)) / 100, draw(st.integers(4, 20)) / 100
    lo = draw(st.sampled_from([3, 5, 10, 20, 30]))
    obs = []
    if layout == 'scatter':
        for _ in range(draw(st.integers(3, 4))):
            obs.append({'h': [draw(st.integers(2, 12)) / 100 for _ in range(3)],
                        'c': [draw(st.integers(-30, 30)) / 100 for _ in range(3)],
                        'e': [draw(st.integers(-30, 30)) / 20 for _ in range(3)]})
    return {'layout': layout, 'obs': obs, 'w': w, 'h': h, 'gap': draw(st.integers(6, 30)) / 100, 'lo': lo,
            'hi': lo + draw(st.sampled_from([0, 1, 5, 10, 15])), 'factor': draw(st.sampled_from([1.0, 1.1, 1.1, 1.5, 2])),
            'start': [draw(st.integers(-15, 15)) / 100 for _ in range(3)],
            'goal': [draw(st.integers(-15, 15)) / 100 for _ in range(3)],
            'margin': draw(st.sampled_from([0.05, 0.1, 0.3])), 'seed': draw(gen.seeds()),
            'reach': draw(st.sampled_from([None, None, None, 0, 1])), 'adaptive': draw(st.integers(0, 9)) == 0,
            'grasp': draw(st.integers(0, 3))}


class Scene:
    """An object, the boxes around it, and where it is to go from and to."""

    def __init__(self, case, run, kp, arm):
        import pybullet_tools.utils as pbu
        import tampworld as tw
        self.body = body = pbu.create_box(case['w'], case['w'], case['h'])
        self.half = half = np.array([case['w'], case['w'], case['h']]) / 2
        side = case['w'] + case['gap']
        start, goal = np.array(case['start']), np.array(case['goal'])
        if case['layout'] == 'bin':
            _, oobbs = run.create_hollow_shapes([{-1, 1}, {-1, 1}, {-1}], width=side, length=side, height=0.15,
                                                thickness=0.01)
            goal = np.array([goal[0] * case['gap'] * 2, goal[1] * case['gap'] * 2, 0.012 + half[2]])
            start = goal + np.array([start[0] / 5, start[1] / 5, 0.02 + abs(start[2])])
        elif case['layout'] == 'plate':      # two plates with a gap between: around or through
            oobbs = []
            for s in (-1, 1):
                oobbs.append(pbu.OOBB(pbu.AABB(np.array([-0.15, -0.01, -0.2]), np.array([0.15, 0.01, 0.2])),
                                      pbu.Pose(pbu.Point(s * (0.15 + side / 2), 0, 0))))
            for s in (-1, 1):
                oobbs.append(pbu.OOBB(pbu.AABB(np.array([-0.3, -0.005, -0.005]), np.array([0.3, 0.005, 0.005])),
                                      pbu.Pose(pbu.Point(0, s * 0.3, -0.3 * s))))
            start[1], goal[1] = -abs(start[1]) - half[0] - 0.02, abs(goal[1]) + half[0] + 0.02
        else:
            oobbs = [pbu.OOBB(pbu.AABB(-np.array(o['h']), np.array(o['h'])), pbu.Pose(pbu.Point(*o['c']), pbu.Euler(*o['e'])))
                     for o in case['obs']]
        self.oobbs, self.boxes = oobbs, []
        for o in oobbs:
            lo_, hi_ = np.asarray(o[0][0], dtype=float), np.asarray(o[0][1], dtype=float)
            self.boxes.append((np.asarray(o[1][0], dtype=float), (hi_ - lo_) / 2, tw.matrix(o[1][1])))
        grasps = [g for g, in kp.get_grasp_gen(arm, 'top')(body)]
        self.grasp = grasps[case['grasp'] % len(grasps)]
        self.start, self.goal, self.confs = start, goal, []
        for at in (start, goal):
            pose = kp.BodyPose(body, pbu.Pose(pbu.Point(*at)))
            q = tw.compose(pose.pose, tw.inverse(self.grasp.grasp_pose))
            self.confs.append(kp.BodyConf(arm, tuple(q[0]) + tuple(tw.to_euler(q[1])) + (0.0,)))
        self.flats = [np.concatenate([at, [0, 0, 0]]) for at in (start, goal)]
        self.ends = [p23.verdict(half, self.boxes, f, f) for f in self.flats]

    def ask(self, fn, run, back=False):
        """(answer, record of the roadmap): the object from start to goal, or the other way."""
        confs = self.confs[::-1] if back else self.confs
        with tamp.quiet(), p24.Recorder() as rec:
            try:
                out = fn(confs[0], confs[1], self.body, self.grasp, fluents=[])
            except run.SubplanFailed:
                out = None
            except AssertionError:
                if self.ends.count('accept') == 2:
                    raise
                out = 'refused'
        return out, rec

    def judge(self, out, rec, lo, hi, factor, ctx, arm, reach=None, back=False, what=''):
        """Is the answer right?  Returns whether it is a motion that was judged."""
        import pybullet_tools.utils as pbu
        import tampworld as tw
        flats, ends = (self.flats[::-1], self.ends[::-1]) if back else (self.flats, self.ends)
        if 'reject' in ends:
            require(out is None or out == 'refused', what + 'a motion %s was returned',
                    'from a colliding start' if ends[0] == 'reject' else 'to a colliding goal')
            ctx.label('start or goal in collision')
            return False
        if out == 'refused':
            ctx.label('too close to call')
            return False
        found = bool(rec.answers) and rec.answers[-1] > 0
        p24.check_schedule(rec, lo, hi, factor, found or out is not None, ctx)
        if out is None:
            require(not found or reach is not None, what + 'a path was found, but no motion was returned')
            ctx.label('out of reach' if found else 'no path')
            ctx.nt(len(rec.grown) > 1)
            return False
        require(isinstance(out, (tuple, list)) and len(out) == 1 and len(out[0].body_paths) == 1,
                what + 'not a single motion: %r', out)
        bp = out[0].body_paths[0]
        require(bp.body == arm and tuple(bp.joints) == tuple(pbu.get_movable_joints(arm)),
                what + 'the motion is for other joints')
        require([a.body for a in bp.attachments] == [self.body], what + 'the motion carries %s',
                [a.body for a in bp.attachments])
        # where the object is carried along; the tool may be a little above, at its approach pose
        problems = []
        for off in (APPROACH, 0.0):
            way = []
            for q in bp.path:
                t = tool(tw, q)
                p = tw.compose(((t[0][0], t[0][1], t[0][2] - off), t[1]), self.grasp.grasp_pose)
                way.append(np.concatenate([p[0], tw.to_euler(p[1])]))
            problems.append(judge_way(way, flats, self.half, self.boxes))
            if problems[-1] is None:
                break
        require(None in problems, what + '%s', problems[0])
        blocked = p23.verdict(self.half, self.boxes, flats[0], flats[1]) != 'accept'
        ctx.label('path around something' if blocked else 'path in the open')
        return True


def run_insert(case, ctx):
    run, kp = tamp.load('kuka', 'run'), tamp.load('kuka', 'kuka_primitives')
    tw, W, pbu = fresh(case['seed'])
    arm = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    sc = Scene(case, run, kp, arm)
    body, oobbs, start = sc.body, sc.oobbs, sc.start
    lo, hi, factor = case['lo'], case['hi'], case['factor']
    buffer = 0.02
    width = case['w']
    kw = {}
    if case['adaptive']:
        # a width that makes the clearance large, so that the certified sample count is small
        from nonasymptotic.bound import compute_numerical_bound
        hall = oobbs[2][1][0][0] + oobbs[2][0][1][0] - oobbs[0][1][0][0] + oobbs[0][0][0][0]
        pts = [p for o in oobbs for p in pbu.get_oobb_vertices(o)] + [tuple(start)]
        vol = np.prod(np.max(pts, axis=0) - np.min(pts, axis=0)) * (2 * case['margin']) ** 3
        n = 0
        for width in (-0.2, -0.4, -0.6, -0.8, -1.0, -1.3, -1.6, -2.0, -2.5, -3.0, -4.0):
            delta = hall - (width + buffer) / 2
            if delta < 0.15:
                continue
            with tamp.quiet():
                n, _ = compute_numerical_bound(delta, 0.99, vol, 6, None)
            if n <= 50:
                break
        if not 4 <= n <= 50:
            ctx.label('too many samples')
            return
        lo, hi = n - 1, n
        kw['adaptive_n'] = True
    fn = run.get_insert_motion_gen(arm, body_aabb_map={body: pbu.AABB(np.zeros(3), np.array([width] * 3))},
                                   body_obstacle_map={body: oobbs}, start_samples=case['lo'], end_samples=case['hi'],
                                   factor=factor, collision_buffer=buffer, theta_margin=case['margin'], **kw)
    asked = []

    def no_ik(pose):
        asked.append(pose)
        return case['reach'] is not None and len(set(asked)) > 2 + case['reach']
    W.no_ik = no_ik if case['reach'] is not None else None
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 32)
    out, rec = sc.ask(fn, run)
    if sc.judge(out, rec, lo, hi, factor, ctx, arm, reach=case['reach']):
        ctx.nt(True)


@st.composite
def insert_histories(draw):
    scenes = [draw(insertions()) for _ in range(draw(st.sampled_from([2, 2, 3])))]
    lo = min(min(s['lo'], 10) for s in scenes)
    return {'scenes': scenes, 'lo': lo, 'hi': lo + draw(st.sampled_from([0, 3, 8])), 'margin': 0.1, 'seed': draw(gen.seeds()),
            'factor': draw(st.sampled_from([1.1, 1.5])),
            'asks': [[draw(st.integers(0, len(scenes) - 1)), draw(st.integers(0, 3)) == 0]
                     for _ in range(draw(st.integers(2, 4)))]}


def run_insert_history(case, ctx):
    """One generator for several objects, each with its own obstacles, asked in turn, also for the way back."""
    run, kp = tamp.load('kuka', 'run'), tamp.load('kuka', 'kuka_primitives')
    tw, W, pbu = fresh(case['seed'])
    arm = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    scenes = [Scene(c, run, kp, arm) for c in case['scenes']]
    fn = run.get_insert_motion_gen(
        arm, body_aabb_map={s.body: pbu.AABB(np.zeros(3), 2 * s.half) for s in scenes},
        body_obstacle_map={s.body: s.oobbs for s in scenes}, start_samples=case['lo'], end_samples=case['hi'],
        factor=case['factor'], collision_buffer=0.02, theta_margin=case['margin'])
    done = set()
    for n, (i, back) in enumerate(case['asks']):
        out, rec = scenes[i].ask(fn, run, back)
        ok = scenes[i].judge(out, rec, case['lo'], case['hi'], case['factor'], ctx, arm, back=back,
                             what='question %d of several: ' % n)
        ctx.nt(ok and bool(done - {i}))
        done.add(i)


# ---- the sampler behind it

@st.composite
def sampler_worlds(draw):
    return {'obs': draw(st.lists(p23.box(0.3), min_size=1, max_size=4)), 'seed': draw(gen.seeds()),
            'start': [draw(st.integers(-300, 300)) / 100 for _ in range(3)],
            'margin': draw(st.sampled_from([0.05, 0.3, 1.0])), 'cut': [draw(st.integers(1, 9)) / 10 for _ in range(6)]}


def run_sampler(case, ctx):
    run = tamp.load('kuka', 'run')
    tw, W, pbu = fresh(case['seed'])
    boxes = [p23.as_box(o) for o in case['obs']]
    oobbs = [pbu.OOBB(pbu.AABB(-h, h), pbu.Pose(pbu.Point(*c), pbu.Euler(*o['e']))) for (c, h, r), o in zip(boxes, case['obs'])]
    body = pbu.AABB(-np.array([.02, .02, .05]), np.array([.02, .02, .05]))
    ends = [pbu.OOBB(body, pbu.Pose(pbu.Point(*p))) for p in (case['start'], boxes[0][0])]
    with tamp.quiet():
        env = run.BagOfBoundingBoxes(seed=0, start_oobb=ends[0], end_oobb=ends[1], obstacle_oobbs=oobbs,
                                     theta_margin=case['margin'])
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 32)
    n = 1200
    pts = np.array([env.sample_from_env() for _ in range(n)])
    require(pts.shape == (n, 6), 'a sample has shape %s', pts.shape[1:])
    cs = np.array([c + r @ (np.array(sg) * h) for c, h, r in boxes for sg in itertools.product((-1, 1), repeat=3)]
                  + [case['start']])
    lo = np.concatenate([cs.min(axis=0), [-case['margin']] * 3])
    hi = np.concatenate([cs.max(axis=0), [case['margin']] * 3])
    require(np.all(pts >= lo - 1e-9) and np.all(pts <= hi + 1e-9), 'a sample lies outside the box around obstacles and '
            'start, or is turned beyond the margin')
    u = (pts - lo) / (hi - lo)
    ctx.nt(len(boxes) > 1)
    for k, c in enumerate(case['cut']):
        require(stats.likely(int(np.sum(u[:, k] < c)), n, c), 'coordinate %d: %d of %d samples below %.2f of the range', k,
                int(np.sum(u[:, k] < c)), n, c)
        for j in range(k):
            both = int(np.sum((u[:, k] < c) & (u[:, j] < case['cut'][j])))
            require(stats.likely(both, n, c * case['cut'][j]), '%d of %d samples are low in coordinates %d and %d, whose '
                    'share is %.3f', both, n, j, k, c * case['cut'][j])


def judge_way(way, flats, half, boxes):
    tol = 1e-6
    if len(way) < 2:
        return 'the motion has %d configurations' % len(way)
    for end, f, name in ((way[0], flats[0], 'starts'), (way[-1], flats[1], 'ends')):
        if np.max(np.abs(end - f)) > tol:
            return 'the motion %s with the object at %s instead of %s' % (name, end.round(6).tolist(), f.round(6).tolist())
    for a, b in zip(way, way[1:]):
        if p23.verdict(half - tol, boxes, a, b) == 'reject':
            return 'the leg from %s to %s of the motion collides' % (a.round(5).tolist(), b.round(5).tolist())
    return None


# ---- grasps, inverse kinematics, placements and the collision test

@st.composite
def handling(draw):
    dims = [draw(st.integers(2, 30)) / 100 for _ in range(3)]
    return {'dims': dims, 'at': [draw(COORD) for _ in range(3)] + [draw(ANGLE) for _ in range(3)],
            'grasp': draw(st.integers(0, 3)), 'blocked': draw(st.sampled_from([None, None, 'fixed', 'other'])),
            'reach': draw(st.integers(0, 5)) > 0, 'randomize': draw(st.booleans()), 'seed': draw(gen.seeds()),
            'table': [draw(st.integers(30, 100)) / 100 for _ in range(2)], 'theta': draw(ANGLE),
            'crowd': [[draw(st.integers(-40, 40)) / 100 for _ in range(2)] for _ in range(draw(st.integers(0, 4)))],
            'bin': draw(st.booleans())}


def run_handling(case, ctx):
    run, kp = tamp.load('kuka', 'run'), tamp.load('kuka', 'kuka_primitives')
    tw, W, pbu = fresh(case['seed'])
    arm = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    body = pbu.create_box(*case['dims'])
    first = flat_pose(tw, case['at'])
    pbu.set_pose(body, first)
    grasps = [g for g, in kp.get_grasp_gen(arm, 'top')(body)]
    require(pose_gap(pbu.get_pose(body), first) < 1e-9, 'generating grasps moved the object')
    require(len(grasps) >= 1, 'there is no grasp from above')
    seen = []
    for g in grasps:
        require(g.body == body and g.robot == arm, 'a grasp of another object or robot')
        up = tw.inverse(g.grasp_pose)      # the tool, seen from the object
        top = np.array([0, 0, case['dims'][2] / 2])
        require(np.max(np.abs(np.array(up[0]) - top)) < 1e-9 and np.max(np.abs(tw.matrix(up[1])[:, 2] - [0, 0, -1])) < 1e-9,
                'a grasp from above holds the object of size %s at %s, pointing along %s', case['dims'],
                np.round(up[0], 6), tw.matrix(up[1])[:, 2].round(6))
        require(all(pose_gap(g.grasp_pose, o) > 1e-6 for o in seen), 'two grasps are the same')
        seen.append(g.grasp_pose)
    g = grasps[case['grasp'] % len(grasps)]
    # assigning a grasp puts the object into the hand
    pbu.set_joint_positions(arm, pbu.get_movable_joints(arm), [0.4, 0.1, 0.5, 0.2, 0.3, -0.4, 0])
    g.assign()
    want = tw.compose(pbu.get_link_pose(arm, g.link), g.grasp_pose)
    require(pose_gap(pbu.get_pose(body), want) < 1e-9, 'the grasped object is not in the hand')
    # inverse kinematics
    fixed, other = pbu.create_box(0.1, 0.1, 0.1), pbu.create_box(0.1, 0.1, 0.1)
    pbu.set_point(fixed, pbu.Point(7))
    pbu.set_point(other, pbu.Point(8))
    if case['blocked']:
        W.blocked.add(frozenset((arm, fixed if case['blocked'] == 'fixed' else other)))
    W.no_ik = None if case['reach'] else (lambda p: True)
    pose = kp.BodyPose(body, first)
    conf = kp.get_ik_fn(arm, body, pose, g, fixed=[fixed], randomize=case['randomize'])
    possible = case['reach'] and case['blocked'] != 'fixed'
    require((conf is not None) == possible, 'inverse kinematics %s although the pose is %s%s',
            'fails' if conf is None else 'succeeds', 'in reach' if case['reach'] else 'out of reach',
            ' but the arm collides there' if case['blocked'] == 'fixed' else '')
    ctx.label('ik' if possible else 'no ik')
    if conf is not None:
        require(conf.body == arm and tuple(conf.joints) == tuple(pbu.get_movable_joints(arm)), 'a configuration of other joints')
        pbu.set_joint_positions(arm, conf.joints, conf.values)
        g.assign()
        p = pbu.get_pose(body)
        gap = min(pose_gap(((p[0][0], p[0][1], p[0][2] - off), p[1]), first) for off in (0.0, APPROACH))
        require(gap < 1e-6, 'with the configuration found, the object is at %s instead of %s', p, first)
        back = kp.BodyConf(arm)
        require(np.allclose(back.values, conf.values), 'the current configuration reads %s', back.values)
        pbu.set_joint_positions(arm, conf.joints, [0.0] * len(conf.joints))
        conf.assign()
        require(np.allclose(pbu.get_joint_positions(arm, conf.joints), conf.values), 'assigning a configuration does not move the arm')
    W.blocked, W.no_ik = set(), None
    # placements
    surface = pbu.create_box(case['table'][0], case['table'][1], 0.1)
    pbu.set_point(surface, pbu.Point(0, 0, 0.3))
    link = None
    plate = tw.body_aabb(surface)
    if case['bin']:
        with tamp.quiet():
            surface, _ = run.create_hollow('bin', width=case['table'][0], length=case['table'][1], height=0.4)
        pbu.set_pose(surface, pbu.Pose(pbu.Point(3, 1, 0.1)))
        link = 4
        plate = tw.body_aabb(surface, link)
    crowd = []
    for x, y in case['crowd']:
        c = pbu.create_box(0.05, 0.05, 0.5)
        pbu.set_point(c, pbu.Point(x + (plate[0][0] + plate[1][0]) / 2, y + (plate[0][1] + plate[1][1]) / 2, plate[1][2] + 0.25))
        crowd.append(c)
    half = len(crowd) // 2
    for name in ('get_fixed_stable_gen', 'get_stable_gen'):
        pbu.set_pose(body, first)
        make = getattr(kp, name)(crowd[:half] + [surface], {surface: link})
        it = make(body, surface, obstacles=crowd[half:])
        # the free sampler never gives up, so it is only asked where there is room
        room = [plate[1][k] - plate[0][k] for k in (0, 1)]
        big = math.hypot(case['dims'][0], case['dims'][1])
        if name == 'get_stable_gen' and (big > 0.5 * min(room) - 0.05 or len(crowd) > 2):
            continue
        for out, in itertools.islice(it, 4):
            require(out.body == body, 'a placement of another object')
            out.assign()
            a = tw.body_aabb(body)
            require(np.all(a[0][:2] >= plate[0][:2] - 1e-6) and np.all(a[1][:2] <= plate[1][:2] + 1e-6)
                    and -1e-9 <= a[0][2] - plate[1][2] < 0.01, 'a placement from %s to %s is not on the surface from %s to %s',
                    a[0], a[1], plate[0], plate[1])
            for c in crowd + [surface]:
                require(not any(tamp.boxes_meet(x, y, grow=-1e-9) for x in tw.boxes_of(body) for y in tw.boxes_of(c)),
                        'a placement at %s meets body %s', out.pose, c)
            ctx.label('placement')
            ctx.nt(len(crowd) > 0)


@st.composite
def meetings(draw):
    paths = []
    for _ in range(draw(st.integers(1, 3))):
        paths.append({'path': [[draw(st.integers(-6, 6)) / 20 for _ in range(3)] + [draw(ANGLE) for _ in range(3)] + [0.0]
                               for _ in range(draw(st.integers(0, 4)))], 'held': draw(st.sampled_from([None, 0, 0, 1]))})
    return {'paths': paths, 'dims': [draw(st.integers(2, 10)) / 50 for _ in range(3)],
            'at': [draw(st.integers(-8, 8)) / 20 for _ in range(3)] + [draw(ANGLE) for _ in range(3)],
            'near': draw(st.one_of(st.none(), st.integers(0, 11))),
            'self': draw(st.integers(0, 9)) == 0}


@st.composite
def long_meetings(draw):
    """Commands of many ways, with up to hundreds of configurations far off and one that may meet the object."""
    case = draw(meetings())
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 31 - 1)))
    extra = [{'path': [], 'held': draw(st.sampled_from([None, 0, 1])), 'far': draw(st.sampled_from([0, 1, 30, 200]))}
             for _ in range(draw(st.integers(0, 12)))]
    for p in case['paths']:
        p['far'] = draw(st.sampled_from([0, 20, 150, 400]))
    case['paths'] += extra
    rng.shuffle(case['paths'])
    return case


def run_long_meeting(case, ctx):
    paths = [dict(p, path=[[3 + 0.01 * k, 2, 2, 0.1, 0.2, -0.3, 0.0] for k in range(p['far'])] + p['path'])
             for p in case['paths']]
    run_meeting(dict(case, paths=paths, base=case['paths']), ctx)


def run_meeting(case, ctx):
    kp = tamp.load('kuka', 'kuka_primitives')
    tw, W, pbu = fresh()
    arm = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    held = [pbu.create_box(0.06, 0.1, 0.2), pbu.create_box(0.1, 0.1, 0.08)]
    body = pbu.create_box(*case['dims'])
    for i, h in enumerate(held + [body]):
        pbu.set_point(h, pbu.Point(9 + i))
    grasps = [next(kp.get_grasp_gen(arm, 'top')(h))[0] for h in held]
    bps, hit, near = [], False, False
    pts = [(q, g) for p in case.get('base', case['paths']) for q in p['path'] for g in [p['held']] if g is not None]
    pose = flat_pose(tw, case['at'])
    if case['near'] is not None and pts:     # close to what is carried at one configuration
        q, g = pts[case['near'] % len(pts)]
        c = tw.compose(tool(tw, q), grasps[g].grasp_pose)[0]
        pose = (tuple(a + 0.4 * b for a, b in zip(c, case['at'][:3])), pose[1])
    target = (np.array(pose[0]), np.array(case['dims']) / 2, tw.matrix(pose[1]))
    for p in case['paths']:
        at = [] if p['held'] is None else [grasps[p['held']]]
        bps.append(kp.BodyPath(arm, [tuple(q) for q in p['path']], attachments=at))
        for q in p['path']:
            for g in at:
                b = tw.compose(tool(tw, q), g.grasp_pose)
                hb = np.array([0.06, 0.1, 0.2] if g is grasps[0] else [0.1, 0.1, 0.08]) / 2
                box = (np.array(b[0]), hb, tw.matrix(b[1]))
                hit = hit or tamp.boxes_meet(box, target, grow=-1e-7)
                near = near or tamp.boxes_meet(box, target, grow=1e-7)
    if case['self']:
        bps.append(kp.BodyPath(arm, [(0.0,) * 7], attachments=[next(kp.get_grasp_gen(arm, 'top')(body))[0]]))
        hit = near = False
    got = kp.get_movable_collision_test()(kp.Command(bps), body, kp.BodyPose(body, pose))
    if hit == near:
        require(bool(got) == hit, 'the object at %s %s what is carried along the command, the test says %s', pose,
                'meets' if hit else 'keeps clear of', got)
    ctx.label('hit' if hit else 'clear')
    ctx.nt(hit and len(case['paths']) > 1)


SUBS = [
    Sub('transits', transits(), run_transit, quick=8000),
    Sub('insertions', insertions(), run_insert, quick=200, thorough=6000),
    Sub('insertion history', insert_histories(), run_insert_history, quick=96, thorough=3000),
    Sub('sampler', sampler_worlds(), run_sampler, quick=160, thorough=3000),
    Sub('handling', handling(), run_handling, quick=3000),
    Sub('meetings', meetings(), run_meeting, quick=5000),
    Sub('long meetings', long_meetings(), run_long_meeting, quick=160, thorough=8000),
]
