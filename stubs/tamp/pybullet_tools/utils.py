"""Stand-in for pybullet-planning's utils on the world of tampworld."""
import itertools
import math
import random
from collections import namedtuple

import numpy as np
import tampworld as tw
from tampworld import AABB, OOBB, W
from vdoubles_base import DoubleUnsupported

INF = np.inf
PI = np.pi
BASE_LINK = -1
RGBA = namedtuple('RGBA', ['red', 'green', 'blue', 'alpha'])
GREY, TAN, YELLOW, GREEN = (RGBA(.5, .5, .5, 1), RGBA(.8, .7, .5, 1), RGBA(1, 1, 0, 1), RGBA(0, 1, 0, 1))
BLUE, RED, BROWN, WHITE, BLACK = (RGBA(0, 0, 1, 1), RGBA(1, 0, 0, 1), RGBA(.4, .3, 0, 1), RGBA(1, 1, 1, 1),
                                  RGBA(0, 0, 0, 1))
TURTLEBOT_URDF = 'models/turtlebot/turtlebot_holonomic.urdf'
DRAKE_IIWA_URDF = 'models/drake/iiwa_description/urdf/iiwa14_polytope_collision.urdf'
STOVE_URDF = 'models/stove.urdf'
GraspInfo = namedtuple('GraspInfo', ['get_grasps', 'approach_pose'])


class _Missing:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        raise DoubleUnsupported('pybullet_tools.utils.%s is not modelled by the test double' % self.name)


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _Missing(name)


# ---- poses

def Point(x=0.0, y=0.0, z=0.0):
    return np.array([x, y, z], dtype=float)


def Euler(roll=0.0, pitch=0.0, yaw=0.0):
    return np.array([roll, pitch, yaw], dtype=float)


def quat_from_euler(euler):
    return tw.from_euler(euler)


def euler_from_quat(quat):
    return tw.to_euler(quat)


def matrix_from_quat(quat):
    return tw.matrix(quat)


def unit_point():
    return (0.0, 0.0, 0.0)


def unit_quat():
    return (0.0, 0.0, 0.0, 1.0)


def unit_pose():
    return unit_point(), unit_quat()


def Pose(point=None, euler=None):
    point = Point() if point is None else point
    euler = Euler() if euler is None else euler
    return point, quat_from_euler(euler)


def multiply(*poses):
    pose = poses[0]
    for nxt in poses[1:]:
        pose = tw.compose(pose, nxt)
    return pose


def invert(pose):
    return tw.inverse(pose)


def point_from_pose(pose):
    return pose[0]


def quat_from_pose(pose):
    return pose[1]


def get_interpolated(pose1, pose2, f):
    return (tuple((1 - f) * np.asarray(pose1[0], dtype=float) + f * np.asarray(pose2[0], dtype=float)),
            tw.slerp(pose1[1], pose2[1], f))


def interpolate_poses(pose1, pose2, pos_step_size=0.01, ori_step_size=np.pi / 16, num_steps=None):
    if num_steps is None:
        d = np.linalg.norm(np.asarray(pose1[0]) - np.asarray(pose2[0]))
        a = 2 * math.acos(min(1.0, abs(float(np.dot(tw.unit_quat(pose1[1]), tw.unit_quat(pose2[1]))))))
        num_steps = int(math.ceil(max(d / pos_step_size, a / ori_step_size)))
    for i in range(num_steps):
        yield get_interpolated(pose1, pose2, i / float(num_steps))
    yield pose2


# ---- boxes

def get_aabb_center(aabb):
    return (np.array(aabb[0]) + np.array(aabb[1])) / 2.


def get_aabb_extent(aabb):
    return np.array(aabb[1]) - np.array(aabb[0])


def aabb_from_extent_center(extent, center=None):
    if center is None:
        center = np.zeros(len(extent))
    else:
        center = np.array(center)
    half = np.array(extent) / 2.
    return AABB(lower=center - half, upper=center + half)


def aabb_empty(aabb):
    return any(u < l for l, u in zip(aabb[0], aabb[1]))


def sample_aabb(aabb):
    return np.random.uniform(low=aabb[0], high=aabb[1])


def get_aabb_vertices(aabb):
    d = len(aabb[0])
    return [tuple(aabb[i[k]][k] for k in range(d)) for i in itertools.product(range(2), repeat=d)]


def tform_point(affine, point):
    return tw.compose(affine, (point, unit_quat()))[0]


def tform_points(affine, points):
    return [tform_point(affine, p) for p in points]


def get_oobb_vertices(oobb):
    aabb, pose = oobb
    return tform_points(pose, get_aabb_vertices(aabb))


def get_aabb(body, link=None, **kw):
    if kw:
        raise DoubleUnsupported('get_aabb(%r)' % sorted(kw))
    return tw.body_aabb(body, link)


def get_oobb(body, **kw):
    if kw:
        raise DoubleUnsupported('get_oobb(%r)' % sorted(kw))
    pose = get_pose(body)
    set_pose(body, unit_pose())
    aabb = get_aabb(body)
    set_pose(body, pose)
    return OOBB(aabb, pose)


def get_center_extent(body, **kw):
    aabb = get_aabb(body, **kw)
    return get_aabb_center(aabb), get_aabb_extent(aabb)


def approximate_as_prism(body, body_pose=unit_pose(), **kw):
    pose = get_pose(body)
    set_pose(body, body_pose)
    r = get_center_extent(body)
    set_pose(body, pose)
    return r


# ---- bodies

def get_box_geometry(width, length, height):
    return {'shapeType': 3, 'halfExtents': [width / 2., length / 2., height / 2.]}


def create_box(w, l, h, mass=0, color=RED, **kw):
    return W.add(tw.Body('box', {-1: [((w / 2., l / 2., h / 2.), (0., 0., 0.), (0., 0., 0., 1.))]}))


def create_cylinder(radius, height, mass=0, color=BLUE, **kw):
    return W.add(tw.Body('cylinder', {-1: [(('cyl', radius, height), (0., 0., 0.), (0., 0., 0., 1.))]}))


def load_model(rel_path, pose=None, fixed_base=True, scale=1.0, **kw):
    unit = (0., 0., 0., 1.)
    if 'turtlebot' in rel_path:
        b = tw.Body('turtlebot', {-1: [(('cyl', tw.TURTLEBOT_RADIUS * scale, 0.42 * scale), (0., 0., 0.21 * scale), unit)]},
                    joints=('x', 'y', 'theta'), name='turtlebot')
    elif 'iiwa' in rel_path:
        b = tw.Body('iiwa', {}, joints=tuple('iiwa_joint_%d' % i for i in range(1, 8)), name='iiwa14')
    elif 'stove' in rel_path:
        b = tw.Body('box', {-1: [((0.3 * scale, 0.3 * scale, 0.02 * scale), (0., 0., 0.), unit)]}, name='stove')
    elif 'floor' in rel_path:
        b = tw.Body('box', {-1: [((1.5, 1.5, 0.05), (0., 0., -0.05), unit)]}, name='floor')
    else:
        raise DoubleUnsupported('model %r' % rel_path)
    if pose is not None:
        b.pose = (tuple(float(v) for v in pose[0]), tuple(float(v) for v in pose[1]))
    return W.add(b)


def get_bodies():
    return sorted(W.bodies)


def remove_body(body):
    del W.bodies[body]


def get_body_name(body):
    return W.bodies[body].name


def get_pose(body):
    return W.bodies[body].pose


def set_pose(body, pose, **kw):
    p, q = pose
    W.bodies[body].pose = (tuple(float(v) for v in p), tuple(float(v) for v in q))


def get_point(body, **kw):
    return get_pose(body)[0]


def set_point(body, point):
    set_pose(body, (point, get_pose(body)[1]))


def get_quat(body):
    return get_pose(body)[1]


def set_quat(body, quat):
    set_pose(body, (get_pose(body)[0], quat))


def set_euler(body, euler):
    set_quat(body, quat_from_euler(euler))


def stable_z(body, surface, surface_link=None):
    return stable_z_on_aabb(body, get_aabb(surface, surface_link))


def stable_z_on_aabb(body, aabb):
    center, extent = get_center_extent(body)
    return (aabb[1] + extent / 2 + (np.array(get_point(body)) - center))[2]


# ---- joints

def _joint_ids(body):
    return list(range(len(W.bodies[body].joints)))


def joint_from_name(body, name):
    names = list(W.bodies[body].joints)
    if name not in names:
        raise ValueError(body, name)
    return names.index(name)


def joints_from_names(body, names):
    return tuple(joint_from_name(body, n) for n in names)


def get_movable_joints(body):
    return _joint_ids(body)


def _apply(body):
    b = W.bodies[body]
    if b.kind == 'turtlebot':
        q = list(b.joints.values())
        b.pose = ((q[0], q[1], b.pose[0][2]), tw.from_euler((0, 0, q[2])))


def set_joint_position(body, joint, value):
    b = W.bodies[body]
    b.joints[list(b.joints)[joint]] = float(value)
    _apply(body)


def set_joint_positions(body, joints, values):
    for j, v in zip(joints, values):
        set_joint_position(body, j, v)
    W.log.append(('joints', body, tuple(joints), tuple(float(v) for v in values)))


def get_joint_position(body, joint):
    return list(W.bodies[body].joints.values())[joint]


def get_joint_positions(body, joints):
    return tuple(get_joint_position(body, j) for j in joints)


def get_configuration(body):
    return get_joint_positions(body, get_movable_joints(body))


def link_from_name(body, name):
    return 100 if W.bodies[body].kind == 'iiwa' else BASE_LINK


def child_link_from_joint(joint):
    return joint


def get_moving_links(body, joints):
    return list(joints)


def flatten_links(body, links=None):
    return {(body, frozenset([l])) for l in (links or [])}


def get_link_pose(body, link):
    b = W.bodies[body]
    if b.kind == 'iiwa':
        q = list(b.joints.values())
        return (tuple(q[:3]), tuple(float(v) for v in tw.from_euler(q[3:6])))
    return b.pose


def inverse_kinematics(robot, link, target_pose, **kw):
    if W.bodies[robot].kind != 'iiwa':
        raise DoubleUnsupported('inverse kinematics of %r' % W.bodies[robot].kind)
    if W.no_ik is not None and W.no_ik(target_pose):
        return None
    q = [float(v) for v in target_pose[0]] + [float(v) for v in tw.to_euler(target_pose[1])] + [0.0]
    set_joint_positions(robot, get_movable_joints(robot), q)
    return tuple(q)


def get_sample_fn(body, joints, **kw):
    return lambda: tuple(random.uniform(-math.pi, math.pi) for _ in joints)


def interpolate(a, b, num):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return [tuple(a + (b - a) * i / num) for i in range(1, num + 1)]


def get_refine_fn(body, joints, num_steps=0):
    def fn(q1, q2):
        return iter(interpolate(q1, q2, num_steps + 1))
    return fn


def refine_path(body, joints, waypoints, num_steps):
    refine_fn = get_refine_fn(body, joints, num_steps)
    refined = []
    for v1, v2 in zip(waypoints, waypoints[1:]):
        refined += list(refine_fn(v1, v2))
    return refined


def plan_joint_motion(body, joints, end_conf, obstacles=(), attachments=(), self_collisions=True, **kw):
    W.log.append(('plan', body, tuple(joints), tuple(end_conf), tuple(obstacles),
                  tuple(a.child for a in attachments), get_joint_positions(body, joints), dict(kw),
                  {o: W.bodies[o].pose for o in obstacles if o in W.bodies}))
    if W.no_motion:
        return None
    start = get_joint_positions(body, joints)
    return [start] + interpolate(start, end_conf, 4)


def plan_direct_joint_motion(body, joints, end_conf, **kw):
    return plan_joint_motion(body, joints, end_conf, **kw)


plan_nonholonomic_motion = plan_joint_motion


class Attachment(object):
    def __init__(self, parent, parent_link, grasp_pose, child):
        self.parent, self.parent_link, self.grasp_pose, self.child = parent, parent_link, grasp_pose, child

    @property
    def bodies(self):
        return {self.child, self.parent}

    def assign(self):
        pose = multiply(get_link_pose(self.parent, self.parent_link), self.grasp_pose)
        set_pose(self.child, pose)
        W.log.append(('attached', self.parent, self.child))
        return pose


def end_effector_from_body(body_pose, grasp_pose):
    return multiply(body_pose, invert(grasp_pose))


def body_from_end_effector(end_effector_pose, grasp_pose):
    return multiply(end_effector_pose, grasp_pose)


def approach_from_grasp(approach_pose, end_effector_pose):
    return multiply(approach_pose, end_effector_pose)


def add_fixed_constraint(body, robot, robot_link, **kw):
    W.log.append(('fix', body, robot, robot_link))


def remove_fixed_constraint(body, robot, robot_link):
    W.log.append(('unfix', body, robot, robot_link))


def joint_controller(body, joints, values, **kw):
    set_joint_positions(body, joints, values)
    yield 0


# ---- collisions and placements

def pairwise_collision(body1, body2, max_distance=0.0, **kw):
    if frozenset((body1, body2)) in W.blocked:
        return True
    if body1 not in W.bodies or body2 not in W.bodies:
        return False
    return any(tw.box_hits(a, b, max_distance) for a in tw.boxes_of(body1) for b in tw.boxes_of(body2))


def sample_placement_on_aabb(top_body, bottom_aabb, top_pose=unit_pose(), percent=1.0, max_attempts=50, epsilon=1e-3,
                             theta=None, scale=1.0):
    for _ in range(max_attempts):
        th = np.random.uniform(0, 2 * np.pi) if theta is None else theta
        rotation = Euler(yaw=th)
        set_pose(top_body, multiply(Pose(euler=rotation), top_pose))
        center, extent = get_center_extent(top_body)
        lower = (np.array(bottom_aabb[0]) + percent * extent / 2)[:2]
        upper = (np.array(bottom_aabb[1]) - percent * extent / 2)[:2]
        if aabb_empty(AABB(lower, upper)):
            continue
        mid = (lower + upper) / 2
        x, y = np.random.uniform(mid - scale * (mid - lower), mid + scale * (upper - mid))
        z = (bottom_aabb[1] + extent / 2.)[2] + epsilon
        point = np.array([x, y, z]) + (np.array(get_point(top_body)) - center)
        pose = multiply(Pose(point, rotation), top_pose)
        set_pose(top_body, pose)
        return pose
    return None


def sample_placement(top_body, bottom_body, bottom_link=None, **kw):
    return sample_placement_on_aabb(top_body, get_aabb(bottom_body, link=bottom_link), **kw)


def is_placement(body, surface, epsilon=1e-2, **kw):
    a, b = get_aabb(body), get_aabb(surface)
    return (all(b[0][i] - epsilon <= a[0][i] and a[1][i] <= b[1][i] + epsilon for i in range(2))
            and abs(a[0][2] - b[1][2]) <= epsilon)


# ---- odds and ends

def flatten(list_of_lists):
    return [x for y in list_of_lists for x in y]


def str_from_object(obj):
    return str(obj)


def connect(use_gui=True, **kw):
    W.connected = True
    W.gui = bool(use_gui)
    return 0


def disconnect():
    W.connected = False


def has_gui(*a):
    return W.gui


def _nothing(*a, **k):
    return None


wait_if_gui = wait_for_user = wait_for_duration = set_default_camera = enable_gravity = _nothing
enable_real_time = disable_real_time = step_simulation = dump_world = draw_pose = _nothing


class _Context:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def restore(self):
        for b, (pose, joints) in self.saved.items():
            if b in W.bodies:
                W.bodies[b].pose, W.bodies[b].joints = pose, dict(joints)


class LockRenderer(_Context):
    pass


class Profiler(_Context):
    pass


class WorldSaver(_Context):
    def __init__(self, *a, **k):
        self.saved = {i: (b.pose, dict(b.joints)) for i, b in W.bodies.items()}
