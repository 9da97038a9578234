"""A small kinematic world standing in for PyBullet: boxes, cylinders, link bodies and two robots.
Robots: the turtlebot is a cylinder of radius 0.179*scale whose base joints x, y, theta move it; the arm has seven
joints of which the first six are the pose of its tool (so inverse kinematics is exact) and no collision shape."""
import itertools
import math
from collections import namedtuple

import numpy as np
from vdoubles_base import DoubleUnsupported

AABB = namedtuple('AABB', ['lower', 'upper'])
OOBB = namedtuple('OOBB', ['aabb', 'pose'])
TURTLEBOT_RADIUS = 0.179


class Body:
    def __init__(self, kind, shapes, pose=None, joints=(), name='', fixed_base=False):
        # shapes: link index -> list of (half extents or ('cyl', r, h), local point, local quat)
        self.kind, self.shapes, self.name = kind, shapes, name
        self.pose = pose or ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0))
        self.joints = {j: 0.0 for j in joints}


class World:
    def __init__(self):
        self.reset()

    def reset(self):
        self.bodies = {}
        self.next = 0
        self.shapes = {}
        self.log = []
        self.blocked = set()      # frozenset of body ids that "collide" whatever their poses
        self.no_motion = False    # plan_joint_motion fails
        self.no_ik = None         # callable(pose) -> True when out of reach
        self.connected = False
        self.gui = False          # connect(use_gui=True)

    def add(self, body):
        i = self.next
        self.next += 1
        self.bodies[i] = body
        return i


W = World()


def quat_mul(a, b):
    x1, y1, z1, w1 = a
    x2, y2, z2, w2 = b
    return (w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
            w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2)


def unit_quat(q):
    q = np.asarray(q, dtype=float)
    return q / math.sqrt(float(np.dot(q, q)))


def matrix(q):
    x, y, z, w = unit_quat(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def from_euler(e):
    roll, pitch, yaw = [float(v) for v in e]
    qx = (math.sin(roll / 2), 0, 0, math.cos(roll / 2))
    qy = (0, math.sin(pitch / 2), 0, math.cos(pitch / 2))
    qz = (0, 0, math.sin(yaw / 2), math.cos(yaw / 2))
    return quat_mul(qz, quat_mul(qy, qx))


def to_euler(q):
    m = matrix(q)
    pitch = math.asin(max(-1.0, min(1.0, -m[2, 0])))
    if abs(m[2, 0]) < 1 - 1e-12:
        return (math.atan2(m[2, 1], m[2, 2]), pitch, math.atan2(m[1, 0], m[0, 0]))
    return (math.atan2(-m[1, 2], m[1, 1]), pitch, 0.0)


def compose(a, b):
    p = np.asarray(a[0], dtype=float) + matrix(a[1]) @ np.asarray(b[0], dtype=float)
    return tuple(float(v) for v in p), tuple(float(v) for v in quat_mul(tuple(a[1]), tuple(b[1])))


def inverse(a):
    q = unit_quat(a[1])
    qi = (-q[0], -q[1], -q[2], q[3])
    p = -(matrix(qi) @ np.asarray(a[0], dtype=float))
    return tuple(float(v) for v in p), tuple(float(v) for v in qi)


def slerp(q0, q1, f):
    q0, q1 = unit_quat(q0), unit_quat(q1)
    d = float(np.dot(q0, q1))
    if d < 0:
        q1, d = -q1, -d
    if d > 1 - 1e-12:
        return tuple(unit_quat((1 - f) * q0 + f * q1))
    th = math.acos(min(1.0, d))
    return tuple((math.sin((1 - f) * th) * q0 + math.sin(f * th) * q1) / math.sin(th))


def shape_corners(shape):
    half = shape[0]
    if half[0] == 'cyl':
        half = (half[1], half[1], half[2] / 2)
    return [tuple(s * h for s, h in zip(sg, half)) for sg in itertools.product((-1, 1), repeat=3)]


def body_shapes(bid, link=None):
    b = W.bodies[bid]
    if link is None:
        return [s for k in sorted(b.shapes) for s in b.shapes[k]]
    return list(b.shapes.get(link, []))


def body_aabb(bid, link=None):
    pose = W.bodies[bid].pose
    pts = []
    for s in body_shapes(bid, link):
        half, point, quat = s
        at = compose(pose, (point, quat))
        m = matrix(at[1])
        if half[0] == 'cyl':      # exact box of a cylinder around the local z axis
            a = m[:, 2]
            ext = np.abs(a) * half[2] / 2 + half[1] * np.sqrt(np.maximum(0, 1 - a * a))
            pts += [np.asarray(at[0]) - ext, np.asarray(at[0]) + ext]
        else:
            ext = np.abs(m) @ np.asarray(half, dtype=float)
            pts += [np.asarray(at[0]) - ext, np.asarray(at[0]) + ext]
    if not pts:
        raise DoubleUnsupported('extent of body %r link %r without a shape' % (bid, link))
    pts = np.array(pts)
    return AABB(pts.min(axis=0), pts.max(axis=0))


def boxes_of(bid):
    out = []
    for half, point, quat in body_shapes(bid):
        at = compose(W.bodies[bid].pose, (point, quat))
        if half[0] == 'cyl':
            half = (half[1], half[1], half[2] / 2)
        out.append((np.asarray(at[0]), np.asarray(half, dtype=float), matrix(at[1])))
    return out


def box_hits(a, b, grow=0.0):
    """Do two boxes (centre, half extents, rotation) meet, the first grown by `grow`?  Edge clipping, no axes."""
    def edges_meet(p, q, g):
        c, h, r = p
        cq, hq, rq = q
        hq = hq + g
        corner = {sg: c + r @ (np.array(sg) * h) for sg in itertools.product((-1, 1), repeat=3)}
        for sg in corner:
            for k in range(3):
                if sg[k] == -1:
                    t = list(sg)
                    t[k] = 1
                    u = rq.T @ (corner[sg] - cq)
                    v = rq.T @ (corner[tuple(t)] - cq)
                    lo, hi = 0.0, 1.0
                    for x in range(3):
                        d = v[x] - u[x]
                        if abs(d) < 1e-15:
                            if abs(u[x]) > hq[x]:
                                lo, hi = 1.0, 0.0
                            continue
                        t0, t1 = sorted(((-hq[x] - u[x]) / d, (hq[x] - u[x]) / d))
                        lo, hi = max(lo, t0), min(hi, t1)
                    if lo <= hi:
                        return True
        return False
    if np.linalg.norm(a[0] - b[0]) > np.linalg.norm(a[1]) + np.linalg.norm(b[1]) + 2 * max(grow, 0) + 1e-9:
        return False
    a2 = (a[0], a[1] + grow, a[2])
    return edges_meet(a2, b, 0.0) or edges_meet(b, a2, 0.0)
