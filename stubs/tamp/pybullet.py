"""The calls of pybullet that build bodies."""
import tampworld as tw
from vdoubles_base import DoubleUnsupported, unsupported

GEOM_SPHERE, GEOM_BOX, GEOM_CYLINDER = 2, 3, 4
JOINT_REVOLUTE, JOINT_PRISMATIC, JOINT_FIXED = 0, 1, 4


def createCollisionShape(shapeType, halfExtents=None, **kw):
    if shapeType != GEOM_BOX:
        raise DoubleUnsupported('shape type %r' % shapeType)
    k = len(tw.W.shapes)
    tw.W.shapes[k] = tuple(float(v) for v in halfExtents)
    return k


def createVisualShape(shapeType, halfExtents=None, **kw):
    return createCollisionShape(shapeType, halfExtents=halfExtents)


def createMultiBody(baseMass=0, baseCollisionShapeIndex=-1, baseVisualShapeIndex=-1, basePosition=(0, 0, 0),
                    baseOrientation=(0, 0, 0, 1), linkMasses=(), linkCollisionShapeIndices=(),
                    linkVisualShapeIndices=(), linkPositions=(), linkOrientations=(),
                    linkInertialFramePositions=(), linkInertialFrameOrientations=(), linkParentIndices=(),
                    linkJointTypes=(), linkJointAxis=(), **kw):
    n = len(linkMasses)
    for seq in (linkCollisionShapeIndices, linkVisualShapeIndices, linkPositions, linkOrientations,
                linkInertialFramePositions, linkInertialFrameOrientations, linkParentIndices, linkJointTypes,
                linkJointAxis):
        if len(seq) != n:
            raise ValueError('all link arrays need to be same size')
    shapes = {}
    if baseCollisionShapeIndex >= 0:
        shapes[-1] = [(tw.W.shapes[baseCollisionShapeIndex], (0., 0., 0.), (0., 0., 0., 1.))]
    for i in range(n):
        if linkParentIndices[i] != 0:
            raise DoubleUnsupported('links that hang on other links')
        shapes[i] = [(tw.W.shapes[linkCollisionShapeIndices[i]], tuple(float(v) for v in linkPositions[i]),
                      tuple(float(v) for v in linkOrientations[i]))]
    pose = (tuple(float(v) for v in basePosition), tuple(float(v) for v in baseOrientation))
    return tw.W.add(tw.Body('links', shapes, pose))


def disconnect(*a):
    tw.W.connected = False


__getattr__ = unsupported('pybullet')
