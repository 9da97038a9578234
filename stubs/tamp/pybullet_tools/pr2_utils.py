import numpy as np
from vdoubles_base import unsupported
from .utils import Pose, Euler, INF

TOOL_POSE = Pose(euler=Euler(pitch=np.pi / 2))
GRASP_LENGTH = 0.04
MAX_GRASP_WIDTH = INF


def get_top_grasps(*a, **k):
    raise NotImplementedError


__getattr__ = unsupported('pybullet_tools.pr2_utils')
