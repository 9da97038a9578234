from tampworld import W
from vdoubles_base import unsupported


class Trajectory(object):
    def __init__(self, path):
        self.path = tuple(path)

    def __repr__(self):
        return 't%d' % (id(self) % 1000)


class Conf(object):
    def __init__(self, body, joints, values=None, init=False):
        self.body, self.joints, self.values, self.init = body, joints, tuple(values), init


def create_trajectory(robot, joints, path):
    return Trajectory(Conf(robot, joints, q) for q in path)


class Attach(object):
    def __init__(self, robot, arm, grasp, body):
        self.robot, self.arm, self.grasp, self.body = robot, arm, grasp, body


class Detach(object):
    def __init__(self, robot, arm, body):
        self.robot, self.arm, self.body = robot, arm, body


class State(object):
    def __init__(self, attachments=None):
        self.attachments = dict(attachments or {})


def control_commands(commands, **k):
    W.log.append(('control', tuple(commands)))


def apply_commands(state, commands, time_step=None, **k):
    W.log.append(('apply', tuple(commands), time_step))


__getattr__ = unsupported('pybullet_tools.pr2_primitives')
