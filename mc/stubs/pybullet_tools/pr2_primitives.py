"""Trajectory objects as the planners build them."""
from mc.core import StubLimit


class Trajectory:
    def __init__(self, path, bq0=None):
        self.path = list(path)

    def __len__(self):
        return len(self.path)


class Conf:
    def __init__(self, body, joints, values=None, init=False):
        self.body, self.joints, self.values, self.init = body, joints, tuple(values), init


def create_trajectory(robot, joints, path):
    return Trajectory(Conf(robot, joints, q) for q in path)


class Attach:
    def __init__(self, robot, arm, grasp, body):
        self.robot, self.arm, self.grasp, self.body = robot, arm, grasp, body


class Detach:
    def __init__(self, robot, arm, body):
        self.robot, self.arm, self.body = robot, arm, body


class State:
    pass


PLAYED = None            # optional: list of what is carried out


def _where():
    from pybullet_tools.utils import WORLD
    return {k: tuple(b['pose'][0]) for k, b in WORLD.bodies.items()}


def control_commands(commands, **k):
    if PLAYED is None:
        raise StubLimit('control_commands')
    PLAYED.append(('control', list(commands), None, _where()))


def apply_commands(state, commands, time_step=None, **k):
    if PLAYED is None:
        raise StubLimit('apply_commands')
    PLAYED.append(('apply', list(commands), time_step, _where()))
