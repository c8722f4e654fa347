"""The carrying domain on the stand-in simulator: a configuration is the pose of the held box (x, y, z, roll, pitch, yaw, 0)."""
import copy
import numpy as np
from mc import loader


def modules():
    run = loader.tamp_module('kuka_carry', 'run')
    prim = loader.tamp_module('kuka_carry', 'kuka_primitives')
    return run, prim


def encode(pose, pbu):
    e = pbu.euler_from_quat(pose[1])
    return tuple(float(v) for v in list(pose[0]) + list(e)) + (0.0,)


def fake_ik(prim, pbu, fails=None):
    def ik(robot, body, pose, grasp, fixed=[], randomize=True, teleport=False, num_attempts=10):
        v = encode(pose.pose, pbu)
        if fails is not None and fails(v):
            return None
        return prim.BodyConf(robot, v)
    return ik


class patch:
    def __init__(self, *triples):
        self.triples = triples

    def __enter__(self):
        self.old = [(m, n, getattr(m, n, None), hasattr(m, n)) for m, n, _ in self.triples]
        for m, n, v in self.triples:
            setattr(m, n, v)

    def __exit__(self, *a):
        for m, n, v, had in self.old:
            if had:
                setattr(m, n, v)
            else:
                delattr(m, n)


def world(run, prim, n, gap=0.1):
    import pybullet_tools.utils as pbu
    pbu.reset_world()
    pbu.WORLD.tool = lambda parent, q: pbu.Pose(q[:3], q[3:6])
    robot = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    stove = pbu.load_model(pbu.STOVE_URDF)
    pbu.set_point(stove, (0.5, 0, 0))
    size = 0.06 + gap
    bins, sink_oobbs = [], []
    for i in range(n):
        _, local = run.create_hollow_shapes(run.SHAPE_INDICES['bin'], width=size, length=size, height=0.15)
        b = pbu.create_box(size, size, 0.15)
        pose = pbu.Pose(pbu.Point(x=-0.7, y=size * i))
        pbu.set_pose(b, pose)
        bins.append(b)
        sink_oobbs.append([pbu.OOBB(o[0], pbu.multiply(pose, o[1])) for o in local])
    objs = []
    for i in range(n):
        o = pbu.create_box(0.06, 0.06, 0.2)
        pbu.set_pose(o, pbu.Pose(pbu.Point(x=0.5, y=0.2 * i, z=0.21)))
        objs.append(o)
    names = {stove: 'stove', **{b: 'sink_%d' % b for b in bins}, **{o: 'radish_%d' % o for o in objs}}
    links = {b: (4 if 'sink' in nm else None) for b, nm in names.items()}
    return dict(robot=robot, stove=stove, bins=bins, objs=objs, names=names, links=links, fixed=[stove] + bins, sink_oobbs=sink_oobbs)


def grasps(prim, pbu):
    def get_grasp_gen(robot, grasp_name='top'):
        def gen(body):
            yield (prim.BodyGrasp(body, pbu.unit_pose(), pbu.Pose(0.01 * pbu.Point(z=1)), robot, 'tool'),)
        return gen
    return get_grasp_gen


def stable(prim, pbu):
    def get_fixed_stable_gen(fixed=[], links={}):
        def gen(body, surface, obstacles=[]):
            x, y, _ = pbu.get_point(surface)
            yield (prim.BodyPose(body, pbu.Pose(pbu.Point(x, y, 0.01 + 0.1 + 0.002))),)
        return gen
    return get_fixed_stable_gen
