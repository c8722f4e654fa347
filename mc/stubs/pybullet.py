"""Stand-in for pybullet: bodies made of boxes, in the world of pybullet_tools.utils."""
from mc.core import StubLimit


def createCollisionShape(shapeType, halfExtents=None, **kw):
    import pybullet_tools.utils as u
    if shapeType != 'GEOM_BOX' or kw:
        raise StubLimit('createCollisionShape %s %s' % (shapeType, sorted(kw)))
    u.WORLD.shapes.append(tuple(float(v) for v in halfExtents))
    return len(u.WORLD.shapes) - 1


def createVisualShape(shapeType, halfExtents=None, rgbaColor=None, **kw):
    return 0


def createMultiBody(baseMass=0.0, baseCollisionShapeIndex=-1, baseVisualShapeIndex=-1, basePosition=(0, 0, 0),
                    baseOrientation=(0, 0, 0, 1), linkMasses=(), linkCollisionShapeIndices=(), linkVisualShapeIndices=(),
                    linkPositions=(), linkOrientations=(), linkInertialFramePositions=(), linkInertialFrameOrientations=(),
                    linkParentIndices=(), linkJointTypes=(), linkJointAxis=(), **kw):
    import pybullet_tools.utils as u
    lists = (linkMasses, linkCollisionShapeIndices, linkVisualShapeIndices, linkPositions, linkOrientations,
             linkInertialFramePositions, linkInertialFrameOrientations, linkParentIndices, linkJointTypes, linkJointAxis)
    if len(set(map(len, lists))) != 1:
        raise Exception('All link arrays need to be same size')     # as the simulator does
    if kw or baseCollisionShapeIndex != -1 or any(q != 0 for q in linkParentIndices) or any(j != 'JOINT_FIXED' for j in linkJointTypes) \
            or any(abs(v) > 0 for q in linkInertialFramePositions for v in q):
        raise StubLimit('createMultiBody: only links fixed to a base without shape')
    return u.add_multibody([(u.WORLD.shapes[c], (q, o)) for c, q, o in zip(linkCollisionShapeIndices, linkPositions, linkOrientations)],
                           (tuple(basePosition), tuple(baseOrientation)))


def disconnect(*a, **k):
    return None


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if name.isupper():
        return name

    def missing(*a, **k):
        raise StubLimit('pybullet.%s' % name)
    return missing
