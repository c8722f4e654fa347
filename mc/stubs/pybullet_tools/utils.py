"""The functions this project imports, over a plain in-memory world (WORLD). Names that are not modelled can be imported
but raise StubLimit when used."""
import math
from collections import namedtuple
import numpy as np
from mc.core import StubLimit

AABB = namedtuple('AABB', ['lower', 'upper'])
OOBB = namedtuple('OOBB', ['aabb', 'pose'])
GraspInfo = namedtuple('GraspInfo', ['get_grasps', 'approach_pose'])
INF = float('inf')
PI = math.pi
RED, GREEN, BLUE, YELLOW, GREY, TAN, BLACK, WHITE, BROWN = range(9)
TURTLEBOT_URDF, DRAKE_IIWA_URDF, STOVE_URDF, SINK_URDF, BLOCK_URDF = 'turtlebot', 'iiwa', 'stove', 'sink', 'block'
BASE_LINK = -1


class World:
    def __init__(self):
        self.bodies = {}        # id -> dict(half, pose, joints)
        self.next = 1
        self.log = []           # calls that move or attach things
        self.collides = None    # optional: fn(body1, body2) -> bool
        self.sampler = None     # optional: fn(lower, upper) -> point, instead of a random one
        self.tool = None        # optional: fn(parent, configuration) -> pose of the tool
        self.ik = None          # optional: fn(body, link, pose, current configuration) -> configuration or None
        self.sample_conf = None # optional: fn(body, joints) -> configuration
        self.planner = None     # optional: fn(body, joints, end, **options) -> path or None
        self.gui = False
        self.shapes = []        # collision shapes made so far: half extents
        self.placer = None      # optional: fn(body, surface, link, theta, scale) -> pose or None


WORLD = World()


def reset_world():
    WORLD.__init__()


# ---- vectors and poses
def Point(x=0.0, y=0.0, z=0.0):
    return np.array([x, y, z], dtype=float)


def Euler(roll=0.0, pitch=0.0, yaw=0.0):
    return np.array([roll, pitch, yaw], dtype=float)


def quat_from_euler(e):
    r, p, y = [float(v) / 2 for v in e]
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return (sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy)


def matrix_from_quat(q):
    x, y, z, w = [float(v) for v in q]
    n = x * x + y * y + z * z + w * w
    s = 2.0 / n
    return np.array([[1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w)],
                     [s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w)],
                     [s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y)]])


def quat_from_matrix(m):
    """unit quaternion (x, y, z, w) of a rotation matrix"""
    m = np.asarray(m, dtype=float)
    k = np.array([[m[0, 0] - m[1, 1] - m[2, 2], m[0, 1] + m[1, 0], m[0, 2] + m[2, 0], m[2, 1] - m[1, 2]],
                  [0, m[1, 1] - m[0, 0] - m[2, 2], m[1, 2] + m[2, 1], m[0, 2] - m[2, 0]],
                  [0, 0, m[2, 2] - m[0, 0] - m[1, 1], m[1, 0] - m[0, 1]], [0, 0, 0, m[0, 0] + m[1, 1] + m[2, 2]]])
    w, v = np.linalg.eigh(np.triu(k) + np.triu(k, 1).T)
    q = v[:, -1]
    return tuple(float(x) for x in (q if q[3] >= 0 else -q))


def quat_times(a, b):
    x, y, z, w = [float(v) for v in a]
    p, q, r, s = [float(v) for v in b]
    return (w * p + x * s + y * r - z * q, w * q - x * r + y * s + z * p, w * r + x * q - y * p + z * s, w * s - x * p - y * q - z * r)


def euler_from_quat(q):
    m = matrix_from_quat(q)
    return (math.atan2(m[2, 1], m[2, 2]), math.asin(max(-1.0, min(1.0, -m[2, 0]))), math.atan2(m[1, 0], m[0, 0]))


def Pose(point=None, euler=None):
    return (Point(*point) if point is not None else Point(), quat_from_euler(euler if euler is not None else Euler()))


def unit_point():
    return (0.0, 0.0, 0.0)


def unit_quat():
    return (0.0, 0.0, 0.0, 1.0)


def unit_pose():
    return (unit_point(), unit_quat())


def point_from_pose(p):
    return p[0]


def quat_from_pose(p):
    return p[1]


def multiply(*poses):
    t, q = np.zeros(3), (0.0, 0.0, 0.0, 1.0)
    for p in poses:
        t = t + matrix_from_quat(q) @ np.asarray(p[0], dtype=float)
        q = quat_times(q, p[1])
    n = math.sqrt(sum(v * v for v in q))
    return (tuple(t), tuple(v / n for v in q))


def invert(p):
    x, y, z, w = p[1]
    m = matrix_from_quat(p[1]).T
    return (tuple(-m @ np.asarray(p[0], dtype=float)), (-x, -y, -z, w))


def quat_slerp(a, b, f):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    d = float(a @ b)
    if d < 0:
        b, d = -b, -d
    if d > 1 - 1e-12:
        q = a + f * (b - a)
    else:
        th = math.acos(d)
        q = (math.sin((1 - f) * th) * a + math.sin(f * th) * b) / math.sin(th)
    return tuple(q / np.linalg.norm(q))


def interpolate_poses(pose1, pose2, pos_step_size=0.01, ori_step_size=math.pi / 16, num_steps=None):
    if num_steps is None:
        d = np.linalg.norm(np.asarray(pose2[0]) - np.asarray(pose1[0]))
        num_steps = int(math.ceil(d / pos_step_size))
    for i in range(num_steps):
        f = i / float(num_steps)
        yield ((1 - f) * np.asarray(pose1[0], dtype=float) + f * np.asarray(pose2[0], dtype=float), quat_slerp(pose1[1], pose2[1], f))
    yield pose2


# ---- boxes
def get_aabb_extent(aabb):
    return np.array(aabb[1]) - np.array(aabb[0])


def get_aabb_center(aabb):
    return (np.array(aabb[0]) + np.array(aabb[1])) / 2


def aabb_from_extent_center(extent, center=None):
    center = np.zeros(len(extent)) if center is None else np.array(center)
    h = np.array(extent) / 2.0
    return AABB(center - h, center + h)


def aabb_empty(aabb):
    return bool((np.array(aabb[1]) < np.array(aabb[0])).any())


def sample_aabb(aabb):
    if WORLD.sampler is not None:
        return WORLD.sampler(np.array(aabb[0]), np.array(aabb[1]))
    return np.random.uniform(np.array(aabb[0]), np.array(aabb[1]))


def get_aabb_vertices(aabb):
    lo, hi = np.array(aabb[0], dtype=float), np.array(aabb[1], dtype=float)
    return [np.array([(lo, hi)[b >> i & 1][i] for i in range(3)]) for b in range(8)]


def tform_points(pose, points):
    m, t = matrix_from_quat(pose[1]), np.asarray(pose[0], dtype=float)
    return [tuple(t + m @ p) for p in points]


def get_oobb_vertices(oobb):
    return tform_points(oobb.pose, get_aabb_vertices(oobb.aabb))


def get_box_geometry(width, length, height):
    return {'shapeType': 'box', 'halfExtents': [width / 2.0, length / 2.0, height / 2.0]}


# ---- bodies
def _add(half, kind, joints=()):
    b = WORLD.next
    WORLD.next += 1
    WORLD.bodies[b] = dict(half=np.array(half, dtype=float), pose=(np.zeros(3), unit_quat()), kind=kind,
                           joints={j: 0.0 for j in joints})
    return b


def create_box(w, l, h, mass=0, color=None, **kw):
    return _add((w / 2.0, l / 2.0, h / 2.0), 'box')


def create_cylinder(radius, height, mass=0, color=None, **kw):
    return _add((radius, radius, height / 2.0), 'cylinder')


def load_model(path, pose=None, fixed_base=True, scale=1.0):
    if path == TURTLEBOT_URDF:
        b = _add((0.179 * scale, 0.179 * scale, 0.2 * scale), 'turtlebot', ('x', 'y', 'theta'))
    else:
        b = _add((0.1, 0.1, 0.1), str(path), tuple('j%d' % i for i in range(7)) if path == DRAKE_IIWA_URDF else ())
    if pose is not None:
        set_pose(b, pose)
    return b


def add_multibody(links, pose):
    """links: list of (half extents, pose relative to the base); the base itself has no shape"""
    b = _add((0.0, 0.0, 0.0), 'multi')
    WORLD.bodies[b]['links'] = [(np.array(h, dtype=float), (np.array(q[0], dtype=float), tuple(q[1]))) for h, q in links]
    set_pose(b, pose)
    return b


def get_link_oobbs(body):
    """the boxes a body consists of, at their places"""
    b = WORLD.bodies[body]
    if b['kind'] != 'multi':
        return [get_oobb(body)]
    return [OOBB(AABB(-h, h), multiply(b['pose'], q)) for h, q in b['links']]


def remove_body(b):
    del WORLD.bodies[b]


def get_bodies():
    return sorted(WORLD.bodies)


def set_pose(body, pose, **kw):
    WORLD.bodies[body]['pose'] = (np.array(pose[0], dtype=float), tuple(pose[1]))
    WORLD.log.append(('set_pose', body, tuple(float(v) for v in pose[0]), tuple(float(v) for v in pose[1])))


def get_pose(body, **kw):
    p, q = WORLD.bodies[body]['pose']
    return (tuple(p), q)


def set_point(body, point, **kw):
    set_pose(body, (point, WORLD.bodies[body]['pose'][1]))


def get_point(body, **kw):
    return get_pose(body)[0]


def _center(body):
    b = WORLD.bodies[body]
    c = np.array(b['pose'][0])
    if b['kind'] == 'turtlebot':
        c = c + np.array([b['joints']['x'], b['joints']['y'], 0.0])
    return c


def get_aabb(body, link=None, **kw):
    b = WORLD.bodies[body]
    if b['kind'] == 'multi':
        boxes = get_link_oobbs(body)
        v = np.array([v for o in (boxes if link is None else [boxes[link]]) for v in get_oobb_vertices(o)])
        return AABB(v.min(0), v.max(0))
    if link not in (None, BASE_LINK):
        raise StubLimit('link %r of a single body' % (link,))
    m = np.abs(matrix_from_quat(b['pose'][1]))
    h = m @ b['half'] if b['kind'] == 'box' else b['half']
    c = _center(body)
    return AABB(c - h, c + h)


def get_oobb(body, **kw):
    b = WORLD.bodies[body]
    return OOBB(AABB(-b['half'], b['half']), (tuple(_center(body)), b['pose'][1]))


def get_center_extent(body, **kw):
    a = get_aabb(body)
    return get_aabb_center(a), get_aabb_extent(a)


def stable_z(body, surface, **kw):
    return get_aabb(surface)[1][2] + WORLD.bodies[body]['half'][2]


def pairwise_collision(a, b, max_distance=0.0, **kw):
    if WORLD.collides is not None:
        return WORLD.collides(a, b)
    if 'multi' in (WORLD.bodies[a]['kind'], WORLD.bodies[b]['kind']):
        boxes = [[(np.min(v, 0), np.max(v, 0)) for v in map(get_oobb_vertices, get_link_oobbs(c))] for c in (a, b)]
        return any(((x[0] - max_distance <= y[1]) & (y[0] - max_distance <= x[1])).all() for x in boxes[0] for y in boxes[1])
    x, y = get_aabb(a), get_aabb(b)
    return bool(((x[0] - max_distance <= y[1]) & (y[0] - max_distance <= x[1])).all())


def is_placement(body, surface, epsilon=1e-2, **kw):
    a, b = get_aabb(body), get_aabb(surface)
    c = (a[0] + a[1]) / 2
    return bool((b[0][:2] <= c[:2]).all() and (c[:2] <= b[1][:2]).all() and abs(a[0][2] - b[1][2]) <= epsilon)


def get_body_name(body):
    return 'iiwa14' if WORLD.bodies[body]['kind'] == DRAKE_IIWA_URDF else str(body)


def link_from_name(body, name):
    return name


def str_from_object(o):
    return str(o)


# ---- joints
def joints_from_names(body, names):
    return tuple(names)


def joint_from_name(body, name):
    return name


def get_movable_joints(body):
    return tuple(WORLD.bodies[body]['joints'])


def get_joint_positions(body, joints):
    return tuple(WORLD.bodies[body]['joints'][j] for j in joints)


def set_joint_positions(body, joints, values):
    if len(joints) != len(values):
        raise AssertionError('joints and values differ in length')
    for j, v in zip(joints, values):
        WORLD.bodies[body]['joints'][j] = float(v)
    WORLD.log.append(('joints', body, tuple(joints), tuple(float(v) for v in values)))


def get_configuration(body):
    return get_joint_positions(body, get_movable_joints(body))


def get_moving_links(body, joints):
    return list(joints)


def flatten_links(body, links=None):
    return {(body, tuple(links or ()))}


def flatten(seqs):
    return (x for s in seqs for x in s)


def refine_path(body, joints, waypoints, num_steps):
    """num_steps points per leg, the way points included"""
    out = [tuple(waypoints[0])]
    for a, b in zip(waypoints, waypoints[1:]):
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        for i in range(num_steps):
            out.append(tuple(a + (b - a) * (i + 1) / (num_steps + 1)))
        out.append(tuple(b))
    return out


def add_fixed_constraint(body, robot, link=-1, max_force=None):
    WORLD.log.append(('attach', body, robot, link))


def remove_fixed_constraint(body, robot, link=-1):
    WORLD.log.append(('detach', body, robot, link))


def joint_controller(body, joints, target, **kw):
    WORLD.log.append(('control', body, tuple(joints), tuple(float(v) for v in target)))
    yield tuple(target)


class Attachment:
    def __init__(self, parent, parent_link, grasp_pose, child):
        self.parent, self.parent_link, self.grasp_pose, self.child = parent, parent_link, grasp_pose, child

    def assign(self):
        WORLD.log.append(('follow', self.child, self.parent, get_configuration(self.parent)))
        if WORLD.tool is not None:
            p = multiply(WORLD.tool(self.parent, get_configuration(self.parent)), self.grasp_pose)
            WORLD.bodies[self.child]['pose'] = (np.array(p[0], dtype=float), tuple(p[1]))


def inverse_kinematics(robot, link, target_pose, **kw):
    if WORLD.ik is None:
        raise StubLimit('inverse_kinematics')
    q = WORLD.ik(robot, link, target_pose, get_configuration(robot))
    if q is None:
        return None
    set_joint_positions(robot, get_movable_joints(robot), q)
    return tuple(float(v) for v in q)


def get_sample_fn(body, joints, **kw):
    def fn():
        if WORLD.sample_conf is None:
            raise StubLimit('get_sample_fn')
        return tuple(WORLD.sample_conf(body, joints))
    return fn


def sample_placement(top_body, bottom_body, bottom_link=None, theta=0.0, scale=1.0, epsilon=1e-3, **kw):
    """a pose of the body standing on the link, turned by theta, its centre within scale times the extent of the link; the body is left there"""
    if kw:
        raise StubLimit('sample_placement %s' % sorted(kw))
    if WORLD.placer is not None:
        pose = WORLD.placer(top_body, bottom_body, bottom_link, theta, scale)
    else:
        lo, hi = get_aabb(bottom_body, link=bottom_link)
        h = WORLD.bodies[top_body]['half']
        room = np.maximum(0.0, (hi - lo)[:2] / 2 - h[:2]) * scale
        x, y = (lo + hi)[:2] / 2 + (sample_aabb(AABB(-room, room)) if scale else 0.0)
        pose = Pose((x, y, hi[2] + h[2] + epsilon), Euler(yaw=theta))
    if pose is not None:
        set_pose(top_body, pose)
    return pose


def plan_joint_motion(body, joints, end_conf, obstacles=[], attachments=[], self_collisions=True, **kw):
    if WORLD.planner is None or kw:
        raise StubLimit('plan_joint_motion %s' % sorted(kw))
    return WORLD.planner(body, tuple(joints), tuple(end_conf), obstacles=list(obstacles), attachments=list(attachments),
                         self_collisions=self_collisions)


def approximate_as_prism(body, body_pose=None, **kw):
    pose = body_pose if body_pose is not None else unit_pose()
    h = WORLD.bodies[body]['half']
    pts = np.array(tform_points(pose, get_aabb_vertices(AABB(-h, h))))
    lo, hi = pts.min(0), pts.max(0)
    return (lo + hi) / 2, hi - lo


def _noop(*a, **k):
    return None


enable_gravity = enable_real_time = disable_real_time = step_simulation = wait_if_gui = wait_for_user = _noop
dump_world = draw_pose = set_default_camera = _noop


def wait_for_duration(d):
    WORLD.log.append(('wait',))


def end_effector_from_body(body_pose, grasp_pose):
    return multiply(body_pose, invert(grasp_pose))


def approach_from_grasp(approach_pose, end_effector_pose):
    return multiply(approach_pose, end_effector_pose)


def connect(use_gui=True, **k):
    WORLD.gui = bool(use_gui)
    return 0


disconnect = _noop


def has_gui():
    return WORLD.gui


def wait_unused(*a):
    return None


class LockRenderer:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class WorldSaver:
    """poses and joints at the time it is made"""

    def __init__(self, *a, **k):
        import copy
        self.saved = copy.deepcopy(WORLD.bodies)

    def restore(self):
        for b, v in self.saved.items():
            if b in WORLD.bodies:
                WORLD.bodies[b] = dict(v, joints=dict(v['joints']))


class Profiler:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)

    def missing(*a, **k):
        raise StubLimit('pybullet_tools.utils.%s' % name)
    return missing
