"""C29 insertion motions of the arm domain: sweep of the held box, growth schedule, way points and end configurations."""
import itertools, math
import numpy as np
from mc.core import guard, kept, Raised
from mc import loader
from checks.c20 import ScriptedPRM, patched, halton

ID, LEVEL = 'C29', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of lattice motions, roadmap outcomes and inverse-kinematics failures on the real planner, against a dense geometric model and a model of the growth schedule'
NOTE = 'Every pair of lattice poses of the held box against containers of several sizes (singly and in batches) is compared with a ' \
       'densely sampled model using an independent box distance; the insertion planner is run on every outcome of a scripted ' \
       'roadmap (first sufficient count, path, unreachable way points) and on the real roadmap with enumerated samples, and the ' \
       'trajectories it returns are executed in a world with kinematics and compared with the checked path.'
BOUNDS = {'quick': '4 containers x 2 bodies x 2304 pose pairs; 2100 turns past small boxes; budgets 1-9 x 3 factors x all first-success counts; all failing subsets of paths of up to 3 points; 48 planning problems',
          'thorough': '6 containers x 3 bodies x 14400 pose pairs; budgets 1-20; 240 planning problems'}
ASSUMPTIONS = ['the simulator is a stand-in: a configuration is the pose of the hand and one redundant joint, which inverse kinematics keeps as it is',
               'checked poses may be up to 0.06 apart: an overlap on a shorter stretch away from the ends may be accepted or rejected; exact touching is not judged']
SPACING = 0.06
EPS = 1e-7


# ---------------------------------------------------------------- an independent box distance
def mats(q):
    x, y, z, w = np.moveaxis(np.asarray(q, dtype=float), -1, 0)
    return np.stack([np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], -1),
                     np.stack([2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], -1),
                     np.stack([2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], -1)], -2)


def quats(e):
    r, p, y = np.moveaxis(np.asarray(e, dtype=float), -1, 0) / 2
    cr, sr, cp, sp, cy, sy = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    return np.stack([sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy], -1)


def gap(c, R, h, box):
    """largest separation over the fifteen axes (negative: overlap) of boxes (c, R, h) from one box"""
    bc, bR, bh = box
    d = c - bc
    best = np.full(c.shape[:-1], -np.inf)
    A = [R[..., :, i] for i in range(3)]
    B = [np.broadcast_to(bR[:, i], c.shape) for i in range(3)]
    axes = A + B + [np.cross(a, b) for a in A for b in B]
    for ax in axes:
        n = np.linalg.norm(ax, axis=-1)
        ok = n > 1e-9
        ra = sum(np.abs((ax * a).sum(-1)) * h[i] for i, a in enumerate(A))
        rb = sum(np.abs((ax * b).sum(-1)) * bh[i] for i, b in enumerate(B))
        s = (np.abs((ax * d).sum(-1)) - ra - rb) / np.where(ok, n, 1.0)
        best = np.where(ok, np.maximum(best, s), best)
    return best


def along(S, G, T):
    """poses at the fractions T of each motion: points and rotation matrices"""
    qa, qb = quats(S[:, 3:]), quats(G[:, 3:])
    dot = (qa * qb).sum(-1)
    qb = np.where(dot[:, None] < 0, -qb, qb)
    dot = np.abs(dot).clip(0, 1)
    th = np.arccos(dot)
    t = T[None, :]
    small = th < 1e-7
    sn = np.where(small, 1.0, np.sin(th))[:, None]
    wa = np.where(small[:, None], 1 - t, np.sin((1 - t) * th[:, None]) / sn)
    wb = np.where(small[:, None], t + 0 * th[:, None], np.sin(t * th[:, None]) / sn)
    q = wa[..., None] * qa[:, None] + wb[..., None] * qb[:, None]
    q /= np.linalg.norm(q, axis=-1, keepdims=True)
    p = (1 - t)[..., None] * S[:, None, :3] + t[..., None] * G[:, None, :3]
    return p, mats(q)


def oracle(boxes, half, S, G, n=96):
    """(must accept, must reject, longest overlapping stretch)"""
    T = np.linspace(0, 1, n)
    p, R = along(S, G, T)
    sep = np.full(p.shape[:2], np.inf)
    for b in boxes:
        sep = np.minimum(sep, gap(p, R, np.asarray(half), b))
    # how far a point of the body can move between two dense samples, at most
    turn = 2 * np.arccos(np.abs((quats(S[:, 3:]) * quats(G[:, 3:])).sum(-1)).clip(0, 1))
    move = (np.linalg.norm(G[:, :3] - S[:, :3], axis=1) + turn * np.linalg.norm(half)) / (n - 1)
    acc = sep.min(1) > move / 2 + EPS
    hit = sep < -EPS
    norm = np.linalg.norm(G - S, axis=1)
    run, longest = np.zeros(len(S)), np.zeros(len(S))
    for k in range(n):
        run = np.where(hit[:, k], run + 1, 0)
        longest = np.maximum(longest, run)
    stretch = np.maximum(0, longest - 1) / (n - 1) * norm
    rej = hit[:, 0] | hit[:, -1] | (stretch > SPACING)
    return acc, rej, stretch


# ---------------------------------------------------------------- worlds
CONTAINERS = [dict(width=0.10, length=0.10, height=0.15), dict(width=0.16, length=0.12, height=0.15),
              dict(width=0.13, length=0.30, height=0.10, thickness=0.03), dict(width=0.085, length=0.2, height=0.15),
              dict(width=0.2, length=0.2, height=0.05), dict(width=0.14, length=0.14, height=0.2, thickness=0.02)]
BODIES = [(0.06, 0.06, 0.2), (0.05, 0.11, 0.04), (0.001, 0.001, 0.2)]
PLACES = [((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((-0.7, 0.2, 0.1), (0.0, 0.0, 0.6))]


def modules():
    from checks import kukalib
    return kukalib.modules()


def container(run, i, j):
    import pybullet_tools.utils as pbu
    _, local = run.create_hollow_shapes(run.SHAPE_INDICES['bin'], **CONTAINERS[i])
    base = pbu.Pose(PLACES[j][0], PLACES[j][1])
    return [pbu.OOBB(o[0], pbu.multiply(base, o[1])) for o in local], base


def walls(i, j):
    """the container from its documented sizes: four sides and a bottom, as (centre, rotation, half extents)"""
    c = dict(dict(thickness=0.01), **CONTAINERS[i])
    w, l, h, t = c['width'], c['length'], c['height'], c['thickness']
    base_p, base_R = np.array(PLACES[j][0]), mats(quats(np.array(PLACES[j][1])))
    out = []
    for s in (-1, 1):
        out.append(((s * (w - t) / 2, 0, h / 2), (t / 2, l / 2, h / 2)))
        out.append(((0, s * (l - t) / 2, h / 2), (w / 2, t / 2, h / 2)))
    out.append(((0, 0, t / 2), (w / 2, l / 2, t / 2)))
    return [(base_p + base_R @ np.array(p), base_R, np.array(e)) for p, e in out]


def bag(run, i, j, body):
    import pybullet_tools.utils as pbu
    oobbs, base = container(run, i, j)
    h = np.array(body) / 2
    start = pbu.OOBB(pbu.AABB(-h, h), pbu.multiply(base, pbu.Pose((0.01, 0.0, 0.3))))
    return run.BagOfBoundingBoxes(seed=0, start_oobb=start, end_oobb=start, obstacle_oobbs=oobbs, theta_margin=0.3)


def lattice(i, j, tier):
    c = CONTAINERS[i]
    xs = (0.02, 0.3 * c['width']) if tier == 'quick' else (-0.35 * c['width'], 0.02, 0.3 * c['width'])
    ys = (0.004, 0.25 * c['length'])
    zs = (0.12, 0.19, 0.36) if tier == 'quick' else (0.05, 0.12, 0.19, 0.3)
    angles = [(0, 0, 0), (0.25, 0, 0), (0, -0.2, 0.6), (0.15, 0.2, -0.3), (0, 0, 1.5)][:4 if tier == 'quick' else 5]
    base_p, base_R = np.array(PLACES[j][0]), mats(quats(np.array(PLACES[j][1])))
    out = []
    for p in itertools.product(xs, ys, zs):
        for a in angles:
            e = np.array(a, dtype=float)
            e[2] += PLACES[j][1][2]
            out.append(np.concatenate([base_p + base_R @ np.array(p), e]))
    return np.array(out)


def do_sweep(t, out):
    run, prim = modules()
    i, j, b = t['container'], t['place'], t['body']
    env = guard(bag, run, i, j, BODIES[b])
    where = 'container %r at %r, body %r' % (CONTAINERS[i], PLACES[j], BODIES[b])
    if isinstance(env, Raised):
        out.violate('sweep:raised', '%s: %s' % (where, env.text), dict(t))
        return
    P = lattice(i, j, t['tier'])
    idx = np.array(list(itertools.product(range(len(P)), repeat=2)))[t['part']::t['parts']]
    boxes, half = walls(i, j), np.array(BODIES[b]) / 2
    size = 64
    blocks = [(k, idx[k:k + size]) for k in range(0, len(idx), size)] + [(-2, idx[::3][:1000])]     # and a large one
    for k, sel in blocks:
        if t.get('only') is not None and t['only'] != k:
            continue
        S, G = P[sel[:, 0]].copy(), P[sel[:, 1]].copy()
        acc, rej, _ = oracle(boxes, half, S, G)
        out.count('states', len(sel))
        out.count('transitions', len(sel))
        for how, rows in [('batch', np.arange(len(sel)))] + [('single motion', np.array([q])) for q in range(k // size % 9, len(sel), 21)]:
            got = kept(env.is_motion_valid, S[rows], G[rows], cpu=60)
            out.count('traces')
            if isinstance(got, Raised) or np.asarray(got).shape != (len(rows),):
                out.violate('sweep:raised', '%s, %s of %d: %s' % (where, how, len(rows), got), dict(t, only=k))
                break
            got = np.asarray(got).astype(bool)
            for bad, word in ((acc[rows] & ~got, 'free motion rejected'), (rej[rows] & got, 'colliding motion accepted')):
                for q in np.nonzero(bad)[0][:1]:
                    r = rows[q]
                    out.violate('sweep:' + word, '%s (%s of %d): %s -> %s, %s' % (word, how, len(rows), np.round(S[r], 4).tolist(), np.round(G[r], 4).tolist(), where), dict(t, only=k))
        out.outcome('must accept', int(acc.sum()))
        out.outcome('must reject', int(rej.sum()))
        out.outcome('either', int((~acc & ~rej).sum()))
        if out.stop:
            return
    got = guard(env.is_motion_valid, np.zeros((0, 6)), np.zeros((0, 6)))
    if isinstance(got, Raised) or np.asarray(got).shape != (0,):
        out.violate('sweep:empty', '%s: an empty batch gives %s' % (where, got), dict(t, only=-1))
    do_bounds(t, env, boxes, out, where)


# ---------------------------------------------------------------- turning on the spot between small obstacles
TURN_BODY = (0.2, 0.012, 0.04)


def turn_case(axis, phi, size, every=1, first=0):
    """all pairs of turns of a long body about one axis, past a small box; messages"""
    import pybullet_tools.utils as pbu
    run, _ = modules()
    half, post = np.array(TURN_BODY) / 2, np.array(size)
    c, s_ = 0.085 * math.cos(phi), 0.085 * math.sin(phi)
    at = (c, s_, 0.0) if axis == 2 else (c, 0.0, s_)
    start = pbu.OOBB(pbu.AABB(-half, half), pbu.unit_pose())
    env = run.BagOfBoundingBoxes(seed=0, start_oobb=start, end_oobb=start, obstacle_oobbs=[pbu.OOBB(pbu.AABB(-post, post), pbu.Pose(at))], theta_margin=2.0)
    boxes = [(np.array(at), np.eye(3), post)]
    angles = [0.0, 0.2, -0.35, 0.5, 0.8, -0.9, 1.2, -1.3][:8 if axis == 2 else 7]
    poses = []
    for a in angles:
        for shift in (0.0, 0.004):
            e = [0.0, 0.0, 0.0]
            e[axis] = a
            poses.append([shift, 0.0, 0.0] + e)
    pairs = np.array(list(itertools.product(range(len(poses)), repeat=2)))[first::every]
    S, G = np.array(poses)[pairs[:, 0]], np.array(poses)[pairs[:, 1]]
    acc, rej, _ = oracle(boxes, half, S, G, n=300)
    msg = []
    got = [kept(env.is_motion_valid, S[k:k + 1], G[k:k + 1], cpu=60) for k in range(len(S))]
    got += [kept(env.is_motion_valid, S, G, cpu=120)]
    flat = []
    for g in got:
        if isinstance(g, Raised):
            return ['raised %s' % g.text], 0, 0
        flat.append(np.asarray(g).astype(bool))
    for how, v in (('alone', np.concatenate(flat[:-1])), ('in a batch', flat[-1])):
        for bad, word in ((acc & ~v, 'free turn rejected'), (rej & v, 'turn into an obstacle accepted')):
            for k in np.nonzero(bad)[0][:1]:
                msg.append('%s (%s): %s -> %s past a box of half size %s at %s' % (word, how, np.round(S[k], 3).tolist(), np.round(G[k], 3).tolist(), size, np.round(at, 3).tolist()))
    return msg, len(S), int((rej & ~oracle(boxes, half, S, S)[1] & ~oracle(boxes, half, G, G)[1]).sum())


def do_turn(t, out):
    every = 3 if t['tier'] == 'quick' else 1
    for k in (t['k'],):
        for size in ((0.005, 0.005, 0.005), (0.003, 0.012, 0.008)):
            phi = -1.1 + 0.37 * k
            msg, n, nt = turn_case(t['axis'], phi, size, every, k % every)
            out.count('states', n)
            out.count('transitions', n)
            out.count('traces', n + 1)
            out.outcome('turn hits only in between', nt)
            for m in msg[:1]:
                out.violate('turn:' + m.split(' (')[0], m, dict(kind='turn', case=[t['axis'], phi, list(size)]))
            if out.stop:
                return


class Fixed:
    """random answered at a given fraction of each range"""

    def __init__(self, us):
        self.us, self.i = us, 0

    def uniform(self, a, b):
        u = self.us[self.i % len(self.us)]
        self.i += 1
        return a + (b - a) * u

    def __getattr__(self, n):
        import random
        return getattr(random, n)


def do_bounds(t, env, boxes, out, where):
    """samples fill the box around the container and the start, turned by at most the margin"""
    run, _ = modules()
    corners = []
    for c, R, h in boxes:
        corners += [c + R @ (np.array(s) * h) for s in itertools.product((-1, 1), repeat=3)]
    base_p, base_R = np.array(PLACES[t['place']][0]), mats(quats(np.array(PLACES[t['place']][1])))
    corners.append(base_p + base_R @ np.array([0.01, 0.0, 0.3]))
    lo, hi = np.min(corners, 0), np.max(corners, 0)
    old = run.random
    try:
        for us in [(0.0,) * 6, (1.0,) * 6, (0.5,) * 6, (0.25, 0.75, 0.0, 1.0, 0.5, 0.125)]:
            run.random = Fixed(us)
            x = guard(env.sample_from_env)
            want = np.concatenate([lo + (hi - lo) * np.array(us[:3]), -0.3 + 0.6 * np.array(us[3:])])
            out.count('states')
            if isinstance(x, Raised) or np.shape(x) != (6,) or not np.allclose(x, want, atol=1e-9):
                out.violate('sample', '%s: answers %r give %s, expected %s' % (where, us, x, want.tolist()), dict(t, only=-1))
                return
    finally:
        run.random = old


# ---------------------------------------------------------------- the insertion planner
class Arm:
    """a world with one container, one held body and an arm whose configuration is (hand pose, redundant joint)"""

    def __init__(self, run, prim, i, j, body, ends, fails=None):
        import pybullet_tools.utils as pbu
        self.run, self.prim, self.pbu = run, prim, pbu
        pbu.reset_world()
        pbu.WORLD.tool = lambda parent, q: pbu.Pose(q[:3], q[3:6])
        self.fails = fails or (lambda point: False)
        self.down = (math.pi, 0.0, 0.0)

        def ik(robot, link, pose, current):
            e = pbu.euler_from_quat(pose[1])
            q = tuple(float(v) for v in list(pose[0]) + list(e)) + (current[6],)
            hand = pbu.Pose(q[:3], q[3:6])
            at = pbu.multiply(hand, self.grasp.grasp_pose)
            return None if self.fails(np.array(at[0])) else q
        pbu.WORLD.ik = ik
        pbu.WORLD.collides = lambda a, b: False
        self.robot = pbu.load_model(pbu.DRAKE_IIWA_URDF)
        self.body = pbu.create_box(*body)
        g = pbu.Pose((0.0, 0.0, 0.1), self.down)              # the body hangs from a hand that points down
        self.grasp = prim.BodyGrasp(self.body, g, pbu.Pose(0.01 * pbu.Point(z=1)), self.robot, 'hand')
        self.oobbs, self.base = container(run, i, j)
        self.confs = []
        for (point, euler), elbow in zip(ends, (0.4, -0.3)):
            pose = pbu.multiply(self.base, pbu.Pose(point, euler))
            hand = pbu.multiply(pose, pbu.invert(g))
            q = tuple(float(v) for v in list(hand[0]) + list(pbu.euler_from_quat(hand[1]))) + (elbow,)
            self.confs.append(prim.BodyConf(self.robot, q))
        self.ends = [pbu.multiply(self.base, pbu.Pose(p, e)) for p, e in ends]
        pbu.set_pose(self.body, ((9.0, 9.0, 9.0), pbu.unit_quat()))
        pbu.set_joint_positions(self.robot, pbu.get_movable_joints(self.robot), (1, 2, 3, 0, 0, 0, 0.7))

    def plan(self, lo, hi, factor, adaptive=False, cpu=60):
        pbu = self.pbu
        aabb = {self.body: pbu.get_aabb(self.body)}
        fn = self.run.get_insert_motion_gen(self.robot, body_aabb_map=aabb, body_obstacle_map={self.body: self.oobbs},
                                            start_samples=lo, end_samples=hi, factor=factor, collision_buffer=0.02,
                                            theta_margin=0.3, adaptive_n=adaptive)
        return guard(fn, self.confs[0], self.confs[1], self.body, self.grasp, cpu=cpu)

    def flat(self, pose):
        return np.array(list(pose[0]) + list(self.pbu.euler_from_quat(pose[1])))

    def follow(self, command):
        """poses of the body while the command is carried out, with the configurations"""
        out = []
        for path in command.body_paths:
            for _ in path.iterator():
                out.append((self.pbu.get_configuration(self.robot), self.flat(self.pbu.get_pose(self.body))))
        return out


def none(got):
    return got is None or got == () or (isinstance(got, Raised) and got.name == 'SubplanFailed')


def same_pose(a, b):
    return np.allclose(a[:3], b[:3], atol=1e-7) and np.allclose(mats(quats(a[3:])), mats(quats(b[3:])), atol=1e-6)


def compress(poses):
    out = []
    for p in poses:
        if not out or not same_pose(out[-1], p):
            out.append(p)
    return out


def judge_command(arm, got, way):
    """way: the checked way points, ends included"""
    if isinstance(got, Raised):
        return ['raised %s' % got.text]
    if none(got) or len(got) != 1:
        return ['reported %s although a path was found' % (got,)]
    seen = arm.follow(got[0])
    if not seen:
        return ['empty trajectory']
    msg = []
    for q, c, word in ((seen[0][0], arm.confs[0], 'starts'), (seen[-1][0], arm.confs[1], 'ends')):
        if not np.allclose(q, c.values, atol=1e-7):
            msg.append('trajectory %s at %s instead of %s' % (word, np.round(q, 4).tolist(), np.round(c.values, 4).tolist()))
    a, b = compress([p for _, p in seen]), compress([np.asarray(w, dtype=float) for w in way])
    if len(a) != len(b) or not all(same_pose(x, y) for x, y in zip(a, b)):
        msg.append('body is carried along %s, checked was %s' % ([np.round(x, 4).tolist() for x in a], [np.round(x, 4).tolist() for x in b]))
    return msg


FREE = [((0.0, 0.0, 0.35), (0.0, 0.0, 0.0)), ((0.0, 0.0, 0.14), (0.0, 0.0, 0.0))]
TURNED = [((0.01, 0.0, 0.33), (0.1, 0.0, 0.2)), ((0.0, 0.01, 0.16), (0.0, 0.05, 0.0))]
BAD_START = [((0.05, 0.0, 0.16), (0.0, 0.0, 0.0)), ((0.0, 0.0, 0.14), (0.0, 0.0, 0.0))]
BAD_END = [((0.0, 0.0, 0.35), (0.0, 0.0, 0.0)), ((0.0, 0.0, 0.08), (0.0, 0.0, 0.0))]
MIDDLE = [(-0.69, 0.21, 0.30 + 0.1, 0.05, 0.0, 0.6), (-0.7, 0.2, 0.28 + 0.1, 0.0, 0.1, 0.5), (-0.705, 0.19, 0.2 + 0.1, 0.1, -0.1, 0.7)]


def scripted_case(case):
    run, prim = modules()
    lo, hi, factor, need, npath, failing, ends = case
    e = (FREE, TURNED, BAD_START, BAD_END)[ends]
    path = MIDDLE[:npath]
    bad = [np.array(path[f][:3]) for f in failing]
    arm = Arm(run, prim, 1, 1, BODIES[0], e, lambda p: any(np.allclose(p, b, atol=1e-3) for b in bad))
    ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], need, path
    with patched(run, ScriptedPRM):
        got = arm.plan(lo, hi, factor)
    return judge_scripted(arm, got, list(ScriptedPRM.log), case)


def judge_scripted(arm, got, log, case):
    lo, hi, factor, need, npath, failing, ends = case
    if ends >= 2:
        if isinstance(got, Raised) and got.name == 'AssertionError' or none(got):
            return []
        return ['start or goal of the body overlaps the container, reported %s' % (got,)]
    msg = []
    grows = [e[1] for e in log if e[0] == 'grow']
    queries = [e for e in log if e[0] == 'query']
    if not grows or grows[0] != lo:
        return ['first grown to %s, not to the minimum%s' % (grows[:1], ': ' + got.text if isinstance(got, Raised) else '')]
    if any(b <= a for a, b in zip(grows, grows[1:])):
        msg.append('growth does not increase: %s' % grows)
    if max(grows) > hi:
        msg.append('grown to %d, past the maximum' % max(grows))
    for q in queries:
        if not same_pose(np.array(q[2]), arm.flat(arm.ends[0])) or not same_pose(np.array(q[3]), arm.flat(arm.ends[1])):
            msg.append('queried from %s to %s' % (q[2], q[3]))
    for n in grows:
        if not any(q[1] == n for q in queries):
            msg.append('not queried at %d samples' % n)
    ok = [q[1] for q in queries if q[4]]
    if ok:
        if grows[-1] != ok[0]:
            msg.append('went on growing (%s) after the success at %d samples' % (grows, ok[0]))
        if failing:
            if not none(got):
                msg.append('way points %s have no configuration, still reported %s' % (failing, got))
        else:
            msg += judge_command(arm, got, [arm.flat(arm.ends[0])] + MIDDLE[:npath] + [arm.flat(arm.ends[1])])
    else:
        if not none(got):
            msg.append('reported %s although no query succeeded' % (got,))
        n = grows[-1] + 1
        if max(n * factor, n + 1) < hi + 1:
            msg.append('gave up at %d samples, maximum %d, factor %s' % (grows[-1], hi, factor))
    return msg


def scripted_cases(task):
    lo, nb = task['lo'], task['nb']
    i = 0
    for hi in range(lo, nb + 1):
        for factor in (1.1, 1.5, 3):
            for need in [None] + list(range(1, hi + 3)):
                i += 1
                yield (lo, hi, factor, need, 1 + i % 3, (), i % 2)
    for npath in (1, 2, 3):
        for r in range(npath + 1):
            for failing in itertools.combinations(range(npath), r):
                for ends in (0, 1):
                    yield (lo, lo + 2, 1.5, lo + 1, npath, failing, ends)
    for ends in (2, 3):
        yield (lo, lo + 1, 1.5, 1, 1, (), ends)


def do_scripted(t, out):
    for case in scripted_cases(t):
        msg = scripted_case(case)
        out.count('states')
        out.count('traces')
        out.count('transitions')
        for m in msg[:1]:
            out.violate('insert:' + m.split(' ')[0], 'minimum %d maximum %d factor %s, success from %s on, path of %d points, unreachable %s, ends %d: %s'
                        % (case + (m,)), dict(kind='scripted', case=case))
        if out.stop:
            return


class Enumerated(Fixed):
    def __init__(self, shift):
        self.i, self.shift = 0, shift

    def uniform(self, a, b):
        self.i += 1
        k, base = (self.i + 5) // 6, (2, 3, 5, 7, 11, 13)[self.i % 6]
        return a + (b - a) * ((halton(k, base) + self.shift) % 1.0)


REAL = [(0, 0), (1, 1), (4, 0), (5, 1), (2, 0), (3, 1)]


def plan_case(k):
    run, prim = modules()
    i, j = REAL[k % len(REAL)]
    ends = [((0.01 * (k % 3), 0.0, 0.30 + 0.02 * (k % 4)), (0.0, 0.05 * (k % 2), 0.0)), ((0.0, 0.0, 0.135 + 0.02), (0.0, 0.0, 0.0))]
    body = (BODIES[0], BODIES[2], (0.05, 0.04, 0.1))[k // 6 % 3]
    arm = Arm(run, prim, i, j, body, ends)
    old = run.random
    run.random = Enumerated((k * 0.381966) % 1.0)
    try:
        got = arm.plan((4, 8)[k % 2], (16, 24)[k // 2 % 2], 1.6, cpu=240)
    finally:
        run.random = old
    return judge_plan(arm, got, walls(i, j), np.array(body) / 2)


def judge_plan(arm, got, boxes, half):
    S, G = [np.array([arm.flat(e)]) for e in arm.ends]
    _, rs, _ = oracle(boxes, half, S, S)
    _, rg, _ = oracle(boxes, half, G, G)
    if rs[0] or rg[0]:
        if none(got) or isinstance(got, Raised) and got.name == 'AssertionError':
            return [], 'refused'
        return ['start or goal overlaps the container, reported %s' % (got,)], 'refused'
    if none(got):
        return [], 'no trajectory'
    if isinstance(got, Raised):
        return ['raised %s' % got.text], 'raised'
    seen = arm.follow(got[0])
    msg = []
    for q, c, word in ((seen[0][0], arm.confs[0], 'starts'), (seen[-1][0], arm.confs[1], 'ends')):
        if not np.allclose(q, c.values, atol=1e-7):
            msg.append('trajectory %s at %s instead of %s' % (word, np.round(q, 4).tolist(), np.round(c.values, 4).tolist()))
    P = np.array(compress([p for _, p in seen]))
    if len(P) > 1:
        _, rej, stretch = oracle(boxes, half, P[:-1], P[1:], n=400)
        if rej.any():
            k = int(np.nonzero(rej)[0][0])
            msg.append('leg %d of %d of the trajectory passes through the container (%s -> %s, stretch %.3f)' % (
                k, len(P) - 1, np.round(P[k], 4).tolist(), np.round(P[k + 1], 4).tolist(), stretch[k]))
    return msg, 'trajectory'


def do_plan(t, out):
    d = loader.private_package()
    try:
        for k in range(t['part'], t['n'], t['parts']):
            msg, what = plan_case(k)
            out.count('states')
            out.count('traces')
            out.count('transitions')
            out.outcome('planner: ' + what)
            for m in msg[:1]:
                out.violate('plan:' + m.split(' ')[0], 'planning problem %d: %s' % (k, m), dict(kind='plan', k=k))
            if out.stop:
                return
    finally:
        loader.drop_private(d)


def tasks(tier):
    t = []
    for i in range(4 if tier == 'quick' else 6):
        for b in range(2 if tier == 'quick' else 3):
            parts = 1 if tier == 'quick' else 6
            t += [dict(kind='sweep', container=i, place=(i + b) % 2, body=b, tier=tier, part=p, parts=parts) for p in range(parts)]
    t += [dict(kind='turn', axis=a, k=k, tier=tier) for a in (1, 2) for k in range(7)]
    nb = 9 if tier == 'quick' else 20
    t += [dict(kind='scripted', lo=lo, nb=nb) for lo in range(1, nb + 1)]
    n = 48 if tier == 'quick' else 240
    t += [dict(kind='plan', part=p, parts=16, n=n) for p in range(16)]
    return t[::-1]


def run_task(t, out):
    globals()['do_' + t['kind']](t, out)


def replay(rec):
    from mc.core import Tally
    out = Tally()
    if rec['kind'] == 'sweep':
        do_sweep(rec, out)
        return [m for _, m, _ in out.violations]
    if rec['kind'] == 'turn':
        return turn_case(rec['case'][0], rec['case'][1], tuple(rec['case'][2]))[0]
    if rec['kind'] == 'scripted':
        c = rec['case']
        return scripted_case(tuple(c[:5]) + (tuple(c[5]), c[6]))
    d = loader.private_package()
    try:
        return plan_case(rec['k'])[0]
    finally:
        loader.drop_private(d)
