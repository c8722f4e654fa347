"""C31 arm primitives: grasps, placements, inverse kinematics, free and holding motions, collisions of a command with an object."""
import itertools, math
import numpy as np
from mc.core import guard, Raised, Tally
from mc import loader
from checks.c29 import mats

ID, LEVEL = 'C31', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of the outcomes of every simulator and planner call on the real primitives, against models of each primitive'
NOTE = 'The primitives run on a stand-in simulator in which every answer (placement, collision of each pair in each state, inverse ' \
       'kinematics, motion planner) is scripted; all scripts up to a length are enumerated and the results, as well as the state ' \
       'of the world at the moment of each question, are compared with a model.'
BOUNDS = {'quick': 'inverse kinematics: all outcomes of 4 attempts and single deviations among 10; placements: all outcomes of 3 x 2 fixed bodies x 1 obstacle; motions: all start/end pairs, obstacle sets and planner results; commands of up to 3 paths x 3 configurations, all collision patterns',
          'thorough': 'inverse kinematics: all outcomes of 6 attempts; placements: all outcomes of 5; commands of up to 3 paths x 4 configurations'}
ASSUMPTIONS = ['the simulator is a stand-in with scripted answers', 'sampling a placement leaves the object there, as in the library used']


def prim():
    return loader.tamp_module('kuka_carry', 'kuka_primitives')


def fresh():
    import pybullet_tools.utils as pbu
    pbu.reset_world()
    pbu.WORLD.tool = lambda parent, q: pbu.Pose(q[:3], q[3:6])
    robot = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    return pbu, robot


def conf(i):
    return tuple(round(0.1 * i + 0.01 * j, 3) for j in range(7))


# ---------------------------------------------------------------- inverse kinematics
OUT = ('ok', 'none', 'hit0', 'hit1')        # found and free / not found / robot hits the first / the last fixed body


def ik_case(script, randomize, nfixed, lift, default=False):
    K = prim()
    pbu, robot = fresh()
    body = pbu.create_box(0.1, 0.1, 0.2)
    fixed = [pbu.create_box(0.1, 0.1, 0.1) for _ in range(nfixed)]
    other = pbu.create_box(0.1, 0.1, 0.1)
    log, cur = [], {}

    def ik(rb, link, pose, current):
        n = len(log)
        log.append((rb, link, pose, current))
        cur['n'] = n
        what = script[n] if n < len(script) else 'none'
        return None if what == 'none' else conf(n + 1)

    def collides(a, b):
        x = [v for v in (a, b) if v != robot]
        if len(x) != 1:
            return False
        q = pbu.get_configuration(robot)
        for n, what in enumerate(script):
            if q == conf(n + 1):
                if x[0] == other:
                    return True
                return nfixed > 0 and what == 'hit0' and x[0] == fixed[0] or nfixed > 0 and what == 'hit1' and x[0] == fixed[-1]
        return False
    seeds = itertools.count(50)
    drawn = []

    def sample(b, joints):
        drawn.append(conf(next(seeds)))
        return drawn[-1]
    pbu.WORLD.ik, pbu.WORLD.collides, pbu.WORLD.sample_conf = ik, collides, sample
    pbu.set_joint_positions(robot, pbu.get_movable_joints(robot), conf(30))
    g = pbu.Pose((0.0, 0.02, 0.1), (math.pi, 0.0, 0.3))
    grasp = K.BodyGrasp(body, g, pbu.Pose(lift * pbu.Point(z=1)), robot, 'hand')
    pose = K.BodyPose(body, pbu.Pose((0.4, -0.2, 0.3), (0.0, 0.0, 0.5)))
    kw = {} if default else dict(num_attempts=len(script))
    got = guard(K.get_ik_fn, robot, body, pose, grasp, fixed=list(fixed), randomize=randomize, **kw)
    if isinstance(got, Raised):
        return ['raised %s' % got.text]
    want = None
    for n, what in enumerate(script):
        if what == 'ok' or nfixed == 0 and what != 'none':
            want = n
            break
    msg = []
    if want is None:
        if got is not None:
            msg.append('no attempt is free of collisions, reported %s' % (got.values,))
        if len(log) < len(script):
            msg.append('only %d of %d attempts made' % (len(log), len(script)))
    elif got is None:
        msg.append('attempt %d succeeds, reported none' % want)
    else:
        if tuple(got.values) != conf(want + 1) or got.body != robot or tuple(got.joints) != tuple(pbu.get_movable_joints(robot)):
            msg.append('attempt %d gives %s, reported %s of %s' % (want, conf(want + 1), got.values, got.body))
    for n, (rb, link, p, current) in enumerate(log):
        # the hand is where the grasp puts it, lifted by the approach
        hand = pbu.multiply(pose.pose, pbu.invert(g))
        d = np.array(p[0]) - np.array(hand[0])
        if rb != robot or link != 'hand' or not np.allclose(d, (0, 0, lift), atol=1e-9) or not np.allclose(mats(np.array(p[1])), mats(np.array(hand[1])), atol=1e-9):
            msg.append('attempt %d asks for link %s at %s, %s above the grasp' % (n, link, np.round(p[0], 4).tolist(), np.round(d, 4).tolist()))
        if randomize and (n >= len(drawn) or current != drawn[n]):
            msg.append('attempt %d starts from %s instead of a fresh random configuration' % (n, current))
    return msg


def do_ik(t, out):
    n = 4 if t['tier'] == 'quick' else 6
    jobs = [(list(s), r, f, l, False) for s in itertools.product(OUT, repeat=n) for r in (True, False) for f in ((2,) if n > 4 else (0, 1, 2)) for l in (0.0, 0.01)]
    for k in range(10):
        for what in OUT:
            jobs.append((['none'] * k + [what] + ['ok'] * (9 - k), True, 2, 0.01, True))
            jobs.append((['hit1'] * k + [what] + ['none'] * (9 - k), False, 2, 0.01, True))
    for job in jobs[t['part']::t['parts']]:
        out.count('states')
        out.count('transitions', len(job[0]))
        out.count('traces')
        for m in guarded(ik_case, job)[:1]:
            out.violate('ik', 'attempts %s, random start %s, %d fixed bodies, approach %s: %s' % (job[0], job[1], job[2], job[3], m), dict(kind='ik', case=list(job)))
        if out.stop:
            return


def guarded(fn, case):
    return fn(*case)


# ---------------------------------------------------------------- placements
def stable_case(which, script, nobst):
    """script: outcome of each placement: 'ok', 'none', or the index of the body it collides with"""
    K = prim()
    pbu, robot = fresh()
    body, surface = pbu.create_box(0.05, 0.05, 0.2), pbu.create_box(0.5, 0.5, 0.1)
    other = pbu.create_box(0.1, 0.1, 0.1)
    fixed = [surface, other]
    obst = [pbu.create_box(0.05, 0.05, 0.2) for _ in range(nobst)]
    bodies = fixed + obst
    calls = []
    poses = [pbu.Pose((0.1 * n, -0.05 * n, 0.2), (0.0, 0.0, 0.1 * n)) for n in range(len(script))]

    class Enough(Exception):
        pass

    def placer(b, s, link, theta, scale):
        if len(calls) >= len(script):
            raise Enough()
        calls.append((b, s, link, theta, scale))
        return None if script[len(calls) - 1] == 'none' else poses[len(calls) - 1]

    def collides(a, b):
        o = [v for v in (a, b) if v != body]
        if len(o) != 1:
            return False
        at = pbu.get_pose(body)[0]
        for n, what in enumerate(script):
            if np.allclose(at, poses[n][0], atol=1e-9):
                return isinstance(what, int) and bodies.index(o[0]) == what
        return True
    pbu.WORLD.placer, pbu.WORLD.collides = placer, collides
    pbu.set_pose(body, pbu.Pose((9.0, 9.0, 9.0)))
    links = {surface: 4, other: None}
    gen = (K.get_stable_gen if which == 'random' else K.get_fixed_stable_gen)(fixed, links)
    got, msg = [], []
    it = gen(body, surface, obstacles=list(obst)) if nobst else gen(body, surface)
    limit = len(script) + 2

    def take():
        for _ in range(limit):
            try:
                (p,) = next(it)
            except (Enough, StopIteration):
                return
            got.append(p)
    r = guard(take, cpu=5)
    if isinstance(r, Raised):
        return ['raised %s' % r.text]
    want = [n for n, what in enumerate(script) if what == 'ok']
    if which != 'random':
        want = [n for n in want if n < 4]
    seen = [[n for n in range(len(poses)) if np.allclose(p.value[0], poses[n][0], atol=1e-9)] for p in got]
    if seen != [[n] for n in want] or any(p.body != body for p in got):
        msg.append('placements %s are free, generated %s' % (want, seen))
    for b, s, link, theta, scale in calls:
        if (b, s, link) != (body, surface, 4):
            msg.append('placed %s on link %s of %s' % (b, link, s))
    th = [c[3] for c in calls]
    if which != 'random':
        if any(c[4] != 0 for c in calls) or len(th) != min(4, len(script)) or any(not np.isclose(math.sin(2 * v), 0, atol=1e-9) for v in th):
            msg.append('centred placements turned by %s with spread %s' % (th, [c[4] for c in calls]))
        if len(th) == 4 and len({round(math.cos(v), 6) + 10 * round(math.sin(v), 6) for v in th}) != 4:
            msg.append('turned by %s, not by the four right angles' % th)
    elif any(not -math.pi - 1e-9 <= v <= math.pi + 1e-9 for v in th):
        msg.append('turned by %s' % th)
    return msg


def do_stable(t, out):
    n = 3 if t['tier'] == 'quick' else 5
    jobs = []
    for nobst in (0, 1):
        outs = ['ok', 'none'] + list(range(2 + nobst))
        for s in itertools.product(outs, repeat=n):
            jobs.append(('random', list(s), nobst))
        for s in itertools.product(outs, repeat=4):
            jobs.append(('fixed', list(s), nobst))
    for job in jobs[t['part']::t['parts']]:
        out.count('states')
        out.count('transitions', len(job[1]))
        out.count('traces')
        for m in stable_case(*job)[:1]:
            out.violate('stable:' + job[0], '%s placements %s, %d obstacles: %s' % (job[0], job[1], job[2], m), dict(kind='stable', case=list(job)))
        if out.stop:
            return


# ---------------------------------------------------------------- grasps
def grasp_case(size, at):
    K = prim()
    pbu, robot = fresh()
    body = pbu.create_box(*size)
    pbu.set_pose(body, at)
    got = guard(lambda: list(K.get_grasp_gen(robot, 'top')(body)))
    if isinstance(got, Raised):
        return ['raised %s' % got.text]
    msg, turns = [], []
    if not got:
        msg.append('no grasp')
    for (g,) in got:
        hand = pbu.invert(g.value)
        R = mats(np.array(hand[1]))
        if g.body != body or g.robot != robot or g.link != 'iiwa_link_ee_kuka':
            msg.append('grasp of body %s by link %s of %s' % (g.body, g.link, g.robot))
        if not np.allclose(hand[0], (0, 0, size[2] / 2), atol=1e-6) or not np.allclose(R[:, 2], (0, 0, -1), atol=1e-6):
            msg.append('hand at %s pointing along %s of a box %s' % (np.round(hand[0], 4).tolist(), np.round(R[:, 2], 4).tolist(), size))
        if not (np.isclose(np.abs(R[:, 0]).max(), 1, atol=1e-6)):
            msg.append('hand turned by %s against the sides' % np.round(R[:, 0], 4).tolist())
        turns.append(tuple(np.round(R[:, 0] + 0.0, 4).tolist()))
        # attached, the body follows the hand
        q = (0.3, 0.1, 0.7, 0.0, math.pi / 2 * 0.3, 0.2, 0.0)
        pbu.set_joint_positions(robot, pbu.get_movable_joints(robot), q)
        g.assign()
        a, b = pbu.multiply(pbu.WORLD.tool(robot, q), g.value), pbu.get_pose(body)
        if not np.allclose(a[0], b[0], atol=1e-9) or not np.allclose(mats(np.array(a[1])), mats(np.array(b[1])), atol=1e-9):
            msg.append('attached body at %s instead of %s' % (np.round(b[0], 4).tolist(), np.round(a[0], 4).tolist()))
        ap = g.approach
        if not np.allclose(ap[0], (0, 0, 0.01), atol=1e-9):
            msg.append('approach %s' % np.round(ap[0], 4).tolist())
    if len(set(turns)) != len(turns) or len(turns) not in (0, 4):
        msg.append('hand orientations %s: not the four right angles' % sorted(turns))
    return msg


def do_grasp(t, out):
    import pybullet_tools.utils as pbu
    for size in itertools.product((0.001, 0.06, 0.3), (0.02, 0.06), (0.05, 0.2, 0.7)):
        for at in (((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((0.5, -0.2, 0.3), (0.0, 0.0, 1.1)), ((-0.5, 0.2, 0.1), (0.3, -0.2, 2.0))):
            out.count('states')
            out.count('traces')
            for m in grasp_case(size, pbu.Pose(*at))[:1]:
                out.violate('grasp', 'box %s at %s: %s' % (size, at, m), dict(kind='grasp', case=[list(size), [list(at[0]), list(at[1])]]))


# ---------------------------------------------------------------- free and holding motions
def motion_case(holding, teleport, nfixed, placed, result, selfc, same):
    """placed: for every movable object whether the plan knows its pose; result: the path found, or None"""
    K = prim()
    pbu, robot = fresh()
    fixed = [pbu.create_box(0.1, 0.1, 0.1) for _ in range(nfixed)]
    objs = [pbu.create_box(0.05, 0.05, 0.2) for _ in range(len(placed))]
    body = pbu.create_box(0.05, 0.05, 0.2)
    joints = pbu.get_movable_joints(robot)
    q1, q2 = K.BodyConf(robot, conf(1)), K.BodyConf(robot, conf(1) if same else conf(2))
    pbu.set_joint_positions(robot, joints, conf(7))
    poses = [K.BodyPose(o, pbu.Pose((0.3 + 0.1 * k, 0.2, 0.1), (0, 0, 0.2 * k))) for k, o in enumerate(objs)]
    for o in objs:
        pbu.set_pose(o, pbu.Pose((5.0, 5.0, 5.0)))
    fluents = [('atpose', o, p) for o, p, yes in zip(objs, poses, placed) if yes]
    grasp = K.BodyGrasp(body, pbu.Pose((0, 0, 0.1)), pbu.Pose((0, 0, 0.01)), robot, 'hand')
    asked = []

    def planner(b, js, end, obstacles, attachments, self_collisions):
        asked.append((b, js, end, list(obstacles), attachments, self_collisions, pbu.get_configuration(robot),
                      {o: np.array(pbu.get_pose(o)[0]) for o in objs}))
        return None if result is None else [conf(k) for k in result]
    pbu.WORLD.planner = planner
    fixed_given = list(fixed)
    make = K.get_holding_motion_gen if holding else K.get_free_motion_gen
    fn = make(robot, fixed_given, teleport) if selfc else make(robot, fixed_given, teleport, self_collisions=False)
    args = (q1, q2, body, grasp) if holding else (q1, q2)
    msg = []
    for turn in range(2):                       # the same stream is called again and again
        asked.clear()
        got = guard(fn, *args, fluents=fluents) if fluents else guard(fn, *args)
        if isinstance(got, Raised):
            return ['raised %s' % got.text]
        if fixed_given != fixed:
            msg.append('the list of fixed bodies became %s' % fixed_given)
        want = [tuple(q1.values), tuple(q2.values)] if teleport else (None if result is None else [conf(k) for k in result])
        if want is None:
            if got:
                msg.append('no motion was found, reported %s' % (got,))
            continue
        if not got or len(got) != 1:
            msg.append('motion was found, reported %s' % (got,))
            continue
        paths = got[0].body_paths
        if len(paths) != 1 or [tuple(q) for q in paths[0].path] != want or paths[0].body != robot or tuple(paths[0].joints) != tuple(joints):
            msg.append('path is %s of body %s, expected %s' % ([tuple(q) for p in paths for q in p.path], [p.body for p in paths], want))
        att = [a for p in paths for a in p.attachments]
        if [getattr(a, 'body', None) for a in att] != ([body] if holding else []):
            msg.append('carries %s' % att)
        if not teleport:
            if len(asked) != 1:
                msg.append('planned %d times' % len(asked))
                continue
            b, js, end, obst, attach, sc, at, where = asked[0]
            known = [o for o, yes in zip(objs, placed) if yes]
            if b != robot or end != tuple(q2.values) or at != tuple(q1.values):
                msg.append('planned for body %s from %s to %s' % (b, at, end))
            if sorted(obst) != sorted(fixed + known):
                msg.append('obstacles %s, expected %s' % (sorted(obst), sorted(fixed + known)))
            for o, p, yes in zip(objs, poses, placed):
                if yes and not np.allclose(where[o], p.value[0]):
                    msg.append('object stands at %s while planning, the plan has it at %s' % (where[o].tolist(), np.array(p.value[0]).tolist()))
            if [(a.child, a.parent) for a in attach] != ([(body, robot)] if holding else []):
                msg.append('planned with attachments %s' % [(a.child, a.parent) for a in attach])
            elif holding and not np.allclose(attach[0].grasp_pose[0], (0, 0, 0.1)):
                msg.append('planned with grasp %s' % (attach[0].grasp_pose,))
            if bool(sc) != selfc:
                msg.append('self collisions %s' % sc)
    return msg


def do_motion(t, out):
    placed = [p for n in range(4) for p in itertools.product((False, True), repeat=n)]
    results = [None, [1, 2], [1, 5, 2], [1, 5, 6, 2]]
    jobs = [(h, tp, nf, list(p), r, sc, same) for h in (False, True) for tp in (False, True) for nf in range(3) for p in placed for r in results
            for sc in (True, False) for same in (False, True)]
    for job in jobs[t['part']::t['parts']]:
        out.count('states')
        out.count('transitions', 2)
        out.count('traces')
        for m in motion_case(*job)[:1]:
            out.violate('motion:' + ('holding' if job[0] else 'free'), 'teleport %s, %d fixed bodies, objects with known pose %s, planner answers %s, self collisions %s, same configuration %s: %s'
                        % (job[1:] + (m,)), dict(kind='motion', case=list(job)))
        if out.stop:
            return


# ---------------------------------------------------------------- does a command hit an object
def collision_case(paths, hits, carried):
    """paths: number of configurations of each path and whether it carries an object; hits: {(path, step): which mover}"""
    K = prim()
    pbu, robot = fresh()
    pbu.WORLD.log = []
    cargo, target = pbu.create_box(0.05, 0.05, 0.2), pbu.create_box(0.05, 0.05, 0.2)
    joints = pbu.get_movable_joints(robot)
    grasp = K.BodyGrasp(cargo, pbu.Pose((0, 0, 0.1)), pbu.Pose((0, 0, 0.01)), robot, 'hand')
    tgrasp = K.BodyGrasp(target, pbu.Pose((0, 0, 0.1)), pbu.Pose((0, 0, 0.01)), robot, 'hand')
    at = {}
    ps = []
    k = 0
    for i, (n, carry) in enumerate(paths):
        qs = []
        for j in range(n):
            k += 1
            at[conf(k)] = (i, j)
            qs.append(conf(k))
        att = ([grasp] if carry else []) + ([tgrasp] if carried == i else [])
        ps.append(K.BodyPath(robot, qs, joints=joints, attachments=att))
    command = K.Command(ps)
    pose = K.BodyPose(target, pbu.Pose((0.4, 0.3, 0.2)))
    pbu.set_pose(target, pbu.Pose((5.0, 5.0, 5.0)))
    stale = []

    def collides(a, b):
        o = [v for v in (a, b) if v != target]
        if len(o) != 1:
            return False
        where = at.get(pbu.get_configuration(robot))
        if not np.allclose(pbu.get_pose(target)[0], pose.value[0]) or where is None:
            stale.append(where)
            return True
        if o[0] == cargo:
            want = pbu.multiply(pbu.WORLD.tool(robot, pbu.get_configuration(robot)), grasp.grasp_pose)
            if not np.allclose(want[0], pbu.get_pose(cargo)[0]):
                stale.append(where)
                return True
        return hits.get(where) == ('robot' if o[0] == robot else 'cargo')
    pbu.WORLD.collides = collides
    got = guard(K.get_movable_collision_test(), command, target, pose)
    if isinstance(got, Raised):
        return ['raised %s' % got.text]
    want = carried is None and any(v == 'robot' or paths[i][1] for (i, j), v in hits.items())
    if bool(got) != want:
        return ['reported %s, expected %s%s' % (bool(got), want, ', asked in a state which never occurs: %s' % stale[:1] if stale else '')]
    return []


def do_collision(t, out):
    nq = 3 if t['tier'] == 'quick' else 4
    jobs = []
    for n in range(1, 4):
        for shape in itertools.product([(k, c) for k in range(0 if n < 3 else 1, nq + 1 if n < 3 else 2) for c in (False, True)], repeat=n):
            where = [(i, j) for i, (k, c) in enumerate(shape) for j in range(k)]
            options = [{}] + [{w: v} for w in where for v in ('robot', 'cargo')]
            if len(where) <= 4:
                options += [{a: v, b: x} for a, b in itertools.combinations(where, 2) for v in ('robot', 'cargo') for x in ('robot', 'cargo')]
            for h in options:
                jobs.append((list(shape), h, None))
            for i in range(n):
                jobs.append((list(shape), {w: 'robot' for w in where}, i))
    for paths, h, carried in jobs[t['part']::t['parts']]:
        out.count('states')
        out.count('transitions', sum(k for k, _ in paths))
        out.count('traces')
        for m in collision_case(paths, h, carried)[:1]:
            out.violate('collision', 'paths (configurations, carrying) %s, touching at %s, object carried in path %s: %s' % (paths, h, carried, m),
                        dict(kind='collision', case=[[list(p) for p in paths], [[list(k), v] for k, v in h.items()], carried]))
        if out.stop:
            return


def tasks(tier):
    t = [dict(kind='grasp', tier=tier)]
    for kind in ('ik', 'stable', 'motion', 'collision'):
        t += [dict(kind=kind, tier=tier, part=p, parts=8) for p in range(8)]
    return t


def run_task(t, out):
    globals()['do_' + t['kind']](t, out)


def replay(rec):
    c = rec['case']
    if rec['kind'] == 'ik':
        return ik_case(*c)
    if rec['kind'] == 'stable':
        return stable_case(*c)
    if rec['kind'] == 'grasp':
        import pybullet_tools.utils as pbu
        return grasp_case(tuple(c[0]), pbu.Pose(*c[1]))
    if rec['kind'] == 'motion':
        return motion_case(*c)
    return collision_case([tuple(p) for p in c[0]], {tuple(k): v for k, v in c[1]}, c[2])
