"""C30 container world of the arm domain: hollow bodies, world layout, initial facts and the obstacles planned against."""
import itertools, math
import numpy as np
from mc.core import guard, Raised
from checks import c29
from checks.c20 import ScriptedPRM, patched
from checks.c29 import quats, mats

ID, LEVEL = 'C30', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of container shapes, worlds, placement and reachability histories on the real world generator, against a geometric model of the simulated boxes'
NOTE = 'Every container shape of a size grid, every world of a gap grid, every history of clashing, unreachable and good placements ' \
       'up to a length and every reachability failure is built by the real code on a stand-in simulator that keeps the simulated ' \
       'boxes; these are compared with the documented shape, with the boxes the motion planner is given and with the initial facts.'
BOUNDS = {'quick': '6 shapes x 135 sizes; 9 gaps; all histories of up to 2 bad placements before a good one for each of 8 objects; reachability failing at each of 3 poses of each object',
          'thorough': '6 shapes x 600 sizes; 41 gaps; histories of up to 4 bad placements; two reachability failures at once'}
ASSUMPTIONS = ['the simulator is a stand-in: boxes, exact poses, a hand whose configuration is its pose',
               'a container stands upright and may touch its neighbour']

# the sides of each shape: axis 0 = x, 1 = y, 2 = z
SIDES = {'tray': [(0, -1), (0, 1), (1, -1), (1, 1), (2, -1)], 'bin': [(0, -1), (0, 1), (1, -1), (1, 1), (2, -1)],
         'cubby': [(0, -1), (1, -1), (1, 1), (2, -1), (2, 1)], 'fence': [(0, -1), (0, 1), (1, -1), (1, 1)],
         'x_walls': [(0, -1), (0, 1), (2, -1)], 'y_walls': [(1, -1), (1, 1), (2, -1)]}


def box(half, pose):
    return tuple(np.round(np.concatenate([half, pose[0], np.abs(mats(np.array(pose[1]))).ravel()]), 7).tolist())


def oobb_key(o):
    lo, hi = np.array(o[0][0], dtype=float), np.array(o[0][1], dtype=float)
    off = (lo + hi) / 2
    R = mats(np.array(o[1][1], dtype=float))
    return box((hi - lo) / 2, (np.array(o[1][0], dtype=float) + R @ off, o[1][1]))


def sides(category, size, t):
    out = []
    for axis, sign in SIDES[category]:
        half = np.array(size, dtype=float) / 2
        half[axis] = t / 2
        c = np.array([0.0, 0.0, size[2] / 2.0])
        c[axis] += sign * (size[axis] - t) / 2.0
        out.append((half, c))
    return out


# ---------------------------------------------------------------- shapes
def hollow_case(category, w, l, h, t):
    import pybullet_tools.utils as pbu
    run, _ = c29.modules()
    pbu.reset_world()
    kw = dict(width=w, length=l, height=h, thickness=t)
    got = guard(run.create_hollow, category, **kw)
    if isinstance(got, Raised):
        return ['%s %r: %s' % (category, kw, got.text)]
    body, oobbs = got
    want = sorted(box(half, (c, pbu.unit_quat())) for half, c in sides(category, (w, l, h), t))
    sim = sorted(oobb_key(o) for o in pbu.get_link_oobbs(body))
    plan = sorted(oobb_key(o) for o in oobbs)
    msg = []
    if sim != want:
        msg.append('%s %r: simulated boxes %s, documented %s' % (category, kw, [b[:6] for b in sim], [b[:6] for b in want]))
    if plan != want:
        msg.append('%s %r: boxes planned against %s, documented %s' % (category, kw, [b[:6] for b in plan], [b[:6] for b in want]))
    pose = pbu.Pose(pbu.Point(0.3, -0.2, 0.1))
    pbu.set_pose(body, pose)
    return msg


def do_hollow(t, out):
    ws = [0.05, 0.09, 0.12, 0.3, 0.4] if t['tier'] == 'quick' else [0.03, 0.05, 0.07, 0.09, 0.12, 0.15, 0.2, 0.3, 0.4, 1.0]
    hs = [0.05, 0.15, 0.4] if t['tier'] == 'quick' else [0.02, 0.05, 0.15, 0.4]
    ts = [0.004, 0.01, 0.02]
    if t['tier'] != 'quick':
        ts += [0.001, 0.015]
    ls = ws[::2] if t['tier'] == 'quick' else ws[::3]
    for w, l, h, th in itertools.product(ws, ls, hs, ts):
        if th >= h:
            continue
        out.count('states')
        out.count('traces')
        for m in hollow_case(t['category'], w, l, h, th)[:1]:
            out.violate('hollow', m, dict(kind='hollow', case=[t['category'], w, l, h, th]))
        if out.stop:
            return


# ---------------------------------------------------------------- worlds
SPOTS = [(x, y) for x in (0.40, 0.50, 0.60) for y in (-0.3, -0.1, 0.1, 0.3)]      # on the stove, far enough apart
FAR = (0.55, 0.6)                                                                  # where inverse kinematics fails


class Scene:
    """the simulator during load_world: placements on the stove are answered from a script per object"""

    def __init__(self, script=None, ik_fail=None):
        import pybullet_tools.utils as pbu
        self.pbu, self.script, self.order, self.tries = pbu, script or {}, [], {}
        self.attempts = 0
        pbu.reset_world()
        W = pbu.WORLD
        W.tool = lambda parent, q: pbu.Pose(q[:3], q[3:6])
        W.sample_conf = lambda body, joints: (0.0,) * len(joints)
        self.ik_fail = ik_fail or (lambda at: False)

        def ik(robot, link, pose, current):
            self.attempts += 1
            at = np.array(pose[0])
            if abs(at[0] - FAR[0]) < 1e-6 and abs(at[1] - FAR[1]) < 1e-6 or self.ik_fail(at):
                return None
            e = pbu.euler_from_quat(pose[1])
            return tuple(float(v) for v in list(pose[0]) + list(e)) + (current[6],)
        W.ik = ik

        def placer(body, surface, link, theta, scale):
            if surface in self.on_stove(surface):
                k = len(self.order) if body not in self.order else self.order.index(body)
                if body not in self.order:
                    self.order.append(body)
                n = self.tries[body] = self.tries.get(body, -1) + 1
                todo = self.script.get(k, ())
                what = todo[n] if n < len(todo) else 'good'
                if n > 40:
                    raise RuntimeError('placement of object %d tried %d times' % (k, n))
                if what == 'none':
                    return None
                at = {'good': SPOTS[k], 'far': FAR}.get(what)
                if what == 'clash':
                    at = tuple(np.array(SPOTS[max(0, k - 1)]) + (0.0 if k else 1.0)) if k else self.wall()
                if what == 'clash-first':
                    at = SPOTS[0] if k else self.wall()
                if what == 'fixed':
                    at = self.wall()
            else:
                lo, hi = pbu.get_aabb(surface, link=link)
                at = tuple(((lo + hi) / 2)[:2])
            z = pbu.get_aabb(surface, link=link)[1][2] + pbu.WORLD.bodies[body]['half'][2] + 1e-3
            return pbu.Pose((at[0], at[1], z), pbu.Euler(yaw=theta))
        W.placer = placer

    def on_stove(self, surface):
        return {surface} if self.pbu.WORLD.bodies[surface]['kind'] == self.pbu.STOVE_URDF else set()

    def wall(self):
        """a place inside a wall of some container"""
        for b in self.pbu.get_bodies():
            if self.pbu.WORLD.bodies[b]['kind'] == 'multi':
                return tuple(np.array(self.pbu.get_link_oobbs(b)[0].pose[0])[:2])
        return (-0.6, 0.0)


def solid(b, pbu):
    return [(np.array(v).min(0), np.array(v).max(0)) for v in map(pbu.get_oobb_vertices, pbu.get_link_oobbs(b))]


def overlap(a, b, pbu, tol=1e-9):
    return any(((x[0] + tol < y[1]) & (y[0] + tol < x[1])).all() for x in solid(a, pbu) for y in solid(b, pbu))


def build(gap, script=None, ik_fail=None):
    run, prim = c29.modules()
    sc = Scene(script, ik_fail)
    np.random.seed(5)
    got = guard(run.load_world, gap, cpu=60)
    return run, prim, sc, got


def judge_world(sc, got, gap):
    pbu = sc.pbu
    robot, names, movable, oobbs, fixed, links = got
    msg = []
    sinks = [b for b in fixed if 'sink' in names[b]]
    if not movable or len(sinks) < len(movable) or len(oobbs) < len(movable):
        return ['%d objects, %d containers, %d lists of obstacles' % (len(movable), len(sinks), len(oobbs))]
    if set(movable) & set(fixed) or robot in fixed or robot in movable or len(set(fixed)) != len(fixed) or len(set(movable)) != len(movable):
        msg.append('movable %s and fixed %s bodies of robot %s overlap' % (movable, fixed, robot))
    widest = 0.0
    for k, (o, s) in enumerate(zip(movable, sinks)):
        sim = sorted(oobb_key(b) for b in pbu.get_link_oobbs(s))
        plan = sorted(oobb_key(b) for b in oobbs[k])
        if sim != plan:
            msg.append('container %d is simulated as %s, object %d is planned against %s' % (k, [b[:6] for b in sim], k, [b[:6] for b in plan]))
        bottom = links[s]
        boxes = pbu.get_link_oobbs(s)
        if bottom is None or not 0 <= bottom < len(boxes) or abs(pbu.get_aabb(s, link=bottom)[1][2] - min(pbu.get_aabb(s, link=i)[1][2] for i in range(len(boxes)))) > 1e-9:
            msg.append('objects are placed on link %s of container %d, which is not its bottom' % (bottom, k))
        lo, hi = pbu.get_aabb(s)
        if not np.allclose((hi - lo)[:2], 0.06 + gap, atol=1e-9):
            msg.append('container %d is %s wide, the widest object plus the gap is %.4f' % (k, np.round(hi - lo, 5).tolist(), 0.06 + gap))
        widest = max(widest, 2 * pbu.WORLD.bodies[o]['half'][:2].max())
    if abs(widest - 0.06) > 1e-9:
        msg.append('widest object is %.4f wide' % widest)
    for a, b in itertools.combinations(fixed, 2):
        if overlap(a, b, pbu):
            msg.append('fixed bodies %s and %s overlap' % (names[a], names[b]))
    for i, o in enumerate(movable):
        stove = [b for b in fixed if b in sc.on_stove(b)]
        lo, hi = pbu.get_aabb(o)
        if not any(abs(lo[2] - pbu.get_aabb(s)[1][2]) < 5e-3 for s in stove):
            msg.append('object %d does not stand on the stove' % i)
        for b in fixed + movable[:i]:
            if overlap(o, b, pbu):
                msg.append('object %d overlaps %s' % (i, names.get(b, b)))
        if abs((lo + hi)[0] / 2 - FAR[0]) < 1e-6 and abs((lo + hi)[1] / 2 - FAR[1]) < 1e-6:
            msg.append('object %d was left where the arm cannot reach it' % i)
        want = SPOTS[i]
        if not msg and not np.allclose(((lo + hi) / 2)[:2], want, atol=1e-9):
            msg.append('object %d stands at %s, the first good placement was %s' % (i, np.round((lo + hi)[:2] / 2, 4).tolist(), want))
    return msg


def world_case(gap, script):
    run, prim, sc, got = build(gap, script)
    if isinstance(got, Raised):
        return ['load_world: %s' % got.text]
    return judge_world(sc, got, gap)


def scripts(depth):
    yield {}
    kinds = ('clash', 'fixed', 'none', 'far', 'clash-first')
    for k in range(8):
        for n in range(1, depth + 1):
            for todo in itertools.product(kinds[:4] if n > 2 else kinds, repeat=n):
                yield {k: todo}
    for a, b in itertools.combinations(range(8), 2):
        yield {a: ('far', 'clash'), b: ('clash', 'far')}


def gaps(tier):
    g = [0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.15, 0.2]
    return g if tier == 'quick' else [round(0.02 + 0.005 * i, 4) for i in range(41)]


def do_world(t, out):
    depth = 2 if t['tier'] == 'quick' else 4
    jobs = [(0.06, s) for s in scripts(depth)] + [(g, {}) for g in gaps(t['tier'])] + [(g, {2: ('clash',), 5: ('far',)}) for g in gaps(t['tier'])]
    for gap, s in jobs[t['part']::t['parts']]:
        out.count('states')
        out.count('traces')
        out.count('transitions', 8 + sum(map(len, s.values())))
        for m in world_case(gap, s)[:1]:
            out.violate('world:' + ' '.join(m.split(' ')[:1]), 'gap %.3f, placements %r: %s' % (gap, s, m), dict(kind='world', case=[gap, [[k, list(v)] for k, v in s.items()]]))
        if out.stop:
            return


# ---------------------------------------------------------------- initial facts
class RecordingPRM(ScriptedPRM):
    valid = None

    def __init__(self, *a, **k):
        ScriptedPRM.__init__(self)
        fns = [x for x in list(a) + list(k.values()) if callable(x) and 'is_motion_valid' in getattr(x, '__name__', '')]
        RecordingPRM.valid = fns[0] if fns else None


def facts(init, name):
    return [f[1:] for f in init if f[0].lower() == name.lower()]


def held_at(sc, robot, conf, grasp, body):
    pbu = sc.pbu
    pbu.set_joint_positions(robot, conf.joints, conf.values)
    return pbu.multiply(pbu.WORLD.tool(robot, conf.values), grasp.grasp_pose)


def near(a, b, lift=0.0101):
    d = np.array(a[0], dtype=float) - np.array(b[0], dtype=float)
    return np.linalg.norm(d[:2]) < 1e-6 and -1e-6 <= d[2] <= lift and np.allclose(mats(np.array(a[1])), mats(np.array(b[1])), atol=1e-6)


def problem_case(gap, failing):
    """failing: list of (object, which pose of it has no configuration)"""
    run, prim, sc, got = build(gap)
    pbu = sc.pbu
    if isinstance(got, Raised):
        return ['load_world: %s' % got.text]
    robot, names, movable, oobbs, fixed, links = got
    sinks = [b for b in fixed if 'sink' in names[b]]
    centre = [((pbu.get_aabb(s)[0] + pbu.get_aabb(s)[1]) / 2)[:2] for s in sinks]
    where = {b: pbu.get_pose(b) for b in movable}
    bad = []
    for k, which in failing:
        if which == 'now':
            bad.append(lambda at, p=where[movable[k]][0]: np.linalg.norm(at[:2] - np.array(p)[:2]) < 0.01)
        else:
            lo, hi = pbu.get_aabb(sinks[k])
            high = 0.14 + 0.05 if which == 'pre' else 0.0
            bad.append(lambda at, lo=lo, hi=hi, w=which: (lo[:2] < at[:2]).all() and (at[:2] < hi[:2]).all() and (at[2] > 0.24 + 0.1) == (w == 'pre'))
    sc.ik_fail = lambda at: any(f(at) for f in bad)
    pp = guard(run.pddlstream_from_problem, robot, names=names, placement_links=links, movable=movable, sink_obstacle_oobbs=oobbs,
               fixed=fixed, teleport=False, min_samples=2, max_samples=4, factor=2.0, adaptive_n=False, collision_buffer=0.02, theta_margin=0.3, cpu=60)
    if failing:
        return [] if pp is None else ['no configuration for %s, reported %s' % (failing, pp.text if isinstance(pp, Raised) else 'a problem')]
    if isinstance(pp, Raised) or pp is None:
        return ['problem: %s' % (pp.text if pp is not None else None)]
    sc.ik_fail = lambda at: False
    return judge_problem(run, sc, got, sinks, where, pp)


def judge_problem(run, sc, got, sinks, where, pp):
    pbu = sc.pbu
    robot, names, movable, oobbs, fixed, links = got
    init, msg = pp.init, []
    grasp = {}
    for b, g in facts(init, 'Grasp'):
        grasp.setdefault(b, []).append(g)
    for b in movable:
        if len(grasp.get(b, ())) != 1 or (b,) not in facts(init, 'Graspable'):
            msg.append('object %s has %d grasps' % (b, len(grasp.get(b, ()))))
            return msg
        g = grasp[b][0]
        # the hand holds the object from above: at the top of the object, pointing into it
        h = pbu.WORLD.bodies[b]['half']
        hand = pbu.invert(g.grasp_pose)
        axis = mats(np.array(hand[1]))[:, 2]
        if not np.allclose(hand[0], (0, 0, h[2]), atol=1e-6) or not np.allclose(axis, (0, 0, -1), atol=1e-6):
            msg.append('grasp of object %s: hand at %s with axis %s of the object' % (b, np.round(hand[0], 4).tolist(), np.round(axis, 4).tolist()))
        at = [p for o, p in facts(init, 'AtPose') if o == b]
        if len(at) != 1 or not near(at[0].value, where[b], 1e-6):
            msg.append('object %s is reported at %s' % (b, [np.round(p.value[0], 4).tolist() for p in at]))
    for b, p, g, q in facts(init, 'Kin'):
        if g is not grasp[b][0] or not near(held_at(sc, robot, q, g, b), p.value):
            msg.append('configuration %s holds object %s at %s instead of %s' % (q, b, np.round(held_at(sc, robot, q, g, b)[0], 4).tolist(), np.round(p.value[0], 4).tolist()))
        if (q,) not in facts(init, 'Conf') or (b, p) not in facts(init, 'Pose'):
            msg.append('Kin of undeclared things')
    own = {b: s for b, s in zip(movable, sinks)}
    used = []
    pre, post = [q for q, in facts(init, 'PreInsert')], [q for q, in facts(init, 'PostInsert')]
    for b in movable:
        sup = [(p, s) for o, p, s in facts(init, 'Supported') if o == b and s in sinks]
        if len(sup) != 1:
            msg.append('object %s has %d places in containers' % (b, len(sup)))
            continue
        p, s = sup[0]
        used.append(s)
        pbu.set_pose(b, p.value)
        lo, hi = pbu.get_aabb(b)
        bot = [o for o in pbu.get_link_oobbs(s)]
        blo, bhi = pbu.get_aabb(s)
        top = min(pbu.get_oobb_vertices(o)[7][2] for o in bot)
        if overlap(b, s, pbu) or not ((blo[:2] < lo[:2]).all() and (hi[:2] < bhi[:2]).all()) or not -1e-9 <= lo[2] - top < 5e-3:
            msg.append('object %s, supported by container %s, stands at %s..%s' % (b, s, np.round(lo, 4).tolist(), np.round(hi, 4).tolist()))
        kq = {q: r for o, r, g, q in facts(init, 'Kin') if o == b}
        pq = [q for q in post if q in kq and kq[q] is p]
        rq = [q for q in pre if q in kq]
        if len(pq) != 1 or len(rq) != 1:
            msg.append('object %s has %d insertion and %d pre-insertion configurations' % (b, len(pq), len(rq)))
            continue
        r = kq[rq[0]]
        pbu.set_pose(b, r.value)
        lo, hi = pbu.get_aabb(b)
        if overlap(b, s, pbu) or lo[2] < bhi[2] - 1e-9 or not ((blo[:2] <= (lo + hi)[:2] / 2).all() and ((lo + hi)[:2] / 2 <= bhi[:2]).all()):
            msg.append('object %s is brought to %s..%s, not above container %s' % (b, np.round(lo, 4).tolist(), np.round(hi, 4).tolist(), s))
        # the walls planned against: those of the same container
        pbu.set_pose(b, where[b])
        m = probe(run, sc, got, pp, b, s, rq[0], pq[0], grasp[b][0])
        if m:
            msg.append(m)
    if len(set(used)) != len(used):
        msg.append('objects share containers: %s' % used)
    if set(s for s, in facts(init, 'Sink')) != set(sinks):
        msg.append('sinks are %s, reported %s' % (sinks, facts(init, 'Sink')))
    q0 = facts(init, 'AtConf')
    if len(q0) != 1 or ('HandEmpty',) not in [tuple(f) for f in init] or ('CanMove',) not in [tuple(f) for f in init]:
        msg.append('initial robot state %s' % (q0,))
    goal = sorted(str(x) for x in pp.goal[1:])
    want = sorted(str(x) for x in [('AtConf', q0[0][0])] + [('Cleaned', b) for b in movable])
    if pp.goal[0] != 'and' or goal != want:
        msg.append('goal %s, expected %s' % (goal, want))
    return msg


def probe(run, sc, got, pp, b, s, q1, q2, g):
    pbu = sc.pbu
    ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], 1, [(9.0, 9.0, 9.0, 0.0, 0.0, 0.0)]
    RecordingPRM.valid = None
    with patched(run, RecordingPRM):
        r = guard(pp.stream_map['plan-insert-motion'], q1, q2, b, g, cpu=60)
    if isinstance(r, Raised) or not r:
        return 'insertion of object %s into container %s: %s' % (b, s, r.text if isinstance(r, Raised) else r)
    if RecordingPRM.valid is None:
        return None
    half = pbu.WORLD.bodies[b]['half']
    own = [(np.array(o.pose[0]), mats(np.array(o.pose[1])), np.array(o.aabb[1])) for o in pbu.get_link_oobbs(s)]
    P = []
    for other in [x for x in pbu.get_bodies() if pbu.WORLD.bodies[x]['kind'] == 'multi']:
        for o in pbu.get_link_oobbs(other):
            P.append(list(o.pose[0]) + [0.0, 0.0, 0.0])
    P = np.array(P)
    acc, rej, _ = c29.oracle(own, half, P, P, n=2)
    v = guard(RecordingPRM.valid, P, P, cpu=60)
    if isinstance(v, Raised):
        return 'motion check: %s' % v.text
    v = np.asarray(v).astype(bool)
    for wrong, word in ((acc & ~v, 'rejected although clear of'), (rej & v, 'accepted although it overlaps')):
        if wrong.any():
            return 'object %s at %s is %s its container %s' % (b, np.round(P[np.nonzero(wrong)[0][0]], 4).tolist(), word, s)
    return None


def do_problem(t, out):
    one = [[(k, w)] for k in range(8) for w in ('now', 'pre', 'post')]
    jobs = [(g, []) for g in gaps(t['tier']) if g > 0.021] + [(0.06, f) for f in one]
    if t['tier'] != 'quick':
        jobs += [(0.06, a + b) for a, b in itertools.combinations(one, 2)]
    for gap, failing in jobs[t['part']::t['parts']]:
        out.count('states')
        out.count('traces')
        for m in problem_case(gap, failing)[:1]:
            out.violate('problem:' + ' '.join(m.split(' ')[:1]), 'gap %.3f: %s' % (gap, m), dict(kind='problem', case=[gap, failing]))
        out.outcome('retry' if failing else 'problem')
        if out.stop:
            return


def tasks(tier):
    t = [dict(kind='hollow', category=c, tier=tier) for c in SIDES]
    t += [dict(kind='world', tier=tier, part=p, parts=16) for p in range(16)]
    t += [dict(kind='problem', tier=tier, part=p, parts=8) for p in range(8)]
    return t


def run_task(t, out):
    globals()['do_' + t['kind']](t, out)


def replay(rec):
    c = rec['case']
    if rec['kind'] == 'hollow':
        return hollow_case(*c)
    if rec['kind'] == 'world':
        return world_case(c[0], {k: tuple(v) for k, v in c[1]})
    return problem_case(c[0], [tuple(x) for x in c[1]])
