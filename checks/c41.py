"""C41 corner and clutter worlds: exact cell decomposition of every generated corner world, every placement answer sequence of the clutter world."""
import itertools
import numpy as np
from mc.core import guard, Raised
from mc import loader
from checks.c26 import Cells, rects

ID, LEVEL = 'C41', 'model_checking'
TECHNIQUE = 'exhaustive reachability (flood fill of the exact cell decomposition) in every corner world of a parameter grid, and enumeration of all placement answer sequences for the clutter world, on the real generators'
NOTE = 'The real generators build every world on the stand-in simulator, which keeps all bodies ever made; the plane is cut into cells along ' \
       'the walls and all cells reachable from the start are enumerated, for a point and for a disc (as a square) of every critical size. In the ' \
       'clutter world every sequence of placement answers over a lattice, including the rejected ones, is played.'
BOUNDS = {'quick': 'corner: 8 robot scales x 9 gaps; clutter: up to 3 obstacles, answer sequences over 16 points (free, on the robot, beside it, on one another), 2 robot scales; 50 obstacles on a grid',
          'thorough': 'corner: 20 robot scales x 25 gaps; clutter: up to 4 obstacles'}
ASSUMPTIONS = ['boxes and the robot are represented by their axis-aligned bounding boxes, as the planner sees them', 'the clutter world is made for robot scales up to 2, the scale whose space is kept free at the goal']
LATTICE = [(0.5, 0.5), (0.52, 0.5), (0.53, 0.515), (0.15, 0.85), (0.23, 0.85), (0.85, 0.15), (0.85, 0.2), (0.9, 0.205), (0.0, 0.0), (1.0, 1.0), (0.25, 0.5), (0.3, 0.9), (0.07, 0.15), (0.5, 0.48), (0.18, 0.857), (0.5215, 0.5)]


def grid(tier):
    if tier == 'quick':
        return [0.05, 0.1, 0.2, 0.3, 0.45, 0.5, 0.7, 1.0], [0.0, 0.005, 0.01, 0.05, 0.1, 0.17, 0.25, 0.4, 0.5]
    return [float(x) for x in np.linspace(0.05, 1.0, 20)], [float(x) for x in np.linspace(0, 0.5, 25)]


def floors(pbu, ids):
    """bodies that nothing on the ground can run into"""
    return [b for b in ids if pbu.get_aabb(b)[1][2] <= 1e-6]


def common(pbu, P):
    """messages: everything on the floor is known to the problem, nothing else is"""
    msg = []
    made = [b for b in pbu.get_bodies() if b != P.rover]
    solid = sorted(set(made) - set(floors(pbu, made)))
    if sorted(P.obstacles) != solid:
        msg.append('obstacles of the problem are %s, the bodies standing on the floor are %s' % (sorted(P.obstacles), solid))
    R = rects(pbu, solid)
    if len(R) and (R[:, 4].max() > 2e-3 or R[:, 5].min() < 0.05):      # (the block of the corner world is half sunk)
        msg.append('an obstacle does not rise from the floor')
    return msg, solid, R


def run_corner(scale, dd, out):
    pr = loader.tamp_module('turtlebot_move', 'problems')
    import pybullet_tools.utils as pbu
    pbu.reset_world()
    P = guard(pr.corner, robot_scale=scale, dd=dd)
    if isinstance(P, Raised):
        return ['raised ' + P.text]
    now = [float(v) for v in pbu.get_joint_positions(P.rover, P.init_conf.joints)]
    msg, solid, R = common(pbu, P)
    if [float(v) for v in P.init_conf.values] != now:
        msg.append('the robot stands at %s, the problem starts at %s' % (now, list(P.init_conf.values)))
    a = pbu.get_aabb(P.rover)
    w = float(max((a[1] - a[0])[:2]))
    start, goal = tuple(P.init_conf.values[:2]), tuple(P.goal_conf.values[:2])
    if a[0][2] < -1e-6 or a[0][2] > 2e-3:
        msg.append('the robot does not stand on the floor')
    if np.hypot(start[0] + goal[0], start[1] + goal[1]) > 1e-9 or min(abs(start[0]), abs(start[1])) < 0.5:
        msg.append('start %s and goal %s are not in opposite corners' % (start, goal))
    C = Cells(R, 0.0, [start, goal])
    seen = C.reach(start, out)
    if not seen or C.outside(seen):
        return msg + ['the start lies in a wall' if not seen else 'the world leaks']
    # the block, and the corridor on its four sides
    centre = [i for i in range(len(R)) if R[i, 0] < 0 < R[i, 1] and R[i, 2] < 0 < R[i, 3]]
    if len(centre) != 1:
        return msg + ['%d blocks in the middle' % len(centre)]
    rest = np.delete(R, centre, axis=0)
    b = R[centre[0]]
    free = Cells(rest, 0.0, [start, goal])
    room = free.reach(start, out)
    xs = [free.xs[i] for i, j in room] + [free.xs[i + 1] for i, j in room]
    ys = [free.ys[j] for i, j in room] + [free.ys[j + 1] for i, j in room]
    sides = [max(xs) - b[1], b[0] - min(xs), max(ys) - b[3], b[2] - min(ys)]
    if max(sides) - min(sides) > 1e-9:
        msg.append('the corridor is %s wide on the four sides' % np.round(sides, 5))
    out.side = sides[0]
    for half, able in ((w / 2 + dd / 4 - 1e-6, True), (min(sides) / 2 - 1e-6, True), (min(sides) / 2 + 1e-6, False)):
        if half < w / 2:
            half = w / 2
            if dd < 1e-5:
                half = w / 2 - 1e-6
        D = Cells(R, half, [start, goal])
        if able:
            s = D.reach(start, out) if D.open[D.cell(start)] else set()
            if half <= w / 2 + 1e-9 and (not s or D.cell(goal) not in s):
                msg.append('the robot (half width %.5f) does not get from %s to %s' % (half, start, goal))
        # a body as wide as the corridor allows turns every corner: all four sides are one loop
        mids = [(0.0, b[3] + sides[2] / 2), (0.0, b[2] - sides[3] / 2), (b[1] + sides[0] / 2, 0.0), (b[0] - sides[1] / 2, 0.0)]
        E = Cells(R, half, mids)
        s = E.reach(mids[0], out) if E.open[E.cell(mids[0])] else set()
        got = [E.cell(m) in s for m in mids]
        if able and half <= min(sides) / 2 and not all(got):
            msg.append('a body of width %.5f does not get round the block: %s' % (2 * half, got))
        if not able and any(got):
            msg.append('a body wider than the corridor gets through')
    for q, word in ((P.init_conf, 'start'), (P.goal_conf, 'goal')):
        q.assign()
        hit = [x for x in solid if x in set(pbu.get_bodies()) and overlap(pbu, P.rover, x)]
        if hit:
            msg.append('the robot is in an obstacle at the %s' % word)
    return msg


def overlap(pbu, a, b, eps=1e-9):
    x, y = pbu.get_aabb(a), pbu.get_aabb(b)
    return bool(((np.asarray(x[0]) + eps < y[1]) & (np.asarray(y[0]) + eps < x[1])).all())


def run_clutter(n, scale, script, out):
    pr = loader.tamp_module('turtlebot_move', 'problems')
    import pybullet_tools.utils as pbu
    pbu.reset_world()
    spare = [((2 * i + 1) / 16.0, 0.40 + 0.05 * (j % 2)) for j in range(8) for i in range(8)]
    far = [(0.05 + 0.11 * i, 0.35 + 0.045 * j) for j in range(8) for i in range(9)]
    asked = []
    seq = itertools.chain([LATTICE[i] for i in script], far, spare)

    def sampler(lo, hi):
        f = next(seq)
        asked.append(f)
        return lo + (hi - lo) * np.array(list(f) + [0.5] * (len(lo) - 2))
    pbu.WORLD.sampler = sampler
    P = guard(pr.random_obstacles, n_obstacles=n, robot_scale=scale, cpu=20)
    if isinstance(P, Raised):
        return ['raised ' + P.text]
    msg, solid, R = common(pbu, P)
    now = [float(v) for v in pbu.get_joint_positions(P.rover, P.init_conf.joints)]
    if np.abs(np.array(now) - np.array(P.init_conf.values)).max() > 0:
        msg.append('the robot stands at %s, the problem starts at %s' % (now, list(P.init_conf.values)))
    edge = [b for b in solid if max((pbu.get_aabb(b)[1] - pbu.get_aabb(b)[0])[:2]) > 1.0]
    boxes = [b for b in solid if b not in edge]
    if len(boxes) != n or len(edge) != 4:
        msg.append('%d walls and %d boxes instead of 4 and %d' % (len(edge), len(boxes), n))
    for a, b in itertools.combinations(boxes, 2):
        if overlap(pbu, a, b, -0.0099):
            msg.append('two boxes overlap or are less than 1 cm apart')
            break
    start, goal = tuple(P.init_conf.values[:2]), tuple(P.goal_conf.values[:2])
    C = Cells(rects(pbu, edge), 0.0, [start, goal])
    seen = C.reach(start, out)
    if not seen or C.outside(seen) or C.cell(goal) not in seen:
        msg.append('the walls leak or cut off the goal')
    for b in boxes:
        c = (pbu.get_aabb(b)[0] + pbu.get_aabb(b)[1]) / 2
        lim = np.array(P.limits)
        if (c[:2] < lim[0]).any() or (c[:2] > lim[1]).any():
            msg.append('a box stands outside the limits at %s' % (c[:2],))
    for q, word in ((P.init_conf, 'start'), (P.goal_conf, 'goal')):
        pbu.set_joint_positions(P.rover, q.joints, q.values)
        if any(overlap(pbu, P.rover, b) for b in solid):
            msg.append('the robot is in an obstacle at the %s' % word)
    return msg


def tasks(tier):
    scales, gaps = grid(tier)
    t = [dict(world='corner', scale=s, tier=tier) for s in scales]
    for sc in (1, 0.4):
        t.append(dict(world='clutter', scale=sc, n=50, scripts=[[]]))
        for n in range(0, 4 if tier == 'quick' else 5):
            m = min(n + 1, 3 if tier == 'quick' else 4)
            if n == 0:
                t.append(dict(world='clutter', scale=sc, n=0, scripts=[[]]))
                continue
            for first in range(len(LATTICE)):
                t.append(dict(world='clutter', scale=sc, n=n, first=first, length=m))
    return t


def run_task(t, out):
    if t['world'] == 'corner':
        last = None
        for dd in grid(t['tier'])[1]:
            if t['scale'] * 0.179 * 4 + dd / 2 > 2.4:
                continue
            msg = run_corner(t['scale'], dd, out)
            out.count('traces')
            side = getattr(out, 'side', None)
            if not msg and last is not None and abs((side - last[1]) - (dd - last[0]) / 2) > 1e-9:
                msg = ['corridor is %.6f wide for gap %s and %.6f for gap %s' % (last[1], last[0], side, dd)]
            if not msg:
                last = (dd, side)
            for m in msg[:2]:
                out.violate('corner:' + ' '.join(m.split()[:4]), 'corner, robot scale %.3f, gap %.3f: %s' % (t['scale'], dd, m), dict(world='corner', scale=t['scale'], dd=dd))
            if out.stop:
                return
    else:
        scripts = t.get('scripts') or [[t['first']] + list(x) for x in itertools.product(range(len(LATTICE)), repeat=t['length'] - 1)]
        for s in scripts:
            msg = run_clutter(t['n'], t['scale'], s, out)
            out.count('traces')
            out.count('states')
            for m in msg[:2]:
                out.violate('clutter:' + ' '.join(m.split()[:4]), 'clutter, %d obstacles, robot scale %s, answers %s: %s' % (t['n'], t['scale'], [LATTICE[i] for i in s], m),
                            dict(world='clutter', n=t['n'], scale=t['scale'], script=s))
            if out.stop:
                return
    out.outcome(t['world'], 1)
    out.sample({k: v for k, v in t.items() if k != 'scripts'})


def replay(rec):
    from mc.core import Tally
    if rec['world'] == 'corner':
        return run_corner(rec['scale'], rec['dd'], Tally())
    return run_clutter(rec['n'], rec['scale'], rec['script'], Tally())
