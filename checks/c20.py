"""C20 task-level motion planning (turtlebot domain): footprint sweep, anytime loop, densification, whole planner."""
import itertools, types
import numpy as np
from mc.core import guard, kept, Raised
from mc import loader

ID, LEVEL = 'C20', 'exploration'
TECHNIQUE = 'exhaustive enumeration of lattice motions, obstacle layouts, roadmap outcomes and way-point lists on the real code, with a geometric oracle'
NOTE = 'All lattice motions against all listed obstacle layouts (alone and in batches), the anytime loop against every outcome ' \
       'of a scripted roadmap, densification on all small way-point lists, and the whole planner on the real roadmap with ' \
       'enumerated samples; the simulator is a stand-in that only stores boxes.'
BOUNDS = {'quick': '21 layouts x 3 robots x 2401 lattice motions; budgets 1-12 x factors x first-success counts; way-point lists of up to 4 points; 96 planning problems',
          'thorough': '21 layouts x 3 robots x 14641 lattice motions; budgets 1-40; way-point lists of up to 5 points; 768 planning problems'}
RULE = 'one case = one motion against one layout, one run of the anytime loop, one densified list or one planning problem; ' \
       'non-trivial = verdict decided by the geometry alone, resp. more than one growth, more than one way point'
ASSUMPTIONS = ['the spacing of checked footprints may be up to 0.1 per coordinate: a motion that overlaps an obstacle only for a shorter '
               'stretch away from its ends may be accepted or rejected', 'exact touching is not judged']
SPACING = 0.1
PRELOAD = []


# ---------------------------------------------------------------- geometry
def hull(pts):
    pts = sorted(map(tuple, pts))

    def half(s):
        h = []
        for p in s:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 1e-12:
                h.pop()
            h.append(p)
        return h[:-1]
    return np.array(half(pts) + half(pts[::-1]))


def cobstacle(box, robot):
    """outward half-planes n.x <= c of the robot positions that overlap the box (x, y, hx, hy, cos, sin)"""
    x, y, hx, hy, c, s = box
    P = [(x + c * u * hx - s * v * hy, y + s * u * hx + c * v * hy) for u in (-1, 1) for v in (-1, 1)]
    H = hull([(p[0] + u * robot[0], p[1] + v * robot[1]) for p in P for u in (-1, 1) for v in (-1, 1)])
    E = np.roll(H, -1, 0) - H
    N = np.stack([E[:, 1], -E[:, 0]], 1)
    N /= np.linalg.norm(N, axis=1)[:, None]
    return N, (N * H).sum(1)


def stretch(N, c, S, G, grow):
    """for each motion the part [lo, hi] of it inside the region grown by `grow`"""
    D = G - S
    lo, hi = np.zeros(len(S)), np.ones(len(S))
    for n, k in zip(N, c + grow):
        a, b = S @ n, D @ n
        with np.errstate(divide='ignore', invalid='ignore'):
            t = (k - a) / b
        flat = np.abs(b) < 1e-12
        out = flat & (a > k)
        hi = np.where(out, -1, np.where(~flat & (b > 0), np.minimum(hi, t), hi))
        lo = np.where(~flat & (b < 0), np.maximum(lo, t), lo)
    return lo, hi


def oracle(boxes, robot, S, G):
    """(must accept, must reject)"""
    acc, rej = np.ones(len(S), bool), np.zeros(len(S), bool)
    far = np.abs(G - S).max(1)
    for b in boxes:
        N, c = cobstacle(b, robot)
        lo, hi = stretch(N, c, S, G, 1e-7)
        acc &= lo > hi
        lo, hi = stretch(N, c, S, G, -1e-7)
        hit = lo <= hi
        rej |= hit & (((hi - lo) * far > SPACING) | (lo <= 0) | (hi >= 1))
    return acc, rej


Y = [(1.0, 0.0), (0.6, 0.8), (0.8, -0.6), (12 / 13, 5 / 13)]


def layouts():
    one = [(0.0, 0.0, hx, hy) + y for hx, hy in ((0.05, 0.6), (0.3, 0.1), (0.2, 0.2), (0.02, 0.02)) for y in Y]
    L = [[b] for b in one]
    L += [[(0.0, 0.7, 0.05, 0.5, 1, 0), (0.0, -0.7, 0.05, 0.5, 1, 0)],                    # a gap
          [(-0.6, 0.0, 0.05, 0.4, 0.6, 0.8), (0.6, 0.1, 0.05, 0.4, 0.6, -0.8)],
          [(0.9, 0.9, 0.05, 0.05, 1, 0), (-0.9, -0.9, 0.05, 0.05, 1, 0), (0.1, 0.0, 0.02, 0.7, 1, 0)],
          [(0.0, 0.55, 0.7, 0.05, 1, 0), (0.0, -0.55, 0.7, 0.05, 1, 0), (0.5, 0.0, 0.05, 0.2, 1, 0)],
          [(0.05 * i, 0.3 * i, 0.1, 0.03, 0.8, 0.6) for i in (-2, -1, 0, 1, 2)]]
    return L


ROBOTS = [(0.1, 0.1), (0.25, 0.05), (0.06, 0.3)]


def tasks(tier):
    t = []
    for i in range(len(layouts())):
        for r in range(len(ROBOTS)):
            t.append(dict(kind='sweep', layout=i, robot=r, tier=tier))
    nb = 12 if tier == 'quick' else 40
    for lo in range(1, nb + 1):
        t.append(dict(kind='anytime', lo=lo, nb=nb))
    t += [dict(kind='dense', dim=d, tier=tier) for d in (1, 2, 3)]
    n = 96 if tier == 'quick' else 768
    t += [dict(kind='plan', part=p, parts=16, n=n) for p in range(16)]
    return t


def setup_world(boxes):
    import pybullet_tools.utils as pbu
    pbu.reset_world()
    ids = []
    for (x, y, hx, hy, c, s) in boxes:
        b = pbu.create_box(2 * hx, 2 * hy, 0.1)
        pbu.set_pose(b, ((x, y, 0.05), pbu.quat_from_euler((0, 0, float(np.arctan2(s, c))))))
        ids.append(b)
    return ids


def bag(st, boxes, robot):
    import pybullet_tools.utils as pbu
    ids = setup_world(boxes)
    shape = pbu.aabb_from_extent_center(np.array([2 * robot[0], 2 * robot[1], 0.1]))
    return st.BagOfBoundingBoxes(seed=0, robot_shape=shape, obstacle_oobbs=[pbu.get_oobb(i) for i in ids], custom_limits={})


def lattice(tier):
    side = 7 if tier == 'quick' else 11
    return np.array(list(itertools.product(np.linspace(-1, 1, side), repeat=2)))


def run_task(t, out):
    globals()['do_' + t['kind']](t, out)


# ---------------------------------------------------------------- footprint sweep
def do_sweep(t, out):
    st = loader.tamp_module('turtlebot_move', 'streams')
    boxes, robot = layouts()[t['layout']], ROBOTS[t['robot']]
    env = guard(bag, st, boxes, robot)
    if isinstance(env, Raised):
        out.violate('sweep:raised', 'layout %s robot %s: %s' % (boxes, robot, env.text), dict(t, idx=[0]))
        return
    P = lattice(t['tier'])
    idx = np.array(list(itertools.product(range(len(P)), repeat=2)))
    S, G = P[idx[:, 0]].copy(), P[idx[:, 1]].copy()
    S = S + np.array([0.013, -0.007])
    acc, rej = oracle(boxes, robot, S, G)

    def judge(sel, got, how):
        out.count('evaluations', len(sel))
        out.count('nontrivial', int((acc | rej)[sel].sum()))
        if isinstance(got, Raised):
            out.violate('sweep:raised', '%s: layout %s robot %s raised %s' % (how, boxes, robot, got.text), dict(t, idx=list(map(int, sel))))
            return
        got = np.asarray(got)
        if got.shape != (len(sel),):
            out.violate('sweep:shape', '%s of %d motions gave shape %s' % (how, len(sel), got.shape), dict(t, idx=list(map(int, sel))))
            return
        got = got.astype(bool)
        for bad, word in ((acc[sel] & ~got, 'free motion rejected'), (rej[sel] & got, 'colliding motion accepted')):
            for k in np.nonzero(bad)[0][:1]:
                i = sel[k]
                out.violate('sweep:%s' % word, '%s (%s of %d): %s -> %s, robot half extents %s, obstacles %s' % (
                    word, how, len(sel), S[i].tolist(), G[i].tolist(), robot, boxes), dict(t, idx=[int(x) for x in sel]))
    everything = np.arange(len(S))
    judge(everything, kept(env.is_motion_valid, S, G), 'batch')
    for i in range(t['layout'] % 5, len(S), 5):
        judge(np.array([i]), kept(env.is_motion_valid, S[i:i + 1], G[i:i + 1]), 'single motion')
    for i in range(0, len(S) - 40, 37):          # short and long motions mixed
        sel = np.array([i, (i * 7) % len(S), (i * 13 + 5) % len(S), i + 1, i + 36])
        judge(sel, kept(env.is_motion_valid, S[sel], G[sel]), 'small batch')
    # all standing still, and no motion at all
    sel = np.nonzero(idx[:, 0] == idx[:, 1])[0]
    G[sel] = S[sel]
    acc, rej = oracle(boxes, robot, S, G)
    judge(sel, kept(env.is_motion_valid, S[sel], S[sel]), 'standing still')
    judge(np.arange(0), guard(env.is_motion_valid, np.zeros((0, 2)), np.zeros((0, 2))), 'empty batch')
    out.outcome('must accept', int(acc.sum()))
    out.outcome('must reject', int(rej.sum()))
    out.outcome('either', int((~acc & ~rej).sum()))
    out.sample(dict(boxes=boxes, robot=robot, start=S[5].tolist(), goal=G[5].tolist(), accept=bool(acc[5]), reject=bool(rej[5])))


# ---------------------------------------------------------------- anytime loop
class ScriptedPRM:
    log = []
    need = None          # number of samples from which on the query succeeds (None: never)
    path = None

    def __init__(self, *a, **k):
        self.n = 0
        ScriptedPRM.log.append(('new',))
        self.prm_samples = np.zeros((0, 2))

    def grow_to_n_samples(self, n):
        if n <= self.n:
            raise ArithmeticError('PRM is already %i large, cannot grow to %i samples.' % (self.n, n))
        self.n = n
        ScriptedPRM.log.append(('grow', n))

    def query_best_solution(self, s, g):
        ok = ScriptedPRM.need is not None and self.n >= ScriptedPRM.need
        ScriptedPRM.log.append(('query', self.n, tuple(np.ravel(s).tolist()), tuple(np.ravel(g).tolist()), ok))
        return (1.0, np.array(ScriptedPRM.path, dtype=float)) if ok else (1.7e308, np.zeros((0, 2)))

    def num_vertices(self):
        return self.n

    def num_edges(self):
        return 0

    def reset(self):
        pass


class patched:
    """put a stand-in roadmap where the planner finds the class"""

    def __init__(self, st, cls):
        import nonasymptotic.prm as m
        self.where = [(x, 'SimpleNearestNeighborRadiusPRM') for x in (st, m) if hasattr(x, 'SimpleNearestNeighborRadiusPRM')]
        self.cls = cls

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m, n in self.where]
        for m, n in self.where:
            setattr(m, n, self.cls)

    def __exit__(self, *a):
        for m, n, v in self.old:
            setattr(m, n, v)


def values(ht):
    return [tuple(float(x) for x in q.values) for q in ht.path]


def expect_dense(way, got, threshold):
    """messages: got must pass through way in order, with no gap above threshold, along the straight legs"""
    way, got = np.array(way, dtype=float), np.array(got, dtype=float)
    if got.ndim != 2 or got.shape[1] != way.shape[1]:
        return ['shape %s' % (got.shape,)]
    msg = []
    if not np.allclose(got[0], way[0], atol=1e-9) or not np.allclose(got[-1], way[-1], atol=1e-9):
        msg.append('does not run from the first to the last way point')
    if threshold is not None and len(got) > 1:
        gap = np.linalg.norm(np.diff(got, axis=0), axis=1).max()
        if gap > threshold * (1 + 1e-6):
            msg.append('gap of %.6g above %.6g' % (gap, threshold))
    i = 0        # got[i] is on leg k, moving forward
    for k in range(len(way) - 1):
        a, b = way[k], way[k + 1]
        d = np.linalg.norm(b - a)
        if i >= len(got) or not np.allclose(got[i], a, atol=1e-9):
            msg.append('way point %d is missing or out of order' % k)
            return msg
        pos = 0.0
        while i < len(got) and not np.allclose(got[i], b, atol=1e-9):
            if d == 0:
                msg.append('leaves a leg of length 0')
                return msg
            u = float((got[i] - a) @ (b - a)) / d
            if np.linalg.norm(got[i] - a - (b - a) * (u / d)) > 1e-6 or u < pos - 1e-9 or u > d + 1e-9:
                msg.append('point %d leaves leg %d or moves backwards' % (i, k))
                return msg
            pos = u
            i += 1
        if d == 0:          # repeated way points may be kept once or twice
            if i + 1 < len(got) and np.allclose(got[i + 1], b, atol=1e-9):
                i += 1
    if i >= len(got) or not np.allclose(got[i], way[-1], atol=1e-9):
        msg.append('last way point is missing or out of order')
    elif not np.allclose(got[i:], way[-1], atol=1e-9):
        msg.append('continues past the last way point')
    return msg


PATHS = [[(0.3, 0.1)], [(-0.4, 0.2), (0.5, 0.5)], [(0.1, 0.9), (0.1, 0.9), (0.8, -0.3)], [(-0.8, -0.6), (0.0, -0.58), (0.004, -0.58), (0.7, -0.6)]]


def anytime_case(st, lo, hi, factor, need, path, teleport, holding, three):
    import pybullet_tools.utils as pbu
    obs = setup_world([(3.0, 3.0, 0.2, 0.2, 1, 0)])
    rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=0.3)
    obj = pbu.create_cylinder(0.1, 0.1)
    joints = ('x', 'y', 'theta')[:3 if three else 2]
    from pybullet_tools.pr2_primitives import Conf
    q1 = Conf(rover, joints, (-0.8, -0.6, 0.3)[:len(joints)])
    q2 = Conf(rover, joints, (0.7, -0.6, 0.3)[:len(joints)])
    problem = types.SimpleNamespace(obstacles=obs, hallway_gap=0.5, init_conf=q1, rover=rover, targets=[obj])
    ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], need, path
    fn = st.get_anytime_motion_fn(problem, start_samples=lo, end_samples=hi, factor=factor, teleport=teleport, holding=holding)
    with patched(st, ScriptedPRM):
        got = guard(fn, rover, q1, q2, *([obj] if holding else []), cpu=20)
    return got, list(ScriptedPRM.log)


def judge_anytime(got, log, lo, hi, factor, need, path, teleport, holding, three):
    msg = []
    if isinstance(got, Raised):
        return ['raised %s' % got.text]
    grows = [e[1] for e in log if e[0] == 'grow']
    queries = [e for e in log if e[0] == 'query']
    if not grows or grows[0] != lo:
        msg.append('first grown to %s, not to the minimum' % (grows[:1] or 'nothing'))
        return msg
    if any(b <= a for a, b in zip(grows, grows[1:])):
        msg.append('growth does not increase: %s' % grows)
    if max(grows) > hi:
        msg.append('grown to %d, past the maximum' % max(grows))
    for q in queries:
        if not np.allclose(q[2][:2], (-0.8, -0.6)) or not np.allclose(q[3][:2], (0.7, -0.6)):
            msg.append('queried from %s to %s' % (q[2], q[3]))
    for n in grows:
        if not any(q[1] == n for q in queries):
            msg.append('not queried at %d samples' % n)
    ok = [q[1] for q in queries if q[4]]
    if ok:
        if grows[-1] != ok[0]:
            msg.append('went on growing (%s) after the success at %d samples' % (grows, ok[0]))
        if got is None or len(got) != 1:
            msg.append('reported %s although the query at %d samples succeeded' % (got, ok[0]))
            return msg
        pts = values(got[0])
        way = [(-0.8, -0.6)] + [tuple(p) for p in path] + [(0.7, -0.6)]
        if teleport:
            dd = expect_dense(way, [p[:2] for p in pts], None)
        else:
            dd = expect_dense(way, [p[:2] for p in pts], 0.05)
        msg += ['trajectory ' + m for m in dd]
    else:
        if got is not None and got != ():
            msg.append('returned %s although no query succeeded' % (got,))
        n = grows[-1] + 1
        if max(n * factor, n + 1) < hi + 1:
            msg.append('gave up at %d samples, maximum %d, factor %s' % (grows[-1], hi, factor))
    return msg


def do_anytime(t, out):
    st = loader.tamp_module('turtlebot_move', 'streams')
    lo = t['lo']
    i = 0
    for hi in range(lo, t['nb'] + 1):
        for factor in (1.1, 1.5, 2, 3):
            for need in [None] + list(range(1, hi + 3)):
                i += 1
                path = PATHS[i % len(PATHS)]
                teleport, holding, three = bool(i & 1), bool(i & 2), bool(i & 4)
                case = (lo, hi, factor, need, path, teleport, holding, three)
                got, log = anytime_case(st, *case)
                out.count('evaluations')
                out.n['nontrivial'] += sum(e[0] == 'grow' for e in log) > 1
                out.outcome('found' if got is not None and not isinstance(got, Raised) else 'not found')
                for m in judge_anytime(got, log, *case)[:1]:
                    out.violate('anytime:' + m.split(' ')[0], 'minimum %d maximum %d factor %s success from %s on, holding %s: %s' % (
                        lo, hi, factor, need, holding, m), dict(kind='anytime', case=case))
                if out.stop:
                    return


# ---------------------------------------------------------------- densification
def do_dense(t, out):
    st = loader.tamp_module('turtlebot_move', 'streams')
    dim = t['dim']
    grid = list(itertools.product((0.0, 0.3, 1.0) if dim < 3 else (0.0, 1.0), repeat=dim))
    most = 4 if t['tier'] == 'quick' else 5
    for n in range(1, most + 1):
        lists = list(itertools.product(grid, repeat=n))
        if len(lists) > 20000:
            lists = [l for l in lists if l[0] == grid[0] or l[0] == grid[-1]][::5 if t['tier'] != 'quick' else 2]
        for k, way in enumerate(lists):
            for th in ((0.025, 0.1, 0.3, 1.0, 5.0)[k % 5], 0.25):
                got = guard(st.interpolate_vectors, [list(p) for p in way], threshold=th)
                out.count('evaluations')
                out.n['nontrivial'] += len(way) > 1
                m = ['raised ' + got.text] if isinstance(got, Raised) else expect_dense(way, got, th)
                if m:
                    out.violate('dense', 'way points %s, threshold %s: %s' % (way, th, m[0]), dict(kind='dense', way=way, th=th))
                    if out.stop:
                        return


# ---------------------------------------------------------------- the whole planner
def halton(i, b):
    f, r = 1.0, 0.0
    while i:
        f /= b
        r += f * (i % b)
        i //= b
    return r


class Enumerated:
    """random.uniform over an enumerated sequence"""

    def __init__(self, shift):
        self.i, self.shift = 0, shift

    def uniform(self, a, b):
        self.i += 1
        k, base = (self.i + 1) // 2, (2, 3)[self.i % 2]
        return a + (b - a) * ((halton(k, base) + self.shift) % 1.0)

    def __getattr__(self, n):
        import random
        return getattr(random, n)


def plan_case(st, k, extra=()):
    import pybullet_tools.utils as pbu
    from pybullet_tools.pr2_primitives import Conf
    L = layouts()
    boxes = L[k % len(L)]
    frame = [(0, 1.6, 1.6, 0.05, 1, 0), (0, -1.6, 1.6, 0.05, 1, 0), (1.6, 0, 0.05, 1.6, 1, 0), (-1.6, 0, 0.05, 1.6, 1, 0)]
    ends = [((-1, -1), (1, 1)), ((-1.2, 0.3), (1.1, -0.2)), ((-0.05, -1.3), (0.05, 1.3)), ((1.2, 1.2), (1.2, 1.1)), ((-1.3, 0), (1.3, 0.0))]
    s, g = ends[(k // len(L)) % len(ends)]
    frame = frame + list(extra)
    obs = setup_world(boxes + frame)
    scale = (0.3, 0.5)[k % 2]
    rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=scale)
    holding = bool(k & 2)
    obj = pbu.create_cylinder(0.12, 0.1)
    half = np.array(pbu.get_aabb_extent(pbu.get_aabb(obj if holding else rover))[:2]) / 2
    q1, q2 = Conf(rover, ('x', 'y'), s), Conf(rover, ('x', 'y'), g)
    problem = types.SimpleNamespace(obstacles=obs, hallway_gap=0.5, init_conf=q1, rover=rover, targets=[obj])
    fn = st.get_anytime_motion_fn(problem, start_samples=(4, 12)[k % 2], end_samples=(24, 48)[(k // 2) % 2], factor=1.6,
                                  teleport=bool(k & 1), holding=holding)
    old = getattr(st, 'random', None)
    import random
    st.random = Enumerated((k * 0.381966) % 1.0)
    try:
        got = guard(fn, rover, q1, q2, *([obj] if holding else []), cpu=60)
    finally:
        st.random = old or random
    return got, boxes + frame, tuple(half), s, g


def judge_plan(got, boxes, half, s, g):
    S, G = np.array([s], dtype=float), np.array([g], dtype=float)
    _, rs = oracle(boxes, half, S, S)
    _, rg = oracle(boxes, half, G, G)
    if rs[0] or rg[0]:
        if isinstance(got, Raised) and got.name == 'AssertionError':
            return [], 'refused'
        return (['trajectory although start or goal collide'] if not isinstance(got, Raised) and got is not None else []), 'refused'
    if isinstance(got, Raised):
        return ['raised %s' % got.text], 'raised'
    if got is None:
        return [], 'no trajectory'
    pts = np.array([p[:2] for p in values(got[0])])
    msg = []
    if not np.allclose(pts[0], s) or not np.allclose(pts[-1], g):
        msg.append('trajectory runs from %s to %s' % (pts[0], pts[-1]))
    # stretches of collision add up over the points of a densified leg: look at the path as a whole, leg by leg
    acc, _ = oracle(boxes, half, pts[:-1], pts[1:])
    run, worst = 0.0, 0.0
    for i in range(len(pts) - 1):
        if acc[i]:
            run = 0.0
        else:
            lo_hi = [stretch(*cobstacle(b, half), pts[i:i + 1], pts[i + 1:i + 2], -1e-7) for b in boxes]
            run += max((max(0.0, float(h[0] - l[0])) for l, h in lo_hi)) * np.abs(pts[i + 1] - pts[i]).max()
            worst = max(worst, run)
    if worst > SPACING:
        msg.append('trajectory is in collision for a stretch of %.3f' % worst)
    return msg, 'trajectory'


def do_plan(t, out):
    d = loader.private_package()
    try:
        st = loader.tamp_module('turtlebot_move', 'streams')
        for k in range(t['part'], t['n'], t['parts']):
            got, boxes, half, s, g = plan_case(st, k)
            msg, what = judge_plan(got, boxes, half, s, g)
            out.count('evaluations')
            out.n['nontrivial'] += what == 'trajectory'
            out.outcome('planner: ' + what)
            for m in msg[:1]:
                out.violate('plan:' + m.split(' ')[0], 'planning problem %d (%s -> %s): %s' % (k, s, g, m), dict(kind='plan', k=k))
            if out.stop:
                return
    finally:
        loader.drop_private(d)


def replay(rec):
    from mc.core import Tally
    out = Tally()
    if rec['kind'] == 'sweep':
        do_sweep({k: rec[k] for k in ('kind', 'layout', 'robot', 'tier')}, out)
        return [m for _, m, _ in out.violations]
    st = loader.tamp_module('turtlebot_move', 'streams')
    if rec['kind'] == 'anytime':
        got, log = anytime_case(st, *rec['case'])
        return judge_anytime(got, log, *rec['case'])
    if rec['kind'] == 'dense':
        got = guard(st.interpolate_vectors, rec['way'], threshold=rec['th'])
        return ['raised'] if isinstance(got, Raised) else expect_dense(rec['way'], got, rec['th'])
    d = loader.private_package()
    try:
        got, *rest = plan_case(loader.tamp_module('turtlebot_move', 'streams'), rec['k'])
        return judge_plan(got, *rest)[0]
    finally:
        loader.drop_private(d)
