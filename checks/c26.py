"""C26 hallway worlds: exact cell decomposition of every generated world, flood fill for points and for the widest thing to be moved."""
import itertools
import numpy as np
from mc.core import guard, Raised
from mc import loader

ID, LEVEL = 'C26', 'model_checking'
TECHNIQUE = 'exhaustive reachability (flood fill of the exact cell decomposition) in every generated world of a parameter grid, on the real generators'
NOTE = 'For every robot scale, gap and number of targets of the grid the real generator builds the world on the stand-in ' \
       'simulator; the walls cut the plane into cells (exact, by coordinate compression) and all cells reachable from the start ' \
       'are enumerated for a point, for the widest body and for a body just wider than the gap.'
BOUNDS = {'quick': '8 robot scales x 9 gaps for the bare hallway; x 1-3 targets with 9 + 9 + 36 placement scripts and 3 size scripts for the manipulation world',
          'thorough': '20 robot scales x 25 gaps; x 1-3 targets with 81 placement scripts and 5 size scripts'}
ASSUMPTIONS = ['boxes, cylinders and the robot are represented by their axis-aligned bounding boxes, as the planner sees them']
EPS = 1e-9


def grid(tier):
    if tier == 'quick':
        return [0.05, 0.1, 0.2, 0.3, 0.45, 0.5, 0.7, 1.0], [0.0, 0.005, 0.01, 0.05, 0.1, 0.17, 0.25, 0.4, 0.5]
    return list(np.linspace(0.05, 1.0, 20)), list(np.linspace(0, 0.5, 25))


def tasks(tier):
    scales, gaps = grid(tier)
    t = [dict(world='hallway', scale=s, tier=tier) for s in scales]
    t += [dict(world='manip', scale=s, n=n, tier=tier) for s in scales for n in (1, 2, 3) if n == 1 or s <= 0.5]
    return t


def rects(pbu, ids):
    out = []
    for b in ids:
        lo, hi = pbu.get_aabb(b)
        out.append((lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]))
    return np.array(out)


class Cells:
    """the plane cut along all edges of the (grown) rectangles; a cell is open if no rectangle covers it"""

    def __init__(self, R, grow, seeds):
        self.xs = self.coords(np.concatenate([R[:, 0] - grow, R[:, 1] + grow] + [[s[0] - 1e-4, s[0] + 1e-4] for s in seeds]))
        self.ys = self.coords(np.concatenate([R[:, 2] - grow, R[:, 3] + grow] + [[s[1] - 1e-4, s[1] + 1e-4] for s in seeds]))
        mx, my = (self.xs[1:] + self.xs[:-1]) / 2, (self.ys[1:] + self.ys[:-1]) / 2
        X, Y = np.meshgrid(mx, my, indexing='ij')
        self.open = np.ones(X.shape, dtype=bool)
        for x0, x1, y0, y1 in R[:, :4]:
            self.open &= ~((x0 - grow < X) & (X < x1 + grow) & (y0 - grow < Y) & (Y < y1 + grow))
        self.mx, self.my = mx, my

    @staticmethod
    def coords(v):
        v = np.sort(np.concatenate([v, [v.min() - 1.0, v.max() + 1.0]]))
        return v[np.concatenate([[True], np.diff(v) > EPS])]

    def cell(self, p):
        return int(np.searchsorted(self.xs, p[0]) - 1), int(np.searchsorted(self.ys, p[1]) - 1)

    def reach(self, p, out):
        start = self.cell(p)
        if not self.open[start]:
            return set()
        seen, stack = {start}, [start]
        n, m = self.open.shape
        while stack:
            i, j = stack.pop()
            for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if 0 <= a < n and 0 <= b < m:
                    out.count('transitions')
                    if self.open[a, b] and (a, b) not in seen:
                        seen.add((a, b))
                        stack.append((a, b))
        out.count('states', len(seen))
        return seen

    def outside(self, seen):
        n, m = self.open.shape
        return any(i in (0, n - 1) or j in (0, m - 1) for i, j in seen)

    def column_gap(self, x, y, seen):
        """height of the reachable opening around (x, y)"""
        i, j = self.cell((x, y))
        if (i, j) not in seen:
            return 0.0
        a = b = j
        while (i, a - 1) in seen:
            a -= 1
        while (i, b + 1) in seen:
            b += 1
        return self.ys[b + 1] - self.ys[a]


def judge(out, R, start, goals, width, dd, advertised, what):
    """messages"""
    msg = []
    gap = width + dd
    low = R[:, 4].max()
    if low > 1e-6 or R[:, 5].min() < 0.05:
        msg.append('a wall does not stand on the floor')
    C = Cells(R, 0.0, [start] + goals)
    seen = C.reach(start, out)
    if not seen:
        return ['start %s lies in a wall' % (start,)]
    if C.outside(seen):
        return ['the world leaks: the outside can be reached from %s' % (start,)]
    for g in goals:
        if C.cell(g) not in seen:
            msg.append('%s cannot be reached from %s' % (g, start))
    # the narrowest opening between the two rooms: scan all columns between them
    lo, hi = sorted((start[0], goals[0][0]))
    if lo > -0.5 or hi < 0.5:
        msg.append('start %s and goal %s are not in opposite rooms' % (start, goals[0]))
    ymid = None
    for x in C.mx:
        if lo < x < hi:
            i = C.cell((x, 0))[0]
            ys = [j for j in range(C.open.shape[1]) if (i, j) in seen]
            if not ys:
                msg.append('no way through at x = %.3f' % x)
                return msg
            if abs(x) < 1e-3 or ymid is None and abs(x) < 0.5:
                ymid = (C.ys[ys[0]] + C.ys[ys[-1] + 1]) / 2
    xs = [x for x in C.mx if lo < x < hi]
    if ymid is not None:
        heights = [C.column_gap(x, ymid, seen) for x in xs]
        if abs(min(heights) - gap) > 1e-6:
            msg.append('narrowest opening is %.6f, widest body %.4f plus gap %.4f is %.6f' % (min(heights), width, dd, gap))
        mid = [h for x, h in zip(xs, heights) if abs(x) < 0.5]
        if mid and max(mid) - min(mid) > 1e-6:
            msg.append('the hallway is not of one width: %s' % np.round(mid, 4).tolist())
    if advertised is not None and abs(advertised - gap) > 1e-9:
        msg.append('advertised gap %.6f, widest body %.4f plus gap parameter %.4f is %.6f' % (advertised, width, dd, gap))
    # the widest body gets through exactly if the gap parameter is positive
    for w, able in ((width / 2 + dd / 2 - 1e-4, True), (width / 2 + dd / 2 + 1e-4, False)):
        if w <= 0:
            continue
        D = Cells(R, w, [start] + goals)
        s = D.reach(start, out)
        far = [g for g in goals if D.open[D.cell(g)]]
        if not s or not far:
            if able and dd > 2e-4:
                msg.append('the widest body does not fit at %s' % (start if not s else 'the goal',))
            continue
        got = any(D.cell(g) in s for g in far)
        if got != able:
            msg.append('a body of width %.4f %s, gap %.4f' % (2 * w, 'gets through' if got else 'does not get through', gap))
    return msg


def play(pbu, n, script):
    """sampler for placements: scripted fractions first, then the lattice"""
    lat = list(itertools.product((0.08, 0.5, 0.92), repeat=2))     # clear of the walls along the floor's edge
    seq = itertools.chain([lat[i] for i in script], itertools.cycle([(0.0, 0.5)] + lat))

    def sampler(lo, hi):
        f = next(seq)
        return lo + (hi - lo) * np.array(list(f) + [0.5] * (len(lo) - 2))
    pbu.WORLD.sampler = sampler


def run_case(t, case, out):
    pr = loader.tamp_module('turtlebot_move', 'problems')
    import pybullet_tools.utils as pbu
    pbu.reset_world()
    if t['world'] == 'hallway':
        P = guard(pr.hallway, robot_scale=t['scale'], dd=case['dd'])
        if isinstance(P, Raised):
            return ['raised ' + P.text]
        w = pbu.get_aabb(P.rover)
        width = float(max((w[1] - w[0])[:2]))
        R = rects(pbu, P.obstacles)
        msg = judge(out, R, tuple(P.init_conf.values[:2]), [tuple(P.goal_conf.values[:2])], width, case['dd'], None, t)
        for q, word in ((P.init_conf, 'start'), (P.goal_conf, 'goal')):
            q.assign()
            hit = [b for b in P.obstacles if pbu.pairwise_collision(P.rover, b)]
            if hit:
                msg.append('the robot collides at the %s' % word)
        return msg
    us = iter(case['sizes'] + [0.25] * 20)
    play(pbu, t['n'], case['script'])
    old = np.random.uniform

    def uniform(low=0.0, high=1.0, size=None):
        if size is not None or np.ndim(low) or np.ndim(high):
            return old(low, high, size)
        return low + (high - low) * next(us)
    np.random.uniform = uniform
    try:
        P = guard(pr.hallway_manip, robot_scale=t['scale'], dd=case['dd'], num_target=t['n'], cpu=30)
    finally:
        np.random.uniform = old
    if isinstance(P, Raised):
        return ['raised ' + P.text]
    msg = []
    if len(P.targets) != t['n'] or len(P.target_init_poses) != t['n'] or len(P.target_goal_poses) != t['n']:
        return ['%d targets, %d start poses, %d goal poses for %d targets' % (len(P.targets), len(P.target_init_poses), len(P.target_goal_poses), t['n'])]
    widths = []
    for b in P.targets + [P.rover]:
        a = pbu.get_aabb(b)
        widths.append(float(max((a[1] - a[0])[:2])))
    R = rects(pbu, P.obstacles)
    start = tuple(P.init_conf.values[:2])
    ends = []
    for poses, word in ((P.target_init_poses, 'start'), (P.target_goal_poses, 'goal')):
        pts = [tuple(p.pose[0][:2]) for p in poses]
        ends.append(pts)
        for i in range(t['n']):
            h = widths[i] / 2
            x, y = pts[i]
            if ((R[:, 0] < x + h) & (x - h < R[:, 1]) & (R[:, 2] < y + h) & (y - h < R[:, 3])).any():
                msg.append('target %d touches a wall at its %s pose %s' % (i, word, pts[i]))
            for j in range(i):
                d = (widths[i] + widths[j]) / 2
                if abs(x - pts[j][0]) < d and abs(y - pts[j][1]) < d:
                    msg.append('targets %d and %d overlap at their %s poses' % (j, i, word))
    for a, b in zip(*ends):
        if (a[0] < 0) == (b[0] < 0):
            msg.append('a target starts at %s and ends at %s, in the same room' % (a, b))
    # both rooms, seen from the robot
    goals = [(-start[0], start[1])] + ends[0] + ends[1]
    pre = judge(out, R, start, goals[:1], max(widths), case['dd'], P.hallway_gap, t)
    C = Cells(R, 0.0, [start] + goals)
    seen = C.reach(start, out)
    for g in goals[1:]:
        if C.cell(g) not in seen:
            msg.append('the robot cannot reach %s from %s' % (g, start))
    return pre + msg


def cases(t):
    scales, gaps = grid(t['tier'])
    if t['world'] == 'hallway':
        for dd in gaps:
            # rooms are 1 wide: the hallway must be narrower than a room
            if 2 * t['scale'] * 0.179 + 0.1 + dd < 0.85:
                yield dict(dd=float(dd))
        return
    n = t['n']
    base = list(itertools.product(range(9), repeat=n))
    k = {1: 9, 2: 9, 3: 36}[n] if t['tier'] == 'quick' else 81
    step = max(1, len(base) // k)
    scripts = base[::step][:k]
    sizes = [[0.0], [0.5], [0.999]] if t['tier'] == 'quick' else [[0.0], [0.3], [0.5, 0.1], [0.999], [0.9, 0.999]]
    for dd in gaps:
        if 2 * (t['scale'] * 0.179 + 0.1) + 0.1 + dd < 1.35:
            for i, sc in enumerate(scripts):
                for sz in (sizes if n > 1 else sizes[:1]):
                    if n > 1 and t['tier'] == 'quick' and (i + len(sz) + int(sz[0] * 3)) % 2:
                        continue
                    yield dict(dd=float(dd), script=list(sc) + [8 - x for x in sc], sizes=sz * n)


def run_task(t, out):
    for c in cases(t):
        msg = run_case(t, c, out)
        out.count('traces')
        for m in msg[:2]:
            out.violate(t['world'] + ':' + ' '.join(m.split()[:4]), '%s, robot scale %.3f, %s: %s' % (t['world'], t['scale'], c, m), dict(t, case=c))
        if out.stop:
            return
    out.outcome(t['world'], 1)
    out.sample(dict(t))


def replay(rec):
    from mc.core import Tally
    return run_case(rec, rec['case'], Tally())
