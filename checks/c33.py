"""C33 adaptive sampling: the roadmap has the number of samples the bound certifies for the passage at hand."""
import contextlib, io, itertools, math, types
import numpy as np
from mc.core import guard, Raised
from mc import loader
from checks import c20, c29
from checks.c20 import ScriptedPRM, patched

ID, LEVEL = 'C33', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of passages, objects, configured schedules and roadmap outcomes on the real motion streams, against an exact-integer model of the sample bound'
NOTE = 'Both motion streams run in adaptive mode on every gap, object, configured schedule and roadmap outcome of a grid with a ' \
       'roadmap that logs its growth; the sample count is compared with the least count that satisfies the bound in exact integers.'
BOUNDS = {'quick': 'turtlebot: 24 gaps x 5 objects x 4 schedules x 6 outcomes, holding or not; kuka: 4 containers x 6 objects x 3 buffers x 3 margins x 5 outcomes',
          'thorough': 'turtlebot: 200 gaps x 9 objects; kuka: 6 containers x 12 objects x 5 buffers x 5 margins'}
ASSUMPTIONS = ['the roadmap and the simulator are stand-ins; the bound itself is the subject of C15']
SUCCESS = 0.99


# ---------------------------------------------------------------- model of the bound
def certified(m, rho, vc):
    s = sum(math.comb(2 * m, d) for d in range(vc + 1))
    return math.log2(s) + 1 - rho * m / 2 - math.log2(1 - SUCCESS)


def ball(dim):
    return math.pi ** (dim / 2) / math.gamma(dim / 2 + 1)


def count_ok(m, delta, volume, dim):
    """m is the least certified count, up to the rounding of the formula"""
    rho = ball(dim) * delta ** dim / volume
    if m < 1 or not certified(m, rho, dim + 1) <= 1e-6:
        return 'not certified: the bound on the failure probability is %.3g' % (2 ** min(60, certified(m, rho, dim + 1)) * (1 - SUCCESS)) if m >= 1 else 'no samples'
    if m > 64 and certified(m - max(1, m // 2 ** 40) * 2, rho, dim + 1) < -1e-6:
        return 'more than the least certified count'
    return None


def announced(text, what):
    got = [l.split(what + ':')[1] for l in text.splitlines() if what + ':' in l]
    return float(got[-1]) if got else None


def grown(log):
    return [e[1] for e in log if e[0] == 'grow'], [e for e in log if e[0] == 'query']


def judge_run(grows, queries, need, got, none, M):
    """the schedule in adaptive mode: one roadmap of M samples, asked once it is complete"""
    if grows[-1:] != [M]:
        return ['roadmap has %s samples, the bound asks for %d' % (grows[-1:], M)] if grows else ['no roadmap was built']
    if [q[1] for q in queries][-1:] != [M]:
        return ['not queried with all %d samples: %s' % (M, [q[1] for q in queries])]
    if need is not None and need <= M:
        return [] if not none(got) else ['nothing returned although a path was found']
    return ['a trajectory is returned although no path was found'] if not none(got) else []


# ---------------------------------------------------------------- turtlebot
def turtle_run(st, gap, radius, held, sched, need):
    import pybullet_tools.utils as pbu
    from pybullet_tools.pr2_primitives import Conf
    obs = c20.setup_world([(3.0, 3.0, 0.2, 0.2, 1, 0)])
    rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=0.3)
    obj = pbu.create_cylinder(radius, 0.1)
    body = obj if held else rover
    width = float(pbu.get_aabb_extent(pbu.get_aabb(body))[0])
    q1, q2 = Conf(rover, ('x', 'y'), (-0.8, -0.6)), Conf(rover, ('x', 'y'), (0.7, -0.6))
    problem = types.SimpleNamespace(obstacles=obs, hallway_gap=gap, init_conf=q1, rover=rover, targets=[obj])
    ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], need, [(0.0, -0.6)]
    lo, hi, f = sched
    fn = st.get_anytime_motion_fn(problem, start_samples=lo, end_samples=hi, factor=f, holding=held, adaptive_n=True)
    text = io.StringIO()
    with patched(st, ScriptedPRM), contextlib.redirect_stdout(text):
        got = guard(fn, rover, q1, q2, *([obj] if held else []), cpu=60)
    return got, list(ScriptedPRM.log), text.getvalue(), width


def turtle_case(case):
    gap, radius, held, sched, k = case
    st = loader.tamp_module('turtlebot_move', 'streams')
    got, log, text, width = turtle_run(st, gap, radius, held, sched, None)
    if isinstance(got, Raised):
        return ['raised %s' % got.text], None
    delta = gap - width + 0.05
    said = announced(text, 'delta')
    if said is None or abs(said - delta) > 1e-9:
        return ['clearance %s is announced for a gap of %.4f and a width of %.4f (%.4f with the buffer)' % (said, gap, width, delta)], None
    grows, queries = grown(log)
    if not grows:
        return ['no roadmap was built'], None
    M = grows[-1]
    bad = count_ok(M, delta, 16, 2)
    if bad:
        return ['%d samples for a clearance of %.4f: %s' % (M, delta, bad)], M
    msg = judge_run(grows, queries, None, got, lambda g: g is None or g == (), M)
    if announced(text, 'max_samples') not in (None, float(M)):
        msg.append('announces %s samples, builds %d' % (announced(text, 'max_samples'), M))
    for need in [(1, M, M + 1, M - 1, 2 * M)[k % 5]]:
        got, log, text, _ = turtle_run(st, gap, radius, held, sched, need)
        if isinstance(got, Raised):
            return ['raised %s' % got.text], M
        g2, q2 = grown(log)
        if need <= M:
            if not g2 or g2[-1] > M or got is None or got == ():
                msg.append('path found from %d samples on, roadmap %s of %d, returned %s' % (need, g2, M, got))
        else:
            msg += judge_run(g2, q2, need, got, lambda g: g is None or g == (), M)
    return msg, M


SCHED = [(10, 2000, 1.1), (1, 1, 2), (99, 100, 1.5), (100000, 3, 1)]


def turtle_cases(t):
    n, radii = (24, [0.08, 0.1, 0.12, 0.1537, 0.2]) if t['tier'] == 'quick' else (200, [0.06, 0.08, 0.1, 0.11, 0.12, 0.14, 0.1537, 0.18, 0.2])
    r = radii[t['object']]
    i = 0
    for held in (True, False):
        for g in range(n):
            gap = 2 * max(r, 0.16) + 0.3 * g / n
            for sched in SCHED:
                for k in range(5 if t['tier'] != 'quick' else 1):
                    i += 1
                    yield (gap, r, held, sched, k if t['tier'] != 'quick' else i)


def do_turtle(t, out):
    last = {}
    for case in turtle_cases(t):
        msg, M = turtle_case(case)
        out.count('states')
        out.count('traces', 2)
        out.count('transitions', 2)
        if M:
            key = (case[1], case[2], case[3])
            if key in last and last[key] < M:
                msg = msg + ['a wider gap (%.4f) takes more samples: %d instead of %d' % (case[0], M, last[key])]
            last[key] = M
        for m in msg[:1]:
            out.violate('turtlebot:' + ' '.join(m.split(' ')[1:3]), 'gap %.4f, object radius %.4f, held %s, configured schedule %s: %s' % (case[:4] + (m,)),
                        dict(kind='turtle', case=list(case)))
        if out.stop:
            return


# ---------------------------------------------------------------- kuka
def kuka_run(run, prim, i, body, buffer, margin, need, sched, raise_=False):
    arm = c29.Arm(run, prim, i, 0, body, c29.FREE)
    pbu = arm.pbu
    aabb = pbu.get_aabb(arm.body)
    ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], need, c29.MIDDLE[:1]
    lo, hi, f = sched
    fn = run.get_insert_motion_gen(arm.robot, body_aabb_map={arm.body: aabb}, body_obstacle_map={arm.body: arm.oobbs},
                                   start_samples=lo, end_samples=hi, factor=f, collision_buffer=buffer, theta_margin=margin, adaptive_n=True)
    text = io.StringIO()
    with patched(run, ScriptedPRM), contextlib.redirect_stdout(text):
        got = guard(fn, arm.confs[0], arm.confs[1], arm.body, arm.grasp, cpu=60)
    V = [np.array(pbu.get_oobb_vertices(o)) for o in arm.oobbs] + [np.array([arm.ends[0][0]])]
    V = np.concatenate(V)
    volume = float(np.prod(V.max(0) - V.min(0))) * (2 * margin) ** 3
    c = dict(dict(thickness=0.01), **c29.CONTAINERS[i])
    return got, list(ScriptedPRM.log), text.getvalue(), volume, c['width'] - c['thickness'], float(aabb.upper[0] - aabb.lower[0])


def kuka_case(case):
    i, body, buffer, margin, sched, k = case
    run, prim = c29.modules()
    got, log, text, volume, hall, width = kuka_run(run, prim, i, body, buffer, margin, None, sched)
    if isinstance(got, Raised) and got.name != 'SubplanFailed':
        return ['raised %s' % got.text], None
    delta = hall - (width + buffer) / 2
    said = announced(text, 'delta')
    if said is None or abs(said - delta) > 1e-9:
        return ['clearance %s is announced, container of %.4f, object of %.4f, buffer %.4f' % (said, hall, width, buffer)], None
    grows, queries = grown(log)
    if not grows:
        return ['no roadmap was built'], None
    M = grows[-1]
    bad = count_ok(M, delta, volume, 6)
    if bad:
        return ['%d samples for a clearance of %.4f in a volume of %.3g: %s' % (M, delta, volume, bad)], M
    msg = judge_run(grows, queries, None, got, c29.none, M)
    need = (1, M, M + 1, M - 1)[k % 4]
    got, log, text, _, _, _ = kuka_run(run, prim, i, body, buffer, margin, need, sched)
    g2, q2 = grown(log)
    if isinstance(got, Raised) and got.name != 'SubplanFailed':
        msg.append('raised %s' % got.text)
    elif need <= M:
        if not g2 or g2[-1] > M or c29.none(got):
            msg.append('path found from %d samples on, roadmap %s of %d, returned %s' % (need, g2, M, got))
    else:
        msg += judge_run(g2, q2, need, got, c29.none, M)
    return msg, M


def kuka_cases(t):
    q = t['tier'] == 'quick'
    bodies = [(w, 0.05, 0.1) for w in ((0.03, 0.04, 0.05, 0.06, 0.045, 0.055) if q else tuple(0.03 + 0.0025 * j for j in range(12)))]
    i = 0
    for body in bodies:
        for buffer in ((0.0, 0.02, 0.04) if q else (0.0, 0.01, 0.02, 0.03, 0.04)):
            for margin in ((0.1, 0.3, 0.7) if q else (0.05, 0.1, 0.2, 0.3, 0.7)):
                i += 1
                yield (t['container'], body, buffer, margin, SCHED[i % 4], i // 4)


def do_kuka(t, out):
    last = {}
    for case in kuka_cases(t):
        msg, M = kuka_case(case)
        out.count('states')
        out.count('traces', 2)
        out.count('transitions', 2)
        for m in msg[:1]:
            out.violate('kuka:' + ' '.join(m.split(' ')[1:3]), 'container %d, object %s, buffer %s, margin %s, configured schedule %s: %s' % (case[:5] + (m,)),
                        dict(kind='kuka', case=list(case)))
        if out.stop:
            return


# ---------------------------------------------------------------- the clearance itself
def clearance_case(domain):
    """the clearance handed to the bound against the free space beside the object in the middle of the passage"""
    if domain == 'turtlebot':
        st = loader.tamp_module('turtlebot_move', 'streams')
        worst = None
        for gap, r in itertools.product((0.36, 0.4, 0.5), (0.12, 0.1537, 0.17)):
            got, log, text, width = turtle_run(st, gap, r, True, SCHED[0], None)
            d, true = announced(text, 'delta'), (gap - width) / 2
            if d is not None and d > true + 1e-9 and (worst is None or d - true > worst[0]):
                worst = (d - true, 'gap %.4f, object %.4f wide: bound for a clearance of %.4f, free space beside the object %.4f' % (gap, width, d, true))
    else:
        run, prim = c29.modules()
        worst = None
        for w, b in itertools.product((0.03, 0.05), (0.0, 0.02)):
            got, log, text, volume, hall, width = kuka_run(run, prim, 1, (w, 0.05, 0.1), b, 0.3, None, SCHED[0])
            d, true = announced(text, 'delta'), (hall - width) / 2
            if d is not None and d > true + 1e-9 and (worst is None or d - true > worst[0]):
                worst = (d - true, 'container %.4f, object %.4f wide: bound for a clearance of %.4f, free space beside the object at most %.4f' % (hall, width, d, true))
    return [worst[1]] if worst else []


def do_clearance(t, out):
    out.count('states')
    out.count('traces')
    for m in clearance_case(t['domain']):
        out.violate('clearance:' + t['domain'], m, dict(kind='clearance', case=t['domain']))


def tasks(tier):
    t = [dict(kind='turtle', object=o, tier=tier) for o in range(5 if tier == 'quick' else 9)]
    t += [dict(kind='kuka', container=c, tier=tier) for c in range(4 if tier == 'quick' else 6)]
    t += [dict(kind='clearance', domain=d) for d in ('turtlebot', 'kuka')]
    return t


def run_task(t, out):
    globals()['do_' + t['kind']](t, out)


def replay(rec):
    c = rec['case']
    if rec['kind'] == 'turtle':
        return turtle_case((c[0], c[1], c[2], tuple(c[3]), c[4]))[0]
    if rec['kind'] == 'kuka':
        return kuka_case((c[0], tuple(c[1]), c[2], c[3], tuple(c[4]), c[5]))[0]
    return clearance_case(c)
