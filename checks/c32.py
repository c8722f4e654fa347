"""C32 planning front-ends: what the command line asks for is what is planned, logged and carried out."""
import itertools, logging, math, os, random, shutil, sys, tempfile
import numpy as np
from mc.core import guard, Raised
from mc import loader
from checks.c20 import ScriptedPRM, patched

ID, LEVEL = 'C32', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of command lines, random states, directory contents and planner outcomes on the real entry points, against a model of the options'
NOTE = 'The real main() of both domains runs in-process with a scripted planner for every single option value and every pair of ' \
       'option values, from several random states, with several outcomes of the planner; the problem handed over (world, growth ' \
       'schedule, motion streams), the results directory, the log and the commands carried out are compared with a model.'
BOUNDS = {'quick': 'turtlebot: all single values and all pairs of values of 11 options; kuka: all single values and pairs of 6 options; seeds x 2 random states; 6 planner outcomes',
          'thorough': 'triples of option values for the turtlebot, more values per option'}
ASSUMPTIONS = ['task planner, simulator and roadmap are scripted stand-ins; the growth of the roadmap is logged']

DOMAINS = {
    'turtlebot': dict(dir='turtlebot_move', defaults=dict(min=10, max=2000, factor=1.1, delta=0.05),
                      options={'min': ['--min-samples', 3, 40], 'max': ['--max-samples', 12, 60], 'factor': ['--factor', '2', '1.5', '1'],
                               'delta': ['--delta', 0.0, 0.12], 'seed': ['--seed', 0, 7], 'targets': ['--num-targets', 2, 3],
                               'teleport': ['--teleport', None], 'random': ['--randomize-delta', None], 'algorithm': ['--algorithm', 'adaptive', 'focused'],
                               'unit': ['--unit', None], 'optimal': ['--optimal', None], 'simulate': ['--simulate', None]}),
    'kuka': dict(dir='kuka_carry', defaults=dict(min=500, max=30000, factor=1.1, delta=0.04),
                 options={'min': ['--min-samples', 3, 40], 'max': ['--max-samples', 600, 900], 'factor': ['--factor', '2', '1.5'],
                          'delta': ['--delta', 0.06, 0.1], 'theta': ['--theta-margin', 0.1, 0.7], 'buffer': ['--collision-buffer', 0.01, 0.05],
                          'seed': ['--seed', 0, 7]})}


def values(domain, name):
    v = DOMAINS[domain]['options'][name][1:]
    return [None] if v == [None] else v


class Log:
    """what setup_logging changes, put back afterwards"""

    def __enter__(self):
        self.root = logging.getLogger()
        self.handlers, self.level = list(self.root.handlers), self.root.level
        for h in self.handlers:
            self.root.removeHandler(h)
        self.io = sys.stdout, sys.stderr

    def __exit__(self, *a):
        for h in list(self.root.handlers):
            self.root.removeHandler(h)
            h.close()
        for h in self.handlers:
            self.root.addHandler(h)
        self.root.setLevel(self.level)
        sys.stdout, sys.stderr = self.io


class Main:
    """one run of main(): argv is built from options (a dict name -> value)"""

    def __init__(self, domain, options, outcome='plan', gui=False, rng=(1, 2), fail_first=False, where=None):
        import pybullet_tools.utils as pbu
        from pddlstream.algorithms import meta
        from pybullet_tools import pr2_primitives
        self.domain, self.options, self.outcome, self.pbu = domain, options, outcome, pbu
        D = DOMAINS[domain]
        self.run = loader.tamp_module(D['dir'], 'run')
        if domain == 'kuka':
            self.prim = loader.tamp_module(D['dir'], 'kuka_primitives')
            meta, pr2_primitives = sys.modules['pddlstream.algorithms.meta'], sys.modules.get('pybullet_tools.pr2_primitives', pr2_primitives)
        self.base = where or tempfile.mkdtemp(prefix='verif-main-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.calls, self.played, self.steps = [], [], []
        argv = ['run.py', '--save-dir', os.path.join(self.base, 'logs')]
        for k, v in options.items():
            argv += [D['options'][k][0]] + ([] if v is None else [str(v)])
        if gui:
            argv.append('--vis')
        pbu.reset_world()
        W = pbu.WORLD
        W.tool = lambda parent, q: pbu.Pose(q[:3], q[3:6])
        W.sample_conf = lambda body, joints: (0.0,) * len(joints)
        self.ik_calls, self.fail_first = 0, fail_first

        def ik(robot, link, pose, current):
            if self.fail_first and pose[0][0] < -0.2 and len([b for b in W.bodies.values() if b['kind'] == 'multi']) == 8 and self.worlds() == 1:
                return None
            return tuple(float(v) for v in list(pose[0]) + list(pbu.euler_from_quat(pose[1]))) + (current[6],)
        W.ik = ik
        random.seed(rng[0])
        np.random.seed(rng[1])
        state = (list(sys.argv), os.getcwd(), meta.SOLVER, pr2_primitives.PLAYED)
        self.before = self.listing()
        try:
            sys.argv = argv
            os.chdir(self.base)
            meta.SOLVER, pr2_primitives.PLAYED = self.solve, self.played
            with Log():
                self.result = guard(self.run.main, cpu=120)
        finally:
            sys.argv = state[0]
            os.chdir(state[1])
            meta.SOLVER, pr2_primitives.PLAYED = state[2:]
        self.after = self.listing()
        self.log = [e for e in pbu.WORLD.log]
        self.end = {k: b['pose'][0] for k, b in pbu.WORLD.bodies.items()}
        if self.calls:                                         # the streams are asked in the world they were made for
            import copy
            for k, b in copy.deepcopy(self.world).items():
                if k in pbu.WORLD.bodies:
                    pbu.WORLD.bodies[k] = b

    def worlds(self):
        return 1 + sum(1 for b in range(1, self.pbu.WORLD.next) if b not in self.pbu.WORLD.bodies and b < 3)

    def listing(self):
        out = {}
        for d, ds, fs in os.walk(self.base):
            for n in ds:
                out[os.path.relpath(os.path.join(d, n), self.base)] = None
            for n in fs:
                with open(os.path.join(d, n), errors='replace') as f:
                    out[os.path.relpath(os.path.join(d, n), self.base)] = f.read()
        return out

    def close(self):
        assert os.path.basename(self.base).startswith('verif-main-')
        shutil.rmtree(self.base, ignore_errors=True)

    # ---- the scripted task planner
    def solve(self, problem, **kw):
        import copy
        self.problem, self.kw = problem, kw
        self.world = copy.deepcopy(self.pbu.WORLD.bodies)
        self.calls.append(kw)
        for b in self.pbu.WORLD.bodies.values():           # planning leaves the bodies wherever it moved them
            p, q = b['pose']
            b['pose'] = ((p[0] + 0.37, p[1] - 0.21, p[2] + 0.05), q)
        self.draw = (random.random(), float(np.random.uniform()))
        if self.outcome == 'error':
            raise self.run.SubplanFailed
        if self.outcome == 'none':
            return None, math.inf, []
        self.plan = self.make_plan()
        return self.plan, 1.0, []

    def facts(self, name):
        return [f[1:] for f in self.problem.init if f[0].lower() == name.lower()]

    def make_plan(self):
        if self.domain == 'turtlebot':
            v, q = self.facts('AtConf')[0]
            o, p = self.facts('AtPose')[0]
            (q2,) = self.problem.stream_map['sample-ik'](v, o, p)
            return [('pick', (v, q, 'out', q2, p, o)), ('place', (v, q2, 'back', q, p, o))]
        K = self.prim
        robot = self.facts('AtConf')[0][0].body
        joints = self.pbu.get_movable_joints(robot)
        q = self.facts('AtConf')[0][0]
        c = [K.Command([K.BodyPath(robot, [(0.1 * i,) * 7, (0.1 * i + 0.1,) * 7], joints=joints)]) for i in range(2)]
        return [('move_free', (q, q, c[0])), ('pick', (1, 2, 3, 4)), ('move_free', (q, q, c[1]))]

    def grown(self, stream, *args):
        ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], None, []
        mod = sys.modules['streams'] if self.domain == 'turtlebot' else self.run
        with patched(mod, ScriptedPRM):
            r = guard(self.problem.stream_map[stream], *args, cpu=60)
        return [e[1] for e in ScriptedPRM.log if e[0] == 'grow'], r

    def found(self, stream, *args, path=None):
        ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], 1, path
        mod = sys.modules['streams'] if self.domain == 'turtlebot' else self.run
        with patched(mod, ScriptedPRM):
            return guard(self.problem.stream_map[stream], *args, cpu=60)


def schedule(lo, hi, factor):
    n, out = lo, []
    while n < hi + 1:
        out.append(int(n))
        n = max(n * factor, int(n) + 1)
    return out


def moved(m, world):
    return [k for k, b in m.world.items() if k in world and not np.allclose(np.array(b['pose'][0], dtype=float), np.array(world[k], dtype=float), atol=1e-7)]


def snapshot(m):
    return [(k, b['kind'], np.round(b['half'], 9).tolist(), np.round(b['pose'][0], 9).tolist(), np.round(b['pose'][1], 9).tolist()) for k, b in sorted(m.world.items())]


def directory(m, gui):
    """messages about the results directory and the log"""
    msg = []
    new = {k: v for k, v in m.after.items() if k not in m.before}
    for k, v in m.before.items():
        if m.after.get(k, 'gone') != v:
            msg.append('%s in the directory was changed' % k)
    runs = sorted({k.split(os.sep)[1] for k in new if k.startswith('logs' + os.sep)})
    if len(runs) != 1:
        return msg + ['results were put in %s' % runs]
    d = os.path.join('logs', runs[0])
    if os.path.join(d, 'pddl') not in new:
        msg.append('no pddl directory in %s' % d)
    if m.calls and os.path.abspath(os.path.join(m.base, m.kw.get('temp_dir') or '.')) != os.path.join(m.base, d, 'pddl'):
        msg.append('planner works in %s' % m.kw.get('temp_dir'))
    logs = [v for k, v in new.items() if k.startswith(d + os.sep) and k.endswith('.log')]
    if len(logs) != 1:
        return msg + ['%d log files' % len(logs)]
    o = m.options
    D = DOMAINS[m.domain]['defaults']
    want = ['Time: ']
    if 'random' not in o:
        want.append('Delta: %s' % float(o.get('delta', D['delta'])))
    want += ['Min samples: %s' % o.get('min', D['min']), 'Max samples: %s' % o.get('max', D['max'])]
    want += ['Solved: %s' % (m.outcome == 'plan')]
    for w in want:
        if w not in logs[0]:
            msg.append('log does not hold %r' % w)
    return msg


# ---------------------------------------------------------------- turtlebot
def judge_turtlebot(m, gui):
    pbu, o = m.pbu, m.options
    D = DOMAINS['turtlebot']['defaults']
    if isinstance(m.result, Raised):
        return ['raised %s' % m.result.text]
    if len(m.calls) != 1:
        return ['planned %d times' % len(m.calls)]
    msg = directory(m, gui)
    n = o.get('targets', 1)
    targets = [t for t, in m.facts('Target')]
    radius = 0.3 * 0.179 + 0.1
    if len(targets) != n or len(m.facts('AtPose')) != n:
        msg.append('%d objects instead of %d' % (len(targets), n))
    else:
        big = max(m.world[t]['half'][0] for t in targets)
        if abs(big - radius) > 1e-9:
            msg.append('widest object has radius %.4f' % big)
    halls = sorted(b['pose'][0][1] for b in m.world.values() if b['kind'] == 'box' and abs(b['half'][0] - 1.5) < 1e-9 and b['half'][2] > 0.01)
    if len(halls) != 2:
        msg.append('%d hallway walls' % len(halls))
    else:
        delta = halls[1] - halls[0] - 0.1 - 2 * radius
        if 'random' in o:
            if not 0.01 - 1e-9 <= delta <= 0.2 + 1e-9:
                msg.append('random gap parameter %.4f' % delta)
        elif abs(delta - o.get('delta', D['delta'])) > 1e-9:
            msg.append('gap parameter is %.5f' % delta)
    lo, hi, f = o.get('min', D['min']), o.get('max', D['max']), float(o.get('factor', D['factor']))
    v, q = m.facts('AtConf')[0]
    t, p = m.facts('AtPose')[0]
    (q2,) = m.problem.stream_map['sample-ik'](v, t, p)
    for stream, args in (('sample-motion', (v, q, q2)), ('sample-motion-holding', (v, q2, q, t))):
        got, r = m.grown(stream, *args)
        if got != schedule(lo, hi, f):
            msg.append('%s grows to %s, asked for %s' % (stream, got[:12], schedule(lo, hi, f)[:12]))
        if lo <= hi:
            r = m.found(stream, *args, path=[(0.0, 0.75)])
            if isinstance(r, Raised) or r is None:
                msg.append('%s: %s' % (stream, r.text if isinstance(r, Raised) else r))
            elif (len(r[0].path) == 3) != ('teleport' in o):
                msg.append('%s gives %d configurations' % (stream, len(r[0].path)))
    if m.kw.get('algorithm') != o.get('algorithm', 'adaptive') or bool(m.kw.get('unit_costs')) != ('unit' in o) or (m.kw.get('success_cost') == 0) != ('optimal' in o):
        msg.append('planner options %s' % {k: m.kw.get(k) for k in ('algorithm', 'unit_costs', 'success_cost')})
    if gui and m.outcome == 'plan':
        kind = 'control' if 'simulate' in o else 'apply'
        off = moved(m, m.played[0][3]) if m.played else []
        if off:
            msg.append('carried out with bodies %s not where they were before planning' % off[:3])
        if len(m.played) != 1 or m.played[0][0] != kind or (kind == 'apply' and (m.played[0][2] is None) != ('teleport' in o)):
            msg.append('carried out %s' % [(a, c) for a, b, c, w in m.played])
        else:
            c = [x if isinstance(x, str) else (type(x).__name__, x.body) for x in m.played[0][1]]
            want = ['out', ('Attach', targets[0]), 'back', ('Detach', targets[0])]
            if c != want:
                msg.append('carried out %s, planned %s' % (c, want))
    elif m.played:
        msg.append('carried out %s' % [p[:3] for p in m.played])
    return msg


# ---------------------------------------------------------------- kuka
def judge_kuka(m, gui):
    pbu, o = m.pbu, m.options
    D = DOMAINS['kuka']['defaults']
    if isinstance(m.result, Raised):
        return ['raised %s' % m.result.text]
    if len(m.calls) != 1:
        return ['planned %d times' % len(m.calls)]
    msg = directory(m, gui)
    bins = [b for b in m.world if m.world[b]['kind'] == 'multi']
    kinds = [sum(b['kind'] == 'multi' for b in m.world.values()), len(m.world)]
    if kinds != [8, 19]:
        msg.append('the world has %d bodies, %d containers' % (kinds[1], kinds[0]))
    delta = o.get('delta', D['delta'])
    for b in bins:
        w = max(abs(q[0][0]) + h[0] for h, q in m.world[b]['links']) * 2
        if abs(w - 0.06 - delta) > 1e-9:
            msg.append('container is %.4f wide, widest object plus gap is %.4f' % (w, 0.06 + delta))
    body = m.facts('Graspable')
    if len(bins) < len(body):
        msg.append('%d containers for %d objects' % (len(bins), len(body)))
    known = [x for f in m.problem.init for x in f[1:] if isinstance(x, int)]
    if any(b not in m.world for b in known):
        msg.append('the problem names bodies which are gone: %s' % [b for b in known if b not in m.world][:3])
    lo, hi, f = o.get('min', D['min']), o.get('max', D['max']), float(o.get('factor', D['factor']))
    b, g = m.facts('Grasp')[0]
    own = {q for o_, p, g_, q in m.facts('Kin') if o_ == b}
    q1 = [q for q, in m.facts('PreInsert') if q in own][0]
    q2 = [q for q, in m.facts('PostInsert') if q in own][0]
    import io, contextlib
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        got, r = m.grown('plan-insert-motion', q1, q2, b, g)
    if got != schedule(lo, hi, f):
        msg.append('insertion grows to %s, asked for %s' % (got[:12], schedule(lo, hi, f)[:12]))
    said = [float(l.split('delta:')[1]) for l in text.getvalue().splitlines() if 'delta:' in l]
    want = 0.06 + delta - 0.01 - (2 * m.world[b]['half'][0] + o.get('buffer', 0.02)) / 2
    if said and abs(said[-1] - want) > 1e-9:
        msg.append('insertion announces clearance %.5f, %.5f for this container, object and buffer' % (said[-1], want))
    envs = []
    old = m.run.BagOfBoundingBoxes

    def rec(*a, **k):
        envs.append(old(*a, **k))
        return envs[-1]
    m.run.BagOfBoundingBoxes = rec
    try:
        m.found('plan-insert-motion', q1, q2, b, g, path=[(9.0, 9.0, 9.0, 0.0, 0.0, 0.0)])
    finally:
        m.run.BagOfBoundingBoxes = old
    th = o.get('theta', math.pi / 12)
    for e in envs:
        s = np.array([e.sample_from_env() for _ in range(60)])[:, 3:]
        if np.abs(s).max() > th + 1e-9 or np.abs(s).max() < 0.8 * th:
            msg.append('samples turn by up to %.4f, margin %.4f' % (np.abs(s).max(), th))
    if gui and m.outcome == 'plan':
        seq = [e for e in m.log if e[0] == 'joints']
        robot = m.facts('AtConf')[0][0].body
        for b_, p_ in m.facts('AtPose'):                  # (working out the problem moves objects about; they start where the facts say)
            m.world[b_]['pose'] = p_.pose
        off = moved(m, m.end)
        if off:
            msg.append('carried out with bodies %s not where they were before planning' % off[:3])
        way = [tuple(np.round(e[3], 6)) for e in seq if e[1] == robot][-60:]
        for v in (0.0, 0.1, 0.2):
            if tuple(np.round((v,) * 7, 6)) not in way:
                msg.append('planned configuration %s was not visited' % v)
    return msg


JUDGE = {'turtlebot': judge_turtlebot, 'kuka': judge_kuka}


def case(domain, options, outcome='plan', gui=False, rng=(1, 2), fail_first=False):
    m = Main(domain, options, outcome, gui, rng, fail_first)
    try:
        msg = JUDGE[domain](m, gui)
        if fail_first and not msg and m.pbu.WORLD.next < 36:
            msg.append('an impossible world was not replaced')
        return msg
    finally:
        m.close()


def command_lines(domain, tier):
    names = [n for n in DOMAINS[domain]['options'] if n != 'seed']
    yield {}
    for r in range(1, (2 if tier == 'quick' or domain == 'kuka' else 3) + 1):
        for c in itertools.combinations(names, r):
            for v in itertools.product(*[values(domain, n) for n in c]):
                yield dict(zip(c, v))


def judged(options):
    """an optimistic bound: the minimum may not exceed the maximum, where nothing can be planned"""
    return True


def do_lines(t, out):
    lines = list(command_lines(t['domain'], t['tier']))
    for o in lines[t['part']::t['parts']]:
        out.count('states')
        out.count('traces')
        for m in case(t['domain'], o)[:1]:
            out.violate('%s:%s' % (t['domain'], ' '.join(m.split(' ')[:2])), '%s %s: %s' % (t['domain'], o, m), dict(kind='lines', domain=t['domain'], case=[o, 'plan', False, [1, 2], False]))
        if out.stop:
            return


def do_outcomes(t, out):
    d = t['domain']
    jobs = []
    for oc, gui in itertools.product(('plan', 'none') + (('error',) if d == 'kuka' else ()), (False, True)):
        for o in ({}, {'min': 3}, *([{'teleport': None}, {'simulate': None}, {'simulate': None, 'teleport': None}, {'targets': 3}] if d == 'turtlebot' else [])):
            jobs.append((o, oc, gui, (1, 2), False))
    if d == 'kuka':
        jobs += [({}, 'plan', g, (3, k), True) for g in (False, True) for k in (4, 5)]
    for j in jobs[t['part']::t['parts']]:
        out.count('states')
        out.count('traces')
        out.outcome('planner: ' + j[1])
        for m in case(d, *j)[:1]:
            out.violate('%s:outcome:%s' % (d, ' '.join(m.split(' ')[:2])), '%s %s, planner answers %s, gui %s, impossible first world %s: %s' % (d, j[0], j[1], j[2], j[4], m),
                        dict(kind='lines', domain=d, case=list(j)))
        if out.stop:
            return


def world_of(domain, o, rng):
    m = Main(domain, o, 'plan', False, rng)
    try:
        if isinstance(m.result, Raised) or not m.calls:
            return None
        return snapshot(m), m.draw
    finally:
        m.close()


def seed_case(domain, o, s1, s2):
    """messages about runs with these seeds from two random states"""
    a = world_of(domain, dict(o, seed=s1), (1, 2))
    b = world_of(domain, dict(o, seed=s1), (5, 6))
    c = world_of(domain, dict(o, seed=s2), (1, 2))
    if None in (a, b, c):
        return ['no planning problem']
    if s1 >= 0:
        if a != b:
            return ['two runs with seed %d differ: %s' % (s1, 'world' if a[0] != b[0] else 'random numbers')]
        if s2 != s1 and a == c:
            return ['runs with seeds %d and %d are the same' % (s1, s2)]
    else:
        if a == b:
            return ['without a seed, runs are the same from every random state']
    return []


def do_seeds(t, out):
    d = t['domain']
    for o in ([{}, {'targets': 3}, {'random': None}] if d == 'turtlebot' else [{}]):
        for s1, s2 in [(0, 1), (1, 2), (7, 0), (123456, 7), (-1, -1), (-5, 3)]:
            out.count('states', 3)
            out.count('traces', 3)
            for m in seed_case(d, o, s1, s2)[:1]:
                out.violate('%s:seed' % d, '%s %s seeds %d and %d: %s' % (d, o, s1, s2, m), dict(kind='seeds', domain=d, case=[o, s1, s2]))
            if out.stop:
                return


def again_case(domain, kinds):
    """several runs into the same directory: each has its own results, earlier ones are left alone"""
    base = tempfile.mkdtemp(prefix='verif-main-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        for k, oc in enumerate(kinds):
            m = Main(domain, {}, oc, False, (k + 1, k + 2), where=base)
            if isinstance(m.result, Raised):
                return ['run %d raised %s' % (k, m.result.text)]
            msg = [x for x in directory(m, False)]
            if msg:
                return ['run %d: %s' % (k, msg[0])]
        return []
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_again(t, out):
    for n in range(2, 4):
        for kinds in itertools.product(('plan', 'none'), repeat=n):
            out.count('states', n)
            out.count('traces')
            for m in again_case(t['domain'], kinds)[:1]:
                out.violate('%s:again' % t['domain'], '%s runs %s: %s' % (t['domain'], kinds, m), dict(kind='again', domain=t['domain'], case=list(kinds)))


# ---------------------------------------------------------------- options which are documented but have no effect
def do_ignored(t, out):
    d = t['domain']
    out.count('states')
    for m in ignored_case(d, t['option']):
        out.violate('%s:ignored:%s' % (d, t['option']), m, dict(kind='ignored', domain=d, case=t['option']))


def raw(domain, flags, rng=(1, 2)):
    D = DOMAINS[domain]['options']
    for k, v in flags.items():
        D['x' + k] = ['--' + k]
    try:
        return Main(domain, {'x' + k: v for k, v in flags.items()}, 'plan', False, rng)
    finally:
        for k in flags:
            del D['x' + k]


def ignored_case(domain, option):
    if option == 'cfree':
        m = raw(domain, {'cfree': None})
        try:
            v, q = m.facts('AtConf')[0]
            t, p = m.facts('AtPose')[0]
            (q2,) = m.problem.stream_map['sample-ik'](v, t, p)
            q2.values = (0.0, 3.0)                 # behind the wall of the hallway
            (w,) = [b for b in list(m.pbu.WORLD.bodies) if m.pbu.WORLD.bodies[b]['kind'] == 'box' and abs(m.pbu.WORLD.bodies[b]['half'][0] - 1.5) < 1e-9 and m.pbu.WORLD.bodies[b]['half'][2] > 0.01][:1]
            q2.values = tuple(m.pbu.get_pose(w)[0][:2])
            r = m.found('sample-motion', v, q, q2, path=[(0.0, 0.75)])
            return [] if r and not isinstance(r, Raised) else ['with --cfree (disables collisions) a motion into a wall is refused: %s' % (r.text if isinstance(r, Raised) else r)]
        finally:
            m.close()
    if option == 'num-targets':
        m = raw(domain, {'num-targets': 3})
        try:
            n = len(m.facts('Graspable'))
            return [] if n == 3 else ['with --num-targets 3 there are %d objects' % n]
        finally:
            m.close()
    if option == 'randomize-delta':
        a, b = raw(domain, {'randomize-delta': None}, (1, 2)), raw(domain, {'randomize-delta': None}, (5, 6))
        try:
            w = [max(abs(q[0][0]) + h[0] for x in m.world.values() if x['kind'] == 'multi' for h, q in x['links']) for m in (a, b)]
            return [] if w[0] != w[1] else ['with --randomize-delta the containers always have the default width']
        finally:
            a.close()
            b.close()
    if option == 'seed':
        return seed_case(domain, {}, 3, 4)
    if option == 'teleport':
        m = raw(domain, {'teleport': None})
        try:
            q = m.facts('AtConf')[0][0]
            q2 = m.facts('PreInsert')[0][0]
            m.pbu.WORLD.planner = lambda b, js, end, **k: [tuple(q.values), (0.3,) * 7, end]
            r = guard(m.problem.stream_map['plan-free-motion'], q, q2)
            n = len(r[0].body_paths[0].path) if r and not isinstance(r, Raised) else r
            return [] if n == 2 else ['with --teleport a free motion has %s configurations' % n]
        finally:
            m.close()


def tasks(tier):
    t = []
    for d in DOMAINS:
        parts = 24 if tier == 'thorough' else 12
        t += [dict(kind='lines', domain=d, tier=tier, part=p, parts=parts) for p in range(parts)]
        t += [dict(kind='outcomes', domain=d, part=p, parts=4) for p in range(4)]
        t += [dict(kind='again', domain=d)]
    t += [dict(kind='seeds', domain='turtlebot')]
    t += [dict(kind='ignored', domain='turtlebot', option='cfree')]
    t += [dict(kind='ignored', domain='kuka', option=o) for o in ('num-targets', 'randomize-delta', 'seed', 'teleport')]
    return t


def run_task(t, out):
    globals()['do_' + t['kind']](t, out)


def replay(rec):
    c = rec['case']
    if rec['kind'] == 'lines':
        return case(rec['domain'], c[0], c[1], c[2], tuple(c[3]), c[4])
    if rec['kind'] == 'seeds':
        return seed_case(rec['domain'], *c)
    if rec['kind'] == 'again':
        return again_case(rec['domain'], c)
    return ignored_case(rec['domain'], c)
