"""C23 planning domains: explicit-state exploration of the action systems read from the PDDL files, bound to the real stream functions."""
import itertools, os, types
import numpy as np
from mc.core import guard, Raised, REPO, StubLimit
from mc import loader, pddl

ID, LEVEL = 'C23', 'model_checking'
TECHNIQUE = 'explicit-state model checking of the action systems parsed from the domain files; stream facts come from the real stream functions, plans are translated by the real code'
NOTE = 'The transition system is read from domain.pddl and stream.pddl on every run, its initial facts from the real ' \
       'pddlstream_from_problem, its certified facts from calling the real stream functions on every admissible input tuple; ' \
       'invariants are checked on every reachable state and on every transition from every state that satisfies them.'
BOUNDS = {'quick': 'turtlebot: 1-3 objects; kuka: 1-2 objects; every state satisfying the invariant; all plans up to 8 (1 object), 6, 4 actions, at most 20000',
          'thorough': 'turtlebot: 1-4 objects; kuka: 1-3 objects; all plans up to 10 / 7 / 5 / 4 actions, at most 200000'}
ASSUMPTIONS = ['the roadmap and inverse kinematics inside the stream functions are stand-ins which succeed',
               'actions have delete-before-add semantics']


def text(domain, name):
    with open(os.path.join(REPO, 'exps', 'tamp_environment', domain, name)) as f:
        return f.read()


class Names:
    def __init__(self):
        self.by_id, self.obj = {}, {}

    def __call__(self, x, hint='x'):
        key = ('int', x) if isinstance(x, (int, np.integer)) else id(x)
        if key not in self.by_id:
            n = '%s%d' % (hint, len(self.by_id))
            self.by_id[key] = n
            self.obj[n] = x
        return self.by_id[key]


def norm(f, N):
    return (f[0].lower(),) + tuple(N(x) for x in f[1:])


def goal_of(g, N):
    """And(...) / ['and', ...] / single literal -> list of facts"""
    if g and isinstance(g[0], str) and g[0].lower() == 'and':
        return [norm(x, N) for x in g[1:]]
    return [norm(g, N)]


# ---------------------------------------------------------------- the two domains
class Turtlebot:
    name = 'turtlebot_move'

    def __init__(self, n):
        from checks import c20
        import pybullet_tools.utils as pbu
        self.n = n
        self.run = loader.tamp_module(self.name, 'run')
        import streams, problems
        pbu.reset_world()
        np.random.seed(7)
        self.problem = problems.hallway_manip(robot_scale=0.3, dd=0.1, num_target=n)
        self.c20, self.streams = c20, streams
        c20.ScriptedPRM.need, c20.ScriptedPRM.path = 1, [(0.1, 0.75)]
        self.pp = self.run.pddlstream_from_problem(self.problem, min_samples=2, max_samples=4, factor=2, teleport=True)

    def call(self, fn, args):
        with self.c20.patched(self.streams, self.c20.ScriptedPRM):
            return guard(fn, *args, cpu=60)

    def ends(self, t):
        return t.path[0].values, t.path[-1].values

    def conf(self, q):
        return q.values

    traj = ('motion', 'motionholding')

    def held(self, s):
        return [f[1] for f in s if f[0] == 'holding']

    def invariant(self, s, objs):
        c = [f for f in s if f[0] == 'atconf']
        if len(c) != 1:
            return 'robot is in %d configurations' % len(c)
        held = self.held(s)
        for o in objs:
            places = [f[2] for f in s if f[0] == 'atpose' and f[1] == o]
            if len(places) + held.count(o) != 1:
                return 'object %s is at %s%s' % (o, places, ' and held' if o in held else '')
        if len(held) > 1:
            return '%s are held at once' % held
        if (('hfree',) in s) != (not held):
            return 'hand is %sreported free while %s is held' % ('' if ('hfree',) in s else 'not ', held or 'nothing')
        return None

    def states(self, dyn0, objs, confs, poses, grasps):
        rest = frozenset(f for f in dyn0 if f[0] not in ('atconf', 'atpose', 'holding', 'hfree'))
        v = [f[1] for f in dyn0 if f[0] == 'atconf'][0]
        for q in confs:
            for pl in itertools.product(*[poses[o] + [None] for o in objs]):
                if pl.count(None) > 1:
                    continue
                s = {('atconf', v, q)}
                for o, p in zip(objs, pl):
                    s.add(('atpose', o, p) if p is not None else ('holding', o))
                if None not in pl:
                    s.add(('hfree',))
                yield rest | s

    def at(self, s):
        return [f[2] for f in s if f[0] == 'atconf'][0]

    def certified(self, facts, before, q1, q2, params):
        held = self.held(before)
        for f in facts:
            if not held and f[0] == 'motion' and f[2] == q1 and f[4] == q2 and f[3] in params:
                return True
            if held and f[0] == 'motionholding' and f[2] == q1 and f[4] == q2 and f[5] == held[0] and f[3] in params:
                return True
        return False

    def kin(self, facts, o, p, q, params):
        return ('kin', o, p, q) in facts

    def commands(self, plan, N):
        """what the plan means: [(trajectory | attach/detach, object)]"""
        out = []
        for name, params, before, after in plan:
            t = [x for x in params if x[0] == 't']
            out += [('move', id(N.obj[x])) for x in t]
            h0, h1 = self.held(before), self.held(after)
            out += [('attach', N.obj[o]) for o in h1 if o not in h0] + [('detach', N.obj[o]) for o in h0 if o not in h1]
        return out

    def translate(self, plan):
        got = self.run.post_process(self.problem, plan)
        if got is None:
            return None
        out = []
        for c in got:
            k = type(c).__name__
            out.append((k.lower(), c.body) if k in ('Attach', 'Detach') else ('move', id(c)))
            if k in ('Attach', 'Detach') and c.robot != self.problem.rover:
                out[-1] += ('robot %s' % c.robot,)
        return out

    def none(self):
        return self.run.post_process(self.problem, None)


class Kuka:
    name = 'kuka_carry'

    def __init__(self, n):
        from checks import kukalib as kl, c20
        import pybullet_tools.utils as pbu
        self.kl, self.c20, self.n = kl, c20, n
        self.run, self.prim = kl.modules()
        self.w = w = kl.world(self.run, self.prim, n)
        run, prim = self.run, self.prim
        self.patches = ((run, 'get_grasp_gen', kl.grasps(prim, pbu)), (run, 'get_ik_fn', kl.fake_ik(prim, pbu)),
                        (run, 'get_fixed_stable_gen', kl.stable(prim, pbu)))
        with kl.patch(*self.patches):
            self.pp = run.pddlstream_from_problem(w['robot'], names=w['names'], placement_links=w['links'], movable=w['objs'],
                                                  sink_obstacle_oobbs=w['sink_oobbs'], fixed=w['fixed'], teleport=True,
                                                  min_samples=4, max_samples=8, factor=2.0, adaptive_n=False,
                                                  collision_buffer=0.02, theta_margin=0.2)
        c20.ScriptedPRM.need, c20.ScriptedPRM.path = 1, [(-0.5, 0.0, 0.4, 0, 0, 0)]

    def call(self, fn, args):
        with self.kl.patch(*self.patches):
            with self.c20.patched(self.run, self.c20.ScriptedPRM):
                return guard(fn, *args, cpu=60)

    def ends(self, c):
        paths = [p for p in c.body_paths if hasattr(p, 'path')]
        return tuple(paths[0].path[0]), tuple(paths[-1].path[-1])

    def conf(self, q):
        return q.values

    traj = ('freemotion', 'holdingmotion', 'insertmotion')

    def held(self, s):
        return [f[1] for f in s if f[0] == 'atgrasp']

    def invariant(self, s, objs):
        c = [f for f in s if f[0] == 'atconf']
        if len(c) != 1:
            return 'robot is in %d configurations' % len(c)
        held = self.held(s)
        for o in objs:
            places = [f[2] for f in s if f[0] == 'atpose' and f[1] == o]
            if len(places) + held.count(o) != 1:
                return 'object %s is at %s%s' % (o, places, ' and held' if o in held else '')
        if len(held) > 1:
            return '%s are held at once' % held
        if (('handempty',) in s) != (not held):
            return 'hand is %sreported empty while %s is held' % ('' if ('handempty',) in s else 'not ', held or 'nothing')
        return None

    def states(self, dyn0, objs, confs, poses, grasps):
        rest = frozenset(f for f in dyn0 if f[0] not in ('atconf', 'atpose', 'atgrasp', 'handempty', 'canmove', 'cleaned', 'cooked'))
        for q in confs:
            for pl in itertools.product(*[[('p', p) for p in poses[o]] + [('g', g) for g in grasps[o]] for o in objs]):
                held = [x for x in pl if x[0] == 'g']
                if len(held) > 1:
                    continue
                s = {('atconf', q)} | {('atpose' if k == 'p' else 'atgrasp', o, x) for o, (k, x) in zip(objs, pl)}
                if not held:
                    s.add(('handempty',))
                for can in (0, 1):
                    for cl in itertools.product((0, 1), repeat=len(objs)):
                        yield rest | s | ({('canmove',)} if can else set()) | {('cleaned', o) for o, c in zip(objs, cl) if c}

    def at(self, s):
        return [f[1] for f in s if f[0] == 'atconf'][0]

    def certified(self, facts, before, q1, q2, params):
        held = [(f[1], f[2]) for f in before if f[0] == 'atgrasp']
        for t in params:
            if not held and ('freemotion', q1, t, q2) in facts:
                return True
            if held and (('holdingmotion', q1, t, q2) + held[0] in facts or ('insertmotion', q1, t, q2) + held[0] in facts):
                return True
        return False

    def kin(self, facts, o, p, q, params):
        return any(f[0] == 'kin' and f[1] == o and f[2] == p and f[4] == q and f[3] in params for f in facts)

    def commands(self, plan, N):
        out = []
        for name, params, before, after in plan:
            for x in params:
                if x[0] == 't':
                    out += [('move', id(p)) for p in N.obj[x].body_paths]
        return out

    def translate(self, plan):
        return [('move', id(p)) for p in self.run.postprocess_plan(plan).body_paths]

    def none(self):
        return None


def build(kind, n):
    """domain object, transition system, names, problems found on the way"""
    D = (Turtlebot if kind == 'turtlebot' else Kuka)(n)
    dom = pddl.Domain(text(D.name, 'domain.pddl'), text(D.name, 'stream.pddl'))
    N = Names()
    msg = []
    init = {norm(f, N) for f in D.pp.init}
    goal = goal_of(D.pp.goal, N)
    smap = {k.lower(): v for k, v in D.pp.stream_map.items()}
    missing = {s.name for s in dom.streams} ^ set(smap)
    if missing:
        msg.append(('streams', 'declared streams and implemented streams differ: %s' % sorted(missing)))
    log = []

    def produce(s, inputs):
        if s.name not in smap:
            return None
        got = D.call(smap[s.name], [N.obj[i] for i in inputs])
        if isinstance(got, Raised):
            if got.name in ('AssertionError', 'SubplanFailed'):
                return None
            msg.append(('stream:%s:raised' % s.name, '%s%s raised %s' % (s.name, inputs, got.text)))
            return None
        if got is None:
            return None
        if len(got) != len(s.outputs):
            msg.append(('stream:%s:outputs' % s.name, '%s returned %d values for %s' % (s.name, len(got), s.outputs)))
            return None
        keep.append(got)            # identities must stay unique
        hint = 't' if any(f[0] in D.traj for f in s.certified) else 'y'
        return tuple(N(x, hint) for x in got)
    keep = []
    facts = pddl.close_streams(dom, init, produce, rounds=3, log=log)
    # what was certified is true of the objects the streams returned
    for name, ins, outs, cert in log:
        for f in cert:
            if f[0] in D.traj:
                ts = [x for x in f[1:] if x in outs]
                qs = [x for x in f[1:] if ('conf' in dir(D)) and any(g[0] == 'conf' and g[-1] == x for g in facts)]
                if len(ts) == 1 and len(qs) == 2:
                    a, b = D.ends(N.obj[ts[0]])
                    for x, q, word in ((a, qs[0], 'starts'), (b, qs[1], 'ends')):
                        want = D.conf(N.obj[q])
                        k = min(len(x), len(want))
                        if not np.allclose(np.array(x[:k], dtype=float), np.array(want[:k], dtype=float), atol=1e-6):
                            msg.append(('stream:%s:%s' % (name, word), '%s%s certified %s but the trajectory %s at %s, not at %s' % (
                                name, ins, f, word, np.round(x, 4).tolist(), np.round(want, 4).tolist())))
            if f[0] == 'kin' and kind == 'turtlebot':
                o, p, q = f[1:]
                if not np.allclose(D.conf(N.obj[q])[:2], N.obj[p].pose[0][:2]):
                    msg.append(('stream:%s:kin' % name, '%s certified %s but the configuration is elsewhere' % (name, f)))
    return D, dom, pddl.System(dom, facts), N, init, goal, facts, log, msg


def tasks(tier):
    top = dict(turtlebot=3, kuka=2) if tier == 'quick' else dict(turtlebot=4, kuka=3)
    return [dict(kind=kind, n=n, tier=tier) for kind in top for n in range(1, top[kind] + 1)]


def check_step(D, objs, facts, s, name, params, s2):
    bad = D.invariant(s2, objs)
    if bad:
        return 'after %s%s %s' % (name, params, bad)
    q1, q2 = D.at(s), D.at(s2)
    allf = facts | s
    trajs = [p for p in params if p[0] == 't']
    if (q1 != q2 or trajs) and not D.certified(allf, s, q1, q2, params):
        return '%s%s moves the robot from %s to %s without a motion certified for what it holds' % (name, params, q1, q2)
    where = lambda st, o: next((f for f in st if f[0] in ('atpose',) and f[1] == o), None)
    h1, h2 = D.held(s), D.held(s2)
    for o in objs:
        a, b = where(s, o), where(s2, o)
        if a == b and (o in h1) == (o in h2):
            continue
        if a and b:
            return '%s%s moves %s from %s to %s without picking it up' % (name, params, o, a[2], b[2])
        p = (a or b)
        if p and not D.kin(allf, o, p[2], q2, params):
            return '%s%s: %s %s at %s is out of reach from %s' % (name, params, 'picking' if a else 'placing', o, p[2], q2)
    for f in s2 - s:
        if f[0] == 'cleaned':
            if not any(g[0] == 'supported' and g[1] == f[1] and ('atpose', f[1], g[2]) in s and ('sink', g[3]) in facts for g in facts):
                return '%s%s marks %s clean although it is not in a sink' % (name, params, f[1])
    return None


def run_task(t, out):
    d = loader.private_package()
    try:
        explore(t, out)
    finally:
        loader.drop_private(d)


def explore(t, out):
    built = guard(build, t['kind'], t['n'], cpu=300)
    if isinstance(built, Raised):
        out.violate('build', '%s with %d objects: %s' % (t['kind'], t['n'], built.text), t)
        return
    D, dom, S, N, init, goal, facts, log, msg = built
    for k, m in msg[:3]:
        out.violate(k, '%s: %s' % (t['kind'], m), t)
    out.count('traces', len(log))
    out.outcome('%s stream results' % t['kind'], len(log))
    targets = D.problem.targets if t['kind'] == 'turtlebot' else D.w['objs']
    objs = sorted(N(o) for o in targets)
    dyn0 = frozenset(f for f in facts if f[0] in S.touched)
    bad = D.invariant(dyn0, objs)
    if bad:
        out.violate('init', '%s: in the initial state %s' % (t['kind'], bad), t)
        return
    cache = {}

    def step(s):
        if s not in cache:
            cache[s] = list(S.step(s))
            out.count('transitions', len(cache[s]))
        return cache[s]
    # reachable states
    seen, order = {dyn0: None}, [dyn0]
    for s in order:
        for name, params, s2 in step(s):
            m = check_step(D, objs, facts, s, name, params, s2)
            if m:
                trace = [(name, params)]
                x = s
                while seen[x]:
                    trace.append(seen[x][:2])
                    x = seen[x][2]
                out.violate('step:' + name, '%s, %d objects: %s (after %s)' % (t['kind'], t['n'], m, trace[:0:-1]), t)
                if out.stop:
                    return
                continue
            if s2 not in seen:
                seen[s2] = (name, params, s)
                order.append(s2)
    out.outcome('%s reachable states' % t['kind'], len(seen))
    # the goal
    view = lambda s: S.derive(s) | S.static
    can = {s for s in seen if all(g in view(s) for g in goal)}
    if not can:
        out.violate('goal', '%s, %d objects: no reachable state satisfies the goal %s' % (t['kind'], t['n'], goal), t)
    elif t['kind'] == 'turtlebot':
        back = {}
        for s in seen:
            for _, _, s2 in step(s):
                back.setdefault(s2, set()).add(s)
        stack = list(can)
        while stack:
            for p in back.get(stack.pop(), ()):
                if p not in can:
                    can.add(p)
                    stack.append(p)
        dead = [s for s in seen if s not in can]
        if dead:
            out.violate('dead end', '%s, %d objects: the goal cannot be reached any more from %s' % (t['kind'], t['n'], sorted(dead[0])), t)
    # every state that satisfies the invariant
    confs = sorted({f[-1] for f in facts if f[0] == 'conf'})
    poses = {o: sorted({f[2] for f in facts if f[0] == 'pose' and f[1] == o}) for o in objs}
    grasps = {o: sorted({f[2] for f in facts if f[0] == 'grasp' and f[1] == o}) for o in objs}
    total = set(seen)
    for s in D.states(dyn0, objs, confs, poses, grasps):
        s = frozenset(s)
        if s in total:
            continue
        total.add(s)
        if D.invariant(s, objs):
            raise StubLimit('enumerated state violates the invariant')
        for name, params, s2 in S.step(s):
            out.count('transitions')
            m = check_step(D, objs, facts, s, name, params, s2)
            if m:
                out.violate('step:' + name, '%s, %d objects: %s (from %s)' % (t['kind'], t['n'], m, sorted(s)), t)
                if out.stop:
                    return
    out.count('states', len(total))
    # plans, translated by the code
    depth = {1: 8, 2: 6}.get(t['n'], 4) if t['tier'] == 'quick' else {1: 10, 2: 7, 3: 5}.get(t['n'], 4)
    if t['kind'] == 'kuka':
        depth = min(depth, {1: 8, 2: 4, 3: 3}[t['n']])
    if guard(D.none) is not None:
        out.violate('no plan', '%s: translating the absence of a plan gave %s' % (t['kind'], guard(D.none)), t)
    cap = 20000 if t['tier'] == 'quick' else 200000
    stack = [(dyn0, ())]
    while stack:
        s, plan = stack.pop()
        real = [(name, tuple(N.obj[p] for p in params)) for name, params, _, _ in plan]
        got = guard(D.translate, real)
        out.count('traces')
        want = D.commands(plan, N)
        if isinstance(got, Raised) or got != want:
            out.violate('translate', '%s: plan %s became %s' % (t['kind'], [(n, p) for n, p, _, _ in plan],
                        got.text if isinstance(got, Raised) else describe(got, want)), t)
            return
        if len(plan) < depth and cap > 0:
            for name, params, s2 in step(s):
                cap -= 1
                stack.append((s2, plan + ((name, params, s, s2),)))
    if cap <= 0:
        out.notes.append('%s with %d objects: plan enumeration cut at %d plans' % (t['kind'], t['n'], 20000 if t['tier'] == 'quick' else 200000))
    out.sample(dict(kind=t['kind'], objects=t['n'], reachable=len(seen), all=len(total), example=[list(map(str, x[:2])) for x in step(dyn0)[:3]]))


def describe(got, want):
    ids = {}
    f = lambda l: [(k, ids.setdefault(x, len(ids)), *r) for k, x, *r in l]
    return '%s, expected %s (things numbered)' % (f(got), f(want))


def replay(rec):
    from mc.core import Tally
    out = Tally()
    run_task(rec, out)
    return [m for _, m, _ in out.violations]
