"""C37 state records: every history of capturing, moving and restoring, on the record classes of both planning domains."""
import itertools
import numpy as np
from mc.core import guard, Raised
from mc import loader

ID, LEVEL = 'C37', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of all histories of captures, movements and restorations up to a depth on the real record classes, compared with a snapshot model after every operation'
NOTE = 'Every sequence of operations up to the depth is executed on the real classes over the simulator stand-in; after every operation the ' \
       'whole world, the value of every record made so far and their names are compared with a model that keeps snapshots.'
BOUNDS = {'quick': 'robot of 3 (turtlebot) or 4 (arm) joints, 2 further bodies; 11-18 operations; all histories up to 4 operations (5 with a reduced alphabet)',
          'thorough': 'all histories up to 5 operations (6 with a reduced alphabet)'}
ASSUMPTIONS = ['an attachment places its body at the pose of the tool times the grasp (stand-in)']

# the second has the same joint values in another order, the third is a hair off the first; poses likewise turn or shift a little
CONFS = [(0.0, 0.5, -1.0, 2.0), (0.5, -1.0, 0.0, 2.0), (0.0004, 0.5003, -1.0002, 1.9995)]
POSES = [((0.5, 0.0, 1.0), (0.0, 0.0, 0.0)), ((0.5, 0.0, 1.0), (0.1, -0.2, 1.0)), ((0.5, 0.0004, 1.0), (0.0, 0.0, 0.0))]


def tool(q):
    """some pose that depends on every joint"""
    return ((q[0], q[1] - q[2], 0.5 * q[3]), (0.0, 0.0, float(np.sin((q[0] + q[3]) / 2)), float(np.cos((q[0] + q[3]) / 2))))


def alphabet(domain, small):
    mv = [('conf', i) for i in (0, 1, 2)] + [('one', 1)]
    if domain == 'turtlebot_move':
        ops = mv + [('new', 'conf', None, 'all'), ('new', 'conf', None, 'two'), ('new', 'conf', 1, 'all'), ('new', 'conf', 2, 'two'), ('base', 2), ('getbase',)]
        ops += [('assign', k) for k in range(3)]
        return ops if not small else [('conf', 1), ('conf', 2), ('new', 'conf', None, 'all'), ('new', 'conf', 2, 'two'), ('assign', 0), ('assign', 1)]
    mv += [('pose', 'a', 1), ('pose', 'b', 2)]
    ops = mv + [('new', 'conf', None, 'all'), ('new', 'conf', None, 'two'), ('new', 'conf', 1, 'two'), ('new', 'pose', None, 'a'), ('new', 'pose', None, 'b'),
                ('new', 'pose', 0, 'a'), ('new', 'grasp', 1, 'a'), ('new', 'grasp', 2, 'b')]
    ops += [('assign', k) for k in range(3)]
    return ops if not small else [('conf', 1), ('pose', 'a', 1), ('new', 'conf', None, 'all'), ('new', 'pose', None, 'a'), ('new', 'grasp', 2, 'a'),
                                  ('assign', 0), ('assign', 1)]


def histories(domain, depth, small, first):
    ops = alphabet(domain, small)

    def rec(h, made):
        if len(h) == depth or (h and h[-1][0] == 'stop'):
            yield h
            return
        for op in ops:
            if op[0] == 'assign' and op[1] >= made:
                continue
            yield from rec(h + [op], made + (op[0] == 'new'))
    if first >= len(ops) or ops[first][0] == 'assign':
        return
    yield from rec([ops[first]], int(ops[first][0] == 'new'))


def tasks(tier):
    t = []
    for domain in ('turtlebot_move', 'kuka_carry'):
        for small, depth in ((False, 4 if tier == 'quick' else 5), (True, 5 if tier == 'quick' else 6)):
            for first, op in enumerate(alphabet(domain, small)):
                if op[0] != 'assign':
                    t.append(dict(domain=domain, small=small, depth=depth, first=first))
    return sorted(t, key=lambda x: x['small'])


class Run:
    def __init__(self, domain):
        self.domain = domain
        self.m = loader.tamp_module(domain, 'problems' if domain == 'turtlebot_move' else 'kuka_primitives')
        import pybullet_tools.utils as pbu
        self.pbu = pbu
        pbu.reset_world()
        names = ('x', 'y', 'theta') if domain == 'turtlebot_move' else ('j0', 'j1', 'j2', 'j3')
        self.names = names
        self.robot = pbu._add((0.1, 0.1, 0.1), 'robot', names)
        self.body = {'a': pbu.create_box(0.1, 0.1, 0.1), 'b': pbu.create_box(0.2, 0.1, 0.1)}
        pbu.WORLD.tool = lambda parent, q: tool(q)
        pbu.set_joint_positions(self.robot, names, CONFS[0][:len(names)])
        self.q = dict(zip(names, CONFS[0]))
        self.p = {}
        for k, b in self.body.items():
            pbu.set_pose(b, pbu.Pose(*POSES[0]))
            self.p[k] = pbu.get_pose(b)
        self.records = []          # (record, what, restores)

    def joints(self, how):
        return self.names if how == 'all' else self.names[:2]

    def step(self, op):
        pbu, m = self.pbu, self.m
        if op[0] == 'conf':
            pbu.set_joint_positions(self.robot, self.names, CONFS[op[1]][:len(self.names)])
            self.q = dict(zip(self.names, CONFS[op[1]]))
        elif op[0] == 'one':
            pbu.set_joint_positions(self.robot, self.names[1:2], (7.0,))
            self.q[self.names[1]] = 7.0
        elif op[0] == 'pose':
            pose = pbu.Pose(*POSES[op[2]])
            pbu.set_pose(self.body[op[1]], pose)
            self.p[op[1]] = pose
        elif op[0] == 'base':
            got = guard(m.set_base_conf, self.robot, CONFS[op[1]][:3])
            self.q.update(zip(self.names, CONFS[op[1]][:3]))
            if isinstance(got, Raised):
                return 'setting the base raised %s' % got.text
        elif op[0] == 'getbase':
            got = guard(m.get_base_conf, self.robot)
            if isinstance(got, Raised) or tuple(got) != tuple(self.q[j] for j in self.names[:3]):
                return 'base configuration reported %s, is %s' % (got, self.q)
        elif op[0] == 'new':
            return self.new(op)
        else:
            rec, what, data = self.records[op[1]]
            got = guard(rec.assign)
            if isinstance(got, Raised):
                return 'restoring raised %s' % got.text
            if what == 'conf':
                self.q.update(data)
            elif what == 'pose':
                self.p[data[0]] = data[1]
            else:
                self.p[data[0]] = pbu.multiply(tool([self.q[j] for j in self.names]), data[1])
        return None

    def new(self, op):
        pbu, m = self.pbu, self.m
        _, what, i, arg = op
        if what == 'conf':
            js = self.joints(arg)
            vals = None if i is None else CONFS[i][:len(js)]
            data = dict(zip(js, vals)) if vals is not None else {j: self.q[j] for j in js}
            if self.domain == 'turtlebot_move':
                rec = guard(lambda: m.Conf(self.robot, js) if vals is None else m.Conf(self.robot, js, vals))
            else:
                kw = {} if arg == 'all' else dict(joints=js)
                rec = guard(m.BodyConf, self.robot, *([] if vals is None else [vals]), **kw)
        elif what == 'pose':
            b = self.body[arg]
            pose = None if i is None else pbu.Pose(*POSES[i])
            data = (arg, pose if pose is not None else self.p[arg])
            rec = guard(m.BodyPose, b, *([] if pose is None else [pose]))
        else:
            pose = pbu.Pose(*POSES[i])
            data = (arg, pose)
            rec = guard(m.BodyGrasp, self.body[arg], pose, pbu.Pose(*POSES[0]), self.robot, 'hand')
        if isinstance(rec, Raised):
            return 'creating raised %s' % rec.text
        self.records.append((rec, what, data))

    def compare(self):
        pbu = self.pbu
        q = dict(zip(self.names, pbu.get_joint_positions(self.robot, self.names)))
        if q != {j: self.q[j] for j in self.names}:
            return 'world', 'the joints are at %s, expected %s' % (q, self.q)
        for k, b in self.body.items():
            if not same(pbu.get_pose(b), self.p[k]):
                return 'world', 'body %s is at %s, expected %s' % (k, pbu.get_pose(b), self.p[k])
        for n, (rec, what, data) in enumerate(self.records):
            if what == 'conf':
                got = guard(lambda: (tuple(rec.joints), None if rec.values is None else tuple(rec.values), rec.body))
                want = (tuple(data), tuple(data.values()), self.robot)
                if isinstance(got, Raised) or got != want:
                    return 'value', 'record %d holds %s, captured %s' % (n, got, want)
            else:
                got = guard(lambda: (rec.body, rec.value))
                if isinstance(got, Raised) or got[0] != self.body[data[0]] or not same(got[1], data[1]):
                    return 'value', 'record %d holds %s, captured %s' % (n, got, data)
                if what == 'grasp':
                    at = guard(rec.attachment)
                    if isinstance(at, Raised) or (at.parent, at.parent_link, at.child) != (self.robot, 'hand', self.body[data[0]]) or not same(at.grasp_pose, data[1]) \
                            or not same(rec.approach, pbu.Pose(*POSES[0])):
                        return 'value', 'record %d attaches %s' % (n, at)
        if self.domain == 'kuka_carry':
            names = [repr(r) for r, _, _ in self.records]
            if len(set(names)) != len(names):
                return 'name', 'two records are called the same: %s' % names
        return None


def same(a, b):
    try:
        if np.abs(np.asarray(a[0], dtype=float) - np.asarray(b[0], dtype=float)).max() > 1e-9:
            return False
        x, y = np.asarray(a[1], dtype=float), np.asarray(b[1], dtype=float)
        return min(np.abs(x - y).max(), np.abs(x + y).max()) < 1e-9
    except Exception:
        return False


def play(domain, h, out=None):
    r = Run(domain)
    for i, op in enumerate(h):
        msg = r.step(op)
        key = 'raised'
        if not msg:
            bad = r.compare()
            if bad:
                key, msg = bad
        if out:
            out.count('transitions')
        if msg:
            return key, 'after %s: %s' % (h[:i + 1], msg), h[:i + 1]
    return None


def run_task(t, out):
    for h in histories(t['domain'], t['depth'], t['small'], t['first']):
        bad = play(t['domain'], h, out)
        out.count('states', len(h))
        out.count('traces')
        out.outcome('restorations', sum(op[0] == 'assign' for op in h))
        if bad:
            out.violate('%s:%s' % (t['domain'], bad[0]), '%s: %s' % (t['domain'], bad[1]), dict(domain=t['domain'], history=bad[2]))
            if out.stop:
                return
    out.sample(dict(domain=t['domain'], history=h))


def replay(case):
    bad = play(case['domain'], [tuple(op) for op in case['history']])
    return [bad[1]] if bad else []
