"""C21 the narrow-passage trial: exhaustive over the outcomes of its bisection."""
import itertools, math, os, sys, importlib
import numpy as np
from mc.core import guard, Raised
from mc import loader

ID, LEVEL = 'C21', 'exploration'
TECHNIQUE = 'exhaustive exploration of the real trial over every solvability threshold, ladder and schedule of a scripted roadmap; replayed on the real roadmaps'
NOTE = 'The trial function runs against a roadmap whose answers are scripted: every ladder size up to the bound, every rung at ' \
       'which the query becomes solvable (or none), every schedule of one or two sample counts with independent outcomes, ' \
       'repeated edge lengths, no and one connection. The same expectation is then checked with the real roadmap classes on ' \
       'enumerated seeds, against solving at every rung.'
RULE = 'the recorded bracket is compared with the rung at which the scripted query becomes solvable; a case is nontrivial ' \
       'when it becomes solvable above the lowest rung'
BOUNDS = {'quick': 'knn ladders of 2..9 rungs, radius ladders of 0..7 rungs (with repeats), all thresholds, schedules of 1 and 2 counts; real roadmaps: 48 seeds x 4 settings',
          'thorough': 'knn ladders of 2..12 rungs, radius ladders of 0..10 rungs, schedules of up to 3 counts; real roadmaps: 600 seeds x 8 settings'}
ASSUMPTIONS = ['stand-ins for pandas, networkit, kgraph and pynndescent (not installed here)',
               'the top rung stands for the largest setting, which the trial uses to test it']
PRELOAD = ['matplotlib.pyplot', 'matplotlib.animation', 'networkx', 'shapely', 'triangle', 'sympy.combinatorics.graycode']

DIST = lambda setting: 1.0 + 1.0 / (1.0 + setting)          # a different path length for every setting
LEN = lambda setting: 1 + int(round(97 * setting)) % 89


class Script:
    """what the scripted roadmap answers: per growth (in order) the threshold and, for radii, the edge lengths"""
    steps, log, problems = [], [], []

    @classmethod
    def reset(cls, steps):
        cls.steps, cls.log, cls.problems = steps, [], []


class Base:
    def __init__(self, setting, check_motion, sample_state, *a, **k):
        self.seed = k.get('seed')
        self.check_motion, self.sample_state = check_motion, sample_state
        self.max = setting
        self.n, self.step = 0, -1
        Script.log.append(('new', type(self).__name__, setting, check_motion, sample_state))

    def _grow(self, n):
        if n <= self.n:
            raise ArithmeticError('PRM is already %i large, cannot grow to %i samples.' % (self.n, n))
        self.n = n
        self.step += 1
        Script.log.append(('grow', n))

    def _answer(self, setting, start, goal):
        t = Script.steps[self.step]['t']
        ok = t is not None and setting >= t
        Script.log.append(('query', setting, np.array(start, dtype=float).ravel().tolist(), np.array(goal, dtype=float).ravel().tolist(), ok))
        d = np.array(start).size
        if not ok:
            return 1.7976931348623157e308, np.zeros((0, d))
        return DIST(setting), np.zeros((LEN(setting), d))

    def num_vertices(self):
        return self.n

    def num_edges(self):
        return 0

    def reset(self):
        Script.log.append(('reset',))
        self.n, self.step = 0, -1


class Knn(Base):
    def __init__(self, k, *a, **kw):
        super().__init__(k, *a, **kw)
        self.max_k_neighbors = self.k_neighbors = k
        self.conn_r = None
        self.cap = k

    def grow_to_n_samples(self, n):
        self._grow(n)
        self.cap = self.k_neighbors          # neighbours beyond those of the last growth are not there

    def set_nearest_neighbors(self, k):
        if k > self.max_k_neighbors:
            raise ArithmeticError('Cannot grow KNN PRM past the original set number of neighbors.')
        self.k_neighbors = k

    def query_best_solution(self, s, g):
        return self._answer(min(self.k_neighbors, self.cap), s, g)


class Radius(Base):
    def __init__(self, r, *a, **kw):
        super().__init__(r, *a, **kw)
        self.conn_r = self.max_conn_r = r

    def grow_to_n_samples(self, n):
        self._grow(n)
        return np.array([d for d in Script.steps[self.step]['dists'] if d <= self.conn_r], dtype=float)

    def set_connection_radius(self, r):
        self.conn_r = r
        return None

    def query_best_solution(self, s, g):
        return self._answer(self.conn_r, s, g)


def trial_module():
    name = 'exps.run_narrow_passage_clearance_trial'
    for n in [m for m in sys.modules if m == name]:
        del sys.modules[n]
    return importlib.import_module(name)


def scripted(mod, on):
    """put the scripted roadmaps where the trial finds the classes"""
    import nonasymptotic.prm as m
    saved = []
    if on:
        for name, cls in (('SimpleNearestNeighborRadiusPRM', Knn), ('SimpleFullConnRadiusPRM', Radius)):
            for x in (mod, m):
                if hasattr(x, name):
                    saved.append((x, name, getattr(x, name)))
                    setattr(x, name, cls)
    return saved


def unscript(saved):
    for x, n, v in saved:
        setattr(x, n, v)


def rungs_knn(kmax):
    return [2 ** e for e in range(2, round(math.log2(kmax)) + 1)]


def isnan(x):
    return x is None or (isinstance(x, (float, np.floating)) and math.isnan(x))


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return float('nan')


def judge(rec, typ, rungs, solved, top_settings, dist_of, len_of, what):
    """messages for one record; solved[i]: the query is solvable at rung i (monotone)"""
    msgs = []
    lb, ub = rec['conn_lb'], rec['conn_ub']
    td, tl, info = rec['thresh_path_dist'], rec['thresh_path_len'], str(rec['info'])
    close = lambda a, b: not isnan(num(a)) and abs(num(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))
    if not any(solved):
        if not isnan(ub):
            msgs.append(('unsolvable', '%s: no rung is solvable, reported as succeeding at %r' % (what, ub)))
        if not info.strip() or info == 'nan':
            msgs.append(('silent', '%s: no rung is solvable and the record does not say so' % what))
        if not isnan(td) or not isnan(tl):
            msgs.append(('ghost', '%s: no rung is solvable, but a path of length %r is recorded' % (what, td)))
        return msgs
    j = solved.index(True)
    if j == 0 and len(rungs) > 1:
        return msgs                       # the lowest rung is taken to fail
    if not close(ub, rungs[j]):
        msgs.append(('bracket', '%s: becomes solvable at rung %r, reported %r' % (what, rungs[j], ub)))
    if j > 0 and not close(lb, rungs[j - 1]):
        msgs.append(('bracket', '%s: last unsolvable rung is %r, reported %r' % (what, rungs[j - 1], lb)))
    settings = [rungs[j]] + (top_settings if j == len(rungs) - 1 else [])
    if not any(close(td, dist_of(s)) and close(tl, len_of(s)) for s in settings):
        msgs.append(('path', '%s: path of length %r with %r points recorded, the succeeding setting %r gives %r with %r'
                     % (what, td, tl, settings[0], dist_of(settings[0]), len_of(settings[0]))))
    if 'no path' in info.lower():
        msgs.append(('info', '%s: a path exists, the record says %r' % (what, info)))
    return msgs


def run_case(case):
    """messages of one scripted trial. case: typ, max, steps [{t, dists}], dim, delta, seed"""
    mod = trial_module_cached()
    saved = scripted(mod, True)
    try:
        Script.reset(case['steps'])
        schedule = [10 * (i + 1) for i in range(len(case['steps']))]
        df = guard(mod.narrow_passage_clearance, case['delta'], case['dim'], case['seed'], list(schedule), case['typ'],
                   case['max'], cpu=20)
        log = list(Script.log)
    finally:
        unscript(saved)
    if isinstance(df, Raised):
        return [('raised', 'trial %s max %r thresholds %r: %s' % (case['typ'], case['max'], case['steps'], df.text))]
    recs = [dict(r) for r in df.to_dict('records')]
    msgs = []
    if len(recs) != len(schedule):
        return [('count', '%d records for %d sample counts' % (len(recs), len(schedule)))]
    if [e[1] for e in log if e[0] == 'grow'] != schedule:
        msgs.append(('growth', 'schedule %r grown as %r' % (schedule, [e[1] for e in log if e[0] == 'grow'])))
    msgs += parameters(case, log)
    for n, step, rec in zip(schedule, case['steps'], recs):
        what = '%s ladder up to %r, %d samples of %r, threshold %r' % (case['typ'], case['max'], n, schedule, step['t'])
        if (rec.get('prm_type'), rec.get('dim'), rec.get('n_samples')) != (case['typ'], case['dim'], n) or \
                num(rec.get('delta_clearance')) != case['delta'] or num(rec.get('seed')) != case['seed']:
            msgs.append(('labels', '%s: record is labelled %r' % (what, {k: rec.get(k) for k in ('prm_type', 'dim', 'n_samples', 'delta_clearance', 'seed')})))
            continue
        lost = [k for k in ('conn_lb', 'conn_ub', 'thresh_path_dist', 'thresh_path_len', 'info') if k not in rec]
        if lost:
            msgs.append(('labels', '%s: the record lacks %r' % (what, lost)))
            continue
        t = step['t']
        if case['typ'] == 'knn':
            rungs = rungs_knn(case['max'])
        else:
            rungs = sorted({d for d in step['dists'] if d <= case['max']})
        if not rungs:
            if not isnan(rec['conn_ub']) or not str(rec['info']).strip():
                msgs.append(('empty', '%s: no connections, recorded as %r' % (what, rec)))
            continue
        solved = [t is not None and r >= t for r in rungs]
        top = [case['max']]
        if len(rungs) > 1 or case['typ'] == 'knn':
            solved[-1] = t is not None and case['max'] >= t
        msgs += judge(rec, case['typ'], rungs, solved, top, DIST, LEN, what)
    return msgs


def parameters(case, log):
    """the roadmap was set up with the environment of the requested dimension and clearance"""
    news = [e for e in log if e[0] == 'new']
    if len(news) != 1 or news[0][1] != ('Knn' if case['typ'] == 'knn' else 'Radius'):
        return [('setup', 'the trial set up %r' % [e[1:3] for e in news])]
    if news[0][2] != case['max']:
        return [('setup', 'the roadmap is set up with %r instead of %r' % (news[0][2], case['max']))]
    check, sample, c, d = news[0][3], news[0][4], case['delta'], case['dim']
    a, b = np.zeros((2, d)), np.zeros((2, d))
    a[:, 0], b[:, 0] = -1.0, 1.0
    for axis in range(1, d):
        a[0, axis] = b[0, axis] = c * 0.99
        a[1, axis] = b[1, axis] = c * 1.01
        v = guard(check, a, b)
        if isinstance(v, Raised) or list(np.array(v)) != [True, False]:
            return [('setup', 'clearance %r dimension %d: motions at 0.99 and 1.01 clearances are judged %r' % (c, d, v))]
        a[:, axis] = b[:, axis] = 0
    if np.size(sample()) != d:
        return [('setup', 'samples have %d coordinates instead of %d' % (np.size(sample()), d))]
    qs = {(tuple(e[2]), tuple(e[3])) for e in log if e[0] == 'query'}
    for s, g in qs:
        if len(s) != d or len(g) != d or not (s[0] < -0.5 and g[0] > 0.5) and not (s[0] > 0.5 and g[0] < -0.5):
            return [('query', 'queried from %r to %r, which are not in opposite rooms' % (s, g))]
    if len(qs) > 1:
        return [('query', 'the query changes within the trial: %r' % sorted(qs)[:3])]
    return []


_mod = []


def trial_module_cached():
    if not _mod:
        _mod.append(trial_module())
    return _mod[0]


def knn_thresholds(kmax):
    r = rungs_knn(kmax)
    return [r[0]] + [x for a, b in zip(r, r[1:]) for x in sorted({min(b, kmax), min(a + 1, kmax)})] + [None]


def ladders(n):
    base = [0.125 * (i + 1) for i in range(n)]
    out = [base]
    if n >= 2:
        out.append(base + base[:2] + [base[-1]])             # repeated lengths, unsorted
    return out


def rad_thresholds(dists, rmax):
    r = sorted(set(dists))
    ts = []
    for a, b in zip([0.0] + r, r):
        ts += [b, (a + b) / 2]
    ts.append(((r[-1] if r else 0) + rmax) / 2)              # solvable only with the largest radius
    return sorted(set(ts)) + [None]


def cases(tier, typ, size):
    deep = tier != 'quick'
    if typ == 'knn':
        for kmax in [2 ** (size + 1), 2 ** (size + 1) - 2] if size >= 3 else [2 ** (size + 1)]:
            ts = knn_thresholds(kmax)
            for dim, delta in ((2, 0.25), (3, 0.0625)):
                for t in ts:
                    yield dict(typ=typ, max=kmax, steps=[{'t': t}], dim=dim, delta=delta, seed=7)
            for pair in itertools.product(ts, repeat=2):
                yield dict(typ=typ, max=kmax, steps=[{'t': t} for t in pair], dim=2, delta=0.25, seed=4294967295)
            if deep and size <= 6:
                for tri in itertools.product(ts, repeat=3):
                    yield dict(typ=typ, max=kmax, steps=[{'t': t} for t in tri], dim=2, delta=0.25, seed=0)
    else:
        rmax = 2.0
        one = [dict(t=t, dists=d) for d in ladders(size) for t in rad_thresholds(d, rmax)]
        for dim, delta in ((2, 0.25), (4, 0.125)):
            for s in one:
                yield dict(typ=typ, max=rmax, steps=[s], dim=dim, delta=delta, seed=11)
        for other in ([0, 1, 3] if not deep else [0, 1, 2, 4, 6]):
            two = [dict(t=t, dists=d) for d in ladders(other)[:1] for t in rad_thresholds(d, rmax)]
            for a, b in itertools.product(one, two):
                yield dict(typ=typ, max=rmax, steps=[a, b], dim=2, delta=0.25, seed=11)


def tasks(tier):
    t = [dict(part='script', typ='knn', size=n, tier=tier) for n in range(2, 10 if tier == 'quick' else 13)]
    t += [dict(part='script', typ='radius', size=n, tier=tier) for n in range(0, 8 if tier == 'quick' else 11)]
    n, per = (48, 6) if tier == 'quick' else (600, 25)
    t += [dict(part='real', seeds=list(range(s, s + per)), tier=tier) for s in range(0, n, per)]
    return t


REAL = [('knn', 8, 2, 0.45, [6, 12]), ('knn', 16, 2, 0.25, [20]), ('radius', 1.0, 2, 0.45, [5, 12]), ('radius', 0.75, 3, 0.45, [4, 14])]
REAL_MORE = [('knn', 32, 3, 0.4, [18, 40]), ('radius', 1.0, 2, 0.125, [20, 40]), ('knn', 12, 2, 0.45, [10]), ('radius', 0.3, 2, 0.45, [3, 9])]


def run_real(case):
    """the trial with the real roadmaps against solving at every rung of an identical roadmap"""
    mod = trial_module_cached()
    typ, mx, dim, delta, schedule, seed = case['typ'], case['max'], case['dim'], case['delta'], case['schedule'], case['seed']
    df = guard(mod.narrow_passage_clearance, delta, dim, seed, list(schedule), typ, mx, cpu=60)
    if isinstance(df, Raised):
        return [('raised', 'real roadmap %r: %s' % (case, df.text))], 0
    recs = df.to_dict('records')
    from nonasymptotic.envs import NarrowPassage
    from nonasymptotic.prm import SimpleFullConnRadiusPRM, SimpleNearestNeighborRadiusPRM
    env = NarrowPassage(dim=dim, clearance=delta, seed=seed)
    if typ == 'knn':
        prm = SimpleNearestNeighborRadiusPRM(mx, env.is_motion_valid, env.sample_from_env, env.distance_to_path,
                                             truncate_to_eff_rad=False, seed=seed)
    else:
        prm = SimpleFullConnRadiusPRM(mx, env.is_motion_valid, env.sample_from_env, seed=seed)
    corr = np.ones(dim) * 0.5 - delta
    s = np.array([-1.0] + [0.0] * (dim - 1)) - corr
    g = np.array([1.0] + [0.0] * (dim - 1)) + corr
    msgs, nontrivial = [], 0
    if len(recs) != len(schedule):
        return [('count', 'real roadmap %r: %d records' % (case, len(recs)))], 0
    for n, rec in zip(schedule, recs):
        if typ == 'knn':
            prm.k_neighbors = mx
            prm.grow_to_n_samples(n)
            rungs = rungs_knn(mx)
            settings = rungs[:-1] + [mx]
            setter = prm.set_nearest_neighbors
        else:
            prm.conn_r = mx
            rungs = sorted(set(float(x) for x in prm.grow_to_n_samples(n)))
            settings = rungs[:-1] + [mx] if len(rungs) > 1 else list(rungs)
            setter = prm.set_connection_radius
        if not rungs:
            if not isnan(rec['conn_ub']):
                msgs.append(('empty', 'real roadmap %r without edges: %r' % (case, rec)))
            continue
        res = []
        for st in settings:
            setter(st)
            res.append(prm.query_best_solution(s, g))
        solved = [len(p) > 0 for _, p in res]
        setter(mx)
        if solved != sorted(solved):
            continue                             # not monotone: nothing claimed
        d = {r: x[0] for r, x in zip(rungs, res)}
        ln = {r: len(x[1]) for r, x in zip(rungs, res)}
        nontrivial += any(solved) and not solved[0]
        if typ == 'radius' and len(rungs) == 1 and solved[0]:
            continue
        msgs += judge(rec, typ, rungs, solved, [], lambda r: d[r], lambda r: ln[r], 'real %r, %d samples' % (case, n))
    return msgs, nontrivial


def run_task(task, out):
    d = loader.private_package()
    try:
        if task['part'] == 'script':
            for case in cases(task['tier'], task['typ'], task['size']):
                msgs = run_case(case)
                out.count('evaluations')
                sol = sum(s['t'] is not None for s in case['steps'])
                out.outcome('%s: %d of %d counts solvable' % (case['typ'], sol, len(case['steps'])))
                out.count('nontrivial', bool(sol))
                out.sample(case)
                for k, m in msgs:
                    out.violate(k, m, dict(case, part='script'))
                if out.stop:
                    return
        else:
            for seed in task['seeds']:
                for typ, mx, dim, delta, schedule in REAL + (REAL_MORE if task['tier'] != 'quick' else []):
                    case = dict(part='real', typ=typ, max=mx, dim=dim, delta=delta, schedule=schedule, seed=seed)
                    msgs, nt = run_real(case)
                    out.count('evaluations')
                    out.count('real_roadmap_trials')
                    out.count('nontrivial', bool(nt))
                    out.outcome('real %s: %s' % (typ, 'threshold inside the ladder' if nt else 'at an end'))
                    for k, m in msgs:
                        out.violate(k, m, case)
                    if out.stop:
                        return
    finally:
        loader.drop_private(d)


def replay(case):
    d = loader.private_package()
    try:
        m = run_case(case) if case.get('part') == 'script' else run_real(case)[0]
        return ['[%s] %s' % x for x in m]
    finally:
        loader.drop_private(d)
