"""C27 the nearest-neighbour radius trial: every small sample set and schedule, against brute force."""
import inspect, itertools, json, math, os
import numpy as np
from mc.core import Raised
from mc import loader

ID, LEVEL = 'C27', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of all sample sets on a lattice and all schedules, each executed by the real experiment script and compared with a brute-force model of its table'
NOTE = 'The random source of the environment is replaced by one whose answers are enumerated: every sequence of answers from a ' \
       'lattice up to the bound is the state space; the model (points, all pairwise distances, order statistics) gives the table ' \
       'which the real script has to produce for it, for each schedule and with each search backend.'
BOUNDS = {'quick': 'dimension 2: all sample sets of 2 and 3 points on a 3x3 lattice, of 4 points on a 2x2 lattice, of two successive counts; dimensions 3 and 4: all sets of 2 points on 2 values per axis; every schedule of 1-3 counts with 1-3 neighbour counts over 24 fixed sample streams; both backends',
          'thorough': 'as quick with 4 points on 3x3, 3 points in dimension 3, schedules over 200 streams'}
ASSUMPTIONS = ['stand-ins for pandas, kgraph and pynndescent, whose neighbour lists are exact',
               'with the fallback backend the list of a sample starts with the sample itself, and is taken as it is']
PRELOAD = ['matplotlib.pyplot', 'matplotlib.animation', 'networkx', 'shapely', 'triangle', 'sympy.combinatorics.graycode', 'networkit', 'pandas']
SCRIPT = 'exps/run_knn_radius_trial.py'


class Source:
    """stands in for the environment's generator: uniform draws answered from a stream on [0, 1]"""

    def __init__(self, stream):
        self.stream, self.pos, self.log = stream, 0, []

    def _take(self, n):
        v = self.stream[self.pos:self.pos + n]
        if len(v) < n:
            raise RuntimeError('more samples drawn than the schedule asks for')
        self.pos += n
        return np.array(v, dtype=float)

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        shape = np.broadcast_shapes(lo.shape, hi.shape) if size is None else ((size,) if np.isscalar(size) else tuple(size))
        u = self._take(int(np.prod(shape)) if shape else 1).reshape(shape)
        r = lo + u * (hi - lo)
        return float(r) if not shape else r

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)


def patched(streams, made):
    """StraightLine environments built from now on draw from the next stream"""
    from nonasymptotic import envs
    cls = envs.StraightLine
    orig = cls.__init__
    sig = inspect.signature(orig)
    it = iter(streams)

    def init(self, *a, **k):
        orig(self, *a, **k)
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        src = Source(next(it))
        self.rng = src
        made.append((dict(b.arguments), src))
    cls.__init__ = init
    return lambda: setattr(cls, '__init__', orig)


def points(stream, pos, s, dim, delta):
    u = np.array(stream[pos:pos + s * dim], dtype=float).reshape(s, dim)
    lo = np.full(dim, -delta)
    hi = np.full(dim, delta)
    hi[0] = 1.0 + delta
    return lo + u * (hi - lo)


def model(stream, dim, delta, counts, neighbours, fallback):
    """rows (n_samples, n_neighbors, radius) in order; and the number of answers used"""
    rows, pos = [], 0
    for s in counts:
        X = points(stream, pos, s, dim, delta)
        pos += s * dim
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        for n in neighbours:
            if n >= s:
                continue
            best = math.inf
            for i in range(s):
                d = sorted(D[i][j] for j in range(s) if fallback or j != i)
                best = min(best, d[n - 1])
            rows.append((s, n, best))
    return rows, pos


def run_batch(batch, fallback, out):
    """batch: dict(dim, delta, counts, neighbours, streams): one run of the real script, a trial per stream"""
    from checks import c22
    import pandas as pd
    dim, delta, counts, nbs = batch['dim'], batch['delta'], batch['counts'], batch['neighbours']
    cfg = dict(delta=delta, dims_to_test=[dim], sample_schedule=counts, neighbor_schedule=nbs, n_trials=len(batch['streams']))
    s = c22.Setup('knn', cfg)
    made = []
    undo = patched(batch['streams'], made)
    what = 'dimension %d, clearance %r, samples %r, neighbours %r%s' % (dim, delta, counts, nbs, ', fallback backend' if fallback else '')
    try:
        r = c22.start('knn', 0, 1, s.cfg, s.out)
        if isinstance(r, Raised):
            return [('raised', '%s: %s' % (what, r.text), None)]
        rows = c22.result_rows(s.out, 0)
    finally:
        undo()
        s.close()
    msgs = []
    if len(made) != len(batch['streams']):
        return [('trials', '%s: %d environments for %d trials' % (what, len(made), len(batch['streams'])), None)]
    by = {}
    for row in rows:
        by.setdefault(int(row['trial']), []).append(row)
    for t, stream in enumerate(batch['streams']):
        args, src = made[t]
        want, used = model(stream, dim, delta, counts, nbs, fallback)
        got = by.get(t, [])
        out.count('states')
        out.count('transitions', len(counts))
        out.count('traces')
        here = '%s, draws %r' % (what, list(stream))
        if sorted((int(g['n_samples']), int(g['n_neighbors'])) for g in got) != sorted(w[:2] for w in want):
            msgs.append(('rows', '%s: rows for %r, expected %r' % (here, [(g['n_samples'], g['n_neighbors']) for g in got], [w[:2] for w in want]), t))
            continue
        key = lambda s_, n_, v: (int(s_), int(n_), float(v))
        a = sorted(key(g['n_samples'], g['n_neighbors'], g['eff_rad']) for g in got)
        b = sorted(want)
        bad = [(x, y) for x, y in zip(a, b) if not abs(x[2] - y[2]) <= 1e-5 * (1 + abs(y[2]))]
        if bad:
            msgs.append(('radius', '%s: %d samples, %d neighbours: recorded radius %r, the smallest distance to that neighbour is %r'
                         % (here, bad[0][0][0], bad[0][0][1], bad[0][0][2], bad[0][1][2]), t))
            continue
        for g in got:
            if float(g['dim']) != dim or float(g['delta_clearance']) != delta or float(g['seed']) != float(-1 if args.get('seed') is None else args['seed']):
                msgs.append(('labels', '%s: labelled %r, the environment had seed %r' % (here, {k: g[k] for k in ('dim', 'delta_clearance', 'seed')}, args.get('seed')), t))
                break
        for x in b[:1]:
            out.outcome('radius 0 (coinciding samples)' if x[2] == 0 else 'positive radius')
    return msgs


def lattice_streams(dim, counts, values):
    n = sum(counts) * dim
    return itertools.product(values, repeat=n)


def fixed_streams(n, length):
    """sample streams of dyadic values without repeated patterns"""
    out = []
    for i in range(n):
        x, v = 2 * i + 1, []
        for j in range(length):
            x = (x * 37 + 11 * j + i) % 257
            v.append((x % 64) / 64.0)
        out.append(tuple(v))
    return out


def spaces(tier):
    v3, v2 = (0.0, 0.25, 1.0), (0.0, 1.0)
    yield dict(dim=2, delta=0.5, counts=[2], neighbours=[1], values=v3)
    yield dict(dim=2, delta=0.25, counts=[3], neighbours=[1, 2], values=v3)
    yield dict(dim=2, delta=0.5, counts=[4], neighbours=[1, 3], values=v2)
    yield dict(dim=2, delta=0.5, counts=[2, 3], neighbours=[2, 1], values=v2)
    yield dict(dim=3, delta=0.125, counts=[2], neighbours=[1], values=v2)
    yield dict(dim=4, delta=0.5, counts=[2], neighbours=[1], values=v2)
    if tier != 'quick':
        yield dict(dim=2, delta=0.5, counts=[4], neighbours=[1, 2, 3], values=v3)
        yield dict(dim=3, delta=0.25, counts=[3], neighbours=[1, 2], values=v2)
        yield dict(dim=2, delta=0.5, counts=[3, 4], neighbours=[3, 1], values=v2)
        yield dict(dim=5, delta=0.25, counts=[2], neighbours=[1], values=v2)


def schedules():
    cs = [list(c) for k in (1, 2, 3) for c in itertools.permutations([2, 5, 9], k)] + [[4, 4], [1, 6]]
    ns = [list(c) for k in (1, 2, 3) for c in itertools.permutations([1, 4, 8], k)] + [[2, 3, 5, 6, 7], [3]]
    return itertools.product(cs, ns)


PER = 81


def tasks(tier):
    t = []
    for sp in spaces(tier):
        total = len(sp['values']) ** (sum(sp['counts']) * sp['dim'])
        for fb in (False, True):
            parts = max(1, min(16, total // 400))
            t += [dict(part='lattice', space=sp, fallback=fb, i=i, n=parts) for i in range(parts)]
    for fb in (False, True):
        t += [dict(part='schedules', fallback=fb, i=i, n=8, tier=tier) for i in range(8)]
    return t


def batches(task):
    if task['part'] == 'lattice':
        sp = task['space']
        it = itertools.islice(lattice_streams(sp['dim'], sp['counts'], sp['values']), task['i'], None, task['n'])
        while True:
            b = list(itertools.islice(it, PER))
            if not b:
                return
            yield dict(dim=sp['dim'], delta=sp['delta'], counts=sp['counts'], neighbours=sp['neighbours'], streams=b)
    else:
        per = 24 if task['tier'] == 'quick' else 200
        for counts, nbs in itertools.islice(schedules(), task['i'], None, task['n']):
            for dim, delta in ((2, 0.5), (3, 0.25), (6, 0.125)):
                for k in range(0, per, 50):
                    yield dict(dim=dim, delta=delta, counts=counts, neighbours=nbs,
                               streams=fixed_streams(per, sum(counts) * dim)[k:k + 50])


def run_task(task, out):
    d = loader.private_package(block=('kgraph',) if task['fallback'] else ())
    try:
        for b in batches(task):
            for k, m, t in run_batch(b, task['fallback'], out):
                case = dict(b, fallback=task['fallback'], streams=b['streams'] if t is None else [b['streams'][t]])
                out.violate(k, m, case)
            out.sample({k: b[k] for k in ('dim', 'delta', 'counts', 'neighbours')}, 3)
            if out.stop:
                return
    finally:
        loader.drop_private(d)


def replay(case):
    from mc.core import Tally
    d = loader.private_package(block=('kgraph',) if case['fallback'] else ())
    try:
        return ['[%s] %s' % (k, m) for k, m, _ in run_batch(case, case['fallback'], Tally())]
    finally:
        loader.drop_private(d)
