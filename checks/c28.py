"""C28 the straight-line trial: exhaustive over the outcomes of its bisection over radii."""
import itertools, json, math, os
import numpy as np
from mc.core import Raised
from mc import loader

ID, LEVEL = 'C28', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of all ladders, certified radii, solvability thresholds and time-outs; the real experiment script is executed on each and its decisions are compared with the model'
NOTE = 'The roadmap and the optimality check are scripted: a state is a ladder of neighbour distances, the certified radius, the ' \
       'rung from which the check succeeds (or none) and how failing checks answer; the real script (including its start-up and ' \
       'output) runs on every state, and every tolerance it asks for is compared with the inverse of the documented radius formula.'
BOUNDS = {'quick': 'ladders of 3..9 distances, all certified radii leaving at least 3, all thresholds, failing or timed-out answers; schedules of 1 and 2 counts; two clearances and dimensions',
          'thorough': 'ladders of 3..14 distances, schedules of up to 3 counts'}
ASSUMPTIONS = ['the sufficiency check of the straight-line environment, which is not implemented, is replaced by a scripted one that is monotone in the tolerance',
               'the second-smallest distance is taken to fail and the certified radius to succeed, without being tested (as the script documents)',
               'stand-in for pandas']
PRELOAD = ['matplotlib.pyplot', 'matplotlib.animation', 'networkx', 'shapely', 'triangle', 'sympy.combinatorics.graycode', 'networkit', 'pandas']


def radius_of(tol, delta):
    return 2.0 * delta * (tol + 1.0) / math.sqrt(1.0 + tol * tol)


class Script:
    trials, cur, log = [], -1, []


class Prm:
    def __init__(self, k, check_motion, sample_state, dist_to_path=None, *a, **kw):
        Script.cur += 1
        self.k_neighbors = self.max_k_neighbors = k
        self.conn_r, self.n, self.step = None, 0, -1
        self.seed = kw.get('seed')
        Script.log.append(('new', Script.cur, k, check_motion, sample_state, kw.get('seed')))

    def grow_to_n_samples(self, n):
        if n <= self.n:
            raise ArithmeticError('PRM is already %i large, cannot grow to %i samples.' % (self.n, n))
        self.n = n
        self.step += 1
        Script.log.append(('grow', Script.cur, n))
        st = Script.trials[Script.cur]['steps'][self.step]
        return st['eff'], np.array(st['dists'], dtype=float)

    def set_connection_radius(self, r):
        self.conn_r = r

    def num_vertices(self):
        return self.n

    def num_edges(self):
        return 0

    def reset(self):
        Script.log.append(('reset', Script.cur))
        self.n, self.step, self.conn_r = 0, -1, None


def check(env, prm, tol, n_samples_per_check=100, timeout=60.0, area_tol=1e-6, vis=False):
    tr = Script.trials[Script.cur]
    st = tr['steps'][prm.step]
    tol = float(tol)
    r = radius_of(tol, tr['delta']) if tol == tol else float('nan')
    ok = st['t'] is not None and r >= st['t']
    Script.log.append(('check', Script.cur, prm.step, tol, r, ok, n_samples_per_check, timeout, area_tol, env))
    if ok:
        return True, 'covered'
    return False, 'timed out' if st['timeout'] else 'failed query: (0.0, 1.0)'


def ladder(n, delta):
    """n distances between 2 and 2*sqrt(2) clearances (all tolerances from 0 to 1)"""
    lo, hi = 2.05 * delta, 2.78 * delta
    return [lo + (hi - lo) * (i * (i + 3.0)) / max(1.0, (n - 1) * (n + 2.0)) for i in range(n)]


def steps_of(n, delta):
    full = ladder(n, delta)
    for m in range(3, n + 1):                                 # the certified radius leaves m of them
        effs = [full[m - 1]] + ([(full[m - 1] + full[m]) / 2] if m < n else [])
        use = full[:m]
        for eff in effs:
            ts = [(a + b) / 2 for a, b in zip(use, use[1:])] + [use[0] / 1.001, None]
            for t in ts:
                for to in (False, True):
                    yield dict(dists=full, eff=eff, t=t, timeout=to, use=use)


def trials(task):
    n, deep = task['n'], task['tier'] != 'quick'
    delta = task['delta']
    one = list(steps_of(n, delta))
    for s in one:
        yield dict(delta=delta, steps=[s])
    other = list(steps_of(3, delta))[::3] + list(steps_of(5, delta))[::7]
    for s in one[::1 if n <= 6 or deep else 3]:
        for o in other:
            yield dict(delta=delta, steps=[s, o])
            yield dict(delta=delta, steps=[o, s])
    if deep:
        for s in one[::5]:
            for a, b in itertools.product(other[::3], repeat=2):
                yield dict(delta=delta, steps=[a, s, b])


def run_batch(batch, dim, maxk, out):
    """trials with the same number of counts: one run of the real script, a trial each"""
    from checks import c22
    import nonasymptotic.prm as prm_mod
    from nonasymptotic import envs
    k, delta = len(batch[0]['steps']), batch[0]['delta']
    counts = [7 * (i + 1) for i in range(k)]
    opts = dict(n_samples_per_check_round=37, ed_check_timeout=12.5, area_tol=1e-3)
    cfg = dict(delta=delta, dims_to_test=[dim], sample_schedule=counts, prm_max_k_neighbors=maxk, n_trials=len(batch), **opts)
    Script.trials, Script.cur, Script.log = batch, -1, []
    s = c22.Setup('line', cfg)
    saved = prm_mod.SimpleNearestNeighborRadiusPRM, envs.StraightLine.is_prm_epsilon_delta_complete
    prm_mod.SimpleNearestNeighborRadiusPRM = Prm
    envs.StraightLine.is_prm_epsilon_delta_complete = check
    try:
        r = c22.start('line', 0, 1, s.cfg, s.out)
        if isinstance(r, Raised):
            return [('raised', 'clearance %r, %d counts: %s' % (delta, k, r.text), None)]
        rows = c22.result_rows(s.out, 0)
    finally:
        prm_mod.SimpleNearestNeighborRadiusPRM, envs.StraightLine.is_prm_epsilon_delta_complete = saved
        s.close()
    msgs = []
    by = {}
    for row in rows:
        by.setdefault(int(row['trial']), []).append(row)
    log = {}
    for e in Script.log:
        log.setdefault(e[1], []).append(e)
    for t, tr in enumerate(batch):
        out.count('states', k)
        out.count('traces')
        out.count('transitions', sum(e[0] == 'check' for e in log.get(t, [])))
        m = judge(tr, by.get(t, []), log.get(t, []), counts, dim, maxk, opts)
        msgs += [(a, '%d counts, clearance %r, trial %r: %s' % (k, delta, [{x: st[x] for x in ('eff', 't', 'timeout')} for st in tr['steps']], b), t) for a, b in m]
        for st in tr['steps']:
            out.outcome('no radius works' if st['t'] is None else 'a radius works')
    return msgs


def close(a, b, tol=1e-6):
    try:
        return abs(float(a) - b) <= tol * max(1.0, abs(b))
    except (TypeError, ValueError):
        return False


def judge(tr, rows, log, counts, dim, maxk, opts):
    msgs = []
    if sorted(float(r['n_samples']) for r in rows) != [float(c) for c in counts]:
        return [('rows', 'rows for sample counts %r instead of %r' % ([r['n_samples'] for r in rows], counts))]
    rows = sorted(rows, key=lambda r: float(r['n_samples']))
    new = [e for e in log if e[0] == 'new']
    if len(new) != 1 or new[0][2] != maxk:
        return [('setup', 'roadmaps set up: %r' % [e[:3] for e in new])]
    if [e[2] for e in log if e[0] == 'grow'] != counts:
        msgs.append(('growth', 'grown to %r' % [e[2] for e in log if e[0] == 'grow']))
    valid, sample, d = new[0][3], new[0][4], tr['delta']
    a = np.zeros((2, dim))
    a[0, 1], a[1, 1] = 0.99 * d, 1.01 * d
    if list(np.array(valid(a, a))) != [True, False] or np.size(sample()) != dim:
        msgs.append(('setup', 'the environment of the roadmap has another clearance or dimension'))
    for i, st in enumerate(tr['steps']):
        row, use, t = rows[i], st['use'], st['t']
        asked = [e for e in log if e[0] == 'check' and e[2] == i]
        for e in asked:
            if not any(close(e[4], r, 1e-6) for r in use):
                msgs.append(('tolerance', 'count %d: checked tolerance %r, sufficient for radius %r, which is none of %r' % (counts[i], e[3], e[4], use)))
                break
            if (e[6], e[7], e[8]) != (opts['n_samples_per_check_round'], opts['ed_check_timeout'], opts['area_tol']):
                msgs.append(('options', 'the check is called with %r' % (e[6:9],)))
                break
        ok = [t is not None and r >= t for r in use]
        j = next((q for q in range(2, len(use)) if ok[q]), len(use) - 1)          # rung 1 is taken to fail, the last to succeed
        lb, ub = use[j - 1], use[j]
        if not close(row['rad_ubs'], ub) or not close(row['rad_lbs'], lb):
            msgs.append(('bracket', 'count %d: rungs %r, succeeding from %r: reported bracket (%r, %r), expected (%r, %r)'
                         % (counts[i], use, t, row['rad_lbs'], row['rad_ubs'], lb, ub)))
        info = '' if row['info'] is None or row['info'] != row['info'] else str(row['info'])
        to = st['timeout'] and any(not e[5] for e in asked)
        if to != ('timed out' in info):
            msgs.append(('timeout', 'count %d: %s, the record says %r' % (counts[i], 'a check timed out' if to else 'no check timed out', info)))
        if float(row['dim']) != dim or float(row['delta_clearance']) != d or new[0][5] is not None and float(row['seed']) != float(new[0][5]):
            msgs.append(('labels', 'labelled dim %r, clearance %r, seed %r (the roadmap has %r)' % (row['dim'], row['delta_clearance'], row['seed'], new[0][5])))
    return msgs


def tasks(tier):
    return [dict(n=n, delta=delta, dim=dim, tier=tier, i=i, parts=2) for n in range(3, 10 if tier == 'quick' else 15)
            for delta, dim in ((0.5, 2), (0.125, 3)) for i in range(2)]


PER = 60


def run_task(task, out):
    d = loader.private_package()
    try:
        groups = {}
        for tr in itertools.islice(trials(task), task['i'], None, task['parts']):
            g = groups.setdefault(len(tr['steps']), [])
            g.append(tr)
            if len(g) == PER:
                flush(g, task, out)
                groups[len(tr['steps'])] = []
            if out.stop:
                return
        for g in groups.values():
            if g:
                flush(g, task, out)
    finally:
        loader.drop_private(d)


def flush(g, task, out):
    for k, m, t in run_batch(g, task['dim'], 16, out):
        out.violate(k, m, dict(trials=g if t is None else [g[t]], dim=task['dim']))


def replay(case):
    from mc.core import Tally
    d = loader.private_package()
    try:
        return ['[%s] %s' % (k, m) for k, m, _ in run_batch(case['trials'], case['dim'], 16, Tally())]
    finally:
        loader.drop_private(d)
