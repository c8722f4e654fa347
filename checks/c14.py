"""C14 neighbour-search adapters: every build/update history over small data sets, both backends."""
import gc, itertools, os
import numpy as np
from mc.core import guard, Raised
from checks import prmlib

ID, LEVEL = 'C14', 'model_checking'
PRELOAD = ['networkit']
TECHNIQUE = 'explicit-state enumeration of all build/update histories of the real adapters over exact stand-in backends, lists compared with brute force'
NOTE = 'Every sequence of builds and updates up to the depth, on two adapters alive at the same time, for data of 1 to 8 ' \
       'dimensions; the backends are replaced by stand-ins which keep their formats (text file with half squared ' \
       'distances in kgraph; the point itself first in pynndescent).'
BOUNDS = {'quick': 'dimensions 1,2,3,4,5,8; data of 7 points; k 1..6; all histories of up to 4 builds/updates of 1-3 points on each adapter; '
                   'four histories over 120-300 points of dimension 2, 7, 14 with k 1, 20, 64',
          'thorough': 'as quick with histories of up to 6 steps and interleavings of two adapters up to 5 steps'}
ASSUMPTIONS = ['the backends return exact neighbour graphs (they are approximate on large data)']
DIMS = [1, 2, 3, 4, 5, 8]
NPTS = 7


def data(dim, n=NPTS):
    # distinct distances within rows up to ties that the comparison tolerates; float32-exact coordinates
    out = []
    if n > NPTS:
        u = np.sqrt(np.array([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43], dtype=float))[:dim]
        return np.float64(np.float32((np.arange(n)[:, None] * u[None]) % 1.0 * 8 - 2))
    for i in range(n):
        out.append([((i * (3 + 2 * c) + c * c) % 11) * 0.5 + (i * i if c == 0 else 0) for c in range(dim)])
    return np.array(out, dtype=float)


def tasks(tier):
    return [dict(dim=d, name=n, kg=kg, k=k, tier=tier) for d in DIMS for n in ('kgraph', 'pynndescent')
            for kg in (True, False) for k in range(1, NPTS)] + \
           [dict(dim=d, name=n, kg=kg, k=k, big=b, tier=tier) for d in (2, 7, 14) for n in ('kgraph', 'pynndescent')
            for kg in (True, False) for k, b in ((1, 300), (20, 120), (64, 300))]


BIG_HISTORIES = [[('build', 0, 300)], [('build', 0, 70), ('update', 1), ('update', 228)], [('build', 3, 66), ('build', 0, 200), ('update', 99)],
                 [('build', 0, 66)] + [('update', 3)] * 6]


def verify(res, X, k, what):
    try:
        ids, ds = np.asarray(res[0]), np.asarray(res[1], dtype=float)
    except Exception:
        return [('shape', '%s returned %r' % (what, res))]
    n = len(X)
    if ids.shape != (n, k) or ds.shape != (n, k):
        return [('shape', '%s: lists of shape %s, distances %s, expected %s' % (what, ids.shape, ds.shape, (n, k)))]
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    for i in range(n):
        row = ids[i].tolist()
        if len(set(row)) != k or not all(0 <= j < n and j == int(j) for j in row):
            return [('ids', '%s: row %d lists %s' % (what, i, row))]
        true = D[i][[int(j) for j in row]]
        if np.abs(true - ds[i]).max() > 1e-4 * (1 + true.max()):
            return [('dist', '%s: row %d lists %s at %s, true distances %s' % (what, i, row, ds[i].tolist(), true.tolist()))]
        if (np.diff(ds[i]) < 0).any():
            return [('order', '%s: row %d is not sorted: %s' % (what, i, ds[i].tolist()))]
        others = np.sort(np.delete(D[i], i))
        allp = np.sort(D[i])
        if np.abs(others[:k] - ds[i]).max() > 1e-4 * (1 + allp.max()) if k <= n - 1 and i not in row else \
                np.abs(allp[:k] - ds[i]).max() > 1e-4 * (1 + allp.max()):
            return [('near', '%s: row %d lists distances %s, nearest are %s' % (what, i, ds[i].tolist(), others[:k].tolist()))]
    return []


def histories(k, depth):
    """sequences of ('build', offset, count) / ('update', count)"""
    def rec(h, used):
        yield h
        if len(h) >= depth:
            return
        for off, cnt in ((0, k + 1), (1, k + 1), (0, NPTS)):
            if off + cnt <= NPTS and (not h or h[-1] != ('build', off, cnt)):
                yield from rec(h + [('build', off, cnt)], (off, off + cnt))
        if used is not None:
            for c in (1, 2, 3):
                if used[1] + c <= NPTS:
                    yield from rec(h + [('update', c)], (used[0], used[1] + c))
    yield from rec([], None)


class Model:
    """an adapter and the range of points it should hold"""

    def __init__(self, ann, name, k):
        self.obj, self.k = ann.get_ann(name), k
        self.range = None

    def step(self, op, X):
        if op[0] == 'build':
            rng = (op[1], op[1] + op[2])
            arg = X[rng[0]:rng[1]].copy()
            res = guard(self.obj.new_graph_from_data, arg, self.k)
        else:
            rng = (self.range[0], self.range[1] + op[1])
            arg = X[self.range[1]:rng[1]].copy()
            res = guard(self.obj.update_graph_with_data, arg)
        if isinstance(res, Raised):
            return [('raised', '%s raised %s' % (op, res.text))]
        self.range = rng
        self.last = (np.array(res[0]), np.array(res[1]))
        return verify(res, X[rng[0]:rng[1]], self.k, str(op))


def files(ann):
    """files under the private copy of the package"""
    base = os.path.dirname(os.path.dirname(os.path.abspath(ann.__file__)))
    return {os.path.join(d, f) for d, _, fs in os.walk(base) if '__pycache__' not in d for f in fs}


def left_behind(ann, before):
    gc.collect()
    return sorted(os.path.relpath(f, os.path.dirname(os.path.dirname(ann.__file__))) for f in files(ann) - before)


def run_hist(ann, name, k, X, hist):
    m = guard(Model, ann, name, k)
    if isinstance(m, Raised):
        return None, [('raised', 'get_ann(%r) raised %s' % (name, m.text))]
    probs = []
    for op in hist:
        probs = m.step(op, X)
        if probs:
            break
    return m, probs


def run_task(t, out):
    ann_case = 'kgraph' if t['kg'] else 'pynn'

    def go():
        from nonasymptotic import ann
        X = data(t['dim'], t.get('big', NPTS))
        k = t['k']
        if 'big' in t:
            for h in BIG_HISTORIES:
                h = [tuple(op) for op in h if sum(o[-1] for o in h) <= 1000]
                if h[0][2] > len(X):
                    h = [('build', 0, len(X))]
                elif sum(o[-1] for o in h[-2:]) > len(X):
                    h = h[:1] + [('update', len(X) - h[0][1] - h[0][2])]
                _, probs = run_hist(ann, t['name'], k, X, h)
                out.count('transitions', len(h))
                out.count('states', len(h))
                out.count('traces')
                for key, msg in probs:
                    out.violate('big-' + key, '%s: %s (history %s)' % (t, msg[:300], h), dict(t, hist=h))
            return
        before = files(ann)
        early = ann.get_ann(t['name'])
        res = guard(early.update_graph_with_data, X[:1])
        out.count('transitions')
        if not isinstance(res, Raised) or res.hang:
            out.violate('early', 'an update before a build of %s is not an error' % t['name'], dict(t, hist=['early']))
        kinds = type(early).__name__
        out.outcome('%s asked, kgraph %s: %s' % (t['name'], 'there' if t['kg'] else 'missing', kinds))
        depth = 4 if t['tier'] == 'quick' else 6
        last_of_depth = [h for h in histories(k, depth) if len(h) == depth][-1:]
        last_of_depth = last_of_depth[0] if last_of_depth else None
        for h in histories(k, depth):
            if not h:
                continue
            m, probs = run_hist(ann, t['name'], k, X, h)
            out.count('transitions')
            for key, msg in probs:
                out.violate(key, '%s adapter, k=%d, dim %d: %s (history %s)' % (t['name'], k, t['dim'], msg, h), dict(t, hist=h))
            if out.stop:
                return
            if probs:
                continue
            out.count('states')
            # the same lists as one build from the same data
            one, p2 = run_hist(ann, t['name'], k, X, [('build', m.range[0], m.range[1] - m.range[0])])
            if not p2 and not np.allclose(one.last[1], m.last[1], atol=1e-4):
                out.violate('differs', '%s: after %s the distances differ from a fresh build' % (t, h), dict(t, hist=h))
            if len(h) == depth:
                out.count('traces')
            m = one = None
            if len(h) < depth or h == last_of_depth:
                left = left_behind(ann, before)
                if left:
                    out.violate('files', '%s adapter, k=%d: after %s and with all adapters gone there are files %s' % (t['name'], k, h, left[:3]),
                                dict(t, hist=h, files=True))
                    return
        # two adapters at once
        hs = [h for h in histories(k, 2 if t['tier'] == 'quick' else 3) if len(h) == (2 if t['tier'] == 'quick' else 3)]
        for ha, hb in itertools.product(hs[:12], hs[:12]):
            for mask in itertools.product((0, 1), repeat=len(ha) + len(hb)):
                if sum(mask) != len(hb):
                    continue
                a, b = Model(ann, t['name'], k), Model(ann, t['name'], k)
                qa, qb = list(ha), list(hb)
                for who in mask:
                    m, q = (b, qb) if who else (a, qa)
                    op = q.pop(0)
                    probs = m.step(op, X)
                    out.count('transitions')
                    for key, msg in probs:
                        out.violate('two-' + key, '%s, two adapters, interleaving %s of %s and %s: %s' % (t, mask, ha, hb, msg),
                                    dict(t, hist=ha, other=hb, mask=mask))
                    if out.stop:
                        return
        out.sample(dict(t, last_history=h))
    prmlib.in_private(go, ann_case)


def replay(rec):
    def go():
        from nonasymptotic import ann
        X = data(rec['dim'], rec.get('big', NPTS))
        if rec['hist'] == ['early']:
            res = guard(ann.get_ann(rec['name']).update_graph_with_data, X[:1])
            return [] if isinstance(res, Raised) else ['an update before a build is not an error']
        ha = [tuple(h) for h in rec['hist']]
        if rec.get('files'):
            before = files(ann)
            run_hist(ann, rec['name'], rec['k'], X, ha)
            left = left_behind(ann, before)
            return ['files left behind: %s' % left] if left else []
        if 'other' not in rec:
            m, probs = run_hist(ann, rec['name'], rec['k'], X, ha)
            if not probs:
                one, _ = run_hist(ann, rec['name'], rec['k'], X, [('build', m.range[0], m.range[1] - m.range[0])])
                if not np.allclose(one.last[1], m.last[1], atol=1e-4):
                    return ['differs from a fresh build']
            return [m2 for _, m2 in probs]
        a, b = Model(ann, rec['name'], rec['k']), Model(ann, rec['name'], rec['k'])
        qa, qb, msgs = ha, [tuple(h) for h in rec['other']], []
        for who in rec['mask']:
            msgs += [m2 for _, m2 in (b if who else a).step((qb if who else qa).pop(0), X)]
        return msgs
    return prmlib.in_private(go, 'kgraph' if rec['kg'] else 'pynn')
