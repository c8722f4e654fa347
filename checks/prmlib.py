"""Explicit-state exploration of roadmap operation histories on the real PRM classes.

A transition replays the history on a fresh roadmap and applies one more operation; states are identified by the
complete contents of the object (graph with adjacency order, arrays, settings), the sampler position and the cache
files, so merged histories have the same futures. After every operation the roadmap is compared with a reference
model that recomputes the expected vertices and edges from the samples, the settings and the validity relation.
"""
import collections, itertools, os
import numpy as np
from mc.core import guard, Raised, StubLimit
from mc import loader

KINDS = ('full', 'knn', 'radius')


class World:
    """Samples come from a list in order (cyclically); motion validity is a table over point indices."""

    def __init__(self, pts, invalid=(), extra=()):
        self.pts = [tuple(float(v) for v in p) for p in pts]
        self.all = self.pts + [tuple(float(v) for v in p) for p in extra]
        self.index = {p: i for i, p in enumerate(self.all)}
        self.same = [self.index[p] for p in self.all]        # exact duplicates count as one point
        self.invalid = {e for e in (frozenset(self.same[i] for i in e) for e in invalid) if len(e) == 2}
        self.drawn = 0
        self.unknown = []

    def sample(self):
        p = self.pts[self.drawn % len(self.pts)]
        self.drawn += 1
        return np.array(p)

    def ok(self, i, j):
        return frozenset((self.same[i], self.same[j])) not in self.invalid

    def check(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise ValueError('check_motion: shapes %s and %s' % (a.shape, b.shape))
        one = a.ndim == 1
        out = []
        for p, q in zip(np.atleast_2d(a), np.atleast_2d(b)):
            i, j = self.index.get(tuple(p)), self.index.get(tuple(q))
            if i is None or j is None:
                self.unknown.append((p.tolist(), q.tolist()))
                out.append(False)
            else:
                out.append(self.ok(i, j))
        return bool(out[0]) if one else np.array(out, dtype=bool).reshape(len(a))

    def dist(self, i, j):
        return float(np.sqrt(sum((x - y) ** 2 for x, y in zip(self.all[i], self.all[j]))))

    def sdf(self, x):
        x = np.asarray(x)
        return np.linalg.norm(x[:, 1:], axis=1)


def build(case, world):
    from nonasymptotic import prm as P
    k = case['kind']
    if k == 'full':
        r = P.SimpleFullConnRadiusPRM(case['r'], world.check, world.sample)
    elif k == 'knn':
        r = P.SimpleNearestNeighborRadiusPRM(case['k'], world.check, world.sample, world.sdf,
                                             truncate_to_eff_rad=case.get('trunc', True))
    else:
        r = P.SimpleRadiusPRM(case['r'], world.check, world.sample, world.sdf,
                              max_k_connection_neighbors=case.get('kcap', 512))
        if case.get('k0'):
            r.k_neighbors = case['k0']      # the constructor starts from 16, more neighbours than these roadmaps have
    if case.get('exp'):
        r.in_mp_exp_mode = True
    world.first = world.drawn               # the constructor draws a state to learn the dimension
    return r


class Ref:
    """Reference state: which samples there are and the current settings."""

    def __init__(self, case, world):
        self.c, self.w = case, world
        self.n, self.start = None, None
        self.next = world.first
        self.k = self.kgrow = case.get('k')
        self.r = case.get('r')
        self.lists = None

    def ids(self):
        m = len(self.w.pts)
        return [(self.start + i) % m for i in range(self.n or 0)]

    def grow(self, n):
        if self.n is None:
            self.start = self.next
        drawn = n - (self.n or 0)
        self.n, self.next = n, self.next + drawn
        if self.c['kind'] == 'knn':
            self.kgrow = self.k
            self.lists = neighbour_lists(self.w, self.ids(), min(n - 1, self.k), self.c['ann'])
            self.cert = min(row[-1][1] for row in self.lists)
            self.r = self.cert if self.c.get('trunc', True) else None

    def reset(self):
        self.n = None
        if self.c['kind'] == 'knn':
            self.r = None

    def edges(self):
        """(must, may): sets of (i, j) with i < j, sample numbers"""
        ids = self.ids()
        must, may = set(), set()
        capped = False
        if self.c['kind'] == 'radius' and self.c.get('kcap', 512) < len(ids) + 1:    # the neighbour cap may cut edges off where a
            d = np.array([self.w.all[i] for i in ids])                               # sample and those within the radius reach it
            near = (np.sqrt(((d[:, None] - d[None]) ** 2).sum(2)) <= self.r + 1e-6).sum(1)
            capped = near.max() >= self.c['kcap']
        for i, j in itertools.combinations(range(len(ids)), 2):
            if not self.w.ok(ids[i], ids[j]):
                continue
            d = self.w.dist(ids[i], ids[j])
            kind = self.c['kind']
            if kind == 'full':
                if d <= self.r:
                    must.add((i, j))
            elif kind == 'knn':
                near = j in [v for v, _ in self.lists[i][:self.k]] or i in [v for v, _ in self.lists[j][:self.k]]
                if near and (self.r is None or d < self.r - 1e-6):
                    must.add((i, j))
                elif near and abs(d - self.r) <= 1e-6:
                    may.add((i, j))
            else:
                if d < self.r - 1e-6:
                    (may if capped else must).add((i, j))
                elif d <= self.r + 1e-6:
                    may.add((i, j))
        return must, may


def neighbour_lists(w, ids, k, ann):
    n = len(ids)
    out = []
    for i in range(n):
        d2 = [sum((x - y) ** 2 for x, y in zip(w.pts[ids[i]], w.pts[ids[j]])) for j in range(n)]
        order = sorted(range(n), key=lambda j: (d2[j], j != i, j)) if ann == 'pynn' else \
            sorted((j for j in range(n) if j != i), key=lambda j: (d2[j], j))
        out.append([(j, float(np.sqrt(d2[j]))) for j in order[:k]])
    return out


def state_problems(prm, ref):
    """Compare the observable roadmap with the reference."""
    g, s = guard(lambda: prm.prm_graph), guard(lambda: prm.prm_samples)
    nv, ne = guard(prm.num_vertices), guard(prm.num_edges)
    for x in (g, s, nv, ne):
        if isinstance(x, Raised):
            return [('raised', 'reading the roadmap raised %s' % x.text)]
    if ref.n is None:
        if (s is not None and len(s)) or (g is not None and g.numberOfNodes()) or nv or ne:
            return [('empty', 'roadmap without samples has %s samples, %s vertices' % (None if s is None else len(s), nv))]
        return []
    want = np.array([ref.w.pts[i] for i in ref.ids()])
    if s is None or g is None or np.shape(s) != want.shape or np.abs(np.asarray(s) - want).max() > 0:
        return [('samples', 'samples are %s, expected %s' % (None if s is None else np.asarray(s).tolist(), want.tolist()))]
    nodes = list(g.iterNodes())
    if nodes != list(range(ref.n)) or nv != ref.n:
        return [('vertices', 'vertices %s (num_vertices %s) for %d samples' % (nodes, nv, ref.n))]
    got = [(min(u, v), max(u, v), w) for u, v, w in g.iterEdgesWeights()]
    es = [(u, v) for u, v, _ in got]
    if len(es) != len(set(es)) or ne != len(es):
        return [('multi', 'edges %s (num_edges %s) are not distinct' % (es, ne))]
    must, may = ref.edges()
    es = set(es)
    if must - es or es - must - may:
        return [('edges', 'edges %s: missing %s, not allowed %s' % (sorted(es), sorted(must - es), sorted(es - must - may)))]
    ids = ref.ids()
    for u, v, w in got:
        if abs(w - ref.w.dist(ids[u], ids[v])) > 1e-5:
            return [('weight', 'edge %s has weight %s, length %s' % ((u, v), w, ref.w.dist(ids[u], ids[v])))]
    return []


def canon(x, depth=0):
    import networkit as nk
    if isinstance(x, nk.Graph):
        return ('G', tuple(x._exists), tuple(tuple(map(tuple, a)) for a in x._adj), x._w)
    if isinstance(x, np.ndarray):
        return ('A', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return x
    if isinstance(x, (list, tuple)):
        return ('L',) + tuple(canon(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ('D',) + tuple(sorted(((str(k), canon(v, depth + 1)) for k, v in x.items()), key=lambda t: t[0]))
    if isinstance(x, (set, frozenset)):
        return ('S',) + tuple(sorted(map(repr, x)))
    if callable(x):
        return 'callable'
    if depth < 6 and hasattr(x, '__dict__'):
        return (type(x).__name__, canon({k: v for k, v in x.__dict__.items() if 'path' not in k}, depth + 1))
    return type(x).__name__


def run_history(case, hist, world=None):
    """Fresh roadmap, all operations; returns (prm, ref, problems of the last operation)."""
    world = world or World(case['pts'], [frozenset(e) for e in case['invalid']], case.get('extra', ()))
    prm = guard(build, case, world)
    if isinstance(prm, Raised):
        return None, None, [('raised', 'the constructor raised %s' % prm.text)]
    ref = Ref(case, world)
    probs = state_problems(prm, ref)
    for op in hist:
        probs = apply(case, prm, ref, op)
    return prm, ref, probs


def apply(case, prm, ref, op):
    w, kind = ref.w, case['kind']
    name, arg = op[0], (op[1] if len(op) > 1 else None)
    out = []
    if name == 'grow':
        refuse = ref.n is not None and (arg < ref.n or (kind == 'knn' and arg == ref.n))
        res = guard(prm.grow_to_n_samples, arg)
        if refuse:
            if not isinstance(res, Raised) or res.name == 'hang':
                out.append(('shrink', 'growing from %d to %d samples was not refused' % (ref.n, arg)))
        elif isinstance(res, Raised):
            return [('raised', 'grow_to_n_samples(%d) raised %s' % (arg, res.text))]
        else:
            ref.grow(arg)
            if kind == 'full':
                out += lengths_problem(res, ref)
            elif kind == 'knn':
                out += certified_problem(prm, res, ref)
        if w.drawn != ref.next:
            out.append(('draws', '%d samples were drawn, expected %d' % (w.drawn, ref.next)))
            ref.next = w.drawn
    elif name == 'radius':
        res = guard(prm.set_connection_radius, arg)
        ref.r = arg
        if isinstance(res, Raised):
            return [('raised', 'set_connection_radius(%s) raised %s' % (arg, res.text))]
    elif name == 'k':
        res = guard(prm.set_nearest_neighbors, arg)
        ref.k = arg
        if isinstance(res, Raised):
            return [('raised', 'set_nearest_neighbors(%s) raised %s' % (arg, res.text))]
    elif name == 'reset':
        res = guard(prm.reset)
        ref.reset()
        if isinstance(res, Raised):
            return [('raised', 'reset raised %s' % res.text)]
    elif name == 'query':
        a, b = np.array(w.all[arg[0]]), np.array(w.all[arg[1]])
        res = guard(prm.query_best_solution, a, b)
        if isinstance(res, Raised):
            return [('raised', 'query %s -> %s raised %s' % (a.tolist(), b.tolist(), res.text))]
        out += query_problems(res, ref, arg)
    elif name == 'all':
        a, b = np.array(w.all[arg[0]]), np.array(w.all[arg[1]])
        res = guard(prm.query_all_graph_connections, a, b)
        if isinstance(res, Raised):
            return [('raised', 'listing all connections %s -> %s raised %s' % (a.tolist(), b.tolist(), res.text))]
        out += all_problems(res, ref, arg, prm)
    if w.unknown:
        out.append(('motions', 'motion check asked about points that are no samples: %s' % (w.unknown[0],)))
        w.unknown.clear()
    return out + state_problems(prm, ref)


def lengths_problem(res, ref):
    must, _ = ref.edges()
    ids = ref.ids()
    want = sorted({round(ref.w.dist(ids[i], ids[j]), 6) for i, j in must})
    if 'big' in ref.c and res is not None:
        return near_sets('lengths', np.ravel(np.asarray(res, dtype=float)), want)
    got = sorted({round(float(x), 6) for x in np.ravel(np.asarray(res, dtype=float))}) if res is not None else None
    if got is None or len(got) != len(want) or any(abs(x - y) > 2e-6 for x, y in zip(got, want)):
        return [('lengths', 'growing reported the lengths %s, the edges have %s' % (got, want))]
    return []


def near_sets(key, got, want):
    """every value of one list is within rounding of one of the other"""
    got, want = np.unique(np.asarray(got, dtype=float)), np.array(sorted(want))

    def far(a, b):
        if not len(b):
            return a
        i = np.clip(np.searchsorted(b, a), 1, max(len(b) - 1, 1))
        return a[np.minimum(np.abs(a - b[i - 1]), np.abs(a - b[np.minimum(i, len(b) - 1)])) > 3e-6]
    extra, gone = far(got, want), far(want, got)
    if len(extra) or len(gone):
        return [(key, 'growing reported %d %s, %d of them wrong (%s), %d missing (%s)' % (
            len(got), key, len(extra), extra[:3], len(gone), gone[:3]))]
    return []


def certified_problem(prm, res, ref):
    out = []
    c = prm.certified_max_conn_r
    if c is None or abs(float(c) - ref.cert) > 1e-5:
        out.append(('certified', 'certified radius %s, smallest distance to the farthest neighbour is %s' % (c, ref.cert)))
    if ref.c.get('trunc', True):
        try:
            r, d = res
            d = np.ravel(np.asarray(d, dtype=float))
        except Exception:
            return out + [('certified', 'growing returned %r' % (res,))]
        want = sorted({round(x, 6) for row in ref.lists for _, x in row})
        if abs(float(r) - ref.cert) > 1e-5:
            out.append(('certified', 'growing reported the radius %s, expected %s' % (r, ref.cert)))
        if 'big' in ref.c:
            out += near_sets('distances', d, want)
            if (np.diff(d) < 0).any():
                out.append(('distances', 'growing reported unsorted distances'))
        elif len(d) != len(want) or (np.diff(d) <= 0).any() or np.abs(d - want).max() > 1e-5:
            out.append(('distances', 'growing reported the distances %s, expected %s' % (d.tolist(), want)))
    return out


def conn_radius(ref):
    return ref.r if ref.r is not None else ref.cert


def shortest(ref, extra=None):
    """all-pairs shortest distances over must-edges plus may-edges present; extra: {node: {sample: dist}}"""
    raise NotImplementedError


def links(ref, q):
    """samples linked to the query point: (must, may)"""
    r = conn_radius(ref)
    must, may = {}, {}
    for i, p in enumerate(ref.ids()):
        if not ref.w.ok(q, p):
            continue
        d = ref.w.dist(q, p)
        if d < r - 1e-6 or d == ref.r == round(d, 2):       # at exactly the radius that was set counts as within
            must[i] = d
        elif d <= r + 1e-6:
            may[i] = d
    return must, may


def dists_from(adj, src):
    """Bellman-Ford on {node: {node: w}}"""
    d = {src: 0.0}
    for _ in range(len(adj) + 1):
        ch = False
        for u in list(d):
            for v, w in adj.get(u, {}).items():
                if d[u] + w < d.get(v, np.inf) - 1e-12:
                    d[v] = d[u] + w
                    ch = True
        if not ch:
            break
    return d


def adjacency(ref, edges):
    ids = ref.ids()
    adj = {i: {} for i in range(ref.n)}
    for i, j in edges:
        adj[i][j] = adj[j][i] = ref.w.dist(ids[i], ids[j])
    return adj


def query_problems(res, ref, q):
    try:
        length, path = res
        length = float(length)
        path = np.asarray(path, dtype=float)
    except Exception:
        return [('query', 'a query returned %r' % (res,))]
    must, may = ref.edges()
    w, ids = ref.w, ref.ids()
    la, ma = links(ref, q[0])
    lb, mb = links(ref, q[1])

    def best(edges, ls, lg):
        adj = adjacency(ref, edges)
        adj['s'], adj['g'] = dict(ls), {}
        for i, d in lg.items():
            adj[i]['g'] = d
        return dists_from(adj, 's').get('g')
    hi = best(must, la, lb)                                  # only what must be there
    lo = best(must | may, {**la, **ma}, {**lb, **mb})        # everything that may be there
    def real(x):
        return np.isfinite(x) and x < 1e300
    dim = len(w.pts[0])
    if lo is None:
        if real(length):
            return [('query', 'query %s has no solution but length %s was returned' % (q, length))]
        if path.size:
            return [('query', 'query %s has no solution but a path was returned' % (q,))]
        return []
    if not real(length):
        return [] if hi is None and not path.size else [('query', 'query %s: no solution found, one of length %s exists' % (q, hi))]
    if length < lo - 1e-5 or (hi is not None and length > hi + 1e-5):
        return [('query', 'query %s: length %s, shortest is %s' % (q, length, hi))]
    if path.ndim != 2 or path.shape[1] != dim or not len(path):
        return [('path', 'query %s: path of shape %s' % (q, path.shape))]
    want = {w.pts[p]: i for i, p in enumerate(ids)}
    seq = [want.get(tuple(p)) for p in path]
    if None in seq:
        return [('path', 'query %s: the path %s is not made of samples' % (q, path.tolist()))]
    legs = w.dist(q[0], ids[seq[0]]) + w.dist(q[1], ids[seq[-1]])
    fine = seq[0] in {**la, **ma} and seq[-1] in {**lb, **mb}
    for i, j in zip(seq, seq[1:]):
        legs += w.dist(ids[i], ids[j])
        fine &= (min(i, j), max(i, j)) in must | may
    if not fine:
        return [('path', 'query %s: the path %s uses a leg that is not in the roadmap' % (q, seq))]
    if abs(legs - length) > 1e-4:
        return [('path', 'query %s: legs sum to %s, returned length %s' % (q, legs, length))]
    return []


def all_problems(res, ref, q, prm):
    try:
        io, dist, ids_io = res
        io, dist, ids_io = np.asarray(io, dtype=float), np.asarray(dist, dtype=float), np.asarray(ids_io)
    except Exception:
        return [('all', 'listing all connections returned %r' % (res,))]
    w, ids = ref.w, ref.ids()
    la, ma = links(ref, q[0])
    lb, mb = links(ref, q[1])
    dim = len(w.pts[0])
    n = len(dist)
    if io.shape != (n, 2, dim) or ids_io.shape != (n, 2):
        return [('all', 'shapes %s, %s, %s' % (io.shape, dist.shape, ids_io.shape))]
    pairs = [tuple(int(x) for x in p) for p in ids_io]
    want = set(itertools.product(la, lb))
    may_p = set(itertools.product({**la, **ma}, {**lb, **mb}))
    if len(set(pairs)) != n or want - set(pairs) or set(pairs) - may_p:
        return [('all', 'entry/exit pairs %s, expected %s' % (sorted(pairs), sorted(want)))]
    must, may = ref.edges()
    # which of the optional edges are present
    have = {(min(u, v), max(u, v)) for u, v, _ in prm.prm_graph.iterEdgesWeights()}
    adj = adjacency(ref, must | (may & have))
    tree = {i: dists_from(adj, i) for i in sorted({i for i, _ in pairs})}
    for (i, j), d, pt in zip(pairs, dist, io):
        if tuple(pt[0]) != w.pts[ids[i]] or tuple(pt[1]) != w.pts[ids[j]]:
            return [('all', 'pair %s listed with points %s' % ((i, j), pt.tolist()))]
        s = tree[i].get(j)
        if s is None:
            if np.isfinite(d) and d < 1e300:
                return [('all', 'pair %s is not connected but has distance %s' % ((i, j), d))]
        elif abs(d - s) > 1e-4:
            return [('all', 'pair %s has distance %s, shortest is %s' % ((i, j), d, s))]
    return []


def expand(case):
    """Large sets are described by their size; the points fill a cube, a fifth of the motions is invalid."""
    if 'big' not in case:
        return case
    n, dim = case['big']
    c = dict(case)
    c['pts'] = scattered(n, dim)
    c['invalid'] = [(i, j) for i in range(n + 2) for j in range(i) if (7 * i + 13 * j) % 5 == 0]
    c['extra'] = [[0.015625 + 0.03125 * k for k in range(dim)], [0.984375 - 0.03125 * k for k in range(dim)]]
    if case.get('axis'):        # on the reference path
        c['extra'] = [[x] + [0.0] * (dim - 1) for x in (0.125, 0.875)]
    return c


def scattered(n, dim):
    x, out = 12345, []
    for _ in range(n):
        p = []
        for _ in range(dim):
            x = (x * 1103515245 + 12345) % 2 ** 31
            p.append((x >> 11) / 2 ** 20)
        out.append(p)
    return out


def big_histories(sizes, between):
    """All increasing growth schedules of up to 3 of the sizes, with one of the operations after each growth."""
    for k in (1, 2, 3):
        for steps in itertools.combinations(sizes, k):
            for ops in between(steps):
                hist = []
                for n, more in zip(steps, ops):
                    hist += [('grow', n)] + list(more)
                yield hist


def run_big(case, hists, out):
    full = expand(case)
    for hist in hists:
        world = World(full['pts'], [frozenset(e) for e in full['invalid']], full['extra'])
        prm = guard(build, full, world)
        if isinstance(prm, Raised):
            out.violate('raised', 'the constructor raised %s' % prm.text, dict(case=case, hist=[]))
            return
        ref = Ref(full, world)
        for m, op in enumerate(hist, 1):
            probs = apply(full, prm, ref, op)
            out.count('transitions')
            out.count('states')
            out.outcome('large set')
            for key, msg in probs:
                out.violate('big ' + key, '%s roadmap over %d points in %d dimensions after %s: %s' % (
                    case['kind'], case['big'][0], case['big'][1], hist[:m], msg[:400]), dict(case=case, hist=hist[:m]))
            if probs:
                break
        cleanup(prm)
        out.count('traces')
        if out.stop:
            return


def explore(case, ops, depth, out, max_states=20000):
    """Breadth-first over operation histories; ops(ref) lists the enabled operations."""
    # one execution twice: same observations
    start, ref, probs = run_history(case, [])
    for key, msg in probs:
        out.violate(key, msg, dict(case=case, hist=[]))
        return
    seen = {key_of(start, ref)}
    frontier = collections.deque([[]])
    out.count('states')
    while frontier:
        hist = frontier.popleft()
        _, ref0, _ = run_history(case, hist)
        for op in ops(ref0):
            h = hist + [op]
            prm, ref, probs = run_history(case, h)
            out.count('transitions')
            out.outcome(op[0])
            cleanup(prm)
            if probs:
                for key, msg in probs:
                    out.violate(key, '%s after %s: %s' % (describe(case), h, msg), dict(case=case, hist=h))
                if out.stop:
                    return
                continue
            k = key_of(prm, ref)
            if k in seen:
                continue
            seen.add(k)
            out.count('states')
            out.n['edges_seen'] += len(ref.edges()[0]) if ref.n else 0
            if len(seen) > max_states:
                raise StubLimit('more than %d states' % max_states)
            out.outcome('new state at depth %d' % len(h))
            if len(h) < depth:
                frontier.append(h)
            else:
                out.count('traces')
    out.sample(dict(case=describe(case), last_history=h))


def key_of(prm, ref):
    import hashlib
    files = sorted(os.path.exists(v) for k, v in vars(prm).items() if isinstance(v, str) and 'path' in k)
    return hashlib.sha1(repr((canon(prm), ref.w.drawn % len(ref.w.pts), files, ref.n, ref.k, ref.r, ref.kgrow,
                              ref.start if ref.start is None else ref.start % len(ref.w.pts))).encode()).digest()


def cleanup(prm):
    if prm is not None:
        t = getattr(prm, 'temp_dir', None)
        if t and os.path.isdir(t) and len(os.listdir(t)) > 200 and 'verif-prm-' in os.path.realpath(t):
            for f in os.listdir(t):
                os.remove(os.path.join(t, f))


def describe(case):
    return '%s roadmap %s over %s, invalid motions %s' % (
        case['kind'], {k: v for k, v in case.items() if k in ('r', 'k', 'k0', 'kcap', 'trunc', 'exp', 'ann')},
        [list(p) for p in case['pts']], [sorted(e) for e in case['invalid']])


def tables(n, tier, idx=None):
    """sets of invalid motions over n points: all of them for n <= 3 (thorough: 4), structured ones beyond"""
    pairs = list(itertools.combinations(range(n) if idx is None else idx, 2))
    if len(pairs) <= (3 if tier == 'quick' else 6):
        for m in range(2 ** len(pairs)):
            yield [p for i, p in enumerate(pairs) if m >> i & 1]
    else:
        yield []
        for p in pairs:
            yield [p]
        yield list(pairs)
        for p in pairs:
            yield [q for q in pairs if q != p]
        for v in range(n):
            yield [q for q in pairs if v in q]
            yield [q for q in pairs if v not in q]


def in_private(fn, case_ann):
    d = loader.private_package(block=('kgraph',) if case_ann == 'pynn' else ())
    try:
        return fn()
    finally:
        loader.drop_private(d)


def replay_history(rec):
    case, hist = rec['case'], [tuple(tuple(x) if isinstance(x, list) else x for x in h) for h in rec['hist']]
    case = expand(case)
    case['invalid'] = [tuple(e) for e in case['invalid']]

    def go():
        msgs = []
        for i in range(len(hist) + 1):
            msgs = [m for _, m in run_history(case, hist[:i])[2]]
        return msgs
    return in_private(go, case.get('ann', 'kgraph'))
