"""C18 planar convex overlap: all pairs of small lattice polygons."""
import itertools
import numpy as np
from mc.core import as_form, guard, Raised, FORMS
from mc import loader

ID, LEVEL = 'C18', 'exploration'
TECHNIQUE = 'exhaustive enumeration of all pairs of small convex lattice polygons in all relative positions on the real code, exact integer oracle'
NOTE = 'Every pair of triangles, quadrilaterals, pentagons and hexagons of the grid in every relative lattice position is ' \
       'executed one by one and in batches, in both orders, both orientations and from every starting vertex; the oracle ' \
       '(vertex containment and edge crossing in integers) does not use separating axes.'
BOUNDS = {'quick': 'all convex polygons with 3-6 corners on a 3 x 3 grid (up to translation), shifts -2.5..2.5 in half steps; 3e-8 off every touching position in four directions',
          'thorough': 'all convex polygons with 3-4 corners on a 4 x 4 grid, shifts -4..4'}
RULE = 'one case = one ordered pair of polygons in one position, single or in a batch; non-trivial = their bounding boxes overlap'
ASSUMPTIONS = ['polygons which only touch are required to be reported as overlapping where the touching direction is along an axis '
               '(no rounding); along slanted directions either answer is accepted']


H = 2 ** 24                           # 1 / H is a hair's breadth


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull_order(pts):
    pts = sorted(pts)

    def half(s):
        h = []
        for p in s:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def polygons(side, sizes):
    grid = list(itertools.product(range(side), repeat=2))
    out = {}
    for n in sizes:
        seen = set()
        for c in itertools.combinations(grid, n):
            h = hull_order(c)
            if len(h) != n:
                continue
            mx, my = min(p[0] for p in h), min(p[1] for p in h)
            key = tuple(sorted((x - mx, y - my) for x, y in h))
            if key not in seen:
                seen.add(key)
                out.setdefault(n, []).append([(x - mx, y - my) for x, y in h])
    return out


def shapes(tier):
    return polygons(3, (3, 4, 5, 6)) if tier == 'quick' else {**polygons(4, (3, 4)), **{k: v for k, v in polygons(3, (5, 6)).items()}}


def oracle(A, B):
    """A (N,n,2), B (N,m,2) integer arrays, counter-clockwise. Returns (share a point, interiors overlap, decided without rounding)"""
    N, n, m = len(A), A.shape[1], B.shape[1]
    share = np.zeros(N, dtype=bool)

    def orient(p, q, r):
        return np.sign((q[..., 0] - p[..., 0]) * (r[..., 1] - p[..., 1]) - (q[..., 1] - p[..., 1]) * (r[..., 0] - p[..., 0]))

    def inside(P, pt):
        ok = np.ones(N, dtype=bool)
        k = P.shape[1]
        for i in range(k):
            ok &= orient(P[:, i], P[:, (i + 1) % k], pt) >= 0
        return ok

    def between(p, q, r):      # r on the segment pq, given that the three are collinear
        return ((np.minimum(p, q) <= r) & (r <= np.maximum(p, q))).all(-1)
    for i in range(m):
        share |= inside(A, B[:, i])
    for i in range(n):
        share |= inside(B, A[:, i])
    for i in range(n):
        p, q = A[:, i], A[:, (i + 1) % n]
        for j in range(m):
            r, s = B[:, j], B[:, (j + 1) % m]
            o1, o2, o3, o4 = orient(p, q, r), orient(p, q, s), orient(r, s, p), orient(r, s, q)
            share |= (o1 * o2 < 0) & (o3 * o4 < 0)
            share |= (o1 == 0) & between(p, q, r) | (o2 == 0) & between(p, q, s) | (o3 == 0) & between(r, s, p) | (o4 == 0) & between(r, s, q)
    # touching only: some edge line of one has the other entirely on its far side
    touch = np.zeros(N, dtype=bool)
    slant = np.zeros(N, dtype=bool)
    for P, Q in ((A, B), (B, A)):
        k = P.shape[1]
        for i in range(k):
            p, q = P[:, i], P[:, (i + 1) % k]
            o = np.stack([orient(p, q, Q[:, j]) for j in range(Q.shape[1])], axis=1)
            t = (o <= 0).all(1)
            touch |= t
            e = q - p
            slant |= t & (e[:, 0] != 0) & (e[:, 1] != 0)
    return share, share & ~touch, ~(share & touch & slant)


def tasks(tier):
    S = shapes(tier)
    t = []
    for n in S:
        for m in S:
            parts = max(1, len(S[n]) * len(S[m]) // (400 if tier == 'quick' else 4000))
            for p in range(parts):
                t.append(dict(n=n, m=m, part=p, parts=parts, tier=tier))
    return t


def variants(P):
    """every starting vertex, both orientations"""
    n = P.shape[1]
    for i in range(n):
        r = np.roll(P, i, axis=1)
        yield r
        yield r[:, ::-1].copy()


def run_task(t, out):
    sa = loader.tamp_module('turtlebot_move', 'separating_axis')
    S = shapes(t['tier'])
    pairs = list(itertools.product(S[t['n']], S[t['m']]))[t['part']::t['parts']]
    K = 2.5 if t["tier"] == "quick" else 4
    shifts = [(x, y) for x in range(-int(2 * K), int(2 * K) + 1) for y in range(-int(2 * K), int(2 * K) + 1)]   # in half steps
    SH = np.array(shifts)
    scale = [1.0, 0.5, 0.25][t['part'] % 3]     # powers of two: exact
    stack = []
    for pi, (a, b) in enumerate(pairs):
        A0 = np.repeat(np.array([a]) * 2, len(SH), axis=0)
        B0 = np.array([b]) * 2 + SH[:, None, :]
        share, deep, exact = oracle(A0, B0)
        box = ((A0.min(1) <= B0.max(1)) & (B0.min(1) <= A0.max(1))).all(1)
        A, B = A0 * scale, B0 * scale
        # one by one
        for i in range(len(SH)):
            va, vb = A[i], B[i]
            k = (i + pi) % 4
            if k & 1:
                va = va[::-1].copy()
            if k & 2:
                va, vb = np.roll(va, 1 + i % 2, axis=0), np.roll(vb, 1, axis=0)[::-1].copy()
            args = (va, vb) if i % 3 else ([tuple(map(float, p)) for p in va], [tuple(map(float, p)) for p in vb])
            for order in (0, 1):
                x, y = args if not order else args[::-1]
                got = guard(sa.separating_axis_theorem, x, y)
                out.count('evaluations')
                out.n['nontrivial'] += bool(box[i])
                judge(out, got, share[i], exact[i], 'single', va if not order else vb, vb if not order else va)
        out.outcome('overlapping', int(deep.sum()))
        out.outcome('touching', int((share & ~deep).sum()))
        out.outcome('apart', int((~share).sum()))
        # a hair's breadth off every touching position, in each of the four directions (no rounding comes near that)
        near = np.nonzero(share & ~deep)[0]
        if len(near):
            off = np.array([(1, 0), (-1, 0), (0, 1), (0, -1)])
            Ah = np.repeat(A0[near] * H, 4, axis=0)
            Bh = np.repeat(B0[near] * H, 4, axis=0) + np.tile(off, (len(near), 1))[:, None, :]
            hs, hd, he = oracle(Ah, Bh)
            Ah, Bh = Ah * (scale / H), Bh * (scale / H)
            for i in range(pi % 5, len(Ah), 5):
                got = guard(sa.separating_axis_theorem, Ah[i], Bh[i])
                judge(out, got, hs[i], he[i], 'single', Ah[i], Bh[i])
            if t['n'] == t['m']:
                batch(out, guard(sa.vec_separating_axis_theorem, Ah.copy(), Bh.copy()), hs, he, Ah, Bh)
                batch(out, guard(sa.vec_separating_axis_theorem, Bh.copy(), Ah.copy()), hs, he, Bh, Ah)
            out.count('evaluations', len(Ah) // 5 + 2 * len(Ah) * (t['n'] == t['m']))
            out.outcome('apart by a hair', int((~hs).sum()))
            out.outcome('overlapping by a hair', int(hd.sum()))
        if t['n'] == t['m']:
            vb = list(variants(B))
            for k, X in enumerate(variants(A)):
                Y = vb[(k * 3 + pi) % len(vb)]
                for x, y in ((X, Y), (Y, X)):
                    got = guard(sa.vec_separating_axis_theorem, x.copy(), y.copy())
                    out.count('evaluations', len(SH))
                    out.count('nontrivial', int(box.sum()))
                    batch(out, got, share, exact, x, y)
            stack.append((A, B, share, exact))
            for i in range(0, len(SH), 5):
                got = guard(sa.vec_separating_axis_theorem, A[i:i + 1].copy(), B[i:i + 1].copy())
                out.count('evaluations')
                batch(out, got, share[i:i + 1], exact[i:i + 1], A[i:i + 1], B[i:i + 1])
        if out.stop:
            return
    if stack:            # all pairs in all positions in one call
        A, B, share, exact = [np.concatenate(x) for x in zip(*stack)]
        for k in (0, 5):
            got = guard(sa.vec_separating_axis_theorem, A[k:].copy(), B[k:].copy())
            batch(out, got, share[k:], exact[k:], A[k:], B[k:])
        for how in FORMS:
            x, y = as_form(how, A[::3]), as_form(how, B[::3])
            if x is not None and y is not None:
                batch(out, guard(sa.vec_separating_axis_theorem, x, y), share[::3], exact[::3], A[::3], B[::3], how)
        out.count('evaluations', 2 * len(A))
        out.count('rows_in_large_batches', len(A))
    out.sample(dict(a=A[0].tolist(), b=B[0].tolist(), share=bool(share[0])))


def judge(out, got, share, exact, kind, a, b):
    if isinstance(got, Raised):
        out.violate('raised', '%s: %s and %s raised %s' % (kind, a.tolist(), b.tolist(), got.text), dict(kind=kind, a=a, b=b))
    elif exact and bool(got) != bool(share):
        out.violate('verdict', '%s: polygons %s and %s %s a point, reported %s' % (
            kind, a.tolist(), b.tolist(), 'share' if share else 'do not share', bool(got)), dict(kind=kind, a=a, b=b))


def batch(out, got, share, exact, A, B, how='readonly'):
    if isinstance(got, Raised):
        return judge(out, got, None, True, 'batch', A[:1], B[:1])
    got = np.asarray(got)
    if got.shape != (len(A),):
        out.violate('shape', 'batch of %d pairs gave an answer of shape %s' % (len(A), got.shape), dict(kind='batch', a=A, b=B, form=how))
        return
    bad = np.nonzero(exact & (got.astype(bool) != share))[0]
    for i in bad[:1]:
        out.violate('batch', 'in a batch of %d: polygons %s and %s %s a point, reported %s' % (
            len(A), A[i].tolist(), B[i].tolist(), 'share' if share[i] else 'do not share', bool(got[i])),
            dict(kind='batch', a=A, b=B, form=how))


def replay(rec):
    sa = loader.tamp_module('turtlebot_move', 'separating_axis')
    A, B = np.array(rec['a'], dtype=float), np.array(rec['b'], dtype=float)
    if rec['kind'] == 'single':
        A, B = A[None], B[None]
        got = np.array([guard(sa.separating_axis_theorem, A[0], B[0])])
    else:
        got = guard(sa.vec_separating_axis_theorem, *[as_form(rec.get('form', 'readonly'), x) for x in (A, B)])
    if isinstance(got, Raised) or isinstance(got[0], Raised):
        return ['raised']

    def ccw(P):
        s = (P[:, 1, 0] - P[:, 0, 0]) * (P[:, 2, 1] - P[:, 0, 1]) - (P[:, 1, 1] - P[:, 0, 1]) * (P[:, 2, 0] - P[:, 0, 0])
        return np.where((s > 0)[:, None, None], P, P[:, ::-1])
    A, B = [np.rint(P * (4.0 * H)).astype(np.int64) if np.abs(P).max() < 16 else P for P in (A, B)]
    share, deep, exact = oracle(ccw(A), ccw(B))
    return ['pair %d: expected %s' % (i, bool(share[i])) for i in np.nonzero(exact & (got.astype(bool) != share))[0]]
