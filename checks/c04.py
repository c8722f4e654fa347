"""C04 segment intersection: every quadruple of lattice end points, every batch shape, exact integer oracle."""
import itertools
import numpy as np
from mc.core import as_form, guard, Raised, FORMS

ID, LEVEL = 'C04', 'exploration'
PRELOAD = ['nonasymptotic.util']
TECHNIQUE = 'exhaustive enumeration of a bounded lattice of inputs and batch shapes on the real code, exact oracle'
NOTE = 'Every quadruple of end points of several exact lattices in every batch shape is executed against an exact ' \
       'integer oracle; nothing is claimed for coordinates outside the lattices.'
BOUNDS = {'quick': 'all quadruples of end points of six 4x4 lattices (integer, stretched dyadic, narrow-passage '
                   'coordinates, tiny, huge, nearly parallel), as many-vs-one, one-vs-many, many-vs-many; singles and 1-D inputs on a 3x3 lattice; '
                   'all 65536 quadruples of a lattice in one call, one segment against 20000 in one call; a seventh of '
                   'them as integers, in single precision, as strided, reversed, Fortran-ordered and read-only arrays',
          'thorough': 'as quick, plus a 6x5 and a 5x6 lattice'}
RULE = 'one case = one ordered quadruple of lattice points in one batch shape; non-trivial = degenerate, collinear, ' \
       'parallel or touching, or the two segments share a point'
ASSUMPTIONS = ['lattice coordinates are dyadic, so the arithmetic of the code is exact on them and ties are real ties']

LATS = {'int': ([0, 1, 2, 3], [0, 1, 2, 3]),
        'stretch': ([-2, 0, 0.125, 5], [-0.5, 0, 1, 1.25]),
        'passage': ([-1.5, -0.5, 0.5, 1.0], [-0.5, 0, 0.125, 0.5]),
        'tiny': ([0, 2 ** -24, 2 ** -23, 3 * 2 ** -24], [0, 2 ** -24, 2 ** -23, 3 * 2 ** -24]),
        'huge': ([0, 2 ** 24, 2 ** 25, 3 * 2 ** 24], [-2 ** 24, 0, 2 ** 24, 2 ** 25]),
        'flat': ([0, 1, 2 ** 20, 2 ** 20 + 1], [0, 1, 2, 2 ** 20])}
BIG = {'int6': ([0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4]),
       'dy6': ([-1.5, -0.5, 0, 0.25, 0.5, 1.5], [-0.5, -0.125, 0.0, 0.125, 0.5])}
SCALE = 64
UNIT = {'tiny': 2 ** 24, 'huge': 2.0 ** -24, 'flat': 1}      # what makes the coordinates of a lattice small integers


def oracle(a, b, c, d):
    """Exact: do closed segments ab and cd share a point? Integer arrays (n, 2)."""
    def orient(p, q, r):
        return np.sign((q[:, 0] - p[:, 0]) * (r[:, 1] - p[:, 1]) - (q[:, 1] - p[:, 1]) * (r[:, 0] - p[:, 0]))

    def on(p, q, r):     # r on segment pq, given collinear
        return ((np.minimum(p, q) <= r) & (r <= np.maximum(p, q))).all(axis=1)
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    proper = (o1 * o2 < 0) & (o3 * o4 < 0)
    touch = ((o1 == 0) & on(a, b, c)) | ((o2 == 0) & on(a, b, d)) | ((o3 == 0) & on(c, d, a)) | ((o4 == 0) & on(c, d, b))
    special = (o1 == 0) | (o2 == 0) | (o3 == 0) | (o4 == 0)
    return proper | touch, special


def tasks(tier):
    t = []
    lats = dict(LATS)
    if tier == 'thorough':
        lats.update(BIG)
    for name in lats:
        n = len(lats[name][0]) * len(lats[name][1])
        for i in range(0, n):
            t.append(dict(kind='grid', lat=name, first=i))
        t.append(dict(kind='stack', lat=name))
    t.append(dict(kind='single'))
    return t


def pts(name):
    xs, ys = {**LATS, **BIG}[name]
    return np.array(list(itertools.product(xs, ys)), dtype=float)


def compare(out, got, want, special, mk):
    if isinstance(got, Raised):
        out.violate('raised', 'raised %s' % got.text, mk(0))
        return
    got = np.asarray(got)
    if got.shape != want.shape:
        out.violate('shape', 'result shape %s for %d segment pairs' % (got.shape, want.shape[0]), mk(0))
        return
    out.count('evaluations', len(want))
    out.count('nontrivial', int((special | want).sum()))
    out.outcome('intersect', int(want.sum()))
    out.outcome('apart', int((~want).sum()))
    bad = np.nonzero(got.astype(bool) != want)[0]
    for i in bad[:2]:
        c = mk(i)
        out.violate('verdict', 'segments %s: reported %s, exact answer %s' % (c['segs'], bool(got[i]), bool(want[i])), c)


def run_task(t, out):
    from nonasymptotic.util import detect_intersect
    if t['kind'] == 'grid':
        P = pts(t['lat'])
        I = (P * UNIT.get(t['lat'], SCALE)).astype(np.int64)
        n = len(P)
        a = t['first']
        idx2 = np.array(list(itertools.product(range(n), repeat=2)))
        C, D = P[idx2[:, 0]], P[idx2[:, 1]]
        Ci, Di = I[idx2[:, 0]], I[idx2[:, 1]]
        rep = lambda x: np.repeat(x[None, :], len(C), axis=0)
        for b in range(n):
            want, special = oracle(rep(I[a]), rep(I[b]), Ci, Di)
            shapes = {'one-many': (P[[a]], P[[b]], C, D), 'many-one': (C, D, P[[a]], P[[b]]),
                      'many-many': (rep(P[a]), rep(P[b]), C, D), '1d-many': (P[a], P[b], C, D),
                      'many-1d': (C, D, P[a], P[b])}
            for sh, args in shapes.items():
                saved = [x.copy() for x in args]
                got = guard(detect_intersect, *args)
                mk = lambda i, sh=sh, b=b: dict(shape=sh, segs=[P[a].tolist(), P[b].tolist(), C[i].tolist(), D[i].tolist()])
                compare(out, got, want, special, mk)
                if any((x != y).any() for x, y in zip(args, saved)):
                    out.violate('inputs', 'the end points passed in were modified', mk(0))
            if out.stop:
                return
        out.sample(dict(lattice=t['lat'], s1=[P[a].tolist(), P[n // 2].tolist()], against='all %d segments' % len(C)))
    elif t['kind'] == 'stack':
        # every quadruple in one call; then one segment against all pairs, repeated, in one call
        P = pts(t['lat'])
        I = (P * UNIT.get(t['lat'], SCALE)).astype(np.int64)
        n = len(P)
        q = np.array(list(itertools.product(range(n), repeat=4)))
        q = q[:300000]
        for pick in (q, q[::-1][:-7]):
            want, special = oracle(*[I[pick[:, k]] for k in range(4)])
            mk = lambda i: dict(shape='many-many', segs=[P[j].tolist() for j in pick[i]], rows=len(pick), row=int(i))
            compare(out, guard(detect_intersect, *[P[pick[:, k]] for k in range(4)]), want, special, mk)
        for a, b in ((0, n - 1), (n // 2, n // 2), (1, n // 2)):
            one, other = q[:20000, 2:], [P[[a]], P[[b]]]
            want, special = oracle(np.repeat(I[[a]], len(one), 0), np.repeat(I[[b]], len(one), 0), I[one[:, 0]], I[one[:, 1]])
            for sh, args in (('one-many', other + [P[one[:, 0]], P[one[:, 1]]]), ('many-one', [P[one[:, 0]], P[one[:, 1]]] + other)):
                mk = lambda i, sh=sh: dict(shape='many-many', rows=len(one), segs=[P[a].tolist(), P[b].tolist()] + [P[j].tolist() for j in one[i]])
                compare(out, guard(detect_intersect, *args), want, special, mk)
        out.count('rows_in_large_batches', len(q))
        q = q[::7]
        for how in FORMS:
            if t['lat'] in UNIT and ('32' in how or 'int' in how):      # the products would not fit
                continue
            args = [as_form(how, P[q[:, k]]) for k in range(4)]
            if any(a is None for a in args):
                continue
            want, special = oracle(*[I[q[:, k]] for k in range(4)])
            mk = lambda i: dict(shape='many-many', segs=[P[j].tolist() for j in q[i]], form=how)
            compare(out, guard(detect_intersect, *args), want, special, mk)
    else:
        P = np.array(list(itertools.product([0., 1., 2.], repeat=2)))
        I = P.astype(np.int64)
        q = np.array(list(itertools.product(range(9), repeat=4)))
        want, special = oracle(I[q[:, 0]], I[q[:, 1]], I[q[:, 2]], I[q[:, 3]])
        for k in range(len(q)):
            args = [P[j] for j in q[k]]
            if k % 2:
                args = [x[None, :] for x in args]
            got = guard(detect_intersect, *args)
            compare(out, got, want[k:k + 1], special[k:k + 1], lambda i: dict(shape='single', segs=[x.ravel().tolist() for x in args]))
            if out.stop:
                return


def replay(case):
    from nonasymptotic.util import detect_intersect
    s = [np.array([x], dtype=float) for x in case['segs']]
    sh = case.get('shape', '')
    i = [np.array([[int(v * 2 ** 40) for v in x[0]]], dtype=object) for x in s]      # exact
    want, _ = oracle(*i)
    two = [np.repeat(x, case.get('rows', 2), axis=0) for x in s]
    args = {'one-many': (s[0], s[1], two[2], two[3]), 'many-one': (two[2], two[3], s[0], s[1]),
            'many-many': two, '1d-many': (s[0][0], s[1][0], two[2], two[3]),
            'many-1d': (two[2], two[3], s[0][0], s[1][0])}.get(sh, s)
    got = guard(detect_intersect, *[as_form(case['form'], a) for a in args] if 'form' in case else args)
    if isinstance(got, Raised):
        return [got.text]
    got = np.asarray(got)
    return [] if all(bool(g) == bool(want[0]) for g in got.ravel()) else ['reported %s, exact answer %s' % (got, want)]
