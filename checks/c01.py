"""C01 narrow-passage motions: every ordered pair of lattice points, dimensions and clearances, exact oracle."""
import itertools
import numpy as np
from mc.core import as_form, guard, Raised, FORMS

ID, LEVEL = 'C01', 'exploration'
PRELOAD = ['nonasymptotic.envs']
TECHNIQUE = 'exhaustive enumeration of all ordered pairs of lattice points x dimensions x clearances on the real code, exact oracle'
NOTE = 'Every ordered pair of points of lattices that contain all wall corners, faces and points outside is executed, ' \
       'as batches and one by one, against an exact integer oracle; nothing is claimed off the lattices.'
BOUNDS = {'quick': 'dim 2: 15x15 lattice; dim 3: 8x7x7; dim 4: 4x5x5x5; clearances 1/16, 1/8, 1/4, 3/8 (and 0.1 with a '
                   '1e-9 margin); batches of all goals per start, singles on a 6x6 and a 5x3x3 lattice; all pairs of the dim 2 '
                   'lattice (50625) in one call; dim 5-23: all pairs of ~130 points with one cross-section coordinate off the axis; '
                   'motions along one axis between points 2e-9 from the walls (dim 2-3)',
          'thorough': 'as quick with denser lattices (dim 2: 25x23, dim 3: 11x9x9, dim 4: 6x5x5x5) and dim 5: 4x4^4'}
RULE = 'one case = one ordered pair of end points, dimension, clearance; non-trivial = the segment enters the slab ' \
       '|x0| <= 1/2 between two free end points'
ASSUMPTIONS = ['dyadic lattice coordinates and clearances, so grazing contact is exact; contacts at a parameter that is '
               'not a dyadic number are not judged']
S = 64


def coords(dim, c, tier, small=False):
    if small:
        x0 = [-1.5, -0.5, 0.0, 0.25, 0.5, 1.0] if dim == 2 else [-1.0, -0.5, 0.0, 0.5, 1.0]
        xi = [-0.5, -c, 0.0, c / 2, c, 0.5] if dim == 2 else [-c, 0.0, 0.5]
    elif dim == 2:
        x0 = [-1.75, -1.5, -1.25, -1.0, -0.625, -0.5, -0.375, 0.0, 0.25, 0.5, 0.625, 0.75, 1.25, 1.5, 1.75]
        xi = [-0.625, -0.5, -0.4375, -c - 1 / 32, -c, -c + 1 / 32, -1 / 64, 0.0, c / 2, c - 1 / 64, c, c + 1 / 32, 0.375, 0.5, 0.75]
        if tier == 'thorough':
            x0 += [-1.375, -1.125, -0.875, -0.75, -0.25, -0.125, 0.125, 0.375, 0.875, 1.0]
            xi += [-0.25, -0.125, 1 / 32, 0.125, 0.25, -0.3125, 0.3125, 0.4375]
    elif dim == 3:
        x0 = [-1.5, -0.75, -0.5, -0.25, 0.0, 0.5, 0.75, 1.5]
        xi = [-0.5, -c, -c / 2, 0.0, c - 1 / 64, c, 0.5]
        if tier == 'thorough':
            x0 += [-1.0, 0.25, 1.25]
            xi += [-c - 1 / 32, 0.375]
    elif dim == 4:
        x0 = [-1.0, -0.5, 0.25, 1.5] + ([0.5, -0.75] if tier == 'thorough' else [])
        xi = [-0.5, -c, 0.0, c - 1 / 64, 0.5]
    else:
        x0 = [-1.0, -0.5, 0.5, 1.5]
        xi = [-0.5, 0.0, c - 1 / 64, c]
    xi = sorted(set(xi))
    return sorted(x0), xi


def points(dim, c, tier, small=False):
    x0, xi = coords(dim, c, tier, small)
    return np.array(list(itertools.product(x0, *[xi] * (dim - 1))), dtype=float)


def oracle(a, b, ci, half=S // 2):
    """a, b: (n, d) integers (x S), ci: clearance x S (integer).
    Returns valid, judged, nontrivial."""
    n, d = a.shape
    lo, hi = np.array([-3 * half] + [-half] * (d - 1)), np.array([3 * half] + [half] * (d - 1))

    def in_free(p):
        inb = ((p >= lo) & (p <= hi)).all(1)
        wall = (np.abs(p[:, 0]) <= half) & (np.abs(p[:, 1:]) >= ci).any(1)
        return inb & ~wall
    fa, fb = in_free(a), in_free(b)
    D = b - a
    den = np.abs(D[:, 0])
    par = den == 0
    den1 = np.where(par, 1, den)
    sg = np.where(D[:, 0] < 0, -1, 1)
    # parameter n/den at which x0 = -half and +half
    n_lo = (-half - a[:, 0]) * sg
    n_hi = (half - a[:, 0]) * sg
    t1, t2 = np.minimum(n_lo, n_hi), np.maximum(n_lo, n_hi)
    t1, t2 = np.maximum(t1, 0), np.minimum(t2, den1)
    t1 = np.where(par, 0, t1)
    t2 = np.where(par, 1, t2)
    enters = np.where(par, np.abs(a[:, 0]) <= half, t1 <= t2)
    hit = np.zeros(n, bool)
    tie = np.zeros(n, bool)
    nondy = np.zeros(n, bool)
    for t in (t1, t2):
        v = np.abs(a[:, 1:] * den1[:, None] + D[:, 1:] * t[:, None])
        w = ci * den1[:, None]
        hit |= (v > w).any(1) & enters
        eq = (v == w).any(1) & enters
        red = den1 // np.gcd(t, den1)
        nondy |= eq & ((red & (red - 1)) != 0)
        tie |= eq
    valid = fa & fb & ~hit & ~tie
    judged = ~(nondy & ~hit & fa & fb)
    return valid, judged, enters & fa & fb


def oracle_float(a, b, c, eps=1e-9):
    """Same with a margin, for clearances that are not dyadic."""
    res, judged, nt = [], [], []
    lo = np.array([-1.5] + [-0.5] * (a.shape[1] - 1))
    for p, q in zip(a, b):
        fine, sure = True, True
        for x in (p, q):
            if (x < lo).any() or (x > -lo).any():
                fine = False
            elif abs(x[0]) <= 0.5:
                m = c - np.abs(x[1:]).max()
                fine &= m > 0
                sure &= abs(m) > eps
        inside = False
        if fine:
            d0 = q[0] - p[0]
            if d0 == 0:
                iv = (0.0, 1.0) if abs(p[0]) <= 0.5 else None
            else:
                u, v = sorted(((-0.5 - p[0]) / d0, (0.5 - p[0]) / d0))
                u, v = max(u, 0.0), min(v, 1.0)
                iv = (u, v) if u <= v + 1e-12 else None
            if iv:
                inside = True
                m = c - max(np.abs(p[1:] + t * (q - p)[1:]).max() for t in iv)
                fine &= m > 0
                sure &= abs(m) > eps
        res.append(fine)
        judged.append(sure)
        nt.append(inside)
    return np.array(res), np.array(judged), np.array(nt)


CLS = [1 / 16, 1 / 8, 1 / 4, 3 / 8]


WIDE = [5, 6, 7, 10, 14, 20, 23]      # dimensions of the shipped configurations and in between


def sparse(dim, c):
    """Points of a high-dimensional passage with at most one cross-section coordinate off the axis."""
    rows = []
    for x0 in (-1.0, -0.5, 0.25, 0.5, 1.5):
        for j in sorted({1, 2, 3, dim // 2, dim - 3, dim - 2, dim - 1}):
            for v in (0.0, c - 1 / 64, c, -c, 0.5):
                if v or j == 1:
                    r = [x0] + [0.0] * (dim - 1)
                    r[j] = v
                    rows.append(r)
    return np.array(rows)


H = 2 ** 29                           # hair's breadth: points 1/H from the walls, motions along one axis


def hair(dim, c):
    h = 1 / H
    x0 = [-1.5 - h, -1.5, -1.0, -0.5 - h, -0.5, -0.5 + h, 0.0, 0.5 - h, 0.5, 0.5 + h, 1.0, 1.5, 1.5 + h]
    xi = [-0.5 - h, -0.5, -0.5 + h, -c - h, -c, -c + h, 0.0, c - h, c, c + h, 0.5 - h, 0.5, 0.5 + h]
    if dim > 2:
        x0, xi = [-1.5, -0.5 - h, -0.5, 0.0, 0.5, 0.5 + h, 1.5 + h], [-0.5 - h, -0.5, -c, -c + h, 0.0, c - h, c]
    return np.array(list(itertools.product(x0, *[xi] * (dim - 1))), dtype=float)


def tasks(tier):
    t = [dict(kind='hair', dim=d, c=c, tier=tier) for d in (2, 3) for c in CLS]
    dims = {2: CLS, 3: CLS, 4: [1 / 8, 1 / 4]}
    if tier == 'thorough':
        dims[4] = CLS
        dims[5] = [1 / 8]
    for dim, cs in dims.items():
        for c in cs:
            parts = 1 if dim == 2 and tier == 'quick' else (4 if tier == 'quick' else 8)
            for k in range(parts):
                t.append(dict(kind='grid', dim=dim, c=c, part=k, parts=parts, tier=tier))
    for c in CLS[:2] if tier == 'quick' else CLS:
        t.append(dict(kind='stack', dim=2, c=c, tier=tier))
        t += [dict(kind='wide', dim=d, c=c, tier=tier) for d in WIDE]
    for dim in (2, 3):
        t.append(dict(kind='single', dim=dim, c=1 / 8, tier=tier))
        t.append(dict(kind='dec', dim=dim, c=0.1, tier=tier))
    return t


def judge(out, got, want, judged, nt, mk):
    if isinstance(got, Raised):
        out.violate('raised', 'raised %s' % got.text, mk(0))
        return
    got = np.asarray(got)
    if got.shape != want.shape:
        out.violate('shape', 'result of shape %s for a batch of %d motions' % (got.shape, len(want)), mk(0))
        return
    out.count('evaluations', len(want))
    out.count('nontrivial', int(nt.sum()))
    out.count('not_judged', int((~judged).sum()))
    out.outcome('valid', int((want & judged).sum()))
    out.outcome('colliding', int((~want & judged).sum()))
    bad = np.nonzero((got.astype(bool) != want) & judged)[0]
    for i in bad[:2]:
        c = mk(i)
        out.violate('verdict', 'dim %d clearance %s motion %s -> %s reported %s, is %s' % (
            c['dim'], c['c'], c['a'], c['b'], 'valid' if got[i] else 'invalid', 'valid' if want[i] else 'invalid'), c)


def run_task(t, out):
    from nonasymptotic.envs import NarrowPassage
    dim, c = t['dim'], t['c']
    env = NarrowPassage(dim, c, 0)
    if t['kind'] == 'hair':
        P = hair(dim, c)
        I = np.rint(P * H).astype(np.int64)
        assert (I == P * H).all()
        idx = np.array(list(itertools.product(range(len(P)), repeat=2)))
        idx = idx[((P[idx[:, 0]] != P[idx[:, 1]]).sum(1) <= 1)]
        want, judged, nt = oracle(I[idx[:, 0]], I[idx[:, 1]], int(c * H), H // 2)
        mk = lambda q: dict(dim=dim, c=c, a=P[idx[q, 0]].tolist(), b=P[idx[q, 1]].tolist(), hair=True)
        judge(out, guard(env.is_motion_valid, P[idx[:, 0]], P[idx[:, 1]]), want, judged, nt, mk)
        return
    P = sparse(dim, c) if t['kind'] == 'wide' else points(dim, c, t['tier'], small=t['kind'] not in ('grid', 'stack'))
    I = np.rint(P * S).astype(np.int64)
    assert t['kind'] == 'dec' or (I == P * S).all()
    if t['kind'] == 'grid':
        for i in range(t['part'], len(P), t['parts']):
            A = np.repeat(P[[i]], len(P), axis=0)
            want, judged, nt = oracle(np.repeat(I[[i]], len(P), axis=0), I, int(c * S))
            a, b = A.copy(), P.copy()
            got = guard(env.is_motion_valid, a, b)
            mk = lambda j: dict(dim=dim, c=c, a=P[i].tolist(), b=P[j].tolist())
            judge(out, got, want, judged, nt, mk)
            if (a != A).any() or (b != P).any():
                out.violate('inputs', 'the end points passed in were modified', mk(0))
            if out.stop:
                return
        out.sample(dict(dim=dim, clearance=c, start=P[t['part']].tolist(), goals='all %d lattice points' % len(P)))
        return
    idx = np.array(list(itertools.product(range(len(P)), repeat=2)))
    if t['kind'] in ('stack', 'wide'):
        # every pair in one call, then a call that leaves out the first rows: one answer per row, whatever the size
        want, judged, nt = oracle(I[idx[:, 0]], I[idx[:, 1]], int(c * S))
        for k in (0, 1, len(idx) // 3):
            pick = idx[k:]
            mk = lambda q: dict(dim=dim, c=c, a=P[pick[q, 0]].tolist(), b=P[pick[q, 1]].tolist(), rows=len(pick), row=int(q))
            judge(out, guard(env.is_motion_valid, P[pick[:, 0]], P[pick[:, 1]]), want[k:], judged[k:], nt[k:], mk)
        out.count('rows_in_large_batches', len(idx))
        return
    if t['kind'] == 'single':
        want, judged, nt = oracle(I[idx[:, 0]], I[idx[:, 1]], int(c * S))
        for k, (i, j) in enumerate(idx):
            mk = lambda _: dict(dim=dim, c=c, a=P[i].tolist(), b=P[j].tolist(), single=True)
            judge(out, guard(env.is_motion_valid, P[[i]], P[[j]]), want[k:k + 1], judged[k:k + 1], nt[k:k + 1], mk)
            if out.stop:
                return
        # a batch in another order and of another size gives the same answers
        for perm in (idx[::-1], idx[::3], np.concatenate([idx[5:], idx[:5]])):
            w, jd, nn = oracle(I[perm[:, 0]], I[perm[:, 1]], int(c * S))
            judge(out, guard(env.is_motion_valid, P[perm[:, 0]], P[perm[:, 1]]), w, jd, nn,
                  lambda q: dict(dim=dim, c=c, a=P[perm[q, 0]].tolist(), b=P[perm[q, 1]].tolist(), batch='mixed'))
        # the same motions as other kinds of arrays (integers: those motions that have integer coordinates)
        whole = idx[(P[idx] == np.rint(P[idx])).all(axis=(1, 2))]
        for how in FORMS:
            pick = whole if how.startswith('int') else idx
            w, jd, nn = oracle(I[pick[:, 0]], I[pick[:, 1]], int(c * S))
            judge(out, guard(env.is_motion_valid, as_form(how, P[pick[:, 0]]), as_form(how, P[pick[:, 1]])), w, jd, nn,
                  lambda q: dict(dim=dim, c=c, a=P[pick[q, 0]].tolist(), b=P[pick[q, 1]].tolist(), form=how))
    else:
        want, judged, nt = oracle_float(P[idx[:, 0]], P[idx[:, 1]], c)
        judge(out, guard(env.is_motion_valid, P[idx[:, 0]], P[idx[:, 1]]), want, judged, nt,
              lambda q: dict(dim=dim, c=c, a=P[idx[q, 0]].tolist(), b=P[idx[q, 1]].tolist()))


def replay(case):
    from nonasymptotic.envs import NarrowPassage
    env = NarrowPassage(case['dim'], case['c'], 0)
    a, b = np.array([case['a']]), np.array([case['b']])
    msgs = []
    for n in (1, 2, case.get('rows', 1)):
        got = guard(env.is_motion_valid, *[as_form(case.get('form', 'readonly'), np.repeat(x, n, 0)) for x in (a, b)])
        if isinstance(got, Raised):
            return [got.text]
        if case['c'] in CLS:
            S_ = H if case.get('hair') else S
            want, judged, _ = oracle((a * S_).astype(int), (b * S_).astype(int), int(case['c'] * S_), S_ // 2)
        else:
            want, judged, _ = oracle_float(a, b, case['c'])
        if judged[0] and any(bool(g) != bool(want[0]) for g in np.ravel(got)):
            msgs.append('batch of %d: reported %s, exact answer %s' % (n, np.unique(got), want[0]))
    return msgs
