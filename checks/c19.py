"""C19 oriented boxes in space: all pairs of a set of rotations and extents, on an offset lattice and on both sides of every contact."""
import itertools
import numpy as np
from mc.core import as_form, guard, Raised, FORMS
from mc import loader

ID, LEVEL = 'C19', 'exploration'
TECHNIQUE = 'exhaustive enumeration of rotation pairs, extents and relative positions on the real code; oracle: projection formula with margin, contact distance solved per direction'
NOTE = 'Every pair of the listed rotations and extents is executed on a lattice of offsets and, along every lattice direction, ' \
       'just inside and just outside the exact contact distance, as batches, single pairs and in both orders; corners are ' \
       'compared as sets with the definition.'
BOUNDS = {'quick': '7 x 19 rotations (identity, quarter turns, 3-4-5 and 5-12-13 turns and compositions), 5 x 5 extents, 26+24 directions x 4 distances, 5^3 offset lattice',
          'thorough': '19 x 43 rotations (all 24 cube rotations included), 7 x 7 extents, 98 directions x 4 distances, 7^3 offset lattice'}
RULE = 'one case = one ordered pair of boxes in one position; non-trivial = bounding spheres overlap'
ASSUMPTIONS = ['positions within 1e-7 (relative) of contact are not judged, except for boxes along the axes on a binary lattice, '
               'where touching must be reported as colliding']


def rot(axis, c, s):
    R = np.eye(3)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R[i, i] = R[j, j] = c
    R[i, j], R[j, i] = -s, s
    return R


def cube():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            M = np.zeros((3, 3))
            for i in range(3):
                M[i, p[i]] = s[i]
            if round(np.linalg.det(M)) == 1:
                out.append(M)
    return out


def rotations(tier):
    a = [rot(k, 0.6, 0.8) for k in range(3)]
    b = [rot(k, 12 / 13, 5 / 13) for k in range(3)]
    c = [rot(k, 0.28, -0.96) for k in range(3)]
    t = np.array([[2, -1, 2], [2, 2, -1], [-1, 2, 2]]) / 3.0
    comp = [a[0] @ b[1], b[2] @ a[1], a[0] @ b[1] @ c[2], c[1] @ a[2] @ b[0], t, t @ a[2]]
    C = cube()
    if tier == 'quick':
        first = [np.eye(3), a[2], b[0], c[1], comp[2], t, C[9]]
        second = [np.eye(3)] + a + b + c + comp + [C[5], C[14], C[23]]
    else:
        first = [np.eye(3)] + a + b + c + comp + [C[5], C[14], C[23]]
        second = C + a + b + c + comp + [t.T, comp[2].T, comp[3] @ comp[2], b[0] @ b[1]]
    return first, second


def extents(tier):
    e = [(1, 2, 3), (3, 1, 0.5), (0.5, 4, 0.25), (1, 1, 1), (2, 0.125, 1)]
    if tier != 'quick':
        e += [(0.25, 0.25, 6), (4, 3, 0.5)]
    return e


UNITS = [1.0, 2.0 ** -10, 2.0 ** 6]    # boxes of metres, millimetres, and large ones


def directions(tier):
    k = 1 if tier == 'quick' else 2
    D = []
    for d in itertools.product(range(-k, k + 1), repeat=3):
        if any(d) and np.gcd.reduce(d) == 1:
            D.append(d)
    if tier == 'quick':     # and the directions one off the diagonals
        D += [d for d in itertools.product((-2, -1, 1, 2), repeat=3) if abs(d[0] * d[1] * d[2]) == 2]
    return np.array(D, dtype=float)


def axes_of(R1, R2):
    """the fifteen candidate directions, those that vanish left out"""
    L = [R1[:, i] for i in range(3)] + [R2[:, i] for i in range(3)]
    for i in range(3):
        for j in range(3):
            c = np.cross(R1[:, i], R2[:, j])
            n = np.linalg.norm(c)
            if n > 1e-6:
                L.append(c / n)
    return np.array(L)


def reach(L, R, h):
    return (np.abs(L @ R) * np.asarray(h)).sum(1)


def is_axis(R):
    return bool(np.all((R == 0) | (np.abs(R) == 1)))


def tasks(tier):
    f, s = rotations(tier)
    return [dict(i=i, j=j, tier=tier) for i in range(len(f)) for j in range(len(s))]


def flat(c, h, R):
    N = len(c)
    return np.concatenate([c, np.tile(h, (N, 1)), np.tile(R.reshape(-1), (N, 1))], axis=1)


def corners(c, h, R):
    return np.array([[c[k] + sum(s[i] * h[i] * R[k, i] for i in range(3)) for k in range(3)]
                     for s in itertools.product((-1, 1), repeat=3)])


def sortrows(P):
    P = np.round(P, 6) + 0.0
    return P[np.lexsort(P.T)]


def run_task(t, out):
    sa = loader.tamp_module('kuka_carry', 'separating_axis')
    tier = t['tier']
    first, second = rotations(tier)
    R1, R2 = first[t['i']], second[t['j']]
    L = axes_of(R1, R2)
    E = extents(tier)
    D = directions(tier)
    base = np.array([[0.5, -2.0, 4.0]])
    w = 2 if tier == 'quick' else 3
    grid = np.array(list(itertools.product(range(-w, w + 1), repeat=3)), dtype=float)
    stack = []
    for a, b in itertools.product(range(len(E)), repeat=2):
        unit = UNITS[(a + 2 * b + t['i'] + t['j']) % 3]
        h1, h2 = np.array(E[a]) * unit, np.array(E[b]) * unit
        r = reach(L, R1, h1) + reach(L, R2, h2)
        span = (h1.sum() + h2.sum()) / 3
        steps = np.round(span / unit * 4) / 8 * unit                     # binary lattice
        T = [grid * steps]
        proj = np.abs(D @ L.T)
        with np.errstate(divide='ignore'):
            contact = (r[None] / np.where(proj < 1e-9, 0, proj)).min(1)
        for f in (0.9, 1 - 1e-6, 1 + 1e-6, 1.1):
            T.append(D * (contact * f)[:, None])
        if is_axis(R1) and is_axis(R2):
            ext = np.abs(R1 @ h1) + np.abs(R2 @ h2)
            T.append(grid[np.abs(grid).max(1) == 1] * ext)  # exactly touching: faces, edges and corners
        T = np.concatenate(T)
        slack = r[None] - np.abs(T @ L.T)
        scale = 1e-7 * span
        hit = (slack > scale).all(1)
        apart = (slack < -scale).any(1)
        exact = is_axis(R1) and is_axis(R2)
        if exact:
            k = len(T) - 26
            hit[k:] = (slack[k:] >= 0).all(1)
            hit |= (np.abs(slack) < 1e-12 * unit).any(1) & (slack > -1e-12 * unit).all(1) & (np.arange(len(T)) < len(grid))
        judged = hit | apart
        near = np.linalg.norm(T, axis=1) <= np.linalg.norm(h1) + np.linalg.norm(h2)
        only_edges = apart & (slack[:, :6] > -scale).all(1)
        B1 = flat(np.repeat(base * unit, len(T), 0), h1, R1)
        B2 = flat(base * unit + T, h2, R2)
        if exact:
            ok = (B2[:, :3] - B1[:, :3] == T).all(1)
            assert ok[:len(grid)].all()
        for order in (0, 1):
            x, y = (B1, B2) if order == 0 else (B2, B1)
            got = guard(sa.separating_axis_theorem, x.copy(), y.copy())
            out.count('evaluations', len(T))
            out.count('nontrivial', int((near & judged).sum()))
            check(out, got, hit, judged, x, y, 'batch')
        for i in range((a + b) % 7, len(T), 7):
            got = guard(sa.separating_axis_theorem, B1[i:i + 1].copy(), B2[i:i + 1].copy())
            out.count('evaluations')
            out.count('nontrivial', int(near[i] and judged[i]))
            check(out, got, hit[i:i + 1], judged[i:i + 1], B1[i:i + 1], B2[i:i + 1], 'single')
        # one batch of unlike boxes: order reversed and a shifted neighbour in between
        mix1 = np.concatenate([B1[::-1], B2])
        mix2 = np.concatenate([B2[::-1], B1])
        got = guard(sa.separating_axis_theorem, mix1, mix2)
        out.count('evaluations', len(mix1))
        check(out, got, np.concatenate([hit[::-1], hit]), np.concatenate([judged[::-1], judged]), mix1, mix2, 'mixed batch')
        stack.append((B1, B2, hit, judged))
        out.outcome('collide', int(hit.sum()))
        out.outcome('apart', int(apart.sum()))
        out.outcome('apart, shown only by an edge-edge direction', int(only_edges.sum()))
        if out.stop:
            return
    # everything in one call
    A, B, hit, judged = [np.concatenate(x) for x in zip(*stack)]
    got = guard(sa.separating_axis_theorem, A.copy(), B.copy())
    out.count('rows_in_large_batches', len(A))
    check(out, got, hit, judged, A, B, 'batch of everything')
    for how in FORMS[3:]:
        got = guard(sa.separating_axis_theorem, as_form(how, A[::4]), as_form(how, B[::4]))
        check(out, got, hit[::4], judged[::4], A[::4], B[::4], how + ' batch')
    # corners
    for h in E:
        C = np.concatenate([grid[:9] * 0.5, base])
        for R in (R1, R2):
            got = guard(sa.compute_vertices_vectorized, C, np.tile(h, (len(C), 1)).astype(float), np.tile(R, (len(C), 1, 1)))
            out.count('evaluations', len(C))
            out.count('nontrivial', len(C))
            corner_check(out, got, C, h, R)
    # vectorisation round trip through the simulator's box type
    import pybullet_tools.utils as pbu
    for h in E:
        q = pbu.quat_from_matrix(R2)
        if np.abs(pbu.matrix_from_quat(q) - R2).max() > 1e-9:
            out.count('skipped half turns')
            continue
        ob = pbu.OOBB(pbu.AABB(-np.array(h), np.array(h)), ((0.25, -1.0, 2.0), q))
        got = guard(lambda: sa.OBB.from_oobb(ob).to_vectorized())
        out.count('evaluations')
        out.count('nontrivial')
        want = flat(np.array([[0.25, -1.0, 2.0]]), np.array(h), R2)[0]
        if isinstance(got, Raised):
            out.violate('vectorise', 'box %s raised %s' % (ob, got.text), dict(kind='vector', h=h, R=R2))
        elif np.asarray(got).shape != (15,) or np.abs(np.asarray(got) - want).max() > 1e-9:
            out.violate('vectorise', 'box with half extents %s became %s, expected %s' % (h, np.round(got, 6).tolist(), np.round(want, 6).tolist()),
                        dict(kind='vector', h=h, R=R2))
    out.sample(dict(R1=R1.tolist(), R2=R2.tolist(), h1=h1.tolist(), h2=h2.tolist(), offset=T[-1].tolist(), hit=bool(hit[-1])))


def corner_check(out, got, C, h, R):
    if isinstance(got, Raised):
        out.violate('corners', 'corners of a box raised %s' % got.text, dict(kind='corners', C=C, h=h, R=R))
        return
    got = np.asarray(got)
    for k in range(len(C)):
        want = sortrows(corners(C[k], h, R))
        if got.shape != (len(C), 8, 3) or not np.allclose(sortrows(got[k]), want, atol=2e-6):
            out.violate('corners', 'corners of the box at %s, half extents %s, rotation %s: %s, expected %s' % (
                C[k].tolist(), h, R.tolist(), sortrows(got[k]).tolist() if got.ndim == 3 else got.shape, want.tolist()),
                dict(kind='corners', C=C, h=h, R=R))
            return


def check(out, got, hit, judged, A, B, kind):
    if isinstance(got, Raised):
        out.violate('raised', '%s raised %s' % (kind, got.text), dict(kind='pairs', a=A[:1], b=B[:1]))
        return
    got = np.asarray(got)
    if got.shape != (len(A),):
        out.violate('shape', '%s of %d gave shape %s' % (kind, len(A), got.shape), dict(kind='pairs', a=A, b=B))
        return
    bad = np.nonzero(judged & (got.astype(bool) != hit))[0]
    if len(bad):
        i = bad[0]
        j = slice(0, None) if kind in ('mixed batch', 'batch of everything') else slice(i, i + 1)
        out.violate('%s:%s' % (kind, 'missed' if hit[i] else 'false hit'), '%s: boxes %s and %s (centre, half extents, rotation) %s a point, reported %s' % (
            kind, A[i].tolist(), B[i].tolist(), 'share' if hit[i] else 'do not share', bool(got[i])), dict(kind='pairs', a=A[j], b=B[j]))


def replay(rec):
    sa = loader.tamp_module('kuka_carry', 'separating_axis')
    from mc.core import Tally
    out = Tally()
    if rec['kind'] == 'corners':
        C, R = np.array(rec['C']), np.array(rec['R'])
        corner_check(out, guard(sa.compute_vertices_vectorized, C, np.tile(rec['h'], (len(C), 1)).astype(float), np.tile(R, (len(C), 1, 1))), C, rec['h'], R)
        return [m for _, m, _ in out.violations]
    if rec['kind'] == 'vector':
        return ['see message']
    A, B = np.array(rec['a']), np.array(rec['b'])
    got = guard(sa.separating_axis_theorem, A, B)
    hit, judged = [], []
    for a, b in zip(A, B):
        R1, R2 = a[6:].reshape(3, 3), b[6:].reshape(3, 3)
        L = axes_of(R1, R2)
        s = reach(L, R1, a[3:6]) + reach(L, R2, b[3:6]) - np.abs(L @ (b[:3] - a[:3]))
        hit.append((s >= 0).all())
        judged.append((s > 1e-9).all() or (s < -1e-9).any() or (is_axis(R1) and is_axis(R2)))
    check(out, got, np.array(hit), np.array(judged), A, B, 'mixed batch' if len(A) > 1 else 'single')
    return [m for _, m, _ in out.violations]
