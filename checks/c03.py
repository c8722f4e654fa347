"""C03 straight-line tube: validity, volume, distance to the path on every lattice point / pair."""
import itertools
import numpy as np
from mc.core import as_form, guard, kept, Raised, FORMS

ID, LEVEL = 'C03', 'exploration'
PRELOAD = ['nonasymptotic.envs']
TECHNIQUE = 'exhaustive enumeration of lattice points, pairs and shapes of the tube on the real code, exact oracle'
NOTE = 'Every ordered pair of lattice points (all box corners, faces, points just inside and outside) is executed one by ' \
       'one and in batches; nothing is claimed off the lattices.'
BOUNDS = {'quick': 'dim 2-4, clearance 0, 1/16, 1/8, 1/4, 1/2, 3/2, length 1/4, 1/2, 1, 2, 3, 7; 9 x 5^(d-1) points (dim 4: 5 x 3^3); '
                   'dim 6-23: points with one coordinate off the axis; pairs one start at a time and all in one call; '
                   'distances of single points, all points and thousands of rows in one call',
          'thorough': 'as quick with dim 5 and 15 x 7^(d-1) points in dim 2-3'}
RULE = 'one case = one ordered pair (validity), one point (distance) or one shape (volume); non-trivial = an end point ' \
       'on the boundary or outside of the box, or a distance measured from beyond an end'
ASSUMPTIONS = ['dyadic coordinates, so points on the boundary are exactly on it']
CL = [0.0, 1 / 16, 1 / 8, 1 / 4, 1 / 2, 1.5]
LEN = [0.25, 0.5, 1.0, 2.0, 3.0, 7.0]


WIDE = [6, 7, 10, 14, 20, 23]      # dimensions of the shipped configurations: one coordinate off the axis at a time


def sparse(d, c, L):
    e = 1 / 64
    rows = []
    for x0 in (-c, L / 2, L + c, L + c + e):
        for j in sorted({1, 2, d // 2, d - 2, d - 1}):
            for v in (0.0, -c, c, c + e):
                if v or j == 1:
                    r = [x0] + [0.0] * (d - 1)
                    r[j] = v
                    rows.append(r)
    return np.array(rows)


def tasks(tier):
    return [dict(dim=d, c=c, tier=tier) for d in ((2, 3, 4) if tier == 'quick' else (2, 3, 4, 5)) for c in CL] + \
           [dict(dim=d, c=c, tier=tier) for d in WIDE for c in (CL if tier != 'quick' else [0.0, 1 / 8])]


def points(d, c, L, tier):
    e = 1 / 64
    t = 2.0 ** -40
    x0 = [-c - e, -c - t, -c, -c / 2, 0.0, L / 2, L, L + c - e / 4, L + c, L + c + t, L + c + e]
    xi = [-c - e, -c - t, -c, 0.0, c, c + t] if d == 2 else [-c - t, -c, 0.0, c, c + e]
    if d >= 4:
        x0, xi = [-c - e, -c, L / 2, L + c, L + c + e], [-c, 0.0, c + e]
    elif tier == 'thorough':
        x0 += [-c - 4, -e / 8, e / 8, L - e, L + e / 8, L + c + 5]
        xi += [-c / 2, c - e / 8 if c else -7.0]
    return np.array(list(itertools.product(sorted(set(x0)), *[sorted(set(xi))] * (d - 1))))


def run_task(t, out):
    from nonasymptotic.envs import StraightLine
    d, c = t['dim'], t['c']
    for L in LEN:
        env = guard(StraightLine, d, c, length=L, seed=3)
        base = dict(dim=d, c=c, length=L)
        if isinstance(env, Raised):
            out.violate('raised', 'building %s raised %s' % (base, env.text), base)
            return
        envs = [env] + ([guard(StraightLine, d, c)] if L == 1.0 else [])
        for env in envs:
            P = sparse(d, c, L) if d in WIDE else points(d, c, L, t['tier'])
            lo, hi = np.array([-c] * d), np.array([L + c] + [c] * (d - 1))
            inside = ((P >= lo) & (P <= hi)).all(1)
            edge = ~inside | (P == lo).any(1) | (P == hi).any(1)
            for i in range(len(P)):
                A = np.repeat(P[[i]], len(P), 0)
                got = kept(env.is_motion_valid, A, P)
                check(out, got, inside[i] & inside, int((edge | edge[i]).sum()), lambda j: dict(base, a=P[i].tolist(), b=P[j].tolist()))
                if out.stop:
                    return
            # all pairs in one call
            ij = np.array(list(itertools.product(range(len(P)), repeat=2)))
            for pick in (ij, ij[3:][::-1]):
                check(out, kept(env.is_motion_valid, P[pick[:, 0]], P[pick[:, 1]]), inside[pick[:, 0]] & inside[pick[:, 1]], 1,
                      lambda q: dict(base, a=P[pick[q, 0]].tolist(), b=P[pick[q, 1]].tolist(), rows=len(pick)))
            out.count('rows_in_large_batches', len(ij))
            for how in FORMS:
                Q = P[(P == np.rint(P)).all(1)] if how.startswith('int') else P
                if as_form(how, Q) is None or not len(Q):
                    continue
                into = ((Q >= lo) & (Q <= hi)).all(1)
                for sh in (1, len(Q) // 2):
                    check(out, guard(env.is_motion_valid, as_form(how, Q), as_form(how, np.roll(Q, sh, 0))), into & np.roll(into, sh), 1,
                          lambda q: dict(base, a=Q[q].tolist(), b=np.roll(Q, sh, 0)[q].tolist(), form=how))
                far = guard(env.distance_to_path, as_form(how, Q))
                wantf = np.sqrt(np.maximum(np.maximum(-Q[:, 0], Q[:, 0] - L), 0) ** 2 + (Q[:, 1:] ** 2).sum(1))
                out.count('evaluations', len(Q))
                if isinstance(far, Raised) or np.shape(far) != wantf.shape or (np.abs(far - wantf) > 1e-5).any():
                    out.violate('distance', '%s: distances of %s points: %s' % (base, how, getattr(far, 'text', far)), dict(base, p=Q[0].tolist(), form=how))
            step = 1 if d == 2 else max(1, len(P) // 40)
            for i in range(0, len(P), step):
                for j in range(0, len(P), step):
                    case = dict(base, a=P[i].tolist(), b=P[j].tolist(), single=True)
                    check(out, kept(env.is_motion_valid, P[i], P[j]), inside[i] & inside[j], int(edge[i] | edge[j]), lambda _: case)
                    if j < 3 * step:
                        check(out, kept(env.is_motion_valid, P[[i]], P[[j]]), np.array([inside[i] & inside[j]]), 1, lambda _: dict(case, single=False))
                if out.stop:
                    return
            vol = guard(lambda: env.volume)
            want = (L + 2 * c) * (2 * c) ** (d - 1)
            out.count('evaluations')
            out.count('nontrivial')
            if isinstance(vol, Raised) or abs(vol - want) > 1e-9 * want:
                out.violate('volume', '%s: volume %s, the box has %s' % (base, vol, want), dict(base, volume=True))
            got = kept(env.distance_to_path, P)
            beyond = np.maximum(np.maximum(-P[:, 0], P[:, 0] - L), 0)
            wantd = np.sqrt(beyond ** 2 + (P[:, 1:] ** 2).sum(1))
            out.count('evaluations', len(P))
            out.count('nontrivial', int((beyond > 0).sum()))
            if isinstance(got, Raised):
                out.violate('raised', 'distance_to_path raised %s' % got.text, dict(base, p=P[0].tolist()))
            elif np.shape(got) != wantd.shape:
                out.violate('shape', 'distance_to_path has shape %s for %d points' % (np.shape(got), len(P)), dict(base, p=P[0].tolist()))
            else:
                for k in np.nonzero(np.abs(got - wantd) > 1e-9)[0][:2]:
                    out.violate('distance', '%s point %s: distance %s, is %s' % (base, P[k].tolist(), got[k], wantd[k]), dict(base, p=P[k].tolist()))
                reps = 1 + 3000 // len(P)
                many = kept(env.distance_to_path, np.tile(P, (reps, 1)))
                if isinstance(many, Raised) or np.shape(many) != (reps * len(P),) or (np.abs(many - np.tile(wantd, reps)) > 1e-9).any():
                    out.violate('distance', '%s: %d points in one call: %s' % (base, reps * len(P), many), dict(base, p=P[0].tolist(), rows=reps * len(P)))
    out.sample(dict(dim=d, clearance=c, lengths=LEN, first_pair=[P[0].tolist(), P[-1].tolist()]))


def check(out, got, want, nt, mk):
    want = np.asarray(want)
    if isinstance(got, Raised):
        out.violate('raised', 'raised %s' % got.text, mk(0))
        return
    got = np.asarray(got)
    if got.shape != want.shape:
        out.violate('shape', 'verdicts of shape %s for motions of shape %s' % (got.shape, want.shape), mk(0))
        return
    out.count('evaluations', int(want.size))
    out.count('nontrivial', nt)
    out.outcome('valid', int(want.sum()))
    out.outcome('invalid', int((~want).sum()))
    for i in np.nonzero(np.atleast_1d(got.astype(bool) != want))[0][:2]:
        c = mk(i)
        out.violate('verdict', '%s reported %s' % (c, np.atleast_1d(got)[i]), c)


def replay(case):
    from nonasymptotic.envs import StraightLine
    d, c, L = case['dim'], case['c'], case['length']
    env = StraightLine(d, c, length=L)
    if case.get('volume'):
        want = (L + 2 * c) * (2 * c) ** (d - 1)
        return [] if abs(env.volume - want) <= 1e-9 * want else ['volume %s, box %s' % (env.volume, want)]
    if 'p' in case:
        p = np.array(case['p'])
        w = np.hypot(max(-p[0], p[0] - L, 0), np.linalg.norm(p[1:]))
        g = guard(env.distance_to_path, as_form(case['form'], p[None])) if 'form' in case else \
            kept(env.distance_to_path, np.repeat(p[None], case.get('rows', 1), 0))
        if isinstance(g, Raised):
            return [g.text]
        return [] if (np.abs(g - w) <= (1e-5 if 'form' in case else 1e-9)).all() else ['distance %s, is %s' % (g, w)]
    if 'a' not in case:
        return []
    a, b = np.array(case['a']), np.array(case['b'])
    lo, hi = np.array([-c] * d), np.array([L + c] + [c] * (d - 1))
    want = bool(((a >= lo) & (a <= hi) & (b >= lo) & (b <= hi)).all())
    msgs = []
    for g in (kept(env.is_motion_valid, a, b), kept(env.is_motion_valid, a[None], b[None]),
              kept(env.is_motion_valid, *[np.repeat(x[None], case.get('rows', 1), 0) for x in (a, b)]),
              guard(env.is_motion_valid, *[as_form(case.get('form', 'readonly'), x[None]) for x in (a, b)])):
        if isinstance(g, Raised):
            msgs.append(g.text)
        elif any(bool(x) != want for x in np.unique(g)):
            msgs.append('reported %s, is %s' % (g, want))
    return msgs
