"""C06 reference curves: every lattice parameter of every small environment."""
import itertools
import numpy as np
from mc.core import as_form, guard, kept, Raised, FORMS
from checks.gray import Corridor

ID, LEVEL = 'C06', 'exploration'
PRELOAD = ['nonasymptotic.envs']
TECHNIQUE = 'exhaustive enumeration of lattice parameters x environments on the real code, geometric oracle'
NOTE = 'The curve is evaluated at every multiple of a step that divides each of its legs, on both sides of every corner ' \
       'and outside [0, 1]; chords must equal arc lengths, so speed, continuity and end points are decided on the lattice.'
BOUNDS = {'quick': 'tube: dim 2-5, lengths 1/2-7; narrow passage: dim 2-5; Gray corridor: dim 2-5, length 1-5 (<= 48 cubes); '
                   '8 steps per half cube, +-1e-7 around every corner, distances on a 7 x 3^(d-1) lattice, thousands of rows in one call; '
                   'dim 7-23 with one coordinate at a time off a constant',
          'thorough': 'as quick with dim 6, corridors up to 200 cubes and 32 steps per half cube'}
RULE = 'one case = one pair of successive parameters or one query point; non-trivial = a corner of the curve, a clamped ' \
       'parameter or a point off the curve'
ASSUMPTIONS = ['the curve of each environment is axis-parallel with corners at multiples of half a cube, as documented']


def tasks(tier):
    t = []
    dims = [2, 3, 4, 5] + ([6] if tier == 'thorough' else [])
    for d in dims:
        for L in (0.5, 1.0, 2.0, 3.0, 7.0):
            t.append(dict(env='line', dim=d, length=L, c=1 / 8, tier=tier))
        t.append(dict(env='line', dim=d, length=1.0, c=0.0, tier=tier))
        for c in (1 / 64, 1 / 8, 3 / 8):
            t.append(dict(env='narrow', dim=d, c=c, tier=tier))
    for d in (7, 10, 14, 20, 23):
        for L in (1.0, 3.0):
            t.append(dict(env='line', dim=d, length=L, c=1 / 8, tier=tier))
        t.append(dict(env='narrow', dim=d, c=1 / 8, tier=tier))
    for d in dims:
        for n in range(1, 8 if tier == 'thorough' else 6):
            if n * 2 ** (d - 1) <= (200 if tier == 'thorough' else 48):
                for th in (0.0, 1 / 8, 3 / 8):
                    t.append(dict(env='gray', dim=d, length=n, th=th, tier=tier))
    return t


def build(t):
    from nonasymptotic import envs
    if t['env'] == 'line':
        return envs.StraightLine(t['dim'], t['c'], length=t['length'])
    if t['env'] == 'narrow':
        return envs.NarrowPassage(t['dim'], t['c'], 1)
    return envs.GrayCodeWalls(t['dim'], t['length'], thickness=t['th'])


def run_task(t, out):
    for key, msg, case in problems(t, out):
        out.violate(key, msg, case)
        if out.stop:
            return
    out.sample(dict(t))


def problems(t, out=None):
    env = guard(build, t)
    if isinstance(env, Raised):
        yield 'raised', 'building %s raised %s' % (t, env.text), t
        return
    d = t['dim']
    cor = None
    if t['env'] == 'line':
        s, e, L = np.zeros(d), np.array([t['length']] + [0.0] * (d - 1)), t['length']
    elif t['env'] == 'narrow':
        s, e, L = np.array([-0.5] + [0.0] * (d - 1)), np.array([0.5] + [0.0] * (d - 1)), 1.0
    else:
        cor = Corridor(env.no_walls_linear_list, t['th'])
        s, e = np.full(d, 0.5), np.array(cor.cubes[-1]) + 0.5
        L = float(len(cor.cubes) - 1)
        for name, want in (('start_point', s), ('end_point', e), ('get_curve_arclength', L)):
            got = guard(getattr(env, name))
            if isinstance(got, Raised) or np.shape(got) != np.shape(want) or np.abs(np.asarray(got) - want).max() > 1e-12:
                yield 'endpoint', '%s: %s gives %s, expected %s' % (t, name, got, want), dict(t)
                return

    def at(u):
        p = guard(env.arclength_to_curve_point, u)
        if isinstance(p, Raised):
            return None, ('raised', '%s: parameter %r raised %s' % (t, u, p.text), dict(t, u=u))
        p = np.asarray(p, dtype=float)
        if p.shape != (d,):
            return None, ('shape', '%s: parameter %r gives a point of shape %s' % (t, u, p.shape), dict(t, u=u))
        return p, None

    steps = 32 if t['tier'] == 'thorough' else 8
    legs = int(round(2 * L)) if cor else 2
    N = legs * steps
    prev = None
    for i in range(N + 1):
        u = i / N
        p, bad = at(u)
        if bad:
            yield bad
            return
        if out:
            out.count('evaluations')
            out.count('nontrivial', int(i % steps == 0))
        free = True
        if t['env'] == 'line':
            free = np.abs(p[1:]).max() <= t['c'] + 1e-9 and -t['c'] - 1e-9 <= p[0] <= t['length'] + t['c'] + 1e-9
        elif t['env'] == 'narrow':
            free = np.abs(p[1:]).max() < t['c'] and abs(p[0]) <= 0.5 + 1e-9
        else:
            q = np.where(np.abs(p - np.rint(p)) < 1e-9, np.rint(p), p)
            cs = cor.touching(q)
            free = bool(cs) and max(cor.margin(c, q) for c in cs) >= -1e-9
        if not free:
            yield 'free', '%s: curve point %s at %r is not in free space' % (t, p.tolist(), u), dict(t, u=u)
        if prev is not None and abs(np.linalg.norm(p - prev) - L / N) > 1e-9 * max(1, L):
            yield 'speed', '%s: from %r to %r the curve moves %s instead of %s' % (
                t, (i - 1) / N, u, np.linalg.norm(p - prev), L / N), dict(t, u=u)
        if i == 0 and np.abs(p - s).max() > 1e-9 or i == N and np.abs(p - e).max() > 1e-9:
            yield 'endpoint', '%s: curve at %r is %s' % (t, u, p.tolist()), dict(t, u=u)
        if cor and i % steps == 0:          # corners: cube centres and faces, continuous from both sides
            h = 1e-7
            for v in (u - h, u + h):
                q, bad = at(v)
                if bad:
                    yield bad
                    return
                w = min(max(v, 0.0), 1.0)
                if np.linalg.norm(q - p) > abs(w - u) * L * 1.01 + 1e-10:
                    yield 'continuity', '%s: the curve jumps between %r and %r' % (t, u, v), dict(t, u=u)
        prev = p
    for u, want in ((-0.25, s), (-3.0, s), (-1e-9, s), (1.25, e), (17.0, e), (1 + 1e-9, e), (0, s), (1, e)):
        p, bad = at(u)
        if bad:
            yield bad
            return
        if out:
            out.count('evaluations')
            out.count('nontrivial')
        if np.abs(p - want).max() > 1e-9:
            yield 'clamp', '%s: parameter %r gives %s' % (t, u, p.tolist()), dict(t, u=u)
    if t['env'] == 'gray':
        return
    x0 = [s[0] - 1, s[0] - 0.25, s[0], (s[0] + e[0]) / 2, s[0] + 0.25 * L, e[0], e[0] + 0.5]
    if d <= 6:
        P = np.array(list(itertools.product(x0, *[[-0.5, 0.0, 0.125]] * (d - 1))))
    else:
        P = np.array([[x] + [v if k == j else w for k in range(d - 1)] for x in x0 for j in range(d - 1)
                      for v in (-0.5, 0.0, 0.125) for w in (0.0, 0.25)])
    P = np.tile(P, (1 + 3000 // len(P), 1))
    got = kept(env.distance_to_path, P)
    beyond = np.maximum(np.maximum(s[0] - P[:, 0], P[:, 0] - e[0]), 0)
    want = np.sqrt(beyond ** 2 + (P[:, 1:] ** 2).sum(1))
    if out:
        out.count('evaluations', len(P))
        out.count('nontrivial', int((want > 0).sum()))
    if isinstance(got, Raised) or np.shape(got) != want.shape:
        yield 'distance', '%s: distance_to_path gives %s' % (t, getattr(got, 'text', np.shape(got))), dict(t)
    else:
        for k in np.nonzero(np.abs(got - want) > 1e-9)[0][:2]:
            yield 'distance', '%s: distance of %s is reported %s, is %s' % (t, P[k].tolist(), got[k], want[k]), dict(t, p=P[k].tolist())
    for how in FORMS:
        Q = P[(P == np.rint(P)).all(1)] if how.startswith('int') else P[:500]
        if as_form(how, Q) is None or not len(Q):
            continue
        got = guard(env.distance_to_path, as_form(how, Q))
        beyond = np.maximum(np.maximum(s[0] - Q[:, 0], Q[:, 0] - e[0]), 0)
        want = np.sqrt(beyond ** 2 + (Q[:, 1:] ** 2).sum(1))
        if isinstance(got, Raised) or np.shape(got) != want.shape or (np.abs(got - want) > 1e-5).any():
            yield 'distance', '%s: distances of %s points are wrong: %s' % (t, how, getattr(got, 'text', '')), dict(t)


def replay(case):
    return [m for _, m, _ in itertools.islice(problems(case), 5)]
