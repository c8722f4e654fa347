"""C02 Gray-code corridor motions: every ordered pair of lattice points, geometric oracle."""
import itertools
import numpy as np
from mc.core import guard, kept, Raised
from checks.gray import Corridor

ID, LEVEL = 'C02', 'exploration'
PRELOAD = ['nonasymptotic.envs']
TECHNIQUE = 'exhaustive enumeration of ordered pairs of lattice points x corridor shapes on the real code, geometric oracle'
NOTE = 'Every ordered pair of points of a lattice in every cube of small corridors is executed against an oracle that ' \
       'cuts the segment at the cube boundaries; contacts (margin below 1e-9) are not judged.'
BOUNDS = {'quick': 'dim 2 length 1-4 (5x5 points per cube), dim 3 length 1-2 (2x3x3), dim 4 length 1 (2^4); '
                   'thickness 0, 1/8, 1/4; face points of open faces in dim 2; points 6e-8 from the walls in dim 2-3',
          'thorough': 'dim 2 length 1-6 (6x6), dim 3 length 1-4 (3x3x3), dim 4 length 1-2, dim 5 length 1 (corner points); '
                      'thickness 0, 1/16, 1/8, 1/4'}
RULE = 'one case = one ordered pair of points in one corridor; non-trivial = the ends are in different cubes'
ASSUMPTIONS = ['the order of the cubes is read from the environment (no_walls_linear_list); property C07 checks it']

OFF = {2: [1 / 16, 5 / 16, 1 / 2, 11 / 16, 31 / 32], 3: [3 / 16, 1 / 2, 29 / 32], 4: [1 / 4, 13 / 16], 5: [9 / 32]}


def configs(tier):
    if tier == 'quick':
        sh = [(2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (4, 1)]
        th = [0.0, 1 / 8, 1 / 4]
    else:
        sh = [(2, n) for n in range(1, 7)] + [(3, n) for n in range(1, 5)] + [(4, 1), (4, 2), (5, 1)]
        th = [0.0, 1 / 16, 1 / 8, 1 / 4]
    return [(d, n, t) for d, n in sh for t in th]


def points(cor, tier):
    d = cor.dim
    off = list(OFF[d])
    if tier == 'thorough' and d == 2:
        off.append(7 / 8)
    first = off
    if d == 3 and tier == 'quick':
        first = [5 / 32, 25 / 32]
    pts = []
    for c in cor.cubes:
        for o in itertools.product(first, *[off] * (d - 1)):
            pts.append(tuple(a + b for a, b in zip(c, o)))
        for k, s in sorted(cor.open[c]) if d == 2 else []:
            for o in (3 / 8, 27 / 32):
                q = [c[0] + o, c[1] + o]
                q[k] = c[k] + (s > 0)
                if tuple(q) not in pts:
                    pts.append(tuple(q))
    return np.array(sorted(set(pts)), dtype=float)


def hair(cor, th):
    """Points 6e-8 from the walls, on either side, in every cube."""
    h = 2.0 ** -24
    off = [th - h, th + h, 1 / 2, 1 - th - h, 1 - th + h] if cor.dim == 2 else [th - h, 1 / 2, 1 - th - h]
    rows = []
    for c in cor.cubes:
        for o in itertools.product(off, repeat=cor.dim):
            if min(o) > 0 and max(o) < 1:
                rows.append(tuple(a + b for a, b in zip(c, o)))
    return np.array(rows)


def pairs(t, P, cor):
    if t.get('hair'):
        at = {tuple(c): k for k, c in enumerate(cor.cubes)}
        k = [at[tuple(c)] for c in np.floor(P).astype(int).tolist()]
        for i, j in itertools.product(range(len(P)), repeat=2):
            if abs(k[i] - k[j]) <= 1 and (P[i] - np.floor(P[i]) != P[j] - np.floor(P[j])).sum() <= 1:
                yield i, j
        return
    for i in range(t['part'], len(P), t['parts']):
        for j in range(len(P)):
            yield i, j


def tasks(tier):
    t = [dict(dim=d, length=n, th=th, part=0, parts=1, tier=tier, hair=True)
         for d, n in ((2, 3), (2, 4), (3, 1), (3, 2)) for th in (0.0, 1 / 8, 1 / 4)]
    for d, n, th in configs(tier):
        parts = 4 if (d, n) in ((2, 4), (3, 2), (4, 1)) else (16 if (d, n) in ((3, 3), (3, 4), (4, 2)) else 1)
        parts *= 2 if tier == 'thorough' else 1
        for k in range(parts):
            t.append(dict(dim=d, length=n, th=th, part=k, parts=parts, tier=tier))
    return sorted(t, key=lambda x: (-x['dim'], -x['length']))


def run_task(t, out):
    from nonasymptotic.envs import GrayCodeWalls
    env = guard(GrayCodeWalls, t['dim'], t['length'], thickness=t['th'])
    if isinstance(env, Raised):
        out.violate('raised', 'building the corridor raised %s' % env.text, t)
        return
    cor = Corridor(env.no_walls_linear_list, t['th'])
    P = hair(cor, t['th']) if t.get('hair') else points(cor, t['tier'])
    cube = np.floor(P).astype(int)
    for i, j in pairs(t, P, cor):
        a, b = P[i].copy(), P[j].copy()
        if (a == b).all() and (a == np.floor(a)).any():
            continue
        want = cor.segment(a, b)
        case = dict(dim=t['dim'], length=t['length'], th=t['th'], a=P[i].tolist(), b=P[j].tolist())
        got = kept(env.is_motion_valid, a, b)
        out.count('evaluations')
        out.count('nontrivial', int((cube[i] != cube[j]).any()))
        out.outcome(want or 'touching')
        if want is not None and (isinstance(got, Raised) or bool(got) != (want == 'valid')):
            out.violate('verdict', 'corridor dim %d length %d thickness %s: motion %s -> %s gives %s, is %s' % (
                t['dim'], t['length'], t['th'], case['a'], case['b'], getattr(got, 'text', got), want), case)
        elif isinstance(got, Raised):
            out.violate('raised', 'motion %s -> %s raised %s' % (case['a'], case['b'], got.text), case)
        if (a != P[i]).any() or (b != P[j]).any():
            out.violate('inputs', 'the end points passed in were modified', case)
        if out.stop:
            return
    out.sample(dict(dim=t['dim'], length=t['length'], thickness=t['th'], start=P[t['part']].tolist(), goals='all %d' % len(P)))


def replay(case):
    from nonasymptotic.envs import GrayCodeWalls
    env = GrayCodeWalls(case['dim'], case['length'], thickness=case['th'])
    if 'a' not in case:
        return []
    a, b = np.array(case['a']), np.array(case['b'])
    want = Corridor(env.no_walls_linear_list, case['th']).segment(a, b)
    got = kept(env.is_motion_valid, a, b)
    if isinstance(got, Raised):
        return [got.text]
    return ['reported %s, is %s' % (got, want)] if want and bool(got) != (want == 'valid') else []
