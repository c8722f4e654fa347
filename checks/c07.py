"""C07 Gray-code corridor: structure of the path of cubes and distances to the wall on a lattice."""
import itertools
import numpy as np
from mc.core import guard, kept, Raised
from checks.gray import Corridor

ID, LEVEL = 'C07', 'exploration'
PRELOAD = ['nonasymptotic.envs']
TECHNIQUE = 'exhaustive enumeration of corridor shapes and of lattice points of every cube on the real code, geometric oracle'
NOTE = 'Every corridor up to a size is checked cube by cube; wall distances on a lattice of points per cube and ' \
       'thickness; points with an integer coordinate may be judged in either cube.'
BOUNDS = {'quick': 'dim 2-5, length 1-7, up to 112 cubes; 3^d..5^d points per cube, 4 thicknesses',
          'thorough': 'dim 2-7, length 1-12, up to 800 cubes; same lattices'}
RULE = 'one case = one cube of one corridor, or one point; non-trivial = a point whose nearest plane is open, or a cube ' \
       'where the path turns'
ASSUMPTIONS = []


def tasks(tier):
    t = []
    for d in range(2, 6 if tier == 'quick' else 8):
        for n in range(1, 8 if tier == 'quick' else 13):
            if n * 2 ** (d - 1) <= (112 if tier == 'quick' else 800):
                t.append(dict(dim=d, length=n, tier=tier))
    return t[::-1]


def problems(t, out=None, only=None):
    from nonasymptotic.envs import GrayCodeWalls
    d, n = t['dim'], t['length']
    for th in (0.0, 1 / 16, 1 / 4, 3 / 8):
        env = guard(GrayCodeWalls, d, n, thickness=th)
        if isinstance(env, Raised):
            yield 'raised', 'building %s raised %s' % (t, env.text), dict(t)
            return
        cubes = [tuple(int(v) for v in c) for c in env.no_walls_linear_list]
        grid = set(itertools.product(range(n), *[(0, 1)] * (d - 1)))
        if out:
            out.count('evaluations', len(cubes))
        if len(cubes) != len(set(cubes)) or set(cubes) != grid:
            yield 'cubes', '%s: the path does not visit every cube of the grid exactly once' % t, dict(t)
            return
        if cubes[0] != (0,) * d:
            yield 'start', '%s: the path starts at %s' % (t, cubes[0]), dict(t)
        for a, b in zip(cubes, cubes[1:]):
            if sum(abs(i - j) for i, j in zip(a, b)) != 1:
                yield 'adjacent', '%s: successive cubes %s, %s do not share a face' % (t, a, b), dict(t)
                return
            if b[0] < a[0]:
                yield 'monotone', '%s: first coordinate decreases from %s to %s' % (t, a, b), dict(t)
        if out:
            out.count('nontrivial', sum(1 for a, b, c in zip(cubes, cubes[1:], cubes[2:]) if
                                        [x - y for x, y in zip(b, a)] != [x - y for x, y in zip(c, b)]))
        G = env.no_walls_graph
        if set(G.nodes) != set(cubes) or set(G.edges) != set(zip(cubes, cubes[1:])):
            yield 'graph', '%s: the corridor graph is not the path of the list' % t, dict(t)
            return
        cor = Corridor(cubes, th)
        if d <= 3:
            off = [1 / 32, 1 / 4, 1 / 2, 11 / 16, 31 / 32] if d == 2 else [1 / 32, 9 / 16, 15 / 16]
        else:
            off = [3 / 32, 7 / 8]
        if n * 2 ** (d - 1) > 112:
            off = off[:1] + off[-1:]
        for c in cubes:
            for o in itertools.product(off + ([0.0] if d == 2 else []), *[off] * (d - 1)):
                x = np.array(c, dtype=float) + np.array(o)
                y = x.copy()
                got = kept(env.distance_to_wall, x)
                cs = cor.touching(y)
                wants = [cor.margin(q, y) for q in cs]
                if out:
                    out.count('evaluations')
                    near = min(min(o), 1 - max(o)) - th
                    out.count('nontrivial', int(abs(wants[0] - near) > 1e-12))
                    out.outcome('free' if wants[0] >= 0 else 'in wall')
                if isinstance(got, Raised) or not any(abs(got - w) < 1e-9 for w in wants):
                    yield 'distance', '%s thickness %s: distance of %s to the wall is reported %s, is %s' % (
                        t, th, y.tolist(), getattr(got, 'text', got), wants), dict(t, th=th, x=y.tolist())
                elif (x != y).any():
                    yield 'inputs', 'the point passed in was modified', dict(t, th=th, x=y.tolist())


def run_task(t, out):
    for key, msg, case in problems(t, out):
        out.violate(key, msg, case)
        if out.stop:
            return
    out.sample(dict(t))


def replay(case):
    return [m for _, m, _ in itertools.islice(problems(case), 5)]
