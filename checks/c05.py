"""C05 environment sampling: every answer sequence of the random source (choices enumerated with their
probabilities, uniform draws over an alphabet), for every small environment."""
import itertools
import numpy as np
from mc.core import guard, Raised
from mc.fakerng import FakeRNG, Relay, explore, patched, selector_cells
from checks.gray import Corridor

ID, LEVEL = 'C05', 'exploration'
PRELOAD = ['nonasymptotic.envs']
TECHNIQUE = 'exhaustive enumeration of the answers of the random source (stateless search) on the real sampler, exact box/probability oracle'
NOTE = 'All answer sequences are executed with discrete choices enumerated and uniform draws taken from {0, 1/4, 1/2, ' \
       '1-2^-53}; the images are shown to be boxes, disjoint, free, covering, and chosen with probability = volume share. ' \
       'Between the letters the map is assumed affine, as it is on them.'
BOUNDS = {'quick': 'tube and narrow passage dim 2-5 (dim 6-23: one draw at a time away from a constant), Gray corridors up to 16 cubes dim 2-4, several clearances/thicknesses',
          'thorough': 'as quick, Gray corridors up to 48 cubes and dim 5'}
RULE = 'one case = one complete answer sequence of the random source for one sample; non-trivial = it goes through a ' \
       'discrete choice or an extreme letter of the alphabet'
ASSUMPTIONS = ['the random source is numpy\'s Generator: choice with probabilities, uniform, random, integers']
ALPHA = [0.0, 0.25, 0.5, 1 - 2.0 ** -53]


WIDE = [6, 7, 10, 14, 20, 23]      # dimensions of the shipped configurations


class Deviant(FakeRNG):
    """All position draws give `base`, except position draw number `at` which gives `to`."""
    base = at = to = None

    def _unit(self):
        if self.n not in self.script:
            self.alphabet = [self.to if len(self.units) == self.at else self.base]
        return super()._unit()


def answer_sets(d):
    """None stands for every sequence over the alphabet; in high dimensions one draw at a time leaves a constant."""
    if d <= 5:
        return [None]
    return [(b, None, None) for b in ALPHA] + [(b, i, w) for b in ALPHA for i in range(d) for w in ALPHA if w != b]


def tasks(tier):
    t = [dict(env='line', dim=d, c=c, length=1.0) for d in WIDE for c in (1 / 16, 0.3)]
    t += [dict(env='narrow', dim=d, c=c) for d in WIDE for c in (1 / 64, 0.1, 0.45)]
    for d in (2, 3, 4, 5):
        for c in (0.0, 1 / 16, 0.3, 2.0):
            for L in (0.5, 1.0, 3.0):
                t.append(dict(env='line', dim=d, c=c, length=L))
        for c in (0.0, 1 / 64, 0.1, 1 / 4, 0.45):
            t.append(dict(env='narrow', dim=d, c=c))
        for n in range(1, 9):
            if n * 2 ** (d - 1) <= (16 if tier == 'quick' else 48) and (d < 5 or tier == 'thorough'):
                for th in (0.0, 0.05, 1 / 8, 0.3):
                    t.append(dict(env='gray', dim=d, length=n, th=th))
    return sorted(t, key=lambda x: -x['dim'] - 10 * (x['env'] == 'gray'))


def build(t):
    from nonasymptotic import envs
    if t['env'] == 'line':
        return envs.StraightLine(t['dim'], t['c'], length=t['length'], seed=1)
    if t['env'] == 'narrow':
        return envs.NarrowPassage(t['dim'], t['c'], 1)
    return envs.GrayCodeWalls(t['dim'], t['length'], thickness=t['th'], seed=1)


def boxes(t, env):
    d = t['dim']
    if t['env'] == 'line':
        c, L = t['c'], t['length']
        return [(np.array([-c] * d), np.array([L + c] + [c] * (d - 1)))]
    if t['env'] == 'narrow':
        c = t['c']
        return [(np.array([-1.5] + [-.5] * (d - 1)), np.array([-.5] + [.5] * (d - 1))),
                (np.array([-.5] + [-c] * (d - 1)), np.array([.5] + [c] * (d - 1))),
                (np.array([.5] + [-.5] * (d - 1)), np.array([1.5] + [.5] * (d - 1)))]
    cor = Corridor(env.no_walls_linear_list, t['th'])
    th, out = t['th'], []
    for c in cor.cubes:
        lo, hi = np.array(c) + th, np.array(c) + 1 - th
        out.append((lo, hi))
        for k, s in cor.open[c]:
            l, h = lo.copy(), hi.copy()
            if s > 0:
                l[k], h[k] = c[k] + 1 - th, c[k] + 1
            else:
                l[k], h[k] = c[k], c[k] + th
            out.append((l, h))
    return out


def problems(t, out=None):
    relay = Relay()
    with patched(relay):
        env = guard(build, t)
        if isinstance(env, Raised):
            yield 'raised', 'building %s raised %s' % (t, env.text)
            return
        d = t['dim']
        want = boxes(t, env)
        total = sum(float(np.prod(h - l)) for l, h in want)

        def run(ch, alphabet, script, dev=None):
            rng = FakeRNG(ch, alphabet, script)
            if dev:
                rng = Deviant(ch, alphabet, script)
                rng.base, rng.at, rng.to = dev
            relay.__dict__['cur'] = rng
            try:
                p = guard(env.sample_from_env)
            finally:
                relay.__dict__['cur'] = None
            return rng, p

        def probe(ch, alphabet, script):
            rng, p = run(ch, alphabet, script)
            return rng, None if isinstance(p, Raised) else tuple(float(x) for x in np.ravel(np.asarray(p, dtype=float)))

        # uniform draws that pick a box are cut into the intervals with the same box
        cells = selector_cells(probe, d) or [({}, 1.0)]
        groups = {}
        for i_cell, (script, weight) in enumerate(cells):
            for ch, (rng, p) in itertools.chain.from_iterable(
                    explore(lambda c: run(c, ALPHA, script, dev), cap=3000000) for dev in answer_sets(d)):
                if isinstance(p, Raised):
                    yield 'raised', '%s: sampling raised %s (answers %s %s)' % (t, p.text, script, ch.trace)
                    return
                p = np.asarray(p, dtype=float)
                if p.shape != (d,) or len(rng.units) != d:
                    yield 'shape', '%s: sample of shape %s from %d uniform draws' % (t, p.shape, len(rng.units))
                    return
                key = (i_cell,) + tuple(rng.path)
                groups.setdefault(key, (rng.prob * weight, []))[1].append((np.array(rng.units), p))
                if out:
                    out.count('evaluations')
                    out.count('nontrivial', int(bool(rng.path) or bool(script) or any(u in (ALPHA[0], ALPHA[-1]) for u in rng.units)))
        mass = {}
        psum = 0.0
        for path, (prob, pts) in groups.items():
            psum += prob
            by = {tuple(u): p for u, p in pts}
            zero = by[(0.0,) * d]
            cols = []
            for k in range(d):
                u = [0.0] * d
                u[k] = 0.5
                cols.append((by[tuple(u)] - zero) / 0.5)
            M = np.array(cols).T                     # p = zero + M u
            U = np.array([u for u, _ in pts])
            X = np.array([p for _, p in pts])
            scale = max(1.0, np.abs(X).max())
            if np.abs(zero + U @ M.T - X).max() > 1e-9 * scale:
                yield 'affine', '%s: choices %s: the sample is not an affine image of the uniform draws' % (t, path)
                return
            big = np.abs(M) > 1e-12
            if (big.sum(0) > 1).any() or (big.sum(1) > 1).any():
                yield 'affine', '%s: choices %s: coordinates of the sample depend on each other' % (t, path)
                return
            ends = zero + M.sum(1)
            lo, hi = np.minimum(zero, ends), np.maximum(zero, ends)
            mass_key = tuple(np.rint(np.concatenate([lo, hi]) * 1e9).astype(np.int64))
            mass.setdefault(mass_key, [0.0, lo, hi, path])[0] += prob
        if out:
            out.outcome('boxes', len(mass))
        if abs(psum - 1) > 1e-7:
            yield 'mass', '%s: probabilities of the choices sum to %s' % (t, psum)
        tol = 1e-9
        items = list(mass.values())
        for pr, lo, hi, path in items:
            # inside the free space: covered by the boxes of the decomposition
            vol = float(np.prod(hi - lo))
            inter = 0.0
            for l, h in want:
                inter += float(np.prod(np.clip(np.minimum(h, hi) - np.maximum(l, lo), 0, None)))
            corner_ok = all(any((x >= l - 1e-9).all() and (x <= h + 1e-9).all() for l, h in want) for x in (lo, hi, (lo + hi) / 2))
            if abs(inter - vol) > 1e-9 or not corner_ok:
                yield 'free', '%s: choices %s sample the box %s .. %s, which is not free' % (t, path, lo.tolist(), hi.tolist())
            if total > 0 and abs(pr - vol / total) > tol:
                yield 'weight', '%s: the box %s .. %s is chosen with probability %s, its share of the volume is %s' % (
                    t, lo.tolist(), hi.tolist(), pr, vol / total)
        for (_, l1, h1, _), (_, l2, h2, _) in itertools.combinations(items, 2):
            if (np.minimum(h1, h2) - np.maximum(l1, l2) > 1e-9).all():
                yield 'overlap', '%s: the sampled boxes %s..%s and %s..%s overlap' % (t, l1.tolist(), h1.tolist(), l2.tolist(), h2.tolist())
                break
        got = sum(float(np.prod(h - l)) for _, l, h, _ in items)
        if abs(got - total) > 1e-9 * max(total, 1):
            yield 'cover', '%s: sampled boxes have volume %s, the free space has %s' % (t, got, total)
        vol = guard(lambda: env.volume)
        if t['env'] != 'gray' and (isinstance(vol, Raised) or abs(vol - total) > 1e-9 * max(total, 1)):
            yield 'volume', '%s: reported volume %s, is %s' % (t, getattr(vol, 'text', vol), total)


def run_task(t, out):
    for key, msg in problems(t, out):
        out.violate(key, msg, dict(t))
        if out.stop:
            return
    out.sample(dict(t))


def replay(case):
    return [m for _, m in itertools.islice(problems(case), 5)]
