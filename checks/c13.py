"""C13 roadmaps alive together, cache files and saved files."""
import os, collections, shutil
import numpy as np
from mc.core import guard, Raised
from checks import prmlib

ID, LEVEL = 'C13', 'model_checking'
PRELOAD = ['networkit', 'matplotlib.pyplot', 'matplotlib.animation']
TECHNIQUE = 'explicit-state search over all interleavings of the operations of two roadmaps on the real classes, with their files on disk'
NOTE = 'Every interleaving up to the depth of create / grow / change setting / query / save / reset of two roadmaps of every ' \
       'pair of classes; each is compared with its own reference after every operation of either, and the files in the ' \
       'temporary directory and the saved files are tracked. Libraries are replaced by exact stand-ins.'
BOUNDS = {'quick': '6 pairs of roadmap classes, 2 adapters, histories up to 7 operations out of up to 14',
          'thorough': '9 ordered pairs, both adapters, histories up to 8 operations'}
ASSUMPTIONS = ['stand-ins for networkit, kgraph and pynndescent (not installed here); graph files are written to real files']

PTS = [[(0, 0), (1, 0), (2.5, 0), (0.5, 2)], [(1, 1), (0, 3), (2, 1.5), (4, 0)]]
Q = [(1, 1), (0.5, 1.5)]


def case_for(kind, i, ann):
    return dict(kind=kind, pts=PTS[i], invalid=[(0, 1)] if i else [(1, 3)], extra=[Q[i]], r=2.25, k=2, ann=ann, trunc=not i)


def tasks(tier):
    t = []
    kinds = prmlib.KINDS
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            if tier == 'quick' and j < i:
                continue
            for ann in (('kgraph', 'pynn') if tier != 'quick' or (i + j) % 2 == 0 else ('kgraph',)):
                for first in range(2):
                    for n in (2, 4):
                        t.append(dict(a=a, b=b, ann=ann, first=first, n=n, tier=tier))
    return t


class Pair:
    def __init__(self, cases, scratch):
        self.cases, self.scratch = cases, scratch
        for d in (scratch, temp()):
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
        self.prm, self.ref = [None, None], [None, None]
        self.files = [set(), set()]

    def step(self, op):
        """problems shown by one operation ('which', name, arg...)"""
        i, op = op[0], op[1:]
        before = snapshot(temp())
        out = []
        if op[0] == 'new':
            w = prmlib.World(self.cases[i]['pts'], self.cases[i]['invalid'], self.cases[i]['extra'])
            p = guard(prmlib.build, self.cases[i], w)
            if isinstance(p, Raised):
                return [('raised', 'the constructor raised %s' % p.text)]
            self.prm[i], self.ref[i] = p, prmlib.Ref(self.cases[i], w)
        elif op[0] == 'save':
            out += self.save(i)
        else:
            out += prmlib.apply(self.cases[i], self.prm[i], self.ref[i], op)
        after = snapshot(temp())
        self.files[i] |= {f for f in after if before.get(f) != after[f] or f in self.files[i]}
        for f in before:
            if f not in self.files[i] and after.get(f) != before[f]:
                out.append(('file', 'operation %s of roadmap %d changed a file of the other one' % (op, i)))
        for f in after:
            if f in before and before[f] != after[f] and f in self.files[1 - i]:
                out.append(('file', 'operation %s of roadmap %d wrote a file of the other one' % (op, i)))
        self.files[i] &= set(after)
        if op[0] == 'reset' and self.files[i]:
            out.append(('leak', 'roadmap %d left %d file(s) behind after a reset' % (i, len(self.files[i]))))
        for j in range(2):
            if self.prm[j] is not None:
                out += [(k, 'roadmap %d (%s): %s' % (j, self.cases[j]['kind'], m)) for k, m in
                        prmlib.state_problems(self.prm[j], self.ref[j])]
        return out

    def save(self, i):
        import networkit as nk
        p, ref = self.prm[i], self.ref[i]
        path = os.path.join(self.scratch, 'saved%d' % i)
        old = snapshot(self.scratch)
        res = guard(p.save, path)
        new = snapshot(self.scratch)
        if ref.n is None:
            if not isinstance(res, Raised):
                return [('save', 'saving a roadmap that was never grown does not raise')]
            return [('save', 'saving an empty roadmap wrote %s' % sorted(set(new) - set(old)))] if new != old else []
        if isinstance(res, Raised):
            return [('raised', 'save raised %s' % res.text)]
        if not {'saved%d.nkb' % i, 'saved%d.npy' % i} <= set(new):
            return [('save', 'saving wrote %s' % sorted(new))]
        g = guard(nk.readGraph, path + '.nkb', nk.Format.NetworkitBinary)
        s = guard(np.load, path + '.npy')
        if isinstance(g, Raised) or isinstance(s, Raised):
            return [('save', 'saved files cannot be read back')]
        if s.shape != p.prm_samples.shape or not (s == p.prm_samples).all():
            return [('save', 'saved samples differ from the samples of the roadmap')]
        want = sorted((min(u, v), max(u, v), w) for u, v, w in p.prm_graph.iterEdgesWeights())
        got = sorted((min(u, v), max(u, v), w) for u, v, w in g.iterEdgesWeights())
        if want != got or not set(range(ref.n)) <= set(g.iterNodes()):
            return [('save', 'saved graph has edges %s, the roadmap %s' % (got, want))]
        return []

    def key(self):
        out = []
        for i in range(2):
            out.append(None if self.prm[i] is None else
                       (prmlib.key_of(self.prm[i], self.ref[i]), len(self.files[i])))
        return tuple(out) + (len(os.listdir(self.scratch)) > 0,)


def temp():
    import nonasymptotic
    d = list(nonasymptotic.__path__)[0]
    return os.path.join(os.path.dirname(d), 'temp')


def snapshot(d):
    out = {}
    for f in os.listdir(d):
        with open(os.path.join(d, f), 'rb') as h:
            out[f] = h.read()
    return out


def ops_of(pair, n):
    o = []
    for i in range(2):
        ref = pair.ref[i]
        if ref is None:
            o.append((i, 'new'))
            continue
        k = pair.cases[i]['kind']
        o.append((i, 'reset'))
        o.append((i, 'save'))
        if ref.n is None:
            o.append((i, 'grow', 3))
        else:
            if ref.n < 4:
                o.append((i, 'grow', 4))
            o.append((i, 'query', (0, 4)))
            if k != 'radius':
                o += [(i, 'radius', 1.25), (i, 'radius', 9.0)]
            if k == 'knn':
                o += [(i, 'k', 1), (i, 'k', 2)]
    return o


def run(cases, hist, scratch):
    pair = Pair(cases, scratch)
    probs = []
    for op in hist:
        probs = pair.step(op)
    return pair, probs


def explore(cases, prefix, depth, n, out, scratch):
    pair, probs = run(cases, prefix, scratch)
    seen = {pair.key()}
    frontier = collections.deque([prefix])
    while frontier:
        hist = frontier.popleft()
        pair, _ = run(cases, hist, scratch)
        for op in ops_of(pair, n):
            h = hist + [op]
            p, probs = run(cases, h, scratch)
            out.count('transitions')
            out.outcome(op[1])
            for key, msg in probs:
                out.violate(key, '%s after %s' % (msg, h), dict(cases=cases, hist=h))
            if out.stop:
                return
            if probs:
                continue
            k = p.key()
            if k in seen:
                continue
            seen.add(k)
            out.count('states')
            out.outcome('new state at depth %d' % len(h))
            if len(h) < depth:
                frontier.append(h)
            else:
                out.count('traces')
    out.sample(dict(kinds=[c['kind'] for c in cases], last_history=h))


def run_task(t, out):
    cases = [case_for(t['a'], 0, t['ann']), case_for(t['b'], 1, t['ann'])]
    scratch = scratch_dir()
    d = 7 if t['tier'] == 'quick' else 8
    # the first roadmap exists (and has grown) when the other one is created, or the other way round
    f = t['first']
    prefix = [(f, 'new'), (1 - f, 'new')] if t['n'] == 2 else [(f, 'new'), (f, 'grow', 3)]
    try:
        prmlib.in_private(lambda: explore(cases, prefix, d, t['n'], out, scratch), t['ann'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def scratch_dir():
    import tempfile
    return tempfile.mkdtemp(prefix='verif-save-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)


def replay(rec):
    cases, hist = rec['cases'], [tuple(tuple(x) if isinstance(x, list) else x for x in h) for h in rec['hist']]
    for c in cases:
        c['invalid'] = [tuple(e) for e in c['invalid']]
    scratch = scratch_dir()
    try:
        return prmlib.in_private(lambda: [m for _, m in run(cases, hist, scratch)[1]], cases[0].get('ann', 'kgraph'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
