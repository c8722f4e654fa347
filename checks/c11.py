"""C11 threshold radius roadmap: all histories of growing, querying and resetting against a reference model."""
from checks import prmlib

ID, LEVEL = 'C11', 'model_checking'
PRELOAD = ['networkit', 'matplotlib.pyplot', 'matplotlib.animation']
TECHNIQUE = 'explicit-state search over operation histories on the real roadmap class, reference model compared after every operation'
NOTE = 'Every history of grow / query / reset up to the depth over small point sets, validity tables, radii, starting ' \
       'neighbour counts and caps, executed on the real class with both neighbour-search adapters; also sets of 18 to 40 ' \
       'points, where the default of 16 neighbours has to double. The libraries are replaced by exact stand-ins.'
BOUNDS = {'quick': '3 sets of 4-5 points (all validity tables over 3, structured ones beyond), 3 radii, starting neighbour counts 1, 2 and 16, '
                   'caps 2 to 8 and 512, histories up to 5 operations; 2 sets of 40 points, caps 20, 32, 64 and 512, growth schedules of up to 3 steps',
          'thorough': 'as quick with all validity tables over 4 points and histories up to 6 operations'}
ASSUMPTIONS = ['stand-ins for networkit, kgraph and pynndescent (not installed here) follow their documented behaviour and are exact',
               'when a sample has as many samples within the radius as the neighbour cap only soundness of the edges is decided']

SETS = [([(0, 0), (1, 0), (2.5, 0), (0, 2), (0.25, 3.5)], [1.125, 2.25, 9.0], (1, 1)),
        ([(0,), (1,), (3,), (7,)], [1.999996, 3.000004, 4.0], (2,)),
        ([(0, 0, 0), (0, 0, 1), (2, 0, 0.25), (1, 3, 1)], [1.0, 2.5, 3.25], (0, 0.5, 0.5))]


def grid(n, w):
    return [(float(i % w), float(i // w) * 1.25) for i in range(n)]


def cluster(n):
    # dense cluster and far away strays: some samples need many neighbours, others few
    return [((i % 5) * 0.1, (i // 5) * 0.13) if i % 6 else (5.0 + i, 3.0) for i in range(n)]


BIG = [(grid(40, 6), [1.1, 2.2, 3.1], (0.5, 0.5)), (cluster(40), [0.4, 1.5, 8.2], (0.5, 0.2))]


def tasks(tier):
    t = []
    for s, (pts, rs, q) in enumerate(SETS):
        n = len(pts)
        if s == 0:
            tabs = [[], [(0, 1)], [(0, 2), (1, 3)], [(0, j) for j in range(1, n)]]
            tabs += [[(2, 4)], [(3, 4)], [(1, 2), (2, 3)]] if tier != 'quick' else []
        else:
            tabs = list(prmlib.tables(n, tier))
            tabs = tabs[::3] if tier == 'quick' else tabs
        for inv in tabs:
            for r in rs:
                for k0, kcap in ((1, 512), (2, 512), (None, 512), (1, 2), (2, 3), (2, 4), (2, 8)):
                    for ann in ('kgraph', 'pynn'):
                        if ann == 'pynn' and k0 == 1:
                            k0 = 2          # a list of one is the point itself
                        t.append(dict(s=s, inv=inv, r=r, k0=k0, kcap=kcap, ann=ann, tier=tier))
    for n, d, r in ((330, 2, 0.125), (330, 2, 0.5), (200, 3, 0.4)):
        for ann in ('kgraph', 'pynn'):
            for h in range(3):
                t.insert(0, dict(large=[n, d], r=r, ann=ann, h=h, tier=tier))
    for s, (pts, rs, q) in enumerate(BIG):
        for r in rs:
            for ann in ('kgraph', 'pynn'):
                for part in range(4):
                    for kcap in (512, 32, 20, 64) if tier != 'quick' else (512, (32, 20, 64)[part % 3]):
                        t.append(dict(big=s, r=r, ann=ann, part=part, tier=tier, kcap=kcap))
    return t


def ops_for(pts, ann):
    def ops(ref):
        n0 = ref.n or 2
        if ref.n is not None and ann == 'pynn':
            n0 = ref.n + 1
        o = [('grow', n) for n in range(n0, len(pts) + 1)]
        if ref.n is not None:
            o += [('query', (0, len(pts))), ('query', (1, 2))]
        return o + [('reset',)]
    return ops


def schedules(part):
    steps = [2, 16, 17, 18, 20, 33, 40]
    out = []
    for i, a in enumerate(steps):
        out.append([a])
        for b in steps[i + 1:]:
            out.append([a, b])
            for c in steps[steps.index(b) + 1:]:
                out.append([a, b, c])
    return out[part::4]


def run_task(t, out):
    if 'large' in t:
        n = t['large'][0]
        q = ('query', (n, n + 1))
        case = dict(kind='radius', big=t['large'], r=t['r'], ann=t['ann'])
        hist = [[('grow', n), q, ('reset',), ('grow', n - 1), q, ('grow', n), q],
                [('grow', 40), q, ('grow', n - 1), ('grow', n), q],
                [('grow', 100), ('grow', 101), q, ('grow', n), q, ('query', (0, 1))]][t['h']]
        prmlib.in_private(lambda: prmlib.run_big(case, [hist], out), t['ann'])
        return

    def go():
        if 'big' in t:
            pts, rs, q = BIG[t['big']]
            for sched in schedules(t['part']):
                for inv in ([], [(i, i + 1) for i in range(0, 39, 2)]):
                    case = dict(kind='radius', pts=pts, invalid=inv, r=t['r'], ann=t['ann'], kcap=t['kcap'], extra=[q])
                    hist = []
                    for n in sched:
                        for op in ([('grow', n), ('query', (0, 40))] if n > 2 else [('grow', n)]):
                            hist.append(op)
                    for m in range(1, len(hist) + 1):
                        prm, ref, probs = prmlib.run_history(case, hist[:m])
                        out.count('transitions')
                        out.count('states')
                        out.outcome('large set')
                        for key, msg in probs:
                            out.violate(key, '%s: %s after %s' % (t, msg, hist[:m]), dict(case=case, hist=hist[:m]))
                            return
                    out.count('traces')
            return
        pts, rs, q = SETS[t['s']]
        case = dict(kind='radius', pts=pts, invalid=t['inv'], r=t['r'], k0=t['k0'], kcap=t['kcap'], ann=t['ann'], extra=[q])
        prmlib.explore(case, ops_for(pts, t['ann']), 5 if t['tier'] == 'quick' else 6, out)
    prmlib.in_private(go, t['ann'])


def replay(rec):
    return prmlib.replay_history(rec)
