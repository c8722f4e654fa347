"""C12 roadmap queries: true shortest valid paths, no trace left, all graph connections."""
from checks import prmlib

ID, LEVEL = 'C12', 'model_checking'
PRELOAD = ['networkit', 'matplotlib.pyplot', 'matplotlib.animation']
TECHNIQUE = 'explicit-state search over operation and query histories on the real roadmap classes, answers compared with shortest paths recomputed from the samples'
NOTE = 'Every history of queries mixed with growth and setting changes up to the depth, on all three roadmap classes, ' \
       'with start and goal on, near and away from samples and with every link and edge validity table over small sets; ' \
       'the answer and the state left behind are compared with a reference after every operation. Libraries are replaced by exact stand-ins.'
BOUNDS = {'quick': '3 roadmap classes, 3-4 samples and 3 query points (one validity bit per motion: all-valid, each single '
                   'one and each pair of invalid motions), histories up to 4 operations out of up to 16; one long history per class over 90 and 150 points',
          'thorough': 'as quick with every validity table over the 10 motions of 5 points (1024) at depth 4 and histories up to 5 '
                      'operations on the pair tables'}
ASSUMPTIONS = ['stand-ins for networkit, kgraph and pynndescent (not installed here) follow their documented behaviour and are exact',
               'all graph connections: experiment mode, start and goal on the reference path (as the trials call it)']

# samples, radius, radius 2, query points (the first two lie on the reference path: the first axis)
SETS = [([(0.5, 0.5), (1.5, 0.25), (2.5, 0.75), (1.75, 2.0)], [1.375, 2.25], [(0, 0), (3, 0), (1.5, 0.25)]),
        ([(0.5, 0.25), (1.75, 0.0), (2.75, 0.5)], [1.5, 3.0], [(0, 0), (3, 0), (9, 9)]),
        ([(1,), (2,), (4,)], [1.0, 2.5, 1.999996], [(0,), (5,), (2,)])]


def tables(s, tier):
    import itertools
    pts, _, qs = SETS[s]
    n = len(pts)
    pairs = list(itertools.combinations(range(n), 2)) + [(i, n + j) for i in range(n) for j in range(2)]
    yield []
    for p in pairs:
        yield [p]
    for a, b in itertools.combinations(pairs, 2):
        yield [a, b]
    if tier != 'quick' and n == 3:
        for m in range(2 ** len(pairs)):
            if bin(m).count('1') > 2:
                yield [p for i, p in enumerate(pairs) if m >> i & 1]


def tasks(tier):
    cases = []
    for s in range(len(SETS)):
        for i, inv in enumerate(tables(s, tier)):
            for kind in ('full', 'knn', 'radius'):
                for exp in ((False,) if kind == 'full' else (False, True)):
                    anns = ('kgraph',) if kind == 'full' else (('kgraph', 'pynn') if tier != 'quick' else
                                                              (('kgraph', 'pynn')[i % 2],))
                    for ann in anns:
                        cases.append(dict(s=s, inv=inv, kind=kind, exp=exp, ann=ann, tier=tier,
                                          trunc=i % 4 < 2))
    cases.sort(key=lambda c: c['ann'])
    k = 96 if tier == 'quick' else 400
    out = []
    for ann in ('kgraph', 'pynn'):
        part = [c for c in cases if c['ann'] == ann]
        out += [part[i::k] for i in range(k) if part[i::k]]
    big = [dict(kind=kind, big=[n, d], axis=True, r=r, k=12, exp=kind != 'full', trunc=trunc, ann=ann)
         for n, d, r in ((150, 2, 0.2), (90, 2, 0.5), (90, 3, 0.4)) for kind in ('full', 'knn', 'radius')
         for trunc in ((True, False) if kind == 'knn' else (True,)) for ann in (('kgraph',) if kind == 'full' else ('kgraph', 'pynn'))]
    return big + out


def ops_for(case, rs, nq, depth_limited):
    pts = case['pts']
    n = len(pts)

    def ops(ref):
        o = [('grow', m) for m in ((n - 1, n) if ref.n is None else (n,) if ref.n < n else ())]
        if ref.n is not None:
            o += [('query', (n, n + 1)), ('query', (n + 1, n)), ('query', (n, n + 2)), ('query', (n, n)), ('query', (0, 1))]
            if case['exp']:
                o += [('all', (n, n + 1)), ('all', (n, n)), ('all', (n + 1, n))]
            if case['kind'] != 'radius':
                o += [('radius', r) for r in rs]
            if case['kind'] == 'knn':
                o += [('k', x) for x in range(1, ref.kgrow + 1)]
            if depth_limited:
                o.append(('reset',))
        return o
    return ops


def big_hist(case):
    n = case['big'][0]
    pairs = [(n, n + 1), (n + 1, n), (n, n), (0, 1), (5, n + 1), (n, n - 1)]
    qs = [('query', p) for p in pairs]
    more = [('all', p) for p in pairs[:3]] if case['exp'] else []
    less = [] if case['kind'] == 'radius' else [('radius', 0.75 * case['r'])]
    return [('grow', n - 20)] + qs[:2] + more[:1] + [('grow', n)] + qs + more + less + qs[:2] + more[:2] + [('reset',), ('grow', n // 2)] + qs[:2]


def run_task(group, out):
    if isinstance(group, dict):
        prmlib.in_private(lambda: prmlib.run_big(group, [big_hist(group)], out), group['ann'])
        return

    def go():
        for t in group:
            pts, rs, qs = SETS[t['s']]
            case = dict(kind=t['kind'], pts=pts, invalid=t['inv'], extra=qs, ann=t['ann'], exp=t['exp'], trunc=t['trunc'],
                        r=rs[0], k=2 + (t['s'] == 0))
            deep = len(t['inv']) <= 1
            d = (4 if deep else 3) if t['tier'] == 'quick' else (5 if deep else 4)
            prmlib.explore(case, ops_for(case, rs, len(qs), deep), d, out)
            if out.stop:
                return
    prmlib.in_private(go, group[0]['ann'])


def replay(rec):
    return prmlib.replay_history(rec)
