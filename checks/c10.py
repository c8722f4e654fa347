"""C10 k-nearest-neighbour roadmap: all operation histories against a reference model."""
from checks import prmlib

ID, LEVEL = 'C10', 'model_checking'
PRELOAD = ['networkit', 'matplotlib.pyplot', 'matplotlib.animation']
TECHNIQUE = 'explicit-state search over operation histories on the real roadmap class, reference model compared after every operation'
NOTE = 'Every history of grow / set neighbours / set radius / query / reset up to the depth over small point sets and ' \
       'validity tables, executed on the real class with both neighbour-search adapters; the graph and neighbour-search ' \
       'libraries are replaced by exact stand-ins.'
BOUNDS = {'quick': '3 point sets of 4-5 points, structured validity tables, k in {2,3,4}, radius truncation on and off, '
                   'both adapters, histories up to 5 operations out of up to 14; growth schedules over up to 330 points',
          'thorough': 'as quick with all validity tables over 4 points and histories up to 6 operations'}
ASSUMPTIONS = ['stand-ins for networkit, kgraph and pynndescent (not installed here) follow their documented behaviour and are exact',
               'the neighbour count is never raised above the one used at the last growth']

SETS = [([(0, 0), (1, 0), (2.5, 0), (0, 2), (0.25, 3.5)], [0.5, 1.000004, 1.999996, 9.0], (1, 1)),
        ([(0,), (1,), (3,), (7,)], [0.75, 1.999996, 3.000004], (2,)),
        ([(0, 0, 0), (0, 0, 1), (2, 0, 0.25), (1, 3, 1)], [0.75, 2.0, 3.25], (0, 0.5, 0.5))]


def tasks(tier):
    t = []
    for s, (pts, rs, q) in enumerate(SETS):
        if s == 0:
            n = len(pts)
            tabs = [[], [(0, 1)], [(0, 2), (1, 3)], [(0, j) for j in range(1, n)]]
            tabs += [[(2, 4)], [(3, 4)], [(1, 2), (2, 3)]] if tier != 'quick' else []
        else:
            tabs = list(prmlib.tables(len(pts), tier))
            tabs = tabs[::3] if tier == 'quick' else tabs
        for inv in tabs:
            for k in (2, 3, 4):
                for trunc in (True, False):
                    for ann in ('kgraph', 'pynn'):
                        t.append(dict(s=s, inv=inv, k=k, trunc=trunc, ann=ann, tier=tier))
    for n, d, k in ((330, 2, 5), (200, 3, 33), (130, 6, 127)):
        for ann in ('kgraph', 'pynn'):
            for trunc in (True, False):
                t.insert(0, dict(big=[n, d], k=k, trunc=trunc, ann=ann, tier=tier))
    return t


def big_hists(n, k):
    q = ('query', (n, n + 1))

    def between(steps):
        yield [[('radius', 0.2), ('k', max(2, k // 2)), q, ('k', k), ('radius', 0.3), q]] * len(steps)
        yield [[('k', max(2, k // 3))]] * (len(steps) - 1) + [[q, ('reset',), ('grow', n), q]]
    for steps in ([n], [k + 1, n], [k + 2, n - 1, n], [100, 101, n]):
        for ops in between(steps):
            yield [op for m, more in zip(steps, ops) for op in [('grow', m)] + list(more)]


def ops_for(pts, rs, k, s, tier):
    def ops(ref):
        o = [('grow', n) for n in range(2, len(pts) + 1)]
        if ref.n is not None:
            o += [('k', x) for x in range(1, ref.kgrow + 1) if x != ref.k or x == ref.kgrow]
            o += [('radius', r) for r in rs]
            o += [('query', (0, len(pts)))]
        return o + [('reset',)]
    return ops


def run_task(t, out):
    if 'big' in t:
        case = dict(kind='knn', big=t['big'], k=t['k'], trunc=t['trunc'], ann=t['ann'])
        prmlib.in_private(lambda: prmlib.run_big(case, list(big_hists(t['big'][0], t['k'])), out), t['ann'])
        return

    def go():
        pts, rs, q = SETS[t['s']]
        case = dict(kind='knn', pts=pts, invalid=t['inv'], k=t['k'], trunc=t['trunc'], ann=t['ann'], extra=[q])
        depth = {'quick': 4, 'thorough': 5}[t['tier']]
        if t['s'] == 1 and (t['tier'] != 'quick' or not t['inv'] or len(t['inv']) == 1):
            depth += 1
        prmlib.explore(case, ops_for(pts, rs, t['k'], t['s'], t['tier']), depth, out)
    prmlib.in_private(go, t['ann'])


def replay(rec):
    return prmlib.replay_history(rec)
