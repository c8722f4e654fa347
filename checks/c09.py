"""C09 fully connected radius roadmap: all operation histories against a reference model."""
import itertools
from checks import prmlib

ID, LEVEL = 'C09', 'model_checking'
PRELOAD = ['networkit', 'matplotlib.pyplot', 'matplotlib.animation']
TECHNIQUE = 'explicit-state search over operation histories on the real roadmap class, reference model compared after every operation'
NOTE = 'Every history of grow / set radius / query / reset up to the depth, over small exact point sets and validity ' \
       'tables, executed on the real class; the graph library is replaced by a stand-in that follows its documented behaviour.'
BOUNDS = {'quick': '4 point sets of 3-4 points (1-3 dimensions, ties, duplicates), all validity tables over 3 points and '
                   'structured ones over 4, 2 initial radii, histories up to 4 operations out of 10; growth schedules over 130 and 330 points in 2, 3 and 5 dimensions',
          'thorough': 'as quick with all validity tables over 4 points and histories up to 5 operations'}
ASSUMPTIONS = ['stand-in for networkit graphs (not installed here)', 'samples are pairwise distinct points or exact duplicates']

SETS = [([(0, 0), (3, 0), (0, 4), (3, 4)], [0, 3.999996, 4.0, 5.0], (1, 1)),
        ([(0, 0), (1, 0), (3, 0)], [1.0, 2.5, 3.0], (2, 0)),
        ([(0,), (1,), (3,), (7,)], [1.0, 2.999996, 6.0], (2,)),
        ([(0, 0, 0), (0, 0, 1), (2, 0, 0)], [1.0, 2.0, 9.0], (0, 0, 0.5)),
        ([(0, 0), (0, 0), (1, 0)], [0.0, 1.0], (0, 1))]


def tasks(tier):
    t = []
    for s, (pts, rs, q) in enumerate(SETS):
        for inv in prmlib.tables(len(pts), tier):
            t.append(dict(s=s, inv=inv, tier=tier))
    groups = [t[i::(64 if tier == 'quick' else 160)] for i in range(64 if tier == 'quick' else 160)]
    big = [dict(big=[n, d], r=r, part=p, tier=tier) for n, d, r in ((330, 2, 0.3), (330, 3, 2.0), (130, 5, 0.75)) for p in range(2)]
    return big + [g for g in groups if g]


def ops_for(pts, rs, q):
    def ops(ref):
        o = [('grow', n) for n in range(2, len(pts) + 1)]
        if ref.n is not None:
            o += [('radius', r) for r in rs]
            o += [('query', (0, len(pts))), ('query', (1, 2))]
        return o + [('reset',)]
    return ops


def big_hists(n, part):
    q = ('query', (n, n + 1))

    def between(steps):
        yield [[q]] * len(steps)
        yield [[('radius', 0.125), q, ('radius', 0.45)]] * len(steps)
        yield [[('reset',)]] * (len(steps) - 1) + [[q, ('query', (0, 1))]]
    return list(prmlib.big_histories([60, 61, n - 1, n], between))[part::2]


def run_task(group, out):
    if 'big' in group:
        t = group
        case = dict(kind='full', big=t['big'], r=t['r'])
        prmlib.in_private(lambda: prmlib.run_big(case, big_hists(t['big'][0], t['part']), out), 'kgraph')
        return
    def go():
        for t in group:
            pts, rs, q = SETS[t['s']]
            for r in (rs[0], rs[-2]):
                case = dict(kind='full', pts=pts, invalid=t['inv'], r=r, extra=[q])
                prmlib.explore(case, ops_for(pts, rs, q), 4 if t['tier'] == 'quick' else 5, out)
                if out.stop:
                    return
    prmlib.in_private(go, 'kgraph')


def replay(rec):
    return prmlib.replay_history(rec)
