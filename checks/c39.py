"""C39 roadmap animation: every small roadmap, batch size and path through the real animation, observed frame by frame."""
import itertools, os, shutil, tempfile, types
import numpy as np
from mc.core import guard, Raised
from mc import loader
from checks import prmlib

ID, LEVEL = 'C39', 'model_checking'
PRELOAD = ['networkit', 'matplotlib.pyplot', 'matplotlib.animation']
TECHNIQUE = 'explicit-state enumeration of roadmap histories, batch sizes and paths; the states of the real animation are observed at every frame and compared with the roadmap'
NOTE = 'Roadmaps are made by the real classes from enumerated samples, validity tables and operation histories; the animation is saved through ' \
       'a recording writer that reads the artists of every frame. The planner is also run with animation switched on, on enumerated problems.'
BOUNDS = {'quick': '2 roadmap classes, 3 point sets of 2-6 points, 6 validity tables, 4 histories, all batch sizes from 1 to one more than needed (at most 7 each), '
                   'paths: none, real answers of queries, way-point lists of 1-5 points; 84 planning problems',
          'thorough': 'as quick with 5 point sets of up to 8 points, all single and pairs of invalid motions, 168 planning problems'}
ASSUMPTIONS = ['matplotlib draws what its artists say', 'the roadmap classes use the stand-ins for networkit and the neighbour searches']

SETS = [[(0.5, 0.5), (1.5, 0.25), (2.5, 0.75), (1.75, 2.0)], [(-3.75, 10.0), (-2.0, 12.5), (0.0, 11.0), (-1.0, 10.5), (3.99, 9.0), (-3.0, 9.25)],
        [(0.0, 0.0), (0.25, -0.5)], [(5.0, 5.0), (5.0, 6.0), (6.0, 5.0), (6.0, 6.5), (7.0, 5.5), (5.5, 7.0), (4.0, 4.0), (8.0, 8.0)],
        [(-0.5, -0.5), (-0.25, 0.25), (0.75, -0.125)]]
HISTORIES = ['grow', 'query', 'regrow', 'reset']


def history(name, n):
    a, b = ('query', (n, n + 1)), ('query', (0, n - 1))
    return {'grow': [('grow', n)], 'query': [('grow', n), a, b], 'regrow': [('grow', max(2, n - 2)), a, ('grow', n), a],
            'reset': [('grow', n), a, ('reset',), ('grow', n - 1 if n > 2 else n)]}[name]


def invalids(n, tier):
    pairs = list(itertools.combinations(range(n), 2))
    yield []
    yield pairs
    for p in (pairs if tier != 'quick' else pairs[:2] + pairs[-1:]):
        yield [p]
    if tier != 'quick':
        for a, b in itertools.combinations(pairs, 2):
            yield [a, b]
    else:
        yield pairs[::2]


def cases(tier):
    for s, pts in enumerate(SETS[:3] if tier == 'quick' else SETS):
        n = len(pts)
        for kind in ('knn', 'radius'):
            for inv in invalids(n, tier):
                for h in HISTORIES:
                    if h == 'regrow' and n < 3:
                        continue
                    yield dict(kind=kind, pts=pts, invalid=[list(e) for e in inv], h=h, k=min(3, n - 1), r=1.75, ann='kgraph', trunc=(len(inv) + s) % 2 == 0)


def tasks(tier):
    cs = list(cases(tier))
    k = 48 if tier == 'quick' else 160
    return [dict(cases=cs[i::k], tier=tier) for i in range(k) if cs[i::k]] + [dict(plan=p, parts=12, n=84 if tier == 'quick' else 168) for p in range(12)]


class Recorder:
    """a writer that keeps what every frame shows; made anew for every animation"""
    made = []

    def __new__(cls, *a, **k):
        import matplotlib.animation as A
        base = getattr(cls, '_made', None)
        if base is None:
            class W(A.AbstractMovieWriter):
                def __init__(self, *a, **k):
                    self.args, self.frames, self.out = (a, k), [], None
                    super().__init__(fps=k.get('fps', 5))

                def setup(self, fig, outfile, dpi=None):
                    self.fig, self.out = fig, str(outfile)

                def grab_frame(self, **kw):
                    self.frames.append(picture(self.fig))

                def finish(self):
                    if self.out and not self.out.startswith('unused'):
                        with open(self.out, 'wb') as f:
                            f.write(b'frames %d' % len(self.frames))
            base = cls._made = W
        w = base(*a, **k)
        Recorder.made.append(w)
        return w


def picture(fig):
    from matplotlib.colors import to_rgba
    ax = fig.axes[0]
    pts = np.concatenate([np.asarray(c.get_offsets(), dtype=float).reshape(-1, 2) for c in ax.collections] or [np.zeros((0, 2))])
    pc = {tuple(np.round(x, 3)) for c in ax.collections for x in c.get_facecolors()}
    lines = [(np.asarray(l.get_xydata(), dtype=float), tuple(np.round(to_rgba(l.get_color())[:3], 3))) for l in ax.lines]
    return dict(points=pts, pcol=pc, lines=lines, lim=(ax.get_xlim(), ax.get_ylim()), axes=len(fig.axes))


def seg(a, b):
    a, b = tuple(float(x) for x in a), tuple(float(x) for x in b)
    return (min(a, b), max(a, b))


def judge(frames, samples, edges, path, nb, eb):
    """frames of one animation against the roadmap: samples (array), edges (pairs of sample numbers), path (way points)"""
    samples = np.asarray(samples, dtype=float)
    want = sorted(seg(samples[u], samples[v]) for u, v in edges)
    if not frames:
        return 'no frames'
    shown = lines = 0
    for i, f in enumerate(frames):
        if f['axes'] != 1:
            return 'frame %d has %d axes' % (i, f['axes'])
        p = f['points']
        if len(p) > len(samples) or not np.array_equal(p, samples[:len(p)]):
            return 'frame %d shows the points %s, not a first part of the samples %s' % (i, p.tolist(), samples.tolist())
        if len(p) < shown or len(p) > shown + nb:
            return 'frame %d shows %d points after %d, batches of %d' % (i, len(p), shown, nb)
        ls = f['lines']
        if len(ls) < lines or any(len(d) != 2 for d, _ in ls):
            return 'frame %d loses lines or has lines with other than two ends' % i
        got = [seg(*d) for d, _ in ls[:len(want)]]
        extra = list(got)
        for w in want:
            if w in extra:
                extra.remove(w)
        if extra:
            return 'frame %d draws %s, which is no edge of the roadmap or drawn before' % (i, extra[0])
        new = len(ls) - lines
        if new > (eb if lines < len(want) else 1):
            return 'frame %d draws %d new lines' % (i, new)
        if new and len(p) < len(samples):
            return 'frame %d draws edges before all samples are shown' % i
        if lines < len(want) < len(ls):
            return 'frame %d draws edges and path together' % i
        legs = ls[len(want):]
        if len(legs) > max(0, len(path) - 1):
            return 'frame %d draws %d lines, the roadmap has %d edges and the path %d legs' % (i, len(ls), len(want), max(0, len(path) - 1))
        for j, (d, c) in enumerate(legs):
            if not np.array_equal(d, np.array([path[j], path[j + 1]], dtype=float)):
                return 'frame %d draws leg %d of the path as %s, it is %s' % (i, j, d.tolist(), [path[j], path[j + 1]])
        (x0, x1), (y0, y1) = f['lim']
        if len(samples) and not (x0 <= samples[:, 0].min() and samples[:, 0].max() <= x1 and y0 <= samples[:, 1].min() and samples[:, 1].max() <= y1):
            return 'frame %d cuts samples off at %s' % (i, f['lim'])
        shown, lines = len(p), len(ls)
    last = frames[-1]
    if shown != len(samples):
        return 'the last frame shows %d of %d samples' % (shown, len(samples))
    if lines != len(want) + max(0, len(path) - 1):
        return 'the last frame draws %d lines, expected %d edges and %d legs' % (lines, len(want), max(0, len(path) - 1))
    ecol = {c for _, c in last['lines'][:len(want)]}
    pcol = {c for _, c in last['lines'][len(want):]}
    drawn = [c for f in frames for _, c in f['lines'][:len(want)]]
    if len(path):
        if ecol & pcol or len(pcol) > 1:
            return 'the path is drawn in the colours %s, the edges in %s' % (sorted(pcol), sorted(ecol))
        if len(set(drawn)) > 1 or len(set().union(*[f['pcol'] for f in frames if len(f['points'])])) > 1:
            return 'edges or samples change their colour although there is a path'
    else:
        if ecol - {(1.0, 0.0, 0.0)} or {c[:3] for c in last['pcol']} != {(1.0, 0.0, 0.0)}:
            return 'without a path the last frame has edges in %s and samples in %s, expected all in red' % (sorted(ecol), sorted(last['pcol']))
        if any(c == (1.0, 0.0, 0.0) for f in frames if len(f['lines']) < len(want) for _, c in f['lines']):
            return 'edges are red before the roadmap is complete'
    return None


def animate(prm, path, nb, eb, limit=None):
    """frames, or a message"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from nonasymptotic import prm as P
    Recorder.made = []
    old = matplotlib.rcParams['animation.embed_limit']
    try:
        kw = {} if limit is None else dict(animation_embed_limit=limit)

        def go():
            ani = P.animate_knn_prm(prm, path, node_batches=nb, edge_batches=eb, **kw)
            ani._fig.canvas.draw_idle = lambda *a, **k: None      # the recorder reads the artists, nothing needs painting
            ani.save('unused', writer=Recorder())
        got = guard(go, cpu=30)
        if isinstance(got, Raised):
            return 'raised %s' % got.text
        if matplotlib.rcParams['animation.embed_limit'] != (old if limit is None else limit):
            return 'embedding limit %s, asked for %s' % (matplotlib.rcParams['animation.embed_limit'], limit)
        return Recorder.made[0].frames
    finally:
        matplotlib.rcParams['animation.embed_limit'] = old
        plt.close('all')


def one(case, only=None):
    """yields (what, message)"""
    world = prmlib.World(case['pts'], [frozenset(e) for e in case['invalid']], [(0.0, 0.0), (3.0, 1.0)])
    prm = guard(prmlib.build, dict(case, exp=False), world)
    if isinstance(prm, Raised):
        yield None, 'the constructor raised %s' % prm.text
        return
    n = len(case['pts'])
    answer = []
    for op in history(case['h'], n):
        args = op[1:]
        if op[0] == 'query':
            got = guard(prm.query_best_solution, np.array(world.all[op[1][0]]), np.array(world.all[op[1][1]]))
            if not isinstance(got, Raised):
                answer = got[1]
        elif op[0] == 'grow':
            got = guard(prm.grow_to_n_samples, op[1])
        else:
            got = guard(prm.reset)
        if isinstance(got, Raised):
            return                  # the histories of C10-C12 judge this
    samples = np.array(prm.prm_samples)
    edges = [(u, v) for u, v in prm.prm_graph.iterEdges()]
    state = prmlib.canon(prm)
    paths = [[]] + ([answer] if len(answer) else []) + [[(0.0, 0.0), (1.0, 0.5), (2.0, 0.0), (0.5, 3.0), (0.25, 0.25)][:m] for m in (1, 2, 5)]
    combos = []
    for nb in range(1, min(7, len(samples) + 1) + 1):
        for eb in range(1, min(7, len(edges) + 1) + 1):
            combos.append((nb, eb, (nb + eb) % len(paths)))
    for i, path in enumerate(paths):
        combos += [(2, 2, i), (5, 3, i), (1000, 1000, i)]
    for nb, eb, i in sorted(set(combos)) if only is None else [tuple(only)]:
        path = paths[i]
        kept = np.array(path, dtype=float)
        frames = animate(prm, path, nb, eb, limit=(None, 2 ** 50)[(nb + eb) % 2])
        msg = frames if isinstance(frames, str) else judge(frames, samples, edges, path, nb, eb)
        if msg is None and prmlib.canon(prm) != state:
            msg = 'the roadmap is another one after it was animated'
        if msg is None and not np.array_equal(kept, np.array(path, dtype=float)):
            msg = 'the path is another one after it was animated'
        yield (nb, eb, i), msg


# ---------------------------------------------------------------- the planner with animation
def plan(st, k):
    """one planning problem with animation: a message or None, and whether there was a trajectory"""
    from checks import c20
    import matplotlib.animation as A
    import matplotlib.pyplot as plt
    from nonasymptotic import prm as P
    d = tempfile.mkdtemp(prefix='verif-ani-')
    Recorder.made, seen = [], []
    old, real, build = A.PillowWriter, P.SimpleNearestNeighborRadiusPRM, st.get_anytime_motion_fn
    places = [m for m in (A, st) if hasattr(m, 'PillowWriter')]

    class Kept(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            seen.append(self)

    def with_animation(problem, **kw):
        return build(problem, animate=True, save_dir=d, **kw)

    from matplotlib.backends.backend_agg import FigureCanvasAgg
    draw = FigureCanvasAgg.draw_idle if 'draw_idle' in FigureCanvasAgg.__dict__ else None
    try:
        for m in places:
            m.PillowWriter = Recorder
        with c20.patched(st, Kept):
            st.get_anytime_motion_fn = with_animation
            FigureCanvasAgg.draw_idle = lambda self, *a, **k: None
            got, boxes, half, s, g = c20.plan_case(st, k, [(-0.5, 0, 0.05, 1.6, 1, 0)] if k % 7 == 3 else [])      # some cut in two
        msg, what = c20.judge_plan(got, boxes, half, s, g)
        if msg:
            return msg[0], what
        if what == 'refused':
            return (None if not os.listdir(d) else 'an animation of a refused problem'), what
        files = sorted(os.listdir(d))
        if len(Recorder.made) != 1 or len(files) != 1 or not files[0].endswith('.gif') or len(seen) != 1 or \
                os.path.dirname(os.path.abspath(Recorder.made[0].out)) != d:
            return 'wrote %s with %d animations of %d roadmaps' % (files, len(Recorder.made), len(seen)), what
        prm = seen[0]
        frames = Recorder.made[0].frames
        if not hasattr(prm, 'verif_seen'):
            return 'no roadmap was animated', what
        samples, edges, path = prm.verif_seen
        if what == 'no trajectory' and len(path):
            return 'a path is shown although there is none', what
        if what == 'trajectory':
            pts = np.array([p[:2] for p in c20.values(got[0])])
            if not len(path) or not np.allclose(path[0], s) or not np.allclose(path[-1], g):
                return 'the path shown runs from %s to %s, the planner was asked for %s to %s' % (path[0] if len(path) else None, path[-1] if len(path) else None, s, g), what
            for p in path:          # every way point shown lies on the trajectory
                if np.abs(pts - np.array(p)).max(1).min() > 1e-6:
                    return 'the path shown has the way point %s, the trajectory never is there' % (list(p),), what
        return judge(frames, samples, edges, path, 10 ** 6, 10 ** 6), what
    finally:
        for m in places:
            m.PillowWriter = old
        st.get_anytime_motion_fn = build
        if draw is None:
            del FigureCanvasAgg.draw_idle
        else:
            FigureCanvasAgg.draw_idle = draw
        plt.close('all')
        assert os.path.basename(d).startswith('verif-ani-')
        shutil.rmtree(d, ignore_errors=True)


def run_plans(part, parts, n, out):
    import matplotlib
    matplotlib.use('Agg')
    d = loader.private_package()
    try:
        st = loader.tamp_module('turtlebot_move', 'streams')
        hook(st)
        for k in range(part, n, parts):
            msg, what = plan(st, k)
            out.count('states')
            out.count('traces')
            out.outcome('planner: ' + what)
            if msg:
                out.violate('plan', 'planning problem %d with animation: %s' % (k, msg), dict(plan=k))
                if out.stop:
                    return
    finally:
        loader.drop_private(d)


def hook(st):
    """remember what was handed to the animation"""
    from nonasymptotic import prm as P
    real = P.animate_knn_prm

    def seen(prm, sol, *a, **k):
        prm.verif_seen = (np.array(prm.prm_samples), list(prm.prm_graph.iterEdges()), [tuple(float(x) for x in p) for p in sol])
        return real(prm, sol, *a, **k)
    for m in (st, P):
        if hasattr(m, 'animate_knn_prm'):
            m.animate_knn_prm = seen


def run_task(t, out):
    if 'plan' in t:
        run_plans(t['plan'], t['parts'], t['n'], out)
        return

    def go():
        for case in t['cases']:
            for what, msg in one(case):
                out.count('states')
                out.count('traces')
                out.outcome(case['h'])
                if msg:
                    out.violate('animation', '%s roadmap after %s, batches %s: %s' % (case['kind'], case['h'], what, msg), dict(case=case, what=what))
                    if out.stop:
                        return
    prmlib.in_private(go, 'kgraph')


def replay(rec):
    from mc.core import Tally
    if 'plan' in rec:
        out = Tally()
        run_plans(rec['plan'], 10 ** 6, rec['plan'] + 1, out)
        return [m for _, m, _ in out.violations]
    return prmlib.in_private(lambda: [m for _, m in one(rec['case'], rec['what']) if m], 'kgraph')
