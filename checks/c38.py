"""C38 result plots: every small set of logged runs, complete or cut off, through the real plotting scripts."""
import itertools, math, os, runpy, shutil, sys, tempfile
import numpy as np
from mc.core import guard, Raised, silent, REPO
from mc import loader

ID, LEVEL = 'C38', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of all small sets of runs and all points at which the last run may have been cut off, logged by the real front-ends and read by the real plotting scripts'
NOTE = 'The logs are written by the real main() of both domains with a scripted planner; every set of runs up to the size, in several ' \
       'directory layouts, and every prefix (in lines) of a further log are given to the plotting scripts; the bars, error bars, tick labels, ' \
       'points and the curve of the figure are compared with a model of the runs.'
BOUNDS = {'quick': '10 kinds of runs; all multisets of up to 3; all sets of 1 run plus every prefix of another; 3 directory layouts',
          'thorough': 'all multisets of up to 4'}
ASSUMPTIONS = ['logs are written line by line, so an interrupted run leaves whole lines', 'matplotlib draws what its artists say']

KINDS = [  # domain, options, outcome, least number of samples with which a motion is found (None: never; several: motion after motion)
    ('turtlebot', {'min': 3, 'max': 40}, 'plan', (20, 7)), ('turtlebot', {'min': 3, 'max': 40}, 'plan', 20), ('turtlebot', {'min': 3, 'max': 40}, 'none', 3),
    ('turtlebot', {'min': 40, 'max': 60, 'delta': 0.12}, 'plan', (40, 50, None)), ('turtlebot', {}, 'none', None), ('turtlebot', {'adaptive': None}, 'plan', 1),
    ('turtlebot', {'adaptive': None, 'delta': 0.08}, 'none', None), ('turtlebot', {'min': 3, 'max': 40, 'adaptive': None}, 'none', 1),
    ('kuka', {'min': 3, 'max': 600}, 'plan', None), ('kuka', {'min': 3, 'max': 40}, 'error', None)]


def produce(kind):
    """(log text, facts) of one real run"""
    from checks import c32
    from checks.c20 import ScriptedPRM, patched
    domain, options, outcome, need = KINDS[kind]
    c32.DOMAINS[domain]['options']['adaptive'] = ['--adaptive-n', None]
    used = []

    class Run(c32.Main):
        def make_plan(self):
            plan = super().make_plan()
            return plan

        def solve(self, problem, **kw):
            self.problem = problem
            if domain == 'turtlebot' and need is not None:
                import copy
                world = copy.deepcopy(self.pbu.WORLD.bodies)
                v, q = self.facts('AtConf')[0]
                t, p = self.facts('AtPose')[0]
                (q2,) = problem.stream_map['sample-ik'](v, t, p)
                for least in need if isinstance(need, tuple) else (need,):
                    ScriptedPRM.log, ScriptedPRM.need, ScriptedPRM.path = [], 10 ** 9 if least is None else least, [(0.0, 0.75)]
                    with patched(sys.modules['streams'], ScriptedPRM):
                        problem.stream_map['sample-motion'](v, q, q2)
                    grown = [e[1] for e in ScriptedPRM.log if e[0] == 'grow']
                    if grown and least is not None and grown[-1] >= least:
                        used.append(grown[-1])
                for k, b in world.items():
                    self.pbu.WORLD.bodies[k] = b
            return super().solve(problem, **kw)

    m = Run(domain, options, outcome)
    try:
        if isinstance(m.result, Raised):
            return None, 'the run %s raised %s' % (KINDS[kind], m.result.text)
        logs = [v for k, v in m.after.items() if k.endswith('.log')]
        if len(logs) != 1:
            return None, 'the run %s wrote %d logs' % (KINDS[kind], len(logs))
    finally:
        m.close()
    D = c32.DOMAINS[domain]['defaults']
    facts = dict(group='%s-%s-%d' % (options.get('min', D['min']), options.get('max', D['max']), 'adaptive' in options), solved=outcome == 'plan',
                 delta=float(options.get('delta', D['delta'])), samples=used[-1] if used else None)
    times = [float(l[len('Time: '):]) for l in logs[0].splitlines() if l.startswith('Time: ')]
    if len(times) != 1:
        return None, 'the run %s wrote %d times' % (KINDS[kind], len(times))
    facts['time'] = times[0]
    return logs[0], facts


def produced(t):
    """the logs of all kinds, with the times set apart so that they can be told from each other"""
    out = []
    for k in range(len(KINDS)):
        text, facts = produce(k)
        if text is None:
            return facts
        out.append((text, facts))
    return out


def retimed(text, facts, n):
    new = 3.0 + 7.5 * n + n * n
    lines = [('Time: %s' % new) if l.startswith('Time: ') else l for l in text.splitlines()]
    return '\n'.join(lines) + '\n', dict(facts, time=new)


class Place:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix='verif-plot-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)

    def write(self, logs, layout):
        shutil.rmtree(os.path.join(self.base, 'runs'), ignore_errors=True)
        os.makedirs(os.path.join(self.base, 'runs', 'empty', 'pddl'))
        with open(os.path.join(self.base, 'runs', 'notes.txt'), 'w') as f:
            f.write("Experiment arguments:\n{'adaptive_n': True, 'min_samples': 1, 'max_samples': 2}\nDelta: 9\nFound solution in\n9\nSolved: True\nTime: 99\n")
        for i, text in enumerate(logs):
            name = '17000%d.%d' % (i // 2, (i * 7919) % 1000)       # two runs start in the same second
            d = {0: ('runs', name), 1: ('runs',), 2: ('runs', 'a%d' % (i % 2), 'deep', name)}[layout]
            d = os.path.join(self.base, *d)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, name + '.log'), 'w') as f:
                f.write(text)

    def run(self, script):
        """the figure after the script has run"""
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        plt.close('all')
        old, shown = plt.show, []
        plt.show = lambda *a, **k: shown.append(1)
        argv, cwd = list(sys.argv), os.getcwd()
        try:
            sys.argv = [script]
            os.chdir(self.base)
            with silent():
                got = guard(runpy.run_path, os.path.join(REPO, 'exps', 'tamp_environment', 'turtlebot_move', script), run_name='__main__', cpu=60)
        finally:
            sys.argv = argv
            os.chdir(cwd)
            plt.show = old
        if isinstance(got, Raised):
            return got, []
        figs = [plt.figure(n) for n in plt.get_fignums()]
        return None, figs

    def close(self):
        import matplotlib.pyplot as plt
        plt.close('all')
        assert os.path.basename(self.base).startswith('verif-plot-')
        shutil.rmtree(self.base, ignore_errors=True)


def bars(ax):
    """{left to right: (height, error or None)}"""
    out = []
    for c in ax.containers:
        if type(c).__name__ != 'BarContainer':
            continue
        errs = [None] * len(c.patches)
        if c.errorbar is not None:
            segs = [s for l in c.errorbar.lines[2] for s in l.get_segments()]
            if len(segs) == len(errs):
                errs = [abs(s[1][1] - s[0][1]) / 2 if len(s) == 2 else None for s in segs]
        for p, e in zip(c.patches, errs):
            out.append((p.get_x(), p.get_height(), e))
    return [b[1:] for b in sorted(out)]


def judge_bars(figs, runs):
    groups = {}
    for r in runs:
        groups.setdefault(r['group'], []).append(r)
    if len(figs) != 1:
        return '%d figures' % len(figs)
    axes = {('time' if 'time' in a.get_ylabel().lower() else 'success' if 'success' in a.get_ylabel().lower() else '?'): a for a in figs[0].axes}
    if set(axes) != {'time', 'success'}:
        return 'axes %s' % [a.get_ylabel() for a in figs[0].axes]
    figs[0].canvas.draw()
    labels = [l.get_text() for l in axes['success'].get_xticklabels()]
    if sorted(labels) != sorted(groups):
        return 'settings %s shown, runs have %s' % (labels, sorted(groups))
    for what, f in (('success', lambda r: float(r['solved'])), ('time', lambda r: r['time'])):
        b = bars(axes[what])
        if len(b) != len(labels):
            return '%d %s bars for settings %s' % (len(b), what, labels)
        for (h, e), l in zip(b, labels):
            v = np.array([f(r) for r in groups[l]])
            if abs(h - v.mean()) > 1e-9 * (1 + abs(v.mean())):
                return '%s of setting %s is shown as %s, the %d runs have mean %s' % (what, l, h, len(v), v.mean())
            if e is not None and abs(e - v.std() / math.sqrt(len(v))) > 1e-9 * (1 + v.std()):
                return 'deviation of the %s of setting %s is shown as %s, the standard error is %s' % (what, l, e, v.std() / math.sqrt(len(v)))
    return None


def judge_bound(figs, runs, memo={}):
    from nonasymptotic.bound import compute_numerical_bound
    if len(figs) != 1 or len(figs[0].axes) != 1:
        return 'figures %s' % [len(f.axes) for f in figs]
    ax = figs[0].axes[0]
    pts = sorted(tuple(float(x) for x in p) for c in ax.collections for p in np.asarray(c.get_offsets()))
    want = sorted((r['delta'], float(r['samples'])) for r in runs if r['samples'] is not None)
    if len(pts) != len(want) or any(abs(a - b) > 1e-9 for p, q in zip(pts, want) for a, b in zip(p[:1], q[:1])) or any(int(p[1]) != int(q[1]) for p, q in zip(pts, want)):
        return 'points %s shown, the runs with a motion have %s' % (pts, want)
    lines = [np.asarray(l.get_xydata(), dtype=float) for l in ax.lines]
    if len(lines) != 1 or len(lines[0]) < 2 or (np.diff(lines[0][:, 0]) <= 0).any():
        return '%d curves' % len(lines)
    for x, y in lines[0][::7]:
        if x not in memo:
            memo[x] = compute_numerical_bound(x, 0.9, 1, 2, None)[0]
        if y != memo[x]:
            return 'curve has %s at %s, the bound is %s' % (y, x, memo[x])
    return None


def case(place, logs, multiset, layout, cut=None):
    """cut = (kind, number of lines): a further run, interrupted"""
    texts, runs = [], []
    for n, k in enumerate(multiset):
        text, facts = retimed(*logs[k], n)
        texts.append(text)
        runs.append(facts)
    pruns = list(runs)
    if cut is not None:
        lines = logs[cut[0]][0].splitlines(True)[:cut[1]]
        texts.insert(0, ''.join(lines))
        said = [i for i, l in enumerate(lines) if 'Found solution in' in l]
        said = [float(lines[i + 1]) for i in said if i + 1 < len(lines)]
        if said:
            pruns.append(dict(logs[cut[0]][1], samples=int(said[-1])))
        if any(l.startswith('Time: ') for l in lines):
            runs.append(logs[cut[0]][1])
    place.write(texts, layout)
    bad, figs = place.run('time_success_plot.py')
    msg = 'raised %s' % bad.text if bad else judge_bars(figs, runs)
    if msg:
        return 'bars: ' + msg
    if any(r['samples'] is not None for r in pruns):
        bad, figs = place.run('bound_plot.py')
        msg = 'raised %s' % bad.text if bad else judge_bound(figs, pruns)
        if msg:
            return 'bound: ' + msg
    return None


def jobs(tier, lengths):
    K = range(len(KINDS))
    for r in range(1, (3 if tier == 'quick' else 4) + 1):
        for ms in itertools.combinations_with_replacement(K, r):
            yield list(ms), (sum(ms) + r) % 3, None
    for k in (0, 3, 5, 8):
        for n in range(lengths[k]):
            yield [1 if k != 1 else 2], n % 3, (k, n)


def tasks(tier):
    return [dict(part=p, parts=16, tier=tier) for p in range(16)]


def run_task(t, out):
    logs = produced(t)
    if isinstance(logs, str):
        out.violate('log', logs, dict(case=[[0], 0, None]))
        return
    place = Place()
    try:
        for n, j in enumerate(list(jobs(t['tier'], [len(l[0].splitlines()) for l in logs]))):
            if n % t['parts'] != t['part']:
                continue
            out.count('states')
            out.count('traces')
            out.outcome('interrupted run' if j[2] else '%d runs' % len(j[0]))
            msg = case(place, logs, *j)
            if msg:
                out.violate(msg.split(':')[0], 'runs %s%s: %s' % ([KINDS[k] for k in j[0]], ', one cut off: %s' % (j[2],) if j[2] else '', msg), dict(case=list(j)))
                if out.stop:
                    return
    finally:
        place.close()
    out.sample(dict(first=list(KINDS[0]), facts=logs[0][1]))


def replay(rec):
    logs = produced(rec)
    if isinstance(logs, str):
        return [logs]
    place = Place()
    try:
        ms, layout, cut = rec['case']
        m = case(place, logs, ms, layout, tuple(cut) if cut else None)
        return [m] if m else []
    finally:
        place.close()
