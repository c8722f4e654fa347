"""C40 result notebooks: every small set of deployed runs, complete or cut off, through the code of the real scatter notebooks."""
import itertools, json, math, os, shutil, tempfile
import numpy as np
from mc.core import guard, Raised, silent, REPO
from checks import c38

ID, LEVEL = 'C40', 'model_checking'
TECHNIQUE = 'explicit-state enumeration of all small sets of deployed runs and all points at which the last run may have been cut off, logged by the real front-ends and read by the code of the real notebooks'
NOTE = 'The logs are written by the real main() of both domains with a scripted planner and laid out as the job scripts do; the code cells of ' \
       'each notebook are executed in order in a scratch directory; points, error bars, legend and the saved figure are compared with a model of the runs.'
BOUNDS = {'quick': '12 kinds of runs; for each of the 3 notebooks all multisets of up to 2, every third multiset of 3, every third line a further run may be cut off at (and its first and last 6)',
          'thorough': 'all multisets of up to 3 and every line'}
ASSUMPTIONS = ['logs are written line by line, so an interrupted run leaves whole lines', 'matplotlib draws what its artists say',
               'the directories are named as the job scripts name them']
NOTEBOOKS = [('turtlebot_move', 'time_success_scatter.ipynb', 'figures/sample_plot.pdf'),
             ('kuka_carry', 'time_success_scatter.ipynb', 'exps/tamp/kuka_carry/sample_plot.pdf'),
             ('kuka_carry', 'time_success_scatter_adaptive.ipynb', 'figures/sample_plot.pdf')]
# options and outcomes per domain; the same setting more than once, each of the three conditions more than once
KINDS = {d: [({'min': 40, 'max': 60}, 'plan', None), ({'min': 40, 'max': 60}, 'none', None), ({'min': 59, 'max': 60}, 'plan', None),
             ({'min': 59, 'max': 60}, 'none', None), ({'min': 61, 'max': 60}, 'plan', None), ({'adaptive': None}, 'plan', None),
             ({'adaptive': None}, 'none', None), ({'min': 59, 'max': 60, 'adaptive': None}, 'plan', None), ({'min': 599, 'max': 600}, 'none', None),
             ({}, 'none', None), ({'min': 3, 'max': 40}, 'none' if d == 'turtlebot' else 'error', None), ({'min': 39, 'max': 40}, 'plan', None)]
         for d in ('turtlebot', 'kuka')}


def produced(domain):
    """[(log text, facts)]"""
    old = c38.KINDS
    try:
        c38.KINDS = [(domain, o, res, need) for o, res, need in KINDS[domain]]
        out = c38.produced(None)
        if isinstance(out, str):
            return out
        D = __import__('checks.c32', fromlist=['x']).DOMAINS[domain]['defaults']
        for (text, facts), (o, res, _) in zip(out, KINDS[domain]):
            lo, hi, ad = int(o.get('min', D['min'])), int(o.get('max', D['max'])), 'adaptive' in o
            facts['condition'] = 'aPRM' if ad else 'sPRM' if lo == hi - 1 else 'iPRM'
        return out
    finally:
        c38.KINDS = old


class Place:
    def __init__(self, domain):
        self.base = tempfile.mkdtemp(prefix='verif-nb-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.cwd = os.path.join(self.base, 'exps', 'tamp', domain)
        os.makedirs(self.cwd)
        os.makedirs(os.path.join(self.base, 'figures'))

    def write(self, logs):
        runs = os.path.join(self.cwd, 'runs')
        shutil.rmtree(runs, ignore_errors=True)
        os.makedirs(os.path.join(runs, 'prm-9--20240102-030405', '1700009.5', 'pddl'))
        with open(os.path.join(runs, 'notes.txt'), 'w') as f:
            f.write("Experiment arguments:\n{'adaptive_n': True, 'min_samples': 1, 'max_samples': 2}\nSolved: True\nTime: 99\n")
        for i, text in enumerate(logs):
            name = '17000%d.%d' % (i // 2, (i * 7919 + 1) % 1000)
            d = os.path.join(runs, 'prm-%d--2024010%d-12000%d' % (1 + i % 2, 1 + i // 2, i), name)
            os.makedirs(os.path.join(d, 'pddl'))
            with open(os.path.join(d, name + '.log'), 'w') as f:
                f.write(text)

    def listing(self):
        return {os.path.join(r, f): os.stat(os.path.join(r, f)).st_size for r, ds, fs in os.walk(self.base) for f in fs + ds}

    def run(self, domain, notebook):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        plt.close('all')
        old, saved, params, cwd = plt.show, plt.savefig, dict(plt.rcParams), os.getcwd()
        plt.show = lambda *a, **k: None
        files = []

        def save(name, *a, **k):
            files.append(os.path.relpath(os.path.realpath(os.path.join(os.getcwd(), name)), os.path.realpath(self.base)))

        plt.savefig = save
        with open(os.path.join(REPO, 'exps', 'tamp_environment', domain, notebook)) as f:
            cells = [''.join(c['source']) for c in json.load(f)['cells'] if c['cell_type'] == 'code']

        def go():
            ns = {'__name__': '__main__'}
            for c in cells:
                exec(compile('\n'.join(l for l in c.splitlines() if not l.lstrip().startswith(('%', '!'))), notebook, 'exec'), ns)
        try:
            os.chdir(self.cwd)
            with silent():
                got = guard(go, cpu=60)
        finally:
            os.chdir(cwd)
            plt.show, plt.savefig = old, saved
            with __import__('warnings').catch_warnings():
                __import__('warnings').simplefilter('ignore')
                plt.rcParams.update(params)
        return (got if isinstance(got, Raised) else None), [plt.figure(n) for n in plt.get_fignums()], files

    def close(self):
        import matplotlib.pyplot as plt
        plt.close('all')
        assert os.path.basename(self.base).startswith('verif-nb-')
        shutil.rmtree(self.base, ignore_errors=True)


def halves(container, axis, pts):
    """half lengths of the error bars along the axis (0: x), in the order of the points"""
    want = container.has_xerr if axis == 0 else container.has_yerr
    if not want:
        return [None] * len(pts)
    lines = list(container.lines[2])
    coll = lines[0] if axis == 0 else lines[-1]
    return [abs(s[-1][axis] - s[0][axis]) / 2 for s in coll.get_segments()]


def judge(figs, files, runs, target):
    if files != [target]:
        return 'figure saved as %s, not %s' % (files, target)
    if len(figs) != 1 or len(figs[0].axes) != 1:
        return 'figures %s' % [len(f.axes) for f in figs]
    ax = figs[0].axes[0]
    if 'success' not in ax.get_ylabel().lower() or 'time' not in ax.get_xlabel().lower():
        return 'axes are labelled %s and %s' % (ax.get_xlabel(), ax.get_ylabel())
    leg = ax.get_legend()
    shown = [c for c in ax.containers if type(c).__name__ == 'ErrorbarContainer']
    if leg is None or len(leg.get_texts()) != len(shown):
        return '%d series, legend %s' % (len(shown), leg and [t.get_text() for t in leg.get_texts()])
    handles = getattr(leg, 'legend_handles', None) or leg.legendHandles
    names = [x.get_text() for x in leg.get_texts()]
    if sorted(names) != ['aPRM', 'iPRM', 'sPRM'] or len(handles) != 3:
        return 'legend %s' % names
    for c, name in zip(shown, names):
        groups = {}
        for r in runs:
            if r['condition'] == name:
                groups.setdefault(r['group'], []).append(r)
        want = []
        for g in groups.values():
            ts, ss = np.array([r['time'] for r in g]), np.array([float(r['solved']) for r in g])
            want.append((ts.mean(), ss.mean(), ts.std() / math.sqrt(len(g)), ss.std() / math.sqrt(len(g))))
        pts = [tuple(float(v) for v in p) for p in np.asarray(c.lines[0].get_xydata())]
        ex, ey = halves(c, 0, pts), halves(c, 1, pts)
        if len(pts) != len(want) or len(ex) != len(pts) or len(ey) != len(pts):
            return '%s shows %d settings (%s), the runs have %d' % (name, len(pts), pts, len(want))
        got = sorted((p[0], p[1], a, b) for p, a, b in zip(pts, ex, ey))
        for g, w in zip(got, sorted(want)):
            if any(a is not None and abs(a - b) > 1e-9 * (1 + abs(b)) for a, b in zip(g, w)):
                return '%s shows time %s success %s with deviations %s %s for a setting with %s %s %s %s' % ((name,) + g + w)
    return None


def case(place, nb, logs, multiset, cut=None):
    domain, notebook, target = NOTEBOOKS[nb]
    texts, runs = [], []
    for n, k in enumerate(multiset):
        text, facts = c38.retimed(*logs[k], n)
        texts.append(text)
        runs.append(facts)
    if cut is not None:
        lines = logs[cut[0]][0].splitlines(True)[:cut[1]]
        texts.insert(0, ''.join(lines))
        if any(l.startswith('Time: ') for l in lines):
            runs.append(logs[cut[0]][1])
    place.write(texts)
    before = place.listing()
    bad, figs, files = place.run(domain, notebook)
    if bad:
        return 'raised %s' % bad.text
    return judge(figs, files, runs, target) or ('files changed' if place.listing() != before else None)


def jobs(nb, tier, logs):
    n = 0
    for r in (1, 2, 3):
        for ms in itertools.combinations_with_replacement(range(len(logs)), r):
            n += 1
            if tier != 'quick' or r < 3 or n % 3 == nb:
                yield list(ms), None
    for k in (0, 5):
        L = len(logs[k][0].splitlines())
        for n in range(L):
            if tier != 'quick' or n % 3 == nb or n < 6 or n > L - 7:
                yield [2 if k == 0 else 7, 5], (k, n)


def tasks(tier):
    return [dict(nb=nb, part=p, parts=8, tier=tier) for nb in range(3) for p in range(8)]


def run_task(t, out):
    nb = t['nb']
    logs = produced('turtlebot' if nb == 0 else 'kuka')
    if isinstance(logs, str):
        out.violate('log', logs, dict(case=[nb, [0], None]))
        return
    place = Place(NOTEBOOKS[nb][0])
    try:
        for n, (ms, cut) in enumerate(list(jobs(nb, t['tier'], logs))):
            if n % t['parts'] != t['part']:
                continue
            out.count('states')
            out.count('traces')
            out.outcome('interrupted run' if cut else '%d runs' % len(ms))
            msg = case(place, nb, logs, ms, cut)
            if msg:
                out.violate(' '.join(msg.split()[:3]), '%s/%s, runs %s%s: %s' % (NOTEBOOKS[nb][0], NOTEBOOKS[nb][1], ms, ', one cut off: %s' % (cut,) if cut else '', msg),
                            dict(case=[nb, ms, cut]))
                if out.stop:
                    return
    finally:
        place.close()
    out.sample(dict(notebook=NOTEBOOKS[nb][:2], facts=logs[0][1]))


def replay(rec):
    nb, ms, cut = rec['case']
    logs = produced('turtlebot' if nb == 0 else 'kuka')
    if isinstance(logs, str):
        return [logs]
    place = Place(NOTEBOOKS[nb][0])
    try:
        m = case(place, nb, logs, ms, tuple(cut) if cut else None)
        return [m] if m else []
    finally:
        place.close()
