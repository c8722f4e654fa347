"""C34 aggregation of experiment results: all histories of runs, progress and earlier aggregations on the real script."""
import csv, itertools, io, math, os, re, runpy, shutil, sys, tempfile
from mc.core import guard, Raised
from mc import loader

ID, LEVEL = 'C34', 'model_checking'
TECHNIQUE = 'explicit-state search over histories of new experiments, task progress and aggregations with the real aggregation script'
NOTE = 'A state is the contents of the results directory with the order in which its directories changed. From every state each ' \
       'operation is applied: a new experiment starts, a task saves one more trial, a task is killed while saving, or the real script aggregates ' \
       'under some prefix and name. Every aggregate is compared with the rows the tasks have saved, everything else must be untouched.'
BOUNDS = {'quick': '3 kinds of table, 4 experiment names, 4 starting points, all histories of 4 operations (12 aggregations, 9 other)',
          'thorough': '3 kinds of table, 4 experiment names, 4 starting points, all histories of 5 operations'}
ASSUMPTIONS = ['a stand-in for pandas', 'directory modification times are set by the harness to the order of the operations']

SCRIPT = 'exps/aggregate_runtimes_for_tuning.py'
NAMES = ['a_20240101-000000', 'a_20240102-000000', 'out1_20240101-000000', 'ab_20240101-000000']
CALLS = [(p, o) for p in ('a_2024', 'a', 'out1', 'a_20240101-000000') for o in (None, 'out', 'fig')]
T0 = 1700000000
COLS = {'knn': ['dim', 'n_samples', 'n_neighbors', 'eff_rad', 'build_time', 'delta_clearance', 'seed', 'trial'],
        'narrow': ['prm_type', 'dim', 'delta_clearance', 'n_samples', 'conn_lb', 'conn_ub', 'thresh_path_dist',
                   'thresh_path_len', 'build_time', 'check_time', 'info', 'seed'],
        'line': ['n_samples', 'rad_lbs', 'rad_ubs', 'info', 'build_time', 'check_time', 'dim', 'delta_clearance', 'seed']}


def cell(col, e, t, r):
    if r == 2:              # trials may well end with the same values
        t, r = 0, 1
    k = 1 + 97 * e + 13 * t + r
    if col == 'prm_type':
        return ('radius', 'knn')[k % 2]
    if col == 'info':
        return ('', 'no path', 'k=3, "wide"')[k % 3]
    if col in ('build_time', 'check_time'):
        return repr(round(0.37 * k + (5 if col == 'check_time' else 0) + (100 if r == 0 else 0), 6))
    if col in ('dim', 'n_samples', 'n_neighbors', 'trial'):
        return str(k)
    if col == 'seed':
        return str(2 ** 40 + k)
    if col == 'conn_ub' and k % 2:
        return ''
    return repr(1.0 / (k + 2))


def table(kind, e, t, n):
    f = io.StringIO()
    w = csv.writer(f, lineterminator='\n')
    w.writerow([''] + COLS[kind])
    for r in range(n):
        w.writerow([str(r)] + [cell(c, e, t, r) for c in COLS[kind]])
    return f.getvalue()


def canon(v):
    try:
        f = float(v)
        return ('n', f) if not math.isnan(f) else ('s', '')
    except ValueError:
        return ('s', '' if v in ('nan', 'NaN') else v)


def rows_of(text):
    rows = [r for r in csv.reader(io.StringIO(text)) if r]
    return (rows[0][1:], [r[1:] for r in rows[1:]]) if rows else ([], [])


class Place:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-agg-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.root = os.path.join(self.dir, 'exps', 'results')
        os.makedirs(self.root)

    def restore(self, state):
        shutil.rmtree(self.root)
        os.makedirs(self.root)
        for name, (clock, files) in state.items():
            d = os.path.join(self.root, name)
            os.mkdir(d)
            for f, text in files:
                with open(os.path.join(d, f), 'w', newline='') as h:
                    h.write(text)
        for name, (clock, files) in state.items():
            os.utime(os.path.join(self.root, name), (T0 + clock, T0 + clock))

    def read(self):
        out = {}
        for name in sorted(os.listdir(self.root)):
            d = os.path.join(self.root, name)
            if not os.path.isdir(d):
                out[name] = None
                continue
            fs = []
            for f in sorted(os.listdir(d)):
                with open(os.path.join(d, f), newline='') as h:
                    fs.append((f, h.read()))
            out[name] = tuple(fs)
        return out

    def close(self):
        assert os.path.basename(self.dir).startswith('verif-agg-')
        shutil.rmtree(self.dir, ignore_errors=True)


def run(place, prefix, outname):
    path = os.path.join(loader.REPO, SCRIPT)
    argv, old, so = sys.argv, os.getcwd(), sys.stdout
    sys.argv = [path, '--name-prefix', prefix] + (['--df-out-name', outname] if outname is not None else [])
    os.chdir(os.path.dirname(place.root))
    sys.stdout = buf = io.StringIO()

    def go():
        try:
            runpy.run_path(path, run_name='__main__')
        except SystemExit as e:
            return e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        return 0
    try:
        return guard(go, cpu=20), buf.getvalue()
    finally:
        sys.argv, sys.stdout = argv, so
        os.chdir(old)


# a state: {experiment: (clock of the last change of the directory, ((file, text), ...))}
def touch(state, name, files, clock):
    s = dict(state)
    s[name] = (clock, tuple(sorted(files.items())))
    return s


def tasks_of(files):
    """task files, whatever aggregates lie beside them"""
    return {f: t for f, t in files if re.fullmatch(r'out\d+\.csv', f)}


def aggregate(place, state, kind, prefix, outname, clock):
    """(messages, next state)"""
    place.restore(state)
    before = place.read()
    r, said = run(place, prefix, outname)
    after = place.read()
    call = '--name-prefix %s%s' % (prefix, '' if outname is None else ' --df-out-name ' + outname)
    match = sorted((n for n in state if n.startswith(prefix)), key=lambda n: state[n][0])
    latest = match[-1] if match else None
    want = tasks_of(state[latest][1]) if latest else {}
    if not want:
        if after != before:
            return [('nothing', '%s: there is nothing to aggregate, but the results directory changes' % call)], state
        if r == 0:
            return [('nothing', '%s: there is nothing to aggregate, but the script reports success' % call)], state
        return [], state
    msgs = []
    new = (outname if outname is not None else prefix) + '_agg_out.csv'
    if isinstance(r, Raised) or r != 0:
        msgs.append(('fails', '%s ends with %r' % (call, r)))
    for n in sorted(set(before) | set(after)):
        a, b = before.get(n), after.get(n)
        strip = lambda fs: tuple(x for x in fs or () if not (n == latest and x[0] == new))
        if (a is None) != (b is None) or strip(a) != strip(b):
            msgs.append(('other', '%s changes other files of %s: %r became %r' % (call, n, [x[0] for x in a or ()], [x[0] for x in b or ()])))
    got = dict(after.get(latest) or ()).get(new)
    if got is None:
        msgs.append(('missing', '%s: no %s in %s' % (call, new, latest)))
        return msgs, state
    head, rows = rows_of(got)
    if len(set(head)) != len(head) or set(head) != set(COLS[kind]):
        msgs.append(('columns', '%s: the aggregate has the columns %r instead of %r' % (call, head, COLS[kind])))
    else:
        key = lambda h, rs: sorted(tuple(canon(x[h.index(c)]) for c in COLS[kind]) for x in rs)
        exp = [x for t in want.values() for x in rows_of(t)[1]]
        g, w = key(head, rows), key(COLS[kind], exp)
        if g != w:
            msgs.append(('rows', '%s: the tasks of %s have saved %d rows, the aggregate has %d (%d of them not saved by a task, %d missing)' % (
                call, latest, len(w), len(g), len([x for x in g if x not in w]), len([x for x in w if x not in g]))))
    for what in ('build', 'check'):
        col = what + '_time'
        if col not in COLS[kind]:
            continue
        v = [float(x[COLS[kind].index(col)]) for t in want.values() for x in rows_of(t)[1][1:]]
        mean = sum(v) / len(v) if v else float('nan')
        std = math.sqrt(sum((x - mean) ** 2 for x in v) / (len(v) - 1)) if len(v) > 1 else float('nan')
        lines = [l for l in said.splitlines() if what in l.lower()]
        nums = [float(x) for l in lines for x in re.findall(r'(?<![\w.])-?\d+(?:\.\d+)?(?:e-?\d+)?|\bnan\b', l.lower())]
        close = lambda a, b: (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-4 * max(1, abs(b))
        if not msgs and not (len(nums) == 2 and close(nums[0], mean) and close(nums[1], std)):
            msgs.append(('times', '%s: announces %r, the %s times without the first of each task have mean %r, deviation %r' % (
                call, lines, what, mean, std)))
    return msgs, touch(state, latest, dict(after[latest]), clock)


def steps(state, kind, clock):
    """the operations that are not aggregations"""
    for e, n in enumerate(NAMES):
        if n not in state:
            yield 'start ' + n, touch(state, n, {'config.json': '{}', 'submit_job.sh': '#!/bin/bash\n'}, clock)
    for n in sorted(state):
        e, files = NAMES.index(n), dict(state[n][1])
        for t in (0, 12):
            f = 'out%d.csv' % t
            if len(NAMES) > 1 and n not in (NAMES[0], NAMES[2]) and t:
                continue
            k = len(rows_of(files[f])[1]) if f in files else 0
            if k < 3:
                g = dict(files)
                g[f] = table(kind, e, t, k + 1)
                yield 'progress %s %d' % (n, t), touch(state, n, g, clock)
        if n == NAMES[0] and 'out0.csv.tmp' not in files:
            g = dict(files)
            g['out0.csv.tmp'] = table(kind, e, 0, 3)[:-7]
            yield 'kill ' + n, touch(state, n, g, clock)


def starts(kind):
    mk = lambda spec: {NAMES[e]: (i + 1, tuple(sorted([('config.json', '{}')] + [('out%d.csv' % t, table(kind, e, t, n)) for t, n in ts.items()])))
                       for i, (e, ts) in enumerate(spec)}
    return [{}, mk([(0, {0: 2, 1: 1, 12: 3})]), mk([(1, {0: 1}), (0, {0: 2, 7: 2})]), mk([(2, {0: 2, 1: 2}), (3, {0: 1}), (0, {}), (1, {3: 2})])]


def freeze(state):
    order = sorted(state, key=lambda n: state[n][0])
    return tuple((n, state[n][1]) for n in order)


def apply_ops(place, state, kind, ops):
    msgs = []
    for i, op in enumerate(ops):
        clock = 100 + i
        if op[0] == 'agg':
            m, state = aggregate(place, state, kind, op[1], op[2], clock)
            msgs += [('%s@%d' % (k, i), x) for k, x in m]
        else:
            state = dict(steps(state, kind, clock)).get(op[1], state)
    return msgs, state


def explore(task, out):
    kind, depth = task['kind'], task['depth']
    place = Place()
    try:
        level = [(starts(kind)[task['start']], [])]
        seen = {freeze(level[0][0])}
        out.count('states')
        for d in range(depth):
            nxt = []
            for state, hist in level:
                clock = 100 + d
                ops = [(['agg', p, o], None) for p, o in CALLS]
                if d + 1 < depth:
                    ops += [(['op', name], s) for name, s in steps(state, kind, clock)]
                for op, s in ops:
                    out.count('transitions')
                    if s is None:
                        msgs, s = aggregate(place, state, kind, op[1], op[2], clock)
                        out.count('traces')
                        for k, m in msgs:
                            out.violate('%s:%s' % (kind, k), 'after %r: %s' % (hist, m), dict(kind=kind, start=task['start'], ops=hist + [op]))
                        out.outcome('nothing to aggregate' if s is state else 'aggregated')
                    f = freeze(s)
                    if f not in seen:
                        seen.add(f)
                        out.count('states')
                        nxt.append((s, hist + [op]))
                if out.stop:
                    return
            level = nxt
        out.sample('%s, start %d: %s' % (kind, task['start'], hist))
    finally:
        place.close()


def tasks(tier):
    return [dict(kind=k, start=s, depth=4 if tier == 'quick' else 5) for k in COLS for s in range(4)]


def run_task(task, out):
    explore(task, out)


def replay(case):
    place = Place()
    try:
        return ['[%s] %s' % m for m in apply_ops(place, starts(case['kind'])[case['start']], case['kind'], case['ops'])[0]]
    finally:
        place.close()
