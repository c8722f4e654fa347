"""C22 experiment scripts: every task once, and crash/resume histories on the real scripts."""
import builtins, collections, io, itertools, json, os, runpy, shutil, sys, tempfile, time
import numpy as np
from mc.core import guard, Raised
from mc import loader

ID, LEVEL = 'C22', 'model_checking'
TECHNIQUE = 'explicit-state search over all crash points and torn writes of the real experiment scripts, restarted from every reachable result directory'
NOTE = 'A state is the contents of the results directory. From every state the real script is started; every file operation it ' \
       'makes below that directory is a crash point, every line boundary and several places inside lines are torn-write points, ' \
       'and each of these contents is a new state, until no new state appears: any number of kills is covered. Every uninterrupted ' \
       'continuation must end with the same rows as the uninterrupted run, whose rows are compared with the configured product.'
BOUNDS = {'quick': 'three scripts, 4 to 7 tasks in 1 to 3 processes, all job-array sizes up to one above the number of combinations',
          'thorough': 'three scripts, 6 to 14 tasks, more torn-write points, all job-array sizes'}
ASSUMPTIONS = ['a kill loses buffered data but no data already handed to the operating system, and renames are atomic',
               'stand-ins for pandas, networkit, kgraph and pynndescent; wall-clock columns are ignored',
               'the sufficiency check of the straight-line environment, which is not implemented, is answered by a stand-in']
PRELOAD = ['matplotlib.pyplot', 'matplotlib.animation', 'networkx', 'shapely', 'triangle', 'sympy.combinatorics.graycode']

SCRIPTS = {'knn': 'exps/run_knn_radius_trial.py', 'line': 'exps/run_straight_line_optimality_trial.py',
           'narrow': 'exps/run_narrow_passage_clearance_trial.py'}

CONFIGS = {
    'knn': [dict(delta=0.5, dims_to_test=[2, 3], sample_schedule=[4, 6], neighbor_schedule=[2, 3, 4], n_trials=2),
            dict(delta=0.25, dims_to_test=[4, 2], sample_schedule=[5], neighbor_schedule=[1], n_trials=3)],
    'line': [dict(delta=0.5, dims_to_test=[2, 3], sample_schedule=[8, 12], n_samples_per_check_round=10,
                  ed_check_timeout=1.0, area_tol=1e-8, prm_max_k_neighbors=4, n_trials=2),
             dict(delta=0.25, dims_to_test=[2], sample_schedule=[10], n_samples_per_check_round=10,
                  ed_check_timeout=1.0, area_tol=1e-8, prm_max_k_neighbors=6, n_trials=5)],
    'narrow': [dict(deltas=[0.45, 0.25], radius_dims_to_test=[2], knn_dims_to_test=[2, 3], radius_sample_schedule=[4, 7],
                    knn_sample_schedule=[6, 9], radius_prm_max_radius=1.0, knn_prm_max_neighbors=8, n_trials=1),
               dict(deltas=[0.4], radius_dims_to_test=[3, 2], knn_dims_to_test=[2], radius_sample_schedule=[3],
                    knn_sample_schedule=[10], radius_prm_max_radius=0.5, knn_prm_max_neighbors=8, n_trials=2)],
}


def combos(kind, cfg):
    """the configured experiment, in full: [(labels, row labels)]"""
    out = []
    if kind == 'knn':
        for d, t in itertools.product(cfg['dims_to_test'], range(cfg['n_trials'])):
            rows = [dict(n_samples=s, n_neighbors=n) for s in cfg['sample_schedule'] for n in cfg['neighbor_schedule'] if n < s]
            out.append((dict(dim=d, trial=t, delta_clearance=cfg['delta']), rows))
    elif kind == 'line':
        for d, t in itertools.product(cfg['dims_to_test'], range(cfg['n_trials'])):
            out.append((dict(dim=d, trial=t, delta_clearance=cfg['delta']), [dict(n_samples=s) for s in cfg['sample_schedule']]))
    else:
        for typ in ('radius', 'knn'):
            for c, d, t in itertools.product(cfg['deltas'], cfg[typ + '_dims_to_test'], range(cfg['n_trials'])):
                out.append((dict(prm_type=typ, delta_clearance=c, dim=d, trial=t),
                            [dict(n_samples=s) for s in cfg[typ + '_sample_schedule']]))
    return out


# ---------------------------------------------------------------- intercepted file operations
class Disk:
    """All effects below `root` are recorded as snapshots; a snapshot is what a kill right then would leave."""

    def __init__(self, root, cuts):
        self.root, self.cuts = os.path.realpath(root), cuts
        self.snaps = []
        self.real = dict(open=builtins.open, replace=os.replace, rename=os.rename, remove=os.remove, unlink=os.unlink,
                         link=os.link, symlink=os.symlink, truncate=os.truncate, mkdir=os.mkdir, rmdir=os.rmdir)

    def inside(self, p):
        try:
            p = os.path.realpath(os.fspath(p))
        except TypeError:
            return False
        return isinstance(p, str) and (p + os.sep).startswith(self.root + os.sep)

    def snap(self):
        self.snaps.append(read_dir(self.root, self.real['open']))

    def torn(self, path, old, new):
        """the file holds `old` and `new` is being written to it: every state on the way"""
        f = os.path.relpath(os.path.realpath(path), self.root)
        base = read_dir(self.root, self.real['open'])
        common = len(os.path.commonprefix([old, new])) if new.startswith(old) else None
        points = set()
        tail = new[common:] if common is not None else new
        pre = new[:common] if common is not None else b''
        pos = 0
        for line in tail.splitlines(keepends=True):
            n = len(line)
            points |= {pos + n}
            points |= {pos + int(n * q) for q in self.cuts}
            if line.endswith(b'\n'):
                points |= {pos + n - 1, pos + n - 2}         # the newline, or the last digit, is missing
            pos += n
        for p in sorted(x for x in points | {0} if 0 <= x <= len(tail)):
            d = dict(base)
            d[f] = pre + tail[:p]
            self.snaps.append(tuple(sorted(d.items())))

    def __enter__(self):
        disk = self

        def _open(file, mode='r', *a, **k):
            if isinstance(file, int) or not disk.inside(file) or not any(c in mode for c in 'wax+'):
                return disk.real['open'](file, mode, *a, **k)
            return Writer(disk, os.fspath(file), mode, *a, **k)

        def two(name):
            def f(a, b, *r, **k):
                res = disk.real[name](a, b, *r, **k)
                if disk.inside(a) or disk.inside(b):
                    disk.snap()
                return res
            return f

        def one(name):
            def f(a, *r, **k):
                res = disk.real[name](a, *r, **k)
                if disk.inside(a):
                    disk.snap()
                return res
            return f
        self.saved = [(builtins, 'open', builtins.open), (io, 'open', io.open)]
        builtins.open = io.open = _open
        for n in ('replace', 'rename', 'link', 'symlink'):
            self.saved.append((os, n, getattr(os, n)))
            setattr(os, n, two(n))
        for n in ('remove', 'unlink', 'truncate', 'mkdir', 'rmdir'):
            self.saved.append((os, n, getattr(os, n)))
            setattr(os, n, one(n))
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


class Writer(io.StringIO):
    """A file being written: its data reaches the file when flushed or closed, torn at any point before."""

    def __init__(self, disk, path, mode, *a, **k):
        self.disk, self.path, self.bin = disk, path, 'b' in mode
        if '+' in mode:
            from mc.core import StubLimit
            raise StubLimit('file opened for reading and writing')
        enc = k.get('encoding') or 'utf-8'
        self.enc = enc
        exists = os.path.exists(path)
        if 'x' in mode and exists:
            raise FileExistsError(path)
        self.old = b''
        if 'a' in mode and exists:
            with disk.real['open'](path, 'rb') as f:
                self.old = f.read()
        with disk.real['open'](path, 'wb') as f:
            f.write(self.old)
        disk.snap()                                         # created or truncated
        self.data = self.old
        self.name, self._mode = path, mode
        super().__init__()

    def write(self, s):
        self.data += bytes(s) if self.bin else str(s).encode(self.enc)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        if self.data != self.old:
            self.disk.torn(self.path, self.old, self.data)
            with self.disk.real['open'](self.path, 'wb') as f:
                f.write(self.data)
            self.old = self.data

    def fileno(self):
        return os.open(os.devnull, os.O_RDONLY) if not hasattr(self, '_fd') else self._fd

    def close(self):
        if not self.closed:
            self.flush()
        super().close()


def read_dir(root, op=open):
    out = []
    for base, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            with op(p, 'rb') as h:
                out.append((os.path.relpath(p, root), h.read()))
        for d in dirs:
            p = os.path.join(base, d)
            if not os.listdir(p):
                out.append((os.path.relpath(p, root) + '/', b''))
    return tuple(sorted(out))


def write_dir(root, state):
    for f in os.listdir(root):
        p = os.path.join(root, f)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    for f, data in state:
        p = os.path.join(root, f)
        if f.endswith('/'):
            os.makedirs(p)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as h:
            h.write(data)


class Quit(Exception):
    pass


def start(kind, task, n, cfg_path, out_dir, disk=None):
    """one run of the real script"""
    path = os.path.join(loader.REPO, SCRIPTS[kind])
    argv, clocks = sys.argv, [(time, f, getattr(time, f)) for f in ('time', 'perf_counter', 'process_time', 'monotonic')]
    sys.argv = [path, str(task), str(n), cfg_path, out_dir]
    for m, f, _ in clocks:
        setattr(m, f, lambda: 1000.0)
    unseed = np.random.default_rng
    try:
        def go():
            try:
                if disk is None:
                    runpy.run_path(path, run_name='__main__')
                else:
                    with disk:
                        runpy.run_path(path, run_name='__main__')
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise Quit('the script exits with %r' % (e.code,))
        return guard(go, cpu=60)
    finally:
        sys.argv = argv
        for m, f, v in clocks:
            setattr(m, f, v)


def prepare():
    """answers the unimplemented sufficiency check of the straight-line environment"""
    from nonasymptotic import envs

    def check(self, prm, tol, *a, **k):
        return bool(tol >= 0.3), None
    envs.StraightLine.is_prm_epsilon_delta_complete = check


def result_rows(out_dir, task):
    import pandas as pd
    p = os.path.join(out_dir, 'out%i.csv' % task)
    if not os.path.exists(p):
        return []
    return pd.read_csv(p, index_col=0).to_dict('records')


def key(row):
    return tuple(sorted((k, repr(float(v)) if isinstance(v, (int, float, np.number)) else str(v))
                        for k, v in row.items() if not k.endswith('_time')))


def matches(row, want):
    for k, v in want.items():
        if k not in row:
            return False
        if isinstance(v, str):
            if str(row[k]) != v:
                return False
        elif float(row[k]) != float(v):
            return False
    return True


class Setup:
    def __init__(self, kind, cfg):
        self.dir = tempfile.mkdtemp(prefix='verif-exp-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.out = os.path.join(self.dir, 'out')
        os.mkdir(self.out)
        self.cfg = os.path.join(self.dir, 'config.json')
        with open(self.cfg, 'w') as f:
            json.dump(cfg, f)
        self.kind, self.c = kind, cfg

    def close(self):
        assert os.path.basename(self.dir).startswith('verif-exp-')
        shutil.rmtree(self.dir, ignore_errors=True)


def explore(kind, cfg, n, t, cuts, out):
    """all crash/resume histories of task t of n"""
    s = Setup(kind, cfg)
    try:
        disk = Disk(s.out, cuts)
        r = start(kind, t, n, s.cfg, s.out, disk)
        case = dict(part='crash', kind=kind, cfg=cfg, n=n, task=t)
        if isinstance(r, Raised):
            out.violate('raised', '%s task %d of %d: %s' % (kind, t, n, r.text), dict(case, state=None))
            return
        ref = [key(x) for x in result_rows(s.out, t)]
        seeds = {}
        for row in result_rows(s.out, t):
            lab = tuple(str(row[k]) for k in ('prm_type', 'delta_clearance', 'dim', 'trial') if k in row)
            seeds.setdefault(lab, set()).add(row['seed'])
        flat = [x for v in seeds.values() for x in v]
        if any(len(v) != 1 for v in seeds.values()) or len(set(flat)) != len(flat):
            out.violate('seeds', '%s task %d of %d: seeds of the trials are %r' % (kind, t, n, seeds), dict(case, state=None))
        seen = {()}                                         # the empty directory
        queue = collections.deque()

        def add(snaps):
            for x in snaps:
                out.count('transitions')
                if x not in seen:
                    seen.add(x)
                    queue.append(x)
        add(disk.snaps)
        add([read_dir(s.out)])
        while queue and not out.stop:
            state = queue.popleft()
            write_dir(s.out, state)
            disk = Disk(s.out, cuts)
            r = start(kind, t, n, s.cfg, s.out, disk)
            out.count('traces')
            msg = judge_end(r, s.out, t, ref)
            if msg:
                out.violate(msg[0], '%s task %d of %d restarted with %s: %s' % (kind, t, n, show(state), msg[1]),
                            dict(case, state=[[f, d.decode('latin1')] for f, d in state]))
                continue                                    # what follows a wrong state is not explored
            add(disk.snaps)
            add([read_dir(s.out)])
            if len(seen) > 20000:
                raise RuntimeError('more than 20000 states')
        out.count('states', len(seen))
        out.outcome('%s: %d rows' % (kind, len(ref)))
        out.sample('%s task %d of %d: %d result directories reachable' % (kind, t, n, len(seen)))
    finally:
        s.close()


def judge_end(r, out_dir, t, ref):
    if isinstance(r, Raised):
        return ('resume', r.text)
    try:
        rows = [key(x) for x in result_rows(out_dir, t)]
    except Exception as e:
        return ('unreadable', 'the result file cannot be read: %r' % e)
    if collections.Counter(rows) != collections.Counter(ref):
        miss = collections.Counter(ref) - collections.Counter(rows)
        extra = collections.Counter(rows) - collections.Counter(ref)
        return ('rows', 'ends with %d rows instead of %d; missing %s, additional %s'
                % (len(rows), len(ref), [dict(x) for x in list(miss)[:1]], [dict(x) for x in list(extra)[:1]]))
    return None


def show(state):
    return '; '.join('%s: %d bytes, %d lines' % (f, len(d), d.count(b'\n')) for f, d in state) or 'nothing'


def partition(kind, cfg, n, out):
    """over all tasks of an array of n, every combination exactly once with the right rows"""
    s = Setup(kind, cfg)
    case = dict(part='array', kind=kind, cfg=cfg, n=n)
    try:
        rows = []
        for t in range(n):
            r = start(kind, t, n, s.cfg, s.out)
            out.count('transitions')
            if isinstance(r, Raised):
                out.violate('raised', '%s task %d of %d: %s' % (kind, t, n, r.text), case)
                return
            rows += result_rows(s.out, t)
        out.count('states')
        out.count('traces')
        left = list(rows)
        for lab, want in combos(kind, cfg):
            for w in want:
                hit = [x for x in left if matches(x, dict(lab, **w))]
                if len(hit) != 1:
                    out.violate('once', '%s in %d tasks: %r %r has %d result rows' % (kind, n, lab, w, len(hit)), case)
                    return
                left.remove(hit[0])
        if left:
            out.violate('extra', '%s in %d tasks: row %r belongs to no configured combination' % (kind, n, left[0]), case)
        out.outcome('%s array: %d combinations' % (kind, len(combos(kind, cfg))))
    finally:
        s.close()


def bigger(kind, cfg):
    cfg = dict(cfg)
    cfg['n_trials'] += 2
    return cfg


def tasks(tier):
    t = []
    for kind in SCRIPTS:
        for i, cfg in enumerate(CONFIGS[kind]):
            c = bigger(kind, cfg) if tier != 'quick' else cfg
            total = len(combos(kind, c))
            for n in range(1, total + 2):
                t.append(dict(part='array', kind=kind, cfg=c, n=n))
            for n in ([1, 2] if tier == 'quick' else [1, 2, 3]):
                for k in range(min(n, 2)):
                    t.append(dict(part='crash', kind=kind, cfg=c, n=n, task=k, tier=tier))
    return t


CUTS = {'quick': (0.5,), 'thorough': (0.2, 0.35, 0.5, 0.65, 0.8, 0.93)}


def run_task(task, out):
    d = loader.private_package()
    try:
        prepare()
        if task['part'] == 'array':
            partition(task['kind'], task['cfg'], task['n'], out)
        else:
            explore(task['kind'], task['cfg'], task['n'], task['task'], CUTS[task['tier']], out)
    finally:
        loader.drop_private(d)


def replay(case):
    from mc.core import Tally
    d = loader.private_package()
    try:
        prepare()
        out = Tally()
        if case['part'] == 'array':
            partition(case['kind'], case['cfg'], case['n'], out)
        elif case.get('state') is None:
            out.stop = True
            explore(case['kind'], case['cfg'], case['n'], case['task'], (0.5,), out)
        else:
            s = Setup(case['kind'], case['cfg'])
            try:
                start(case['kind'], case['task'], case['n'], s.cfg, s.out)
                ref = [key(x) for x in result_rows(s.out, case['task'])]
                write_dir(s.out, [(f, x.encode('latin1')) for f, x in case['state']])
                r = start(case['kind'], case['task'], case['n'], s.cfg, s.out)
                m = judge_end(r, s.out, case['task'], ref)
                return ['[%s] %s' % m] if m else []
            finally:
                s.close()
        return ['[%s] %s' % v[:2] for v in out.violations]
    finally:
        loader.drop_private(d)
