"""C35 deployment on the cluster: all environments (queue, failures, lock file) up to a deviation bound, on the real scripts."""
import argparse, collections, glob, io, itertools, os, random, re, runpy, shlex, shutil, subprocess, sys, tempfile, time
import numpy as np
from mc.core import guard, Raised, Tally
from mc import loader

ID, LEVEL = 'C35', 'model_checking'
TECHNIQUE = 'stateless exploration of all cluster behaviours (queue, refusals, failures, removed lock) up to a deviation bound against the real deployment scripts'
NOTE = 'The real deployment scripts run against a model of the batch system. At every look at the queue the model chooses how many ' \
       'jobs have finished, whether jobs are held, whether the command fails and whether the lock file has been removed; every ' \
       'submission may be refused. The job scripts are executed for every array index with a recording interpreter, and what they ' \
       'start is read with the option parser of the real program.'
BOUNDS = {'quick': 'all answers at each of the first 4 looks at the queue, any two deviations within 3 looks anywhere in the run, a refusal at any '
                   'submission; array indices 0 to 200',
          'thorough': 'all answers at the first 5 looks (turtlebot), any two deviations anywhere, array indices 0 to 210'}
ASSUMPTIONS = ['jobs appear in the queue as soon as they are submitted, one line each', 'only the deployment script submits jobs']

DIR = 'exps/tamp_environment'
CAP = 100
SCRIPTS = {'turtlebot': dict(file='deploy_tamp_experiments.py', job='deploy_experiments.sh', low=99, high=50000, program='turtlebot_move/run.py'),
           'kuka': dict(file='deploy_tamp_experiments_kuka.py', job='deploy_experiments_kuka.sh', low=499, high=100000, program='kuka_carry/run.py'),
           'adaptive': dict(file='deploy_tamp_adaptive_kuka.py', job='deploy_experiments_kuka_adaptive.sh', program='kuka_carry/run.py')}
CHOICES = ['done', 'same', 'to49', 'to50', 'hold', 'holdsome', 'holdkeep', 'fail', 'unlock']


class Cluster:
    """the batch system; every effect of the script goes through shell()"""

    def __init__(self, cwd, choices, refuse=None, cap=6000):
        self.cwd, self.choices, self.refuse, self.cap = cwd, choices, refuse, cap
        self.queue = []                     # True: held
        self.polls = self.calls = 0
        self.subs = []                      # (array, job script, arguments)
        self.peak = 0
        self.bad = []                       # (kind, message)
        self.locked_at = None               # submissions made when the lock was removed
        self.used = []
        self.slept = 0.0
        self.cancelled = 0
        self.stubborn = False

    def sleep(self, t=0):
        self.slept += t
        self.tick()

    def tick(self):
        self.calls += 1
        if self.calls > self.cap:
            raise RuntimeError('the script does not come to an end')

    def shell(self, cmd):
        """(return code, output)"""
        self.tick()
        words = shlex.split(cmd) if isinstance(cmd, str) else [os.fspath(c) for c in cmd]
        name = os.path.basename(words[0])
        if name == 'squeue':
            c = self.choices.get(self.polls, 'done')
            self.polls += 1
            self.used.append(c)
            if c == 'fail':
                return 1, ''
            if c == 'unlock' and self.locked_at is None:
                self.locked_at = len(self.subs)
                os.remove(os.path.join(self.cwd, 'tmux_lock.txt'))
            if c in ('to49', 'to50'):
                n = int(c[2:])
                while len(self.queue) > n and False in self.queue:
                    self.queue.remove(False)
            elif c in ('hold', 'holdkeep'):
                self.queue = [True] * len(self.queue)
                self.stubborn = c == 'holdkeep'         # the next cancellation fails
            elif c == 'holdsome':
                self.queue = [True if i % 2 == 0 else h for i, h in enumerate(self.queue)]
            elif c in ('done', 'unlock'):
                self.queue = [h for h in self.queue if h]
            lines = [] if any(w in ('-h', '--noheader') for w in words) else ['             JOBID PARTITION     NAME     USER ST       TIME  NODES NODELIST(REASON)']
            for i, h in enumerate(self.queue):
                why = ('(JobHeldUser)', '(launch failed requeued held)')[i % 2] if h else ('d-9-3-1', '(Resources)', '(Priority)')[i % 3]
                lines.append('%18s xeon-p8 deploy_e acurtis %s       0:0%d      1 %s' % (
                    '2463%04d_%d' % (len(self.subs), i), 'PD' if h or i % 3 else 'R', i % 10, why))
            self.seen = list(self.queue)
            return 0, ''.join(l + '\n' for l in lines)
        if name == 'scancel':
            if not self.queue or not all(self.queue):
                self.bad.append(('cancel', 'cancels %d jobs of which %d are held' % (len(self.queue), sum(self.queue))))
            self.cancelled += 1
            if self.stubborn:
                self.stubborn = False
                return 1, ''
            self.queue = []
            return 0, ''
        if name == 'sbatch':
            i = len(self.subs)
            if self.refuse == i:
                self.refuse = None
                self.subs.append(None)                 # keeps its place
                return 1, ''
            arr = [re.fullmatch(r'--array[= ]?(\d+)-(\d+)', w) for w in words[1:]]
            arr = [(int(m.group(1)), int(m.group(2))) for m in arr if m]
            rest = [w for w in words[1:] if not w.startswith('-')]
            if len(arr) != 1 or not rest:
                self.bad.append(('submission', 'submits %r' % cmd))
                return 0, ''
            self.subs.append((arr[0], rest[0], tuple(rest[1:])))
            self.queue += [False] * (arr[0][1] - arr[0][0] + 1)
            self.peak = max(self.peak, len(self.queue))
            return 0, 'Submitted batch job %d\n' % (24630000 + i)
        self.bad.append(('command', 'runs %r' % (cmd,)))
        return 127, ''


class Redirect:
    """subprocess, os.system and sleeping go to the cluster"""

    def __init__(self, cl):
        def run(cmd, *a, check=False, **k):
            rc, out = cl.shell(cmd)
            if check and rc:
                raise subprocess.CalledProcessError(rc, cmd, output=out, stderr='refused')
            text = k.get('text') or k.get('universal_newlines') or k.get('encoding')
            return subprocess.CompletedProcess(cmd, rc, stdout=out if text else out.encode(), stderr='' if text else b'')

        def call(cmd, *a, **k):
            return run(cmd, **k).returncode

        def check_output(cmd, *a, **k):
            k.pop('check', None)
            return run(cmd, check=True, **k).stdout

        def popen(cmd, *a, **k):
            r = run(cmd, **{x: v for x, v in k.items() if x != 'check'})

            class P:
                returncode, pid, stdout, stderr = r.returncode, 1, io.BytesIO(r.stdout.encode() if isinstance(r.stdout, str) else r.stdout), io.BytesIO()
                def communicate(self, *a, **k): return r.stdout, r.stderr
                def wait(self, *a, **k): return r.returncode
                def poll(self): return r.returncode
                def __enter__(self): return self
                def __exit__(self, *a): return False
            return P()
        now = [1.7e9]

        def clock():
            return now[0] + cl.slept
        self.patches = [(subprocess, 'run', run), (subprocess, 'call', call), (subprocess, 'check_call', lambda c, *a, **k: run(c, check=True, **k).returncode),
                        (subprocess, 'check_output', check_output), (subprocess, 'Popen', popen),
                        (subprocess, 'getoutput', lambda c: cl.shell(c)[1].rstrip('\n')),
                        (subprocess, 'getstatusoutput', lambda c: (lambda r: (r[0], r[1].rstrip('\n')))(cl.shell(c))),
                        (os, 'system', lambda c: cl.shell(c)[0] << 8), (time, 'sleep', cl.sleep), (time, 'time', clock), (time, 'monotonic', clock)]

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n, _ in self.patches]
        for m, n, v in self.patches:
            setattr(m, n, v)

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


_code = {}
_cwd = []


def scratch():
    if not _cwd or _cwd[0] != os.getpid():
        _cwd[:] = [os.getpid(), tempfile.mkdtemp(prefix='verif-deploy-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)]
    return _cwd[1]


def clean():
    if _cwd and _cwd[0] == os.getpid():
        assert os.path.basename(_cwd[1]).startswith('verif-deploy-')
        shutil.rmtree(_cwd[1], ignore_errors=True)
        _cwd.clear()


def deploy(which, choices, refuse=None, seed=0):
    """(result, cluster)"""
    S = SCRIPTS[which]
    path = os.path.join(loader.REPO, DIR, S['file'])
    if path not in _code:
        with open(path) as f:
            _code[path] = compile(f.read(), path, 'exec')
    cwd = scratch()
    with open(os.path.join(cwd, 'tmux_lock.txt'), 'w'):
        pass
    cl = Cluster(cwd, choices, refuse)
    random.seed(seed)
    np.random.seed(seed)
    old, so, argv = os.getcwd(), (sys.stdout, sys.stderr), sys.argv
    sys.argv = [path]
    os.chdir(cwd)
    sys.stdout = sys.stderr = io.StringIO()

    def go():
        try:
            exec(_code[path], {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__})
        except SystemExit as e:
            return e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        return 0
    try:
        with Redirect(cl):
            r = guard(go, cpu=60)
    finally:
        os.chdir(old)
        sys.stdout, sys.stderr = so
        sys.argv = argv
    return r, cl


def expected(which, subs):
    """messages about the submissions of a complete run"""
    S = SCRIPTS[which]
    msgs = []
    wrong = [s for s in subs if s[1] != S['job']]
    if wrong:
        msgs.append('submits %r instead of %s' % (wrong[0][1], S['job']))
    runs = collections.Counter()
    for (a, b), _, args in subs:
        try:
            args = tuple(float(x) if which == 'adaptive' else int(x) for x in args)
        except ValueError:
            msgs.append('submits the arguments %r' % (args,))
            continue
        if a != 1:
            msgs.append('submits the array indices %d to %d' % (a, b))
        runs[args] += b
    if which == 'adaptive':
        grid = list(itertools.product((.02, .03, .04), (.02, .03, .04), (np.pi / 18, np.pi / 32)))
        want = {tuple(map(float, g)): 5 for g in grid}
        if dict(runs) != want:
            msgs.append('the settings are submitted %r times, expected each of the %d of the grid 5 times' % (sorted(set(runs.values())), len(want)))
        return msgs
    per = 50
    if runs.get((0, 0, 1)) != per:
        msgs.append('the adaptive setting is submitted for %d runs instead of %d' % (runs.get((0, 0, 1), 0), per))
    fixed = collections.Counter({a[1]: n for a, n in runs.items() if len(a) == 3 and a[2] == 0 and a[0] == a[1] - 1})
    grow = collections.Counter({a[1]: n for a, n in runs.items() if len(a) == 3 and a[2] == 0 and a[0] == S['low']})
    other = [a for a in runs if a != (0, 0, 1) and not (len(a) == 3 and a[2] == 0 and (a[0] == a[1] - 1 or a[0] == S['low']))]
    if other:
        msgs.append('submits %r, which is neither a fixed number of samples, nor growing to one, nor adaptive' % (other[0],))
    if fixed != grow:
        msgs.append('the fixed and the growing roadmaps are not compared at the same sizes')
    total = sum(fixed.values())
    if total != 20 * per or any(n % per for n in fixed.values()):
        msgs.append('%d runs with fixed sizes, in portions %r, instead of 20 sizes of %d' % (total, sorted(set(fixed.values())), per))
    if any(not S['low'] < n <= S['high'] for n in fixed):
        msgs.append('sizes %r outside %d to %d' % ([n for n in fixed if not S['low'] < n <= S['high']], S['low'], S['high']))
    return msgs


def case(which, choices, refuse=None, seed=0):
    r, cl = deploy(which, choices, refuse, seed)
    msgs = list(cl.bad[:3])
    what = '%s, queue %s%s' % (which, ', '.join('%d: %s' % (k, choices[k]) for k in sorted(choices)) or 'always empty',
                               '' if refuse is None else ', submission %d refused' % refuse)
    if cl.peak > CAP:
        msgs.append(('cap', '%d jobs in the queue' % cl.peak))
    refused = None in cl.subs
    subs = [s for s in cl.subs if s is not None]
    done = not isinstance(r, Raised) and r == 0
    if cl.locked_at is not None:
        batch = 50 if which == 'kuka' else 1
        if len(cl.subs) - cl.locked_at > batch:
            msgs.append(('lock', '%d further submissions after the lock file was removed' % (len(cl.subs) - cl.locked_at)))
    elif done:
        for m in expected(which, subs)[:2]:
            msgs.append(('refused' if refused else 'runs', m))
    elif not refused:
        msgs.append(('ends', 'ends with %r after %d submissions' % (r, len(subs))))
    return [('%s:%s' % (which, k), '%s: %s' % (what, m)) for k, m in msgs], r, cl


# ---------------------------------------------------------------- the job scripts
BIN = '''#!/bin/bash
{ printf "%%s\\0" "$(basename "$0")" "OMP=$OMP_NUM_THREADS" "$@"; printf "\\n"; } >> %s
'''


def start(which, index, args):
    """what the job script starts for an array index: [argv]"""
    S = SCRIPTS[which]
    d = scratch()
    bindir, rec = os.path.join(d, 'bin'), os.path.join(d, 'rec')
    if not os.path.isdir(bindir):
        os.mkdir(bindir)
        for n in ('python', 'python3'):
            with open(os.path.join(bindir, n), 'w') as f:
                f.write(BIN % rec)
            os.chmod(os.path.join(bindir, n), 0o755)
        with open(os.path.join(bindir, 'seq'), 'w') as f:
            f.write('#!/bin/sh\nexec /usr/bin/seq "$@"\n')
        os.chmod(os.path.join(bindir, 'seq'), 0o755)
    if os.path.exists(rec):
        os.remove(rec)
    env = {'PATH': bindir + ':/usr/bin:/bin', 'HOME': d, 'USER': 'someone'}
    if index is not None:
        env['SLURM_ARRAY_TASK_ID'] = str(index)
    p = subprocess.run(['/bin/bash', os.path.join(loader.REPO, DIR, S['job'])] + list(args), cwd=d, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    if not os.path.exists(rec):
        return []
    with open(rec) as f:
        return [l.split('\0')[:-1] for l in f.read().split('\n') if l]


_main = {}


class Parsed(BaseException):
    pass


def parsed(which, argv):
    """the options as the real program understands them"""
    folder = SCRIPTS[which]['program'].split('/')[0]
    if folder not in _main:
        _main[folder] = loader.tamp_module(folder, 'run')
    real, out = argparse.ArgumentParser.parse_args, []

    def spy(self, *a, **k):
        out.append(real(self, *a, **k))
        raise Parsed
    av = sys.argv
    sys.argv = argv
    argparse.ArgumentParser.parse_args = spy
    try:
        _main[folder].main()
    except Parsed:
        return vars(out[0])
    except SystemExit:
        return None
    finally:
        argparse.ArgumentParser.parse_args = real
        sys.argv = av
    return None


def job_case(which, index, args):
    S = SCRIPTS[which]
    got = start(which, index, args)
    what = '%s %s, array index %s' % (S['job'], ' '.join(args), index)
    if not 1 <= index <= 200:
        return [('%s:index' % which, '%s starts %r' % (what, g)) for g in got[:1]], None
    if len(got) != 1:
        return [('%s:starts' % which, '%s starts %d programs' % (what, len(got)))], None
    argv = got[0][2:]
    while argv and argv[0].startswith('-'):
        argv = argv[1:]
    if not argv or os.path.normpath(argv[0]) != S['program']:
        return [('%s:program' % which, '%s starts %r' % (what, got[0]))], None
    o = parsed(which, argv)
    if o is None:
        return [('%s:options' % which, '%s starts the program with options it does not accept: %r' % (what, argv))], None
    want = dict(seed=index)
    if which == 'adaptive':
        want.update(delta=float(args[0]), collision_buffer=float(args[1]), theta_margin=float(args[2]), adaptive_n=True)
    elif args[2] == '1':
        want.update(adaptive_n=True)
    else:
        want.update(adaptive_n=False, min_samples=int(args[0]), max_samples=int(args[1]))
    bad = {k: (o.get(k), v) for k, v in want.items() if o.get(k) != v}
    if bad:
        return [('%s:options' % which, '%s: the run has %s' % (what, ', '.join('%s=%r instead of %r' % (k, a, b) for k, (a, b) in bad.items())))], None
    return [], o.get('save_dir')


JOBARGS = {'turtlebot': [('0', '0', '1'), ('99', '4711', '0'), ('4710', '4711', '0')],
           'kuka': [('0', '0', '1'), ('499', '4711', '0')],
           'adaptive': [('0.02', '0.03', repr(np.pi / 18)), ('0.04', '0.02', repr(np.pi / 32))]}


# ---------------------------------------------------------------- exploration
def tasks(tier):
    q = tier == 'quick'
    t = []
    for w in ('turtlebot', 'kuka'):
        k = (4 if q else 5) if w == 'turtlebot' else (2 if q else 3)
        t += [dict(part='prefix', which=w, first=c, second=d, k=k) for c in CHOICES for d in (CHOICES if not q else [None])]
        far = 3 if q else 60
        t += [dict(part='pairs', which=w, lo=lo, hi=lo + 4, far=far) for lo in range(0, 44, 4)]
    t += [dict(part='refuse', which=w, lo=lo) for w in SCRIPTS for lo in range(4)]
    t += [dict(part='jobs', which=w, args=a, lo=lo, hi=min(lo + 55, 201 if q else 211)) for w in SCRIPTS for a in JOBARGS[w] for lo in range(0, 201, 55)]
    t.append(dict(part='distinct'))
    return t


def report(out, res, c):
    msgs, r, cl = res
    out.count('traces')
    out.count('transitions', cl.polls + len(cl.subs))
    out.outcome('%s submissions' % ('all' if cl.locked_at is None and None not in cl.subs else 'some of the'))
    for k, m in msgs:
        out.violate(k, m, c)


def run_task(task, out):
    try:
        w = task.get('which')
        if task['part'] == 'prefix':
            rest = task['k'] - 1 - (task['second'] is not None)
            for cs in itertools.product(CHOICES, repeat=rest):
                cs = [task['first']] + ([task['second']] if task['second'] else []) + list(cs)
                c = {i: x for i, x in enumerate(cs) if x != 'done'}
                report(out, case(w, c), dict(part='run', which=w, choices=c))
                out.count('schedules')
                if out.stop:
                    return
        elif task['part'] == 'pairs':
            for i in range(task['lo'], task['hi']):
                for a in CHOICES[1:]:
                    res = case(w, {i: a})
                    report(out, res, dict(part='run', which=w, choices={i: a}))
                    out.count('schedules')
                    for j in range(i + 1, min(i + 1 + task['far'], res[2].polls)):
                        if w == 'kuka' and task['far'] < 10 and j > i + 1:
                            break
                        for b in CHOICES[1:]:
                            report(out, case(w, {i: a, j: b}), dict(part='run', which=w, choices={i: a, j: b}))
                            out.count('schedules')
                    if out.stop:
                        return
        elif task['part'] == 'refuse':
            n = {'turtlebot': 41, 'kuka': 2050, 'adaptive': 90}[w]
            step = 4 * (1 if w != 'kuka' else 7)
            for i in range(task['lo'], n + 2, step):
                report(out, case(w, {}, refuse=i, seed=i), dict(part='run', which=w, choices={}, refuse=i, seed=i))
                out.count('schedules')
        elif task['part'] == 'jobs':
            for i in range(task['lo'], task['hi']):
                msgs, save = job_case(w, i, task['args'])
                out.count('states')
                out.count('traces')
                for k, m in msgs:
                    out.violate(k, m, dict(part='job', which=w, index=i, args=task['args']))
                if out.stop:
                    return
        else:
            for w in SCRIPTS:                                  # different array indices never share a directory
                seen = {}
                for i in range(1, 51):
                    msgs, save = job_case(w, i, JOBARGS[w][0])
                    if save is not None and save in seen:
                        out.violate('%s:directory' % w, '%s: array indices %d and %d save to %s' % (w, seen[save], i, save), dict(part='job', which=w, index=i, args=JOBARGS[w][0]))
                        break
                    seen[save] = i
                    out.count('states')
    finally:
        clean()


def replay(c):
    try:
        if c['part'] == 'job':
            out = Tally()
            msgs = job_case(c['which'], c['index'], c['args'])[0]
            if not msgs:
                run_task(dict(part='distinct'), out)
                msgs = [v[:2] for v in out.violations]
            return ['[%s] %s' % m for m in msgs]
        ch = {int(k): v for k, v in c['choices'].items()}
        return ['[%s] %s' % m for m in case(c['which'], ch, c.get('refuse'), c.get('seed', 0))[0]]
    finally:
        clean()
