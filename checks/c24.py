"""C24 job submission, resuming and the tuning sweep: all histories up to a depth on the real scripts."""
import collections, contextlib, datetime as _dt, itertools, json, os, re, runpy, shlex, shutil, subprocess, sys, tempfile, time
from mc.core import guard, Raised
from mc import loader

ID, LEVEL = 'C24', 'model_checking'
TECHNIQUE = 'explicit-state search over submit / resume / progress histories of the real launch scripts with recorded commands and a scripted clock'
NOTE = 'States are the contents of the results directory (with modification times); from each, the real submission script is run ' \
       'for every experiment name and clock step and compared with a model of the experiments. Launched commands are recorded, not ' \
       'executed; the generated job script is executed once per shape with a recording interpreter.'
BOUNDS = {'quick': '4 experiment names (prefixes of each other), histories up to 4 operations, 3 types, 3 triples; tuning: all fill-ins 1..60',
          'thorough': '6 experiment names, histories up to 5 operations; tuning: all fill-ins 1..200'}
ASSUMPTIONS = ['the scheduler commands are replaced by recorders']

SUBMIT = 'exps/submit_and_run_experiment_job.py'
TUNE = 'exps/tune_experiment_triples.py'
PROGRAM = {'line': 'run_straight_line_optimality_trial.py', 'knn': 'run_knn_radius_trial.py',
           'narrow': 'run_narrow_passage_clearance_trial.py'}
T0 = _dt.datetime(2023, 12, 31, 23, 59, 58)
CONFIG = {'delta': 0.5, 'dims_to_test': [2, 3], 'n_trials': 5, 'name': 'unnamed'}
MTIME = 1700000000


@contextlib.contextmanager
def world(cwd, clock, commands):
    """clock: seconds since T0; commands: list receiving what is launched"""
    now = T0 + _dt.timedelta(seconds=clock)

    class FakeDT(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls(*now.timetuple()[:6], tzinfo=tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()

    def record(cmd, *a, **k):
        if isinstance(cmd, (str, bytes)):
            cmd = shlex.split(os.fsdecode(cmd))
        commands.append([os.fspath(c) for c in cmd])
        return subprocess.CompletedProcess(cmd, 0, stdout=b'' if not k.get('text') else '', stderr=b'')

    class Popen:
        def __init__(self, cmd, *a, **k):
            record(cmd, *a, **k)
            self.returncode, self.pid = 0, 0

        def wait(self, *a, **k): return 0
        def poll(self): return 0
        def communicate(self, *a, **k): return (b'', b'')
        def __enter__(self): return self
        def __exit__(self, *a): return False
    code = lambda cmd, *a, **k: (record(cmd, *a, **k), 0)[1]
    real_strftime = time.strftime
    patches = [(_dt, 'datetime', FakeDT), (subprocess, 'run', record), (subprocess, 'call', code),
               (subprocess, 'check_call', code), (subprocess, 'check_output', lambda c, *a, **k: (record(c), b'')[1]),
               (subprocess, 'Popen', Popen), (os, 'system', code), (time, 'time', lambda: now.timestamp()),
               (time, 'localtime', lambda *a: now.timetuple()),
               (time, 'strftime', lambda f, t=None: real_strftime(f, t if t is not None else now.timetuple()))]
    saved = [(m, n, getattr(m, n)) for m, n, _ in patches]
    old = os.getcwd()
    os.chdir(cwd)
    for m, n, v in patches:
        setattr(m, n, v)
    try:
        yield
    finally:
        for m, n, v in saved:
            setattr(m, n, v)
        os.chdir(old)


def run_script(rel, args, cwd, clock):
    """(exit code or Raised, launched commands)"""
    path = os.path.join(loader.REPO, rel)
    argv, sys.argv = sys.argv, [path] + [str(a) for a in args]
    cmds = []

    def go():
        try:
            runpy.run_path(path, run_name='__main__')
        except SystemExit as e:
            return e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        return 0
    try:
        with world(cwd, clock, cmds):
            r = guard(go, cpu=20)
        return r, cmds
    finally:
        sys.argv = argv


def tree(root):
    out = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            p = os.path.join(base, d)
            out[os.path.normpath(os.path.join(rel, d)) + '/'] = None
        for f in files:
            with open(os.path.join(base, f), 'rb') as h:
                out[os.path.normpath(os.path.join(rel, f))] = h.read()
    return out


class Place:
    """a scratch exps directory"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-job-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.cwd = os.path.join(self.dir, 'exps')
        os.makedirs(os.path.join(self.cwd, 'results'))
        with open(os.path.join(self.cwd, 'conf.json'), 'w') as f:
            json.dump(CONFIG, f)

    def restore(self, state):
        files, mtimes = state
        root = os.path.join(self.cwd, 'results')
        shutil.rmtree(root)
        os.makedirs(root)
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith('/'):
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as h:
                    h.write(files[f])
        for d, t in mtimes.items():
            os.utime(os.path.join(root, d), (MTIME + t, MTIME + t))

    def close(self):
        assert os.path.basename(self.dir).startswith('verif-job-')
        shutil.rmtree(self.dir, ignore_errors=True)


def launches(cmds):
    """(the LLsub calls, everything else that is not making the script executable)"""
    ll = [c for c in cmds if c and os.path.basename(c[0]) == 'LLsub']
    other = [c for c in cmds if c and os.path.basename(c[0]) not in ('LLsub', 'chmod')]
    return ll, other


_shapes = {}


def job_script(text, cwd, exp, typ):
    """what the generated script starts, found by executing it with a recording interpreter"""
    shape = (text.replace(exp, '@'), typ)
    if shape in _shapes:
        return _shapes[shape]
    d = tempfile.mkdtemp(prefix='verif-job-')
    try:
        bindir = os.path.join(d, 'bin')
        os.mkdir(bindir)
        for n in ('python', 'python3', 'module'):
            with open(os.path.join(bindir, n), 'w') as f:
                f.write('#!/bin/bash\n[ "$(basename "$0")" = module ] && exit 0\n'
                        '{ printf "%%s\\0" "$@"; printf "PYTHONPATH=%%s" "$PYTHONPATH"; } > %s/rec\n' % d)
            os.chmod(os.path.join(bindir, n), 0o755)
        sh = os.path.join(d, 'job.sh')
        # the system profile may reset PATH, which would hide the recorder
        with open(sh, 'w') as f:
            f.write(text.replace('source /etc/profile', 'true'))
        os.chmod(sh, 0o755)
        p = subprocess.run(['/bin/bash', sh], cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                           env={'PATH': bindir + ':/usr/bin:/bin', 'LLSUB_RANK': '3', 'LLSUB_SIZE': '17', 'HOME': d})
        try:
            with open(os.path.join(d, 'rec')) as f:
                rec = f.read().split('\0')
        except FileNotFoundError:
            return _shapes.setdefault(shape, ['the job script starts no program'])
        args, path = rec[:-1], rec[-1]
        args = [a for a in args if not a.startswith('-')]
        msgs = []
        want = PROGRAM[typ]
        if not args or os.path.basename(args[0]) != want or not os.path.exists(os.path.join(loader.REPO, 'exps', args[0])):
            msgs.append('a %s experiment starts %r' % (typ, args[:1]))
        if args[1:3] != ['3', '17']:
            msgs.append('the job script passes task %r instead of the rank 3 of 17' % args[1:3])
        res = lambda p: os.path.normpath(os.path.join(cwd, p))
        if len(args) != 5 or res(args[3]) != res(os.path.join(exp, 'config.json')) or res(args[4]) != res(exp):
            msgs.append('the job script passes %r for the experiment %s' % (args[3:], exp))
        if not any(os.path.normpath(x) == os.path.normpath(os.path.join(cwd, '..')) for x in path[11:].split(':') if x):
            msgs.append('the package is not on the path of the job: %s' % path)
        return _shapes.setdefault(shape, msgs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- model
# experiment: (name, created, triple, type, valid); state of the search: files, mtimes, experiments {dir: exp}, clock
def check_launch(place, cmds, exp_dir, triple, what):
    ll, other = launches(cmds)
    msgs = []
    if len(ll) != 1 or other:
        return [('launch', '%s: launched %r' % (what, cmds))]
    c = ll[0]
    res = lambda p: os.path.normpath(os.path.join(place.cwd, p))
    scripts = [x for x in c[1:] if '/' in x or x.endswith('.sh')]
    if len(scripts) != 1 or os.path.dirname(res(scripts[0])) != res(exp_dir):
        msgs.append(('which', '%s: launched %r, expected the script of %s' % (what, c, exp_dir)))
    elif not os.path.exists(res(scripts[0])):
        msgs.append(('which', '%s: launched %s, which does not exist' % (what, scripts[0])))
    elif not os.access(res(scripts[0]), os.X_OK) and not any(x[0].endswith('chmod') and res(x[-1]) == res(scripts[0]) for x in cmds):
        msgs.append(('mode', '%s: the launched script is not executable' % what))
    trip = [x for x in c[1:] if x not in scripts]
    if [int(x) for x in re.findall(r'\d+', ' '.join(trip))] != list(triple):
        msgs.append(('triple', '%s: launched with %r instead of %r' % (what, trip, list(triple))))
    return msgs


def submit(place, st, name, typ, triple, clock, config='conf.json'):
    """-> (messages, new experiments)"""
    files, mtimes, exps = st
    what = 'submitting %r (%s, %r) over %r' % (name, typ, list(triple), sorted(exps))
    root = os.path.join(place.cwd, 'results')
    r, cmds = run_script(SUBMIT, ['--type', typ, '--name', name, '--config-path', config, '--triples-args', *triple],
                         place.cwd, clock)
    after = tree(root)
    ll, other = launches(cmds)
    new = sorted(d.split('/')[0] for d in after if d.endswith('/') and d not in files and d.count('/') == 1)
    changed = [f for f in files if f not in after or after[f] != files[f]]
    if changed:
        return [('overwrite', '%s changes %s' % (what, changed[0]))], None
    stamp = (T0 + _dt.timedelta(seconds=clock)).strftime('%Y%m%d-%H%M%S')
    taken = any(e[0] == name and e[1] == clock for e in exps.values())
    if config != 'conf.json':
        if cmds and (ll or other):
            return [('missing', '%s without its configuration launches %r' % (what, cmds))], None
        return [], {d: (name, clock, tuple(triple), typ, False) for d in new}
    if taken:
        if ll or other or new or any(f not in files for f in after):
            return [('overwrite', '%s again within a second: launched %r, new files %r' % (what, cmds, [f for f in after if f not in files]))], None
        if r == 0:
            return [('silent', '%s again within a second is not reported as a failure' % what)], None
        return [], {}
    if isinstance(r, Raised) or r != 0:
        return [('failed', '%s: %r' % (what, r))], None
    if len(new) != 1 or not new[0].startswith(name):
        return [('directory', '%s creates %r' % (what, new))], None
    if stamp not in new[0]:
        return [('directory', '%s at %s creates %r' % (what, stamp, new))], None
    d = new[0]
    stray = [f for f in after if f not in files and not f.startswith(d + '/')]
    if stray:
        return [('directory', '%s also creates %r' % (what, stray))], None
    msgs = []
    try:
        conf = json.loads(after[d + '/config.json'])
    except (KeyError, ValueError) as e:
        return [('config', '%s: no readable configuration (%r)' % (what, e))], None
    if conf != dict(CONFIG, name=name, triples=list(triple)):
        msgs.append(('config', '%s stores the configuration %r' % (what, conf)))
    msgs += check_launch(place, cmds, 'results/' + d, triple, what)
    scripts = [f for f in after if f.startswith(d + '/') and f.endswith('.sh')]
    if not msgs:
        exp = './results/' + d
        text = after[scripts[0]].decode() if scripts else ''
        msgs += [('job', '%s: %s' % (what, m)) for m in job_script(text, place.cwd, exp, typ)]
    with open(os.path.join(place.cwd, 'conf.json')) as f:
        if json.load(f) != CONFIG:
            msgs.append(('config', '%s changes the given configuration file' % what))
    return msgs, {d: (name, clock, tuple(triple), typ, True)}


def resume(place, st, name, clock):
    files, mtimes, exps = st
    what = 'resuming %r among %r' % (name, sorted(exps))
    root = os.path.join(place.cwd, 'results')
    r, cmds = run_script(SUBMIT, ['--type', 'line', '--name', name, '--config-path', 'conf.json', '--triples-args', 9, 9, 9,
                                  '--resume'], place.cwd, clock)
    after = tree(root)
    if after != files:
        return [('resume', '%s changes files: %r' % (what, [f for f in set(after) ^ set(files)]))]
    mine = sorted((e[1], d, e) for d, e in exps.items() if e[0] == name)
    good = [x for x in mine if x[2][4]]
    ll, other = launches(cmds)
    if not mine:
        if ll or other:
            return [('resume', '%s, which does not exist, launches %r' % (what, cmds))]
        return [('silent', '%s, which does not exist, is not reported as a failure' % what)] if r == 0 else []
    if not mine[-1][2][4] and not ll and not other:
        return []                     # the latest attempt had no configuration: refusing is fine
    if not good:
        return [('resume', '%s, never completely submitted, launches %r' % (what, cmds))]
    if isinstance(r, Raised):
        return [('failed', '%s: %s' % (what, r.text))]
    return check_launch(place, cmds, 'results/' + good[-1][1], good[-1][2][2], what)


NAMES = {'quick': ['a', 'ab', 'a_b', 'a[b]'], 'thorough': ['a', 'ab', 'a_b', 'a*', 'a[b]', 'line-1']}
DEPTH = {'quick': 4, 'thorough': 5}
KINDS = ['line', 'knn', 'narrow']
TRIPLES = [(1, 2, 3), (2, 24, 2), (16, 48, 1)]


def successors(place, st, clock, names, depth, out, report):
    """every operation from one state; yields (operation, new state, new clock)"""
    files, mtimes, exps = st
    for name in names:
        place.restore((files, mtimes))
        msgs = resume(place, st, name, clock)
        out.count('transitions')
        report(('resume', name), msgs)
    for i, name in enumerate(names):
        for step in ((0, 2) if depth else (0,)):
            n = len(exps)
            typ, triple = KINDS[(i + n) % 3], TRIPLES[n % 3]
            place.restore((files, mtimes))
            msgs, new = submit(place, st, name, typ, triple, clock + step)
            out.count('transitions')
            report(('submit', name, step), msgs)
            if not msgs:
                f2 = tree(os.path.join(place.cwd, 'results'))
                m2 = dict(mtimes)
                m2.update({d: clock + step for d in new})
                yield ('submit', name, step), (f2, m2, dict(exps, **new)), clock + step
    place.restore((files, mtimes))
    msgs, new = submit(place, st, names[0], 'line', (1, 1, 1), clock + 1, config='no-such.json')
    out.count('transitions')
    report(('missing', names[0]), msgs)
    if not msgs:
        f2 = tree(os.path.join(place.cwd, 'results'))
        m2 = dict(mtimes)
        m2.update({d: clock + 1 for d in new})
        yield ('missing', names[0]), (f2, m2, dict(exps, **new)), clock + 1
    for d in sorted(exps):                  # an earlier experiment saves results: its directory changes
        if d + '/out0.csv' not in files:
            yield ('progress', d), (dict(files, **{d + '/out0.csv': b'x'}), dict(mtimes, **{d: clock + 3}), exps), clock + 3


def canon(st, clock):
    files, mtimes, exps = st
    return (tuple(sorted(files)), tuple(sorted(mtimes.items())), tuple(sorted(exps.items())), clock)


def search(task, out):
    place = Place()
    names, depth = NAMES[task['tier']], DEPTH[task['tier']]
    try:
        start = ({}, {}, {})
        seen = set()
        level = [((), start, 0)]
        for k in range(depth):
            nxt = []
            for hist, st, clock in level:
                def report(op, msgs):
                    for key, m in msgs:
                        out.violate(key, m, dict(part='history', tier=task['tier'], ops=[list(o) for o in hist] + [list(op)]))
                for op, st2, clock2 in successors(place, st, clock, names, k, out, report):
                    if k == 0 and names.index(op[1]) != task['first']:
                        continue
                    c = canon(st2, clock2)
                    if c not in seen:
                        seen.add(c)
                        out.count('states')
                        out.outcome('%d experiments' % len(st2[2]))
                        nxt.append((hist + (op,), st2, clock2))
                if out.stop:
                    return
            level = nxt
        for hist, st, clock in level:           # the last states: resuming only
            for name in names:
                place.restore(st[:2])
                out.count('transitions')
                out.count('traces')
                for key, m in resume(place, st, name, clock):
                    out.violate(key, m, dict(part='history', tier=task['tier'], ops=[list(o) for o in hist] + [['resume', name]]))
            if out.stop:
                return
        out.sample({'history': [list(o) for o in (level[-1][0] if level else ())]})
    finally:
        place.close()


def replay_history(case):
    place = Place()
    try:
        st, clock = ({}, {}, {}), 0
        names = NAMES[case['tier']]
        from mc.core import Tally
        found = []
        for n, op in enumerate(case['ops']):
            op = tuple(op)
            last = n == len(case['ops']) - 1
            hit = None

            def report(o, msgs):
                if last and tuple(o) == op:
                    found.extend('[%s] %s' % m for m in msgs)
            for o, st2, clock2 in successors(place, st, clock, names, n, Tally(), report):
                if tuple(o) == op:
                    hit = (st2, clock2)
            if hit:
                st, clock = hit
        return found
    finally:
        place.close()


# ---------------------------------------------------------------- types, triples and the sweep
def types(task, out):
    place = Place()
    try:
        for typ, triple in itertools.product(KINDS, itertools.product((1, 2, 7), (1, 24, 48), (1, 2, 16))):
            place.restore(({}, {}))
            msgs, new = submit(place, ({}, {}, {}), 'x', typ, triple, 0)
            out.count('transitions')
            out.count('traces')
            case = dict(part='types', typ=typ, triple=triple)
            for k, m in msgs:
                out.violate(k, m, case)
            if new:
                st = (tree(os.path.join(place.cwd, 'results')), {}, new)
                for k, m in resume(place, st, 'x', 5):
                    out.violate(k, m, case)
        shutil.rmtree(os.path.join(place.cwd, 'results'))     # run from the wrong place
        r, cmds = run_script(SUBMIT, ['--type', 'line', '--name', 'x', '--config-path', 'conf.json', '--triples-args', 1, 1, 1],
                             place.cwd, 0)
        if any(launches(cmds)) or r == 0:
            out.violate('where', 'without a results directory the script launches %r and ends with %r' % (cmds, r), dict(part='types'))
        out.count('states')
    finally:
        place.close()


LISTED = [1, 2, 4, 8, 16, 24, 32, 48]


def tune_case(typ, which, fill):
    place = Place()
    try:
        r, cmds = run_script(TUNE, ['--type', typ, '--config-path', 'conf.json', '--triple-to-test', which,
                                    '--other-arg-fill-in', fill], place.cwd, 0)
        if isinstance(r, Raised) or r != 0:
            return [('sweep', 'sweep %s %s %d: %r' % (typ, which, fill, r))], []
        want = sorted((1, n, fill) if which == 'nppn' else (1, fill, n) for n in LISTED if n * fill <= 48)
        got, names, msgs, subs = [], [], [], []
        for c in cmds:
            i = [j for j, x in enumerate(c) if os.path.basename(x) == os.path.basename(SUBMIT)]
            if len(i) != 1:
                msgs.append(('sweep', 'sweep %s %s %d runs %r' % (typ, which, fill, c)))
                continue
            a = c[i[0] + 1:]
            subs.append(a)
            opt = lambda n: a[a.index(n) + 1] if n in a else None
            k = a.index('--triples-args') if '--triples-args' in a else None
            got.append(tuple(int(x) for x in a[k + 1:k + 4]) if k is not None else None)
            names.append(opt('--name'))
            if opt('--type') != typ or opt('--config-path') != 'conf.json' or '--resume' in a:
                msgs.append(('sweep', 'sweep %s %s %d runs %r' % (typ, which, fill, c)))
        if sorted(got, key=str) != sorted(want, key=str):
            msgs.append(('sweep', 'sweep %s of %s with %d elsewhere submits %r instead of %r' % (typ, which, fill, sorted(got, key=str), want)))
        if len(set(names)) != len(names) or None in names:
            msgs.append(('sweep', 'sweep %s %s %d: names %r are not distinct' % (typ, which, fill, names)))
        # the notebooks find a sweep's results by name
        for n, t in zip(names, got):
            if n and t and (tuple(int(x) for x in re.findall(r'\d+', n)[-3:]) != t or typ not in n or which not in n):
                msgs.append(('sweep', 'sweep %s of %s with %d elsewhere: %r runs with triple %r' % (typ, which, fill, n, t)))
        # the recorded commands, run with the real submission script within the same second
        if fill in (1, 3, 16) and not msgs:
            exps = {}
            for a, t in zip(subs, got):
                st = (tree(os.path.join(place.cwd, 'results')), {}, dict(exps))
                m, new = submit(place, st, a[a.index('--name') + 1], typ, t, 0)
                msgs += m
                exps.update(new or {})
        return msgs, got
    finally:
        place.close()


def tasks(tier):
    t = [dict(part='history', first=i, tier=tier) for i in range(len(NAMES[tier]))]
    t.append(dict(part='types', tier=tier))
    for which in ('nppn', 'threads'):
        t.append(dict(part='sweep', which=which, tier=tier))
    return t


def run_task(task, out):
    if task['part'] == 'history':
        search(task, out)
    elif task['part'] == 'types':
        types(task, out)
    else:
        for typ in KINDS:
            for fill in range(1, 61 if task['tier'] == 'quick' else 201):
                msgs, got = tune_case(typ, task['which'], fill)
                out.count('transitions')
                out.count('states')
                out.count('traces', len(got))
                out.outcome('sweep of %d settings' % len(got))
                for k, m in msgs:
                    out.violate(k, m, dict(part='sweep', typ=typ, which=task['which'], fill=fill))


def replay(case):
    from mc.core import Tally
    if case['part'] == 'history':
        return replay_history(case)
    if case['part'] == 'sweep':
        return ['[%s] %s' % m for m in tune_case(case['typ'], case['which'], case['fill'])[0]]
    out = Tally()
    types(case, out)
    return ['[%s] %s' % v[:2] for v in out.violations]
