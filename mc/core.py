"""Shared machinery of the checks: running cases, watchdogs, processes, verdicts and evidence.

A check module (checks/cXX.py) defines

    ID, LEVEL, TECH ...            strings
    tasks(tier)     -> list of JSON-able task descriptions (the bounded space, partitioned)
    run_task(task, out)            explores one part exhaustively, reporting into `out` (a Tally)
    replay(case)    -> list of messages (violations shown by that one case, run without the explorer)

`python -m mc.run CXX` runs it.
"""
import collections, contextlib, io, json, os, pickle, select, signal, sys, time, traceback, fnmatch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')      # the registered commands leave this unset
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class Hang(BaseException):
    """The code under test used more CPU time than the watchdog allows."""


class StubLimit(BaseException):
    """The code asked a stand-in for something it does not model: no verdict possible."""


class Enough(BaseException):
    """This part of the exploration has found plenty of violations."""


class HarnessError(BaseException):
    pass


class Raised:
    """Result of a guarded call which raised."""

    def __init__(self, exc, hang=False):
        self.exc, self.hang = exc, hang
        self.name = 'hang' if hang else type(exc).__name__
        tb = '' if hang else ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-3:])
        self.text = ('no answer within the CPU limit' if hang else '%s: %s' % (self.name, str(exc)[:200]))
        self.tb = tb[-1500:]

    def __repr__(self):
        return 'Raised(%s)' % self.text


def _on_prof(signum, frame):
    raise Hang()


_hangs = 0


def guard(fn, *args, cpu=20.0, **kw):
    """Call code under test: its result, or Raised. Hangs are cut off by CPU time (load-independent)."""
    global _hangs
    if _hangs >= 2:                       # this process has seen the code hang: do not wait as long again
        cpu = min(cpu, 3.0 if _hangs < 8 else 0.5)
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        return fn(*args, **kw)
    except Hang as e:
        _hangs += 1
        return Raised(e, hang=True)
    except StubLimit:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except SystemExit as e:
        return Raised(e)
    except Exception as e:
        return Raised(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def kept(fn, *args, **kw):
    """guard, on private copies of the arrays passed, which the code must leave as they were."""
    own = [a.copy() for a in args]
    got = guard(fn, *own, **kw)
    if not isinstance(got, Raised) and any(a.shape != b.shape or (a != b).any() for a, b in zip(own, args)):
        return Raised(ValueError('the points passed in were modified'))
    return got


def as_form(how, a):
    """The same numbers, laid out or typed differently (None: not possible)."""
    import numpy as np
    a = np.asarray(a)
    if how in ('int64', 'int32', 'float32'):
        b = a.astype(how)
        return b if (b == a).all() else None
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        return b
    if how == 'backward':
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    b = a.copy()
    b.flags.writeable = False
    return b


FORMS = ['int64', 'int32', 'float32', 'fortran', 'strided', 'backward', 'readonly']


@contextlib.contextmanager
def silent():
    """Swallow what the code under test prints."""
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True

    def flush(self):
        pass


class Tally:
    """What one part of the exploration covered and found."""
    MAXV = 5

    def __init__(self):
        self.n = collections.Counter()      # named counters
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []                # (key, message, case)
        self.notes = []
        self.stop, self.seen = False, 0

    def count(self, name, k=1):
        self.n[name] += k

    def outcome(self, name, k=1):
        self.outcomes[name] += k

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violate(self, key, message, case):
        """key: identifies the specific failing input/call site (matched against the known findings)."""
        self.seen += 1
        if len([v for v in self.violations if v[0] == key]) < 3:
            self.violations.append((key, message, case))
        if len(self.violations) >= self.MAXV:
            self.stop = True
        if self.seen >= 400:
            raise Enough()

    def merge(self, o):
        self.n += o.n
        self.outcomes += o.outcomes
        for s in o.samples:
            self.sample(s, 8)
        self.violations += o.violations
        for x in o.notes:
            if x not in self.notes:
                self.notes.append(x)


def parallel(run_task, tasks, nproc=None, deadline=None, brief=False):
    """Run every task in its own forked process (at most nproc at once); returns (Tally, errors)."""
    nproc = nproc or NPROC
    total, errors = Tally(), []
    pending = list(enumerate(tasks))[::-1]
    live, first = {}, None
    sys.stdout.flush()
    while pending or live:
        while pending and len(live) < nproc:
            i, t = pending.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    os.setpgid(0, 0) if False else None
                    tally = Tally()
                    try:
                        try:
                            with silent():
                                run_task(t, tally)
                        except Enough:
                            pass
                        payload = ('ok', tally)
                    except StubLimit as e:
                        payload = ('err', 'stand-in limit: %s\n%s' % (e, traceback.format_exc()))
                    except BaseException:
                        payload = ('err', traceback.format_exc())
                    data = pickle.dumps(payload)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (pid, i, t, bytearray())
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            pid, i, t, buf = live[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                buf += chunk
                continue
            os.close(r)
            _, status = os.waitpid(pid, 0)
            del live[r]
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            if not buf and (sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS)
                            or (os.WIFEXITED(status) and os.WEXITSTATUS(status) not in (0, 3))):
                # the code under test brought the interpreter down
                total.violate('crash', 'the process running the code under test died (status %s)' % status, t)
                continue
            if not buf:
                errors.append('task %s died (status %s)' % (repr(t)[:300], status))
                continue
            kind, val = pickle.loads(bytes(buf))
            if kind == 'ok':
                total.merge(val)
            else:
                errors.append('task %s: %s' % (repr(t)[:300], val))
        if total.violations and first is None:
            first = time.time()
        # once something is wrong, the other parts get a minute more (they are not needed for the verdict)
        if (deadline and time.time() > deadline) or (first is not None and time.time() > first + 60 and brief):
            for r, (pid, *_rest) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            errors.append('stopped with %d tasks unfinished' % (len(live) + len(pending)))
            break
    return total, errors


def load_findings(pid):
    """Lines `finding: property=<id> key=<glob> :: <text>`; `fixed:` lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' key=', 1)[1]
                key, text = rest.split(' :: ', 1)
                out.append((key.strip(), text.strip()))
    return out


def jsonable(x):
    import numpy as np
    from fractions import Fraction
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main(mod):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = mod.ID
    t0 = time.time()
    if hasattr(mod, 'setup'):
        mod.setup()
    tasks = mod.tasks(tier)
    for name in getattr(mod, 'PRELOAD', []):        # imported once, before the tasks are forked
        try:
            with silent():
                __import__(name)
        except Exception:
            pass                                    # reported by the tasks
    total, errors = parallel(mod.run_task, tasks, deadline=t0 + (840 if tier == 'quick' else 6 * 3600),
                             brief=not load_findings(pid))
    if hasattr(mod, 'finish'):
        mod.finish(total, tier)
    if hasattr(mod, 'teardown'):
        mod.teardown()

    findings = load_findings(pid)
    known, fresh = {}, []
    for key, msg, case in total.violations:
        for pat, text in findings:
            if fnmatch.fnmatchcase(key, pat):
                known.setdefault(pat, (text, key, msg, case))
                break
        else:
            fresh.append((key, msg, case))
    for pat, (text, key, msg, case) in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))

    replay_path = None
    if fresh:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, '%s.json' % pid)
        with open(replay_path, 'w') as f:
            json.dump({'property': pid, 'how': 'cd /verif && sh replay.sh %s' % replay_path,
                       'violations': [{'key': k, 'message': m, 'case': jsonable(c)} for k, m, c in fresh[:10]]},
                      f, indent=1)

    top = ('states', 'transitions', 'traces') if mod.LEVEL == 'model_checking' else ('evaluations', 'nontrivial')
    cov = {'tasks': len(tasks), 'counters': {k: int(v) for k, v in sorted(total.n.items()) if k not in top},
           'outcomes': {str(k): int(v) for k, v in sorted(total.outcomes.items(), key=lambda kv: str(kv[0]))[:60]},
           'samples': jsonable(total.samples), 'exhaustive': not errors and not fresh,
           'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS}
    if mod.LEVEL == 'model_checking':
        cov.update(states=int(total.n['states']), transitions=int(total.n['transitions']),
                   traces_validated_against_impl=int(total.n['traces']))
    else:
        cov.update(evaluations=int(total.n['evaluations']), distinct_nontrivial=int(total.n['nontrivial']),
                   rule=mod.RULE)
    if total.notes:
        cov['notes'] = total.notes[:20]
    if errors:
        cov['errors'] = [e[:2000] for e in errors[:10]]
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 3),
              violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % pid))
    print('%s tier=%s %.1fs %s' % (pid, tier, time.time() - t0, json.dumps({k: int(v) for k, v in sorted(total.n.items())})))
    for e in errors[:5]:
        print('ERROR', e[-1500:], file=sys.stderr)
    if fresh:
        for k, m, c in fresh[:5]:
            print('  [%s] %s' % (k, m))
        print('VIOLATION property=%s replay=%s' % (pid, replay_path))
        return 1
    if errors:
        return 2
    return 0


def chunks(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]
