"""A random source whose every answer is decided by the explorer (stands in for numpy's Generator)."""
import contextlib, functools, os
import numpy as np
from mc.core import StubLimit


class Choices:
    """One execution: a prefix of forced answers, then first answers; records the options at every point."""

    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []        # trace of (answer, number of options)

    def pick(self, n):
        i = len(self.trace)
        a = self.prefix[i] if i < len(self.prefix) else 0
        if a >= n:
            raise StubLimit('replay diverged: answer %d of %d at point %d' % (a, n, i))
        self.trace.append((a, n))
        return a


def explore(run, cap=None):
    """Depth-first over all answer sequences. run(choices) is one complete execution; yields its results."""
    prefix, n = [], 0
    while prefix is not None:
        c = Choices(prefix)
        res = run(c)
        n += 1
        yield c, res
        if cap and n > cap:
            raise StubLimit('more than %d executions' % cap)
        t = c.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t = t[:-1]
        prefix = [a for a, _ in t[:-1]] + [t[-1][0] + 1] if t else None


def selector_cells(run, n_pos, coarse=33, width=1e-12):
    """Code may pick a box by comparing uniform draws with thresholds instead of a discrete choice. Tells these
    draws (selectors) from the position draws and cuts their range into the intervals on which the outcome is the
    same. run(choices, alphabet, script) -> (rng, sample as a tuple of floats, or None if it failed).
    Returns [(script, probability)], [({}, 1.0)] if there are no selectors, None if a run failed."""
    PROBE = 0.3

    def outcomes(script):
        res = []
        for _, (rng, p) in explore(lambda c: run(c, [PROBE], script), cap=100000):
            if p is None:
                return None
            res.append((tuple(rng.path), len(rng.units) + len(script), p))
        return res
    base = outcomes({})
    if base is None:
        return None
    n = base[0][1]
    if any(b[1] != n for b in base):
        raise StubLimit('the number of uniform draws depends on the choices')
    if n <= n_pos:
        return [({}, 1.0)]
    still = []
    for j in range(n):
        moved = False
        got = outcomes({j: PROBE + 1e-7})
        if got is None:
            return None
        for (_, _, p), (_, _, q) in zip(base, got):
            d = max(abs(a - b) for a, b in zip(p, q))
            moved |= 0 < d < 1e-3
        if not moved:
            still.append(j)
    sel = still[:n - n_pos]
    if len(sel) < n - n_pos or len(sel) > 2:
        raise StubLimit('%d uniform draws for a position of %d coordinates' % (n, n_pos))
    grid = [i / (coarse - 1) for i in range(coarse - 1)] + [1 - 2.0 ** -53]

    class Failed(Exception):
        pass

    def signature(script, rest):
        if rest:
            return tuple(signature({**script, rest[0]: u}, rest[1:]) for u in grid)
        got = outcomes(script)
        if got is None:
            raise Failed
        return tuple((path, tuple(round(x, 9) for x in p)) for path, _, p in got)

    def cells(script, rest):
        if not rest:
            return [(script, 1.0)]
        j, memo = rest[0], {}

        def sig(u):
            if u not in memo:
                memo[u] = signature({**script, j: u}, rest[1:])
            return memo[u]
        cuts, todo = [], [(a, b) for a, b in zip(grid, grid[1:])][::-1]
        while todo:
            a, b = todo.pop()
            if sig(a) == sig(b):
                continue
            if b - a <= width:
                cuts.append(b)
                continue
            m = (a + b) / 2
            todo += [(m, b), (a, m)]
        edges = [0.0] + cuts + [1.0]
        res = []
        for a, b in zip(edges, edges[1:]):
            if b > a:
                res += [(s, pr * (b - a)) for s, pr in cells({**script, j: (a + b) / 2}, rest[1:])]
        return res
    try:
        return cells({}, sel)
    except Failed:
        return None


class FakeRNG:
    """`alphabet`: answers of a uniform draw on [0,1); `script`: {index of a uniform draw: its answer}."""

    def __init__(self, choices, alphabet, script=None):
        self.c, self.alphabet, self.script, self.n = choices, alphabet, script or {}, 0
        self.prob, self.path, self.units, self.log = 1.0, [], [], []

    def _unit(self):
        self.n += 1
        if self.n - 1 in self.script:
            return self.script[self.n - 1]
        u = self.alphabet[self.c.pick(len(self.alphabet))]
        self.units.append(u)
        return u

    def _array(self, size):
        if size is None:
            return self._unit()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([self._unit() for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)

    def random(self, size=None, dtype=np.float64, out=None):
        self.log.append('random')
        return self._array(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.log.append('uniform')
        lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        if size is None and (lo.ndim or hi.ndim):
            size = np.broadcast(lo, hi).shape
        u = self._array(size)
        r = lo + (hi - lo) * u
        return r if size is not None else float(r)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.log.append('choice')
        if size is not None:
            if int(np.prod(size)) != 1:
                raise StubLimit('choice of several items')
            r = self.choice(a, p=p)
            return np.array([r]).reshape(size if not np.isscalar(size) else (size,))
        arr = None if np.isscalar(a) else np.asarray(a)
        n = int(a) if arr is None else len(arr)
        if n <= 0:
            raise ValueError('a cannot be empty')
        if p is None:
            p = np.full(n, 1.0 / n)
        p = np.asarray(p, dtype=float)
        if p.shape != (n,):
            raise ValueError('a and p must have same size')
        if np.isnan(p).any():
            raise ValueError('probabilities contain NaN')
        if (p < 0).any():
            raise ValueError('probabilities are not non-negative')
        if abs(p.sum() - 1) > 1.5e-8:
            raise ValueError('probabilities do not sum to 1')
        live = np.nonzero(p > 0)[0]
        i = int(live[self.c.pick(len(live))])
        self.prob *= float(p[i])
        self.path.append(('c', i, n))
        return i if arr is None else arr[i]

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        self.log.append('integers')
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + bool(endpoint)
        if size is not None or n > 4096:
            raise StubLimit('integers(%s, %s, %s)' % (low, high, size))
        i = self.c.pick(n)
        self.prob /= n
        self.path.append(('i', i, n))
        return int(low) + i

    def __getattr__(self, name):
        raise StubLimit('the random source has no scripted %s' % name)


class Relay:
    """Handed out by the patched default_rng; forwards to whichever FakeRNG is current."""

    def __init__(self):
        self.__dict__['cur'] = None

    def __getattr__(self, name):
        if self.__dict__['cur'] is None:
            raise StubLimit('random draw outside of a scripted run')
        return getattr(self.__dict__['cur'], name)


@functools.lru_cache(maxsize=None)
def _in_repo(f, repo):
    return os.path.realpath(f).startswith(os.path.realpath(repo) + os.sep)


@contextlib.contextmanager
def patched(relay):
    """Every default_rng the code can reach hands out the relay (also names imported directly)."""
    import sys
    from mc import core
    old = np.random.default_rng
    where = [(np.random, 'default_rng')]
    for name, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and _in_repo(f, core.REPO):
            where += [(m, n) for n, v in list(vars(m).items()) if v is old]
    for m, n in where:
        setattr(m, n, lambda *a, **k: relay)
    try:
        yield
    finally:
        for m, n in where:
            setattr(m, n, old)
