"""C15 sample-count bound: the least sufficient count, always found."""
import itertools, math
from mc.core import guard, Raised

ID, LEVEL = 'C15', 'exploration'
TECHNIQUE = 'exhaustive enumeration of all unimodal bound shapes over small counts (every answer history the search can see) and of parameter lattices, exact oracle with 60-digit arithmetic'
NOTE = 'The search is run against every single-humped bound function over the first counts, every threshold and scale ' \
       '(counts up to 2^200), and the whole bound against a lattice of clearances, tolerances, volumes, dimensions and ' \
       'probabilities; for counts past 2^40 it is compared to a relative precision, as the bound is evaluated in floats.'
BOUNDS = {'quick': 'humps at 1..24, crossings up to 40 past the hump, 4 slopes, and crossings at 2^j-1..2^j+1 for j <= 200; '
                   '8 x 7 x 4 x 6 x 6 parameter lattice',
          'thorough': 'humps at 1..80, crossings up to 150 past it; 14 x 11 x 6 x 8 x 9 parameter lattice'}
RULE = 'one case = one bound shape with one threshold, or one parameter combination; non-trivial = the count is above 2'
ASSUMPTIONS = ['scipy is the one of python3-vt', 'beyond 2^40 samples a relative error of 1e-9 of the count is accepted']

LAT = {'quick': dict(c=[1e-6, 1e-3, 0.05, 0.1, 0.25, 0.5, 1.0, 4.0], t=[None, 1e-3, 0.05, 0.1, 0.5, 1.0, 10.0],
                     v=[0.1, 1.0, 3.7, 1000.0], d=[1, 2, 3, 4, 7, 10], s=[1e-6, 0.1, 0.5, 0.9, 0.99, 1 - 1e-12]),
       'thorough': dict(c=[1e-30, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.25, 0.4, 0.5, 1.0, 2.0, 4.0],
                        t=[None, 1e-6, 1e-3, 0.01, 0.05, 0.1, 0.5, 1.0, 2.0, 10.0, 1e4], v=[1e-3, 0.1, 1.0, 3.7, 50.0, 1e6],
                        d=[1, 2, 3, 4, 5, 7, 10, 16], s=[1e-9, 1e-3, 0.1, 0.3, 0.5, 0.9, 0.99, 0.999999, 1 - 1e-12])}


def tasks(tier):
    t = [dict(part='shape', slope=s, scale=sc, tier=tier) for s in range(4) for sc in range(8)]
    t += [dict(part='big', i=i, tier=tier) for i in range(8)]
    L = LAT[tier]
    t += [dict(part='real', c=c, d=d, tier=tier) for c in L['c'] for d in L['d']]
    t.append(dict(part='reject', tier=tier))
    return t


def shape(hump, slope):
    """rises up to `hump`, falls strictly after it"""
    up = [0.5, 3.0, 0.01, 20.0][slope]
    down = [0.5, 0.125, 4.0, 0.01][slope]
    return lambda m: (up * (m - hump) if m <= hump else -down * (m - hump))


def search(f, success):
    from nonasymptotic import bound
    return guard(bound.doubling_sample_search_over_log2_prob_bound, f, success)


def shape_case(hump, slope, L, success):
    """expected: least m >= 2 with f(m) <= L, falling at m"""
    log_fail = math.log2(1 - success)
    base = shape(hump, slope)
    f = lambda m: base(m) - L + log_fail          # so that the threshold on base is L
    # exact: float comparisons of the same function as the search sees
    res = search(f, success)
    m = max(2, hump)
    while not (f(m) <= log_fail and f(m) >= f(m + 1)):
        m += 1
    return res, m


def big_case(n, success):
    """strictly falling, crosses exactly at n: exact integers, no float rounding"""
    log_fail = math.log2(1 - success)
    f = lambda m: (log_fail + 1.0 if m < n else log_fail - 1.0) if m in (n - 1, n) else _Step(m, n, log_fail)
    return search(lambda m: _Step(m, n, log_fail), success), max(2, n)


class _Step:
    """A value that compares exactly: ordered by -m against each other, and against the threshold by m < n."""

    def __init__(self, m, n, t):
        self.m, self.n, self.t = m, n, t

    def _cmp(self, o):
        if isinstance(o, _Step):
            return (self.m < o.m) - (self.m > o.m)
        return 1 if self.m < self.n else -1 if self.m > self.n else 0

    def __lt__(self, o): return self._cmp(o) < 0
    def __le__(self, o): return self._cmp(o) <= 0
    def __gt__(self, o): return self._cmp(o) > 0
    def __ge__(self, o): return self._cmp(o) >= 0
    def __eq__(self, o): return self._cmp(o) == 0
    def __ne__(self, o): return self._cmp(o) != 0
    __hash__ = None

    def __float__(self):
        return float(self.t - (self.m - self.n))

    def _f(self, op, o): return getattr(float(self), op)(float(o))
    def __sub__(self, o): return float(self) - float(o)
    def __rsub__(self, o): return float(o) - float(self)
    def __add__(self, o): return float(self) + float(o)
    __radd__ = __add__
    def __neg__(self): return -float(self)


def compare(out, res, want, what, case):
    out.count('evaluations')
    if want > 2:
        out.count('nontrivial')
    if isinstance(res, Raised):
        out.violate('raised', '%s: %s, the least count is %s' % (what, res.text, want), case)
    elif int(res) != want or res != int(res):
        out.violate('count', '%s: count %s, the least is %s' % (what, res, want), case)


def real(c, tol, v, d, s):
    from nonasymptotic import bound
    return guard(bound.compute_numerical_bound, c, s, v, d, tol)


def real_problems(c, tol, v, d, s, res):
    import mpmath as mp
    from checks import boundlib as B
    r = B.rho(c, tol, d, v)
    lim = mp.log(mp.mpf(1 - s), 2)
    if isinstance(res, Raised):
        if res.name == 'OverflowError' and B.ss_log2(10 ** 299, r, d) > lim:
            return [], None
        return [('raised', 'raised %s' % res.text)], None
    try:
        m, conn = int(res[0]), float(res[1])
        if m != res[0]:
            raise ValueError
    except Exception:
        return [('shape', 'returned %r' % (res,))], None
    out = []
    if tol is None:
        want = 2 * mp.mpf(c)
    else:
        t = mp.mpf(tol)
        want = 2 * mp.mpf(c) * (t + 1) / mp.sqrt(1 + t * t)
    if abs(conn - want) > 1e-9 * want:
        out.append(('conn', 'connection radius %s, documented %s' % (conn, mp.nstr(want, 15))))
    def ok(n):
        return B.ss_log2(n, r, d) <= lim + slack and B.ss_log2(n, r, d) >= B.ss_log2(n + 1, r, d) - slack
    slack = mp.mpf(10) ** -9
    hi, lo = (m, m - 1) if m < 2 ** 40 else (m + m // 10 ** 9, m - 1 - m // 10 ** 9)
    if m >= 2 ** 40:
        slack = mp.mpf(0)
    if m < 2:
        out.append(('count', '%s samples' % m))
    elif not ok(hi):
        out.append(('insufficient', '%s samples: failure bound 2^%s, allowed 2^%s' % (m, mp.nstr(B.ss_log2(m, r, d), 12), mp.nstr(lim, 12))))
    elif lo >= 2:
        slack = -slack
        if ok(lo):
            out.append(('not least', '%s samples, %s would do (2^%s, allowed 2^%s)' % (m, lo, mp.nstr(B.ss_log2(lo, r, d), 12), mp.nstr(lim, 12))))
    return out, m


def run_task(t, out):
    tier = t['tier']
    if t['part'] == 'shape':
        H, C = (24, 40) if tier == 'quick' else (80, 150)
        for hump in range(1, H + 1):
            if hump % 8 != t['scale']:
                continue
            base = shape(hump, t['slope'])
            for cross in range(hump, hump + C):
                for L in (base(cross), (base(cross) + base(cross + 1)) / 2):
                    for s in (0.5, 0.99):
                        res, want = shape_case(hump, t['slope'], L, s)
                        compare(out, res, want, 'bound rising to %d, slope %d, limit %s' % (hump, t['slope'], L),
                                dict(part='shape', hump=hump, slope=t['slope'], L=L, s=s))
                        if out.stop:
                            return
        return
    if t['part'] == 'big':
        for j in range(t['i'], 200, 8):
            for off in (-1, 0, 1, (1 << j) // 3):
                n = 2 ** j + off
                if n >= 1:
                    res, want = big_case(n, 0.9)
                    compare(out, res, want, 'bound crossing at %d' % n, dict(part='big', n=str(n)))
        return
    if t['part'] == 'reject':
        for s in (0.0, 1.0, -0.5, 1.5, 2.0, -1e-9, 1 + 1e-9, float('inf'), -float('inf')):
            for d in (1, 2, 3):
                for tol in (None, 0.5):
                    res = real(0.25, tol, 1.0, d, s)
                    out.count('evaluations')
                    out.count('nontrivial')
                    if not isinstance(res, Raised) or res.hang:
                        out.violate('accepted', 'success probability %s accepted: %r' % (s, res), dict(part='real', a=[0.25, tol, 1.0, d, s]))
        return
    L = LAT[tier]
    c, d = t['c'], t['d']
    counts = {}
    for tol, v, s in itertools.product(L['t'], L['v'], L['s']):
        res = real(c, tol, v, d, s)
        probs, m = real_problems(c, tol, v, d, s, res)
        out.count('evaluations')
        counts[tol, v, s] = m
        if m and m > 2:
            out.count('nontrivial')
        out.outcome('no count' if m is None else 'counts of %d bits' % (8 * (m.bit_length() // 8)))
        for key, msg in probs:
            out.violate(key, 'clearance %s, tolerance %s, volume %s, dim %d, success %s: %s' % (c, tol, v, d, s, msg),
                        dict(part='real', a=[c, tol, v, d, s]))
        if out.stop:
            return
    out.sample(dict(clearance=c, dim=d, counts=[[list(map(str, k)), str(x)] for k, x in list(counts.items())[:3]]))
    # monotone in volume, success probability and tolerance (None demands only existence: fewest samples)
    tols = [x for x in L['t'] if x is not None] + [None]
    for a, b in zip(tols, tols[1:]):
        for v, s in itertools.product(L['v'], L['s']):
            mono(out, counts, (a, v, s), (b, v, s), 'tolerance', c, d)
    for a, b in zip(L['v'], L['v'][1:]):
        for tol, s in itertools.product(L['t'], L['s']):
            mono(out, counts, (tol, b, s), (tol, a, s), 'volume', c, d)
    for a, b in zip(L['s'], L['s'][1:]):
        for tol, v in itertools.product(L['t'], L['v']):
            mono(out, counts, (tol, v, b), (tol, v, a), 'success probability', c, d)
    # and in the clearance, against the next one of the lattice
    i = L['c'].index(c)
    if i + 1 < len(L['c']):
        for tol, v, s in itertools.product(L['t'], L['v'], L['s'][::2]):
            m2 = real_problems(L['c'][i + 1], tol, v, d, s, real(L['c'][i + 1], tol, v, d, s))[1]
            both = {0: counts[tol, v, s], 1: m2}
            mono(out, both, 0, 1, 'clearance', c, d, (tol, v, s))


def mono(out, counts, more, fewer, what, c, d, at=None):
    a, b = counts[more], counts[fewer]
    out.count('evaluations')
    if a is not None and b is not None and b > a + a // 10 ** 9:
        out.violate('monotone', 'clearance %s, dim %d: count %s at %s but %s at %s: not monotone in the %s' % (
            c, d, a, more, b, fewer, what), dict(part='mono', c=c, d=d, more=more, fewer=fewer, at=at))


def replay(rec):
    if rec['part'] == 'shape':
        res, want = shape_case(rec['hump'], rec['slope'], rec['L'], rec['s'])
        return [] if not isinstance(res, Raised) and res == want else ['got %r, expected %s' % (res, want)]
    if rec['part'] == 'big':
        res, want = big_case(int(rec['n']), 0.9)
        return [] if not isinstance(res, Raised) and res == want else ['got %r, expected %s' % (res, want)]
    if rec['part'] == 'real':
        c, tol, v, d, s = rec['a']
        if not 0 < s < 1:
            res = real(c, tol, v, d, s)
            return [] if isinstance(res, Raised) and not res.hang else ['accepted']
        return [m for _, m in real_problems(c, tol, v, d, s, real(c, tol, v, d, s))[0]]
    return ['monotonicity: compare the two counts of the record']
