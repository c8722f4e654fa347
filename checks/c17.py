"""C17 radius searches and the net radius."""
import itertools, math
import numpy as np
from mc.core import guard, Raised

ID, LEVEL = 'C17', 'exploration'
TECHNIQUE = 'exhaustive enumeration of the answer histories of the radius search (every position of the threshold on a grid finer than the tolerance, for several bound shapes) on the real code, exact oracle'
NOTE = 'The search only sees answers of the bound; placing the threshold at every point of a grid of half the tolerance ' \
       'makes it take every path of its decision tree. Also run with the real tail bounds, and the net radius is compared ' \
       'with 60-digit arithmetic over a parameter lattice.'
BOUNDS = {'quick': '5 intervals, tolerances 2^-3 .. 2^-9 of the width, thresholds on a grid of half the tolerance from below to above the interval, '
                   '5 strictly increasing shapes; 3 tail bounds over a lattice; net radius over 6 x 9 x 6 x 4 parameters',
          'thorough': 'as quick with tolerances down to 2^-13 and larger lattices'}
RULE = 'one case = one search (threshold, shape, interval, tolerance) or one parameter combination; non-trivial = the threshold is inside the interval'
ASSUMPTIONS = ['bounds increase by more than their rounding error over half a tolerance', 'scipy is the one of python3-vt']
SHAPES = {'linear': lambda x: x, 'log': lambda x: math.log(x + 0.5), 'cubic': lambda x: x ** 3 + x, 'steep': lambda x: 40 * x,
          'root': lambda x: 3 * math.sqrt(x + 0.1)}
IV = [(0.0, 1.0), (0.25, 0.75), (0.0, 16.0), (1.0, 1.5), (0.001, 3.0)]


def tasks(tier):
    e = range(3, 10) if tier == 'quick' else range(3, 14)
    t = [dict(part='search', shape=s, iv=iv, e=k, tier=tier) for s in SHAPES for iv in IV for k in e]
    t += [dict(part='linear', iv=iv, e=k, tier=tier) for iv in IV for k in list(e)[:6]]
    t += [dict(part='net', dim=d, tier=tier) for d in (1, 2, 3, 4, 7, 10)]
    t += [dict(part='tail', name=n, d=d, tier=tier) for n in ('hoeffding', 'chernoff_generic', 'chernoff_kl') for d in (1, 2, 3, 5)]
    return t


def thresholds(lo, hi, tol, n):
    """every multiple of tol/2 from below to above the interval, exactly on it and between"""
    step = tol / 2
    k = int(round((hi - lo) / step))
    for i in range(-3, k + 4):
        yield lo + i * step
        yield lo + (i + 0.37) * step


def shifted(shape, r0, lim):
    """strictly increasing, equal to lim at r0"""
    f = SHAPES[shape]
    base = f(max(r0, 0.0)) + (r0 if r0 < 0 else 0)
    return lambda r: f(r) - base + lim


def search_case(shape, lo, hi, tol, r0, success):
    from nonasymptotic import bound
    lim = float(np.log(1 - success))
    f = shifted(shape, r0, lim)
    asked = []

    def fn(r):
        asked.append(r)
        return f(r)
    res = guard(bound.halving_radius_search_over_log_prob_bound, fn, lo, hi, success, tol=tol)
    if isinstance(res, Raised):
        return [('raised', 'raised %s' % res.text)]
    try:
        r = float(res)
    except Exception:
        return [('shape', 'returned %r' % (res,))]
    out = []
    if not lo <= r <= hi:
        out.append(('outside', 'returned %s, outside of [%s, %s]' % (r, lo, hi)))
    best = min(hi, r0)
    if any(f(a) <= lim for a in asked if lo <= a <= hi) and f(r) > lim + 1e-12:
        out.append(('uncertified', 'returned %s, where the bound is above the allowed probability' % r))
    if best >= lo and r < best - tol * (1 + 1e-9):
        out.append(('small', 'returned %s, the largest admissible radius is %s (tolerance %s)' % (r, best, tol)))
    if r > max(lo, best) + 1e-9:
        out.append(('large', 'returned %s, the largest admissible radius is %s' % (r, best)))
    return out


def linear_case(lo, hi, tol, r0, success):
    from nonasymptotic import bound
    fail = 1 - success
    f = lambda r: fail + (r - r0)
    res = guard(bound.linear_radius_search_over_prob_bound, f, lo, hi, success, tol=tol)
    if isinstance(res, Raised):
        # no radius of the interval fails: it asks for another interval
        return [('raised', 'raised %s' % res.text)] if res.hang or r0 < hi - tol else []
    r = float(res)
    if r0 < lo:
        return [] if lo <= r <= lo + tol else [('none', 'returned %s, no radius is admissible' % r)]
    if not lo <= r <= hi or f(r) > fail + 1e-9 or r < min(hi, r0) - tol * (1 + 1e-6) - 1e-9:
        return [('linear', 'linear search returned %s, the largest admissible radius is %s (tolerance %s)' % (r, r0, tol))]
    return []


def net_case(d, n, prob, v, corr=None):
    from nonasymptotic import bound
    from checks import boundlib as B
    res = guard(bound.compute_net_radius_from_prob, d, n, prob, v, **({} if corr is None else dict(ad_hoc_magnitude_correction=corr)))
    n = math.ceil(n / (corr or 1))
    if isinstance(res, Raised):
        return [('raised', 'raised %s' % res.text)]
    want = B.net_radius(d, n, prob, v)
    r = float(res)
    if abs(r - want) > 1e-9 * want:
        import mpmath as mp
        at = B.ss_log2(n, B.unit_ball(d) * mp.mpf(r) ** d / mp.mpf(v), d)
        return [('net', 'net radius %s, where the bound is 2^%s instead of 2^%s (expected radius %s)' % (
            r, mp.nstr(at, 8), math.log2(prob), mp.nstr(want, 12)))]
    return []


def tail_case(name, d, m, k, v, success):
    """the search on a real bound: its answer is admissible for the exact union bound and maximal for the bound"""
    from nonasymptotic import bound
    from checks import boundlib as B
    import mpmath as mp
    f = getattr(bound, 'compute_tail_knn_radius_log_prob_' + name)
    hi = 2 * (k / (m - 1) * v / float(B.unit_ball(d))) ** (1 / d)
    lim = math.log(1 - success)
    tol = hi * 1e-5
    res = guard(bound.halving_radius_search_over_log_prob_bound, lambda r: f(m, k, r, d, v), 0.0, hi, success, tol=tol)
    if isinstance(res, Raised):
        return [('raised', 'raised %s' % res.text)]
    r = float(res)
    out = []
    if r > tol:
        e = B.log_union_tail(m, k, B.unit_ball(d) * mp.mpf(r) ** d / mp.mpf(v))
        if e > lim + 1e-9:
            out.append(('invalid', 'radius %s fails with probability exp(%s), allowed exp(%s)' % (r, mp.nstr(e, 8), lim)))
    # the bound is flat only where it is trivial
    if float(f(m, k, r + tol * 1.01, d, v)) <= lim - 1e-9 and r + tol * 1.01 < hi:
        out.append(('small', 'radius %s returned, %s is admissible' % (r, r + tol * 1.01)))
    if r > tol and float(f(m, k, r, d, v)) > lim + 1e-9:
        out.append(('uncertified', 'radius %s is not admissible' % r))
    return out


def run_task(t, out):
    old = np.seterr(all='ignore')
    cases = []
    if t['part'] == 'search':
        lo, hi = t['iv']
        tol = (hi - lo) * 2.0 ** -t['e']
        for r0 in thresholds(lo, hi, tol, t['e']):
            for s in (0.5, 0.99):
                cases.append(('search_case', (t['shape'], lo, hi, tol, r0, s), lo < r0 < hi))
        # tolerances that do not divide the width
        for r0 in thresholds(lo, hi, tol, t['e']):
            cases.append(('search_case', (t['shape'], lo, hi, tol * 1.37, r0, 0.9), lo < r0 < hi))
    elif t['part'] == 'linear':
        lo, hi = t['iv']
        tol = (hi - lo) * 2.0 ** -t['e']
        for r0 in thresholds(lo, hi, tol, t['e']):
            cases.append(('linear_case', (lo, hi, tol, r0, 0.5), lo < r0 < hi))
    elif t['part'] == 'net':
        ns = [2, 3, 5, 10, 64, 100, 1000, 12345, 10 ** 6] + ([7, 20, 50, 333, 5000, 10 ** 5, 10 ** 7, 10 ** 9] if t['tier'] != 'quick' else [])
        for n, p, v in itertools.product(ns, [1e-9, 1e-3, 0.1, 0.5, 0.9, 0.999], [0.1, 1.0, 3.7, 1000.0]):
            cases.append(('net_case', (t['dim'], n, p, v), True))
            if v == 3.7:
                cases += [('net_case', (t['dim'], n, p, v, c), True) for c in (1, 2, 3, 10, 1000, 0.5) if n / c > 0.5]
    else:
        for m in (10, 100, 1000, 10 ** 4) if t['tier'] == 'quick' else (10, 30, 100, 300, 1000, 10 ** 4, 10 ** 5):
            for k in sorted({1, 2, m // 20, m // 4, m // 2, m - 1} - {0}):
                for v in (0.3, 1.0, 40.0):
                    for s in (0.1, 0.5, 0.9, 0.999):
                        cases.append(('tail_case', (t['name'], t['d'], m, k, v, s), True))
    for fn, args, nt in cases:
        out.count('evaluations')
        out.n['nontrivial'] += bool(nt)
        out.outcome(fn)
        for key, msg in globals()[fn](*args):
            out.violate('%s %s' % (fn, key), '%s%s: %s' % (fn, args, msg), dict(fn=fn, args=args))
        if out.stop:
            break
    out.sample(dict(fn=fn, args=args))
    np.seterr(**old)


def replay(rec):
    np.seterr(all='ignore')
    return [m for _, m in globals()[rec['fn']](*rec['args'])]
