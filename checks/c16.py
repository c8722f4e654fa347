"""C16 tail bounds on the effective connection radius against the exact union bound."""
import math
import numpy as np
from mc.core import guard, Raised

ID, LEVEL = 'C16', 'exploration'
TECHNIQUE = 'exhaustive enumeration of a lattice of sample counts, neighbour counts, ball measures, dimensions and volumes on the real functions, exact binomial oracle'
NOTE = 'Every offered bound is evaluated on every lattice point and compared with the exact union bound computed with 60 ' \
       'digits, one radius at a time and as an array of radii; monotonicity is checked along the whole radius lattice.'
BOUNDS = {'quick': 'm in 2..8, 20, 100, 1000; every k < m up to 8 plus 8 spread ones; 41 ball measures from 1e-12 to 3 and around k/m, k/(m-1); dim 1-4, 7; 3 volumes',
          'thorough': 'm in 2..16, 20, 50, 100, 300, 1000, 5000; 81 ball measures; dim 1-8; 5 volumes'}
RULE = 'one case = one bound at one lattice point; non-trivial = the exact union bound is below 1'
ASSUMPTIONS = ['radii above zero; neighbour counts from 1 to samples minus one', 'scipy is the one of python3-vt']
NAMES = ['hoeffding', 'hoeffding_mean_variant', 'chernoff_generic', 'chernoff_kl', 'chernoff_kl without union']
_exact = {}


def tasks(tier):
    ms = [2, 3, 4, 5, 6, 7, 8, 20, 100, 1000] if tier == 'quick' else list(range(2, 17)) + [20, 50, 100, 300, 1000, 5000]
    ds = [1, 2, 3, 4, 7] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8]
    vs = [0.3, 1.0, 40.0] if tier == 'quick' else [1e-3, 0.3, 1.0, 40.0, 1e5]
    return [dict(m=m, ds=ds, vs=vs, part=p, tier=tier) for m in sorted(ms, reverse=True) for p in range(4 if m > 20 else 1)]


def ks(m, part, parts):
    k = sorted(set(range(1, min(m, 9))) | {max(1, (m - 1) * i // 8) for i in range(1, 9)} | {m - 1})
    return k[part::parts]


def measures(m, k, tier):
    n = 20 if tier == 'quick' else 60
    p = [10.0 ** (-12 + 12 * i / n) for i in range(n + 1)]
    for c in (k / m, k / (m - 1)):
        p += [c * f for f in (0.25, 0.5, 0.9, 0.99, 0.999999, 1.0, 1.000001, 1.05)]
    p += [0.6, 0.9, 0.99, 1.0, 1.01, 3.0]
    return sorted({x for x in p if x > 0})


def call(name, m, k, r, d, v):
    from nonasymptotic import bound
    if name.endswith('without union'):
        return guard(bound.compute_tail_knn_radius_log_prob_chernoff_kl, m, k, r, d, v, enable_union_bound_factor=False)
    return guard(getattr(bound, 'compute_tail_knn_radius_log_prob_' + name), m, k, r, d, v)


def exact(m, k, p):
    from checks import boundlib as B
    key = (m, k, p)
    if key not in _exact:
        _exact[key] = B.log_union_tail(m, k, p)
    return _exact[key]


def radii(m, k, d, v, tier):
    from checks import boundlib as B
    u = float(B.unit_ball(d))
    return [(p, (p * v / u) ** (1.0 / d)) for p in measures(m, k, tier)]


def formula(name, m, k, p):
    """Log of the inequality the bound is named after."""
    if name.startswith('hoeffding'):
        return math.log(m) - 2 * (m - 1) * max(0.0, k / (m - 1) - p) ** 2
    p = min(p, 1.0)
    if name == 'chernoff_generic':
        mu = min((m - 1) * p, k)
        return math.log(m) - mu + k * (1 + math.log(mu) - math.log(k))
    q = max(k / m, p)
    kl = (q * math.log(q / p) if q > 0 else 0.0) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 and p < 1 else 0.0)
    return (0.0 if name.endswith('without union') else math.log(m)) - (m - 1) * kl


def judge(name, m, k, d, v, p, r, got):
    import mpmath as mp
    if isinstance(got, Raised):
        return [('raised', 'raised %s' % got.text)]
    try:
        x = float(got)
    except Exception:
        return [('shape', 'returned %r' % (got,))]
    if math.isnan(x):
        return [('nan', 'is not a number')]
    want = exact(m, k, p)
    if name.endswith('without union'):
        want = want - mp.log(m)
    if x < float(want) - 1e-7 * max(1.0, abs(float(want)) if want > -1e300 else 1.0):
        return [('below', 'bound %s is below the exact %s' % (x, mp.nstr(want, 12)))]
    most = formula(name, m, k, p)
    if x > most + 1e-6 * max(1.0, abs(most)):
        return [('loose', 'bound %s is weaker than the inequality it is named after, %s' % (x, most))]
    return []


def run_task(t, out):
    from nonasymptotic import bound
    m = t['m']
    old = np.seterr(all='ignore')
    for k in ks(m, t['part'], 4 if m > 20 else 1):
        for d in t['ds']:
            for v in t['vs']:
                rs = radii(m, k, d, v, t['tier'])
                for name in NAMES:
                    vals = []
                    for p, r in rs:
                        got = call(name, m, k, r, d, v)
                        case = dict(name=name, m=m, k=k, d=d, v=v, p=p, r=r)
                        out.count('evaluations')
                        if exact(m, k, p) < 0:
                            out.count('nontrivial')
                        for key, msg in judge(name, m, k, d, v, p, r, got):
                            out.violate(name + ' ' + key, '%s at m=%d, k=%d, r=%s (measure %s), dim %d, volume %s: %s' % (
                                name, m, k, r, p, d, v, msg), case)
                        vals.append(float(got) if not isinstance(got, Raised) else float('nan'))
                    bad = [i for i in range(len(vals) - 1) if vals[i + 1] < vals[i] - 1e-9 * max(1, abs(vals[i]))]
                    if bad:
                        i = bad[0]
                        out.violate(name + ' monotone', '%s at m=%d, k=%d, dim %d, volume %s falls from %s to %s between radius %s and %s' % (
                            name, m, k, d, v, vals[i], vals[i + 1], rs[i][1], rs[i + 1][1]),
                            dict(name=name, m=m, k=k, d=d, v=v, r=rs[i][1], r2=rs[i + 1][1]))
                    arr = call(name, m, k, np.array([r for _, r in rs]), d, v)
                    if not isinstance(arr, Raised):     # arrays of radii are what the plots pass
                        arr = np.asarray(arr, dtype=float)
                        if arr.shape != (len(rs),) or not np.allclose(arr, vals, rtol=1e-9, atol=1e-9, equal_nan=True):
                            out.violate(name + ' array', '%s at m=%d, k=%d, dim %d: array of radii gives other values than one by one' % (name, m, k, d),
                                        dict(name=name, m=m, k=k, d=d, v=v, array=True, tier=t['tier']))
                    if out.stop:
                        return
                # closed form
                for f in (0.9, 0.5, 0.1, 0.01, 1e-4, 1e-8):
                    got = guard(bound.compute_eff_conn_rad_bound, m, k, d, v, f)
                    out.count('evaluations')
                    for key, msg in closed(m, k, d, v, f, got):
                        out.violate('closed ' + key, 'effective radius at m=%d, k=%d, dim %d, volume %s, failure %s: %s' % (m, k, d, v, f, msg),
                                    dict(name='closed', m=m, k=k, d=d, v=v, f=f))
    out.sample(dict(m=m, k=k, d=d, v=v, name=name, bound=vals[0], exact=float(exact(m, k, rs[0][0]))))
    np.seterr(**old)


def closed(m, k, d, v, f, got):
    import mpmath as mp
    from checks import boundlib as B
    defined = k > 2 * (math.log(m) - math.log(f)) + 1e-9
    if isinstance(got, Raised):
        return [('raised', 'raised %s' % got.text)] if defined or got.hang else []
    if isinstance(got, complex) or math.isnan(float(got)):
        return [('nan', 'returned %r' % got)] if defined else []
    r = float(got)
    if r <= 0:
        return [('zero', 'returned %s' % r)] if defined else []
    least = ((k - math.sqrt(2 * k * (math.log(m) - math.log(f)))) / (m - 1) / (float(B.unit_ball(d)) / v)) ** (1.0 / d) if defined else 0.0
    if r < least * (1 - 1e-6):
        return [('small', 'radius %s is smaller than the expression gives, %s' % (r, least))]
    p = B.unit_ball(d) * mp.mpf(r) ** d / mp.mpf(v)
    e = B.log_union_tail(m, k, p)
    if e > mp.log(f) + mp.mpf(10) ** -9:
        return [('fails', 'radius %s fails with probability up to exp(%s), requested exp(%s)' % (r, mp.nstr(e, 10), math.log(f)))]
    return []


def replay(rec):
    from nonasymptotic import bound
    old = np.seterr(all='ignore')
    m, k, d, v = rec['m'], rec['k'], rec['d'], rec['v']
    if rec['name'] == 'closed':
        got = guard(bound.compute_eff_conn_rad_bound, m, k, d, v, rec['f'])
        return [x for _, x in closed(m, k, d, v, rec['f'], got)]
    if 'r2' in rec:
        a, b = float(call(rec['name'], m, k, rec['r'], d, v)), float(call(rec['name'], m, k, rec['r2'], d, v))
        return ['falls from %s to %s' % (a, b)] if b < a - 1e-9 * max(1, abs(a)) else []
    if rec.get('array'):
        rs = radii(m, k, d, v, rec['tier'])
        arr = np.asarray(call(rec['name'], m, k, np.array([r for _, r in rs]), d, v), dtype=float)
        one = [float(call(rec['name'], m, k, r, d, v)) for _, r in rs]
        return [] if np.allclose(arr, one, rtol=1e-9, atol=1e-9, equal_nan=True) else ['array differs']
    return [x for _, x in judge(rec['name'], m, k, d, v, rec['p'], rec['r'], call(rec['name'], m, k, rec['r'], d, v))]
