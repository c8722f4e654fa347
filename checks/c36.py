"""C36 closed-form sample bound, net radius and connection radius: sufficient, consistent, exact."""
import itertools, math
from mc.core import guard, Raised

ID, LEVEL = 'C36', 'exploration'
TECHNIQUE = 'exhaustive enumeration of a lattice of radii, dimensions, probabilities and volumes on the real functions, exact oracle with 60-digit arithmetic'
NOTE = 'Every lattice point evaluates the closed form, alone and inside arrays, and compares it with the exact failure bound at that ' \
       'and at larger counts, with the exact closed form and with the count found by the numerical search; net radius, ball measure and ' \
       'connection radius are compared with exact values.'
BOUNDS = {'quick': '12 radii x 6 dimensions x 7 probabilities x 4 volumes; 8 clearances x 7 tolerances; unit balls up to dimension 60',
          'thorough': '24 radii x 10 dimensions x 11 probabilities x 6 volumes; 14 clearances x 12 tolerances'}
RULE = 'one case = one closed form at one lattice point; non-trivial = the ball measure is at most one'
ASSUMPTIONS = ['scipy is the one of python3-vt']

LAT = {'quick': dict(r=[1e-4, 1e-3, 0.01, 0.02, 0.05, 0.1, 0.2, 0.25, 0.5, 0.75, 1.0, 2.0], d=[1, 2, 3, 4, 7, 10],
                     g=[1e-12, 1e-6, 0.01, 0.1, 0.5, 0.9, 0.999999], v=[0.1, 1.0, 3.7, 1000.0],
                     c=[1e-6, 1e-3, 0.05, 0.1, 0.25, 0.5, 1.0, 4.0], t=[None, 1e-3, 0.05, 0.1, 0.5, 1.0, 10.0]),
       'thorough': dict(r=[10.0 ** (-4 + 4.4 * i / 23) for i in range(24)], d=[1, 2, 3, 4, 5, 6, 7, 8, 10, 16],
                        g=[1e-15, 1e-12, 1e-6, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.9, 0.99, 0.999999], v=[1e-3, 0.1, 1.0, 3.7, 1000.0, 1e6],
                        c=[1e-30, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.25, 0.4, 0.5, 1.0, 2.0, 4.0],
                        t=[None, 1e-6, 1e-3, 0.01, 0.05, 0.1, 0.5, 1.0, 2.0, 10.0, 1e4, 1e8])}


def near(x, want, tol=1e-9):
    try:
        x = float(x)
    except (TypeError, ValueError):
        return False
    return abs(x - want) <= tol * abs(want)


def blumer_case(r, d, g, v, got):
    """messages for one lattice point"""
    import mpmath as mp
    from checks import boundlib as B
    rho = B.unit_ball(d) * mp.mpf(r) ** d / mp.mpf(v)
    what = 'net radius %r, dimension %d, failure probability %r, volume %r' % (r, d, g, v)
    if isinstance(got, Raised):
        return [('blumer:raised', '%s: %s' % (what, got.text))], False
    try:
        x = float(got)
    except (TypeError, ValueError):
        return [('blumer:shape', '%s: returned %r' % (what, got))], False
    if rho > 1:
        return [], False                     # the ball covers everything: one sample is enough, nothing is promised
    msgs = []
    want = max(4 / rho * mp.log(2 / mp.mpf(g), 2), 8 * (d + 1) / rho * mp.log(13 / rho, 2))
    if not near(x, want):
        msgs.append(('blumer:value', '%s: %r samples, the bound is %s' % (what, x, mp.nstr(want, 12))))
    if not x > 0 or math.isinf(x):
        return msgs, True
    m = int(mp.ceil(mp.mpf(x)))
    for k in (m, m + 1, 2 * m, 10 * m):
        if B.ss_log2(k, rho, d) > mp.log(mp.mpf(g), 2) + mp.mpf(10) ** -9:
            msgs.append(('blumer:insufficient', '%s: with %d samples (bound %d) the failure bound is 2^%s' % (what, k, m, mp.nstr(B.ss_log2(k, rho, d), 10))))
            break
    return msgs, True


def tasks(tier):
    L = LAT[tier]
    return [dict(part='blumer', d=d, v=v, tier=tier) for d in L['d'] for v in L['v']] + \
           [dict(part='radius', d=d, tier=tier) for d in L['d']] + [dict(part='ball', tier=tier)] + \
           [dict(part='numeric', d=d, v=v, tier=tier) for d in L['d'] for v in L['v']]


def run_task(task, out):
    import numpy as np, mpmath as mp
    from nonasymptotic import bound
    from checks import boundlib as B
    L = LAT[task['tier']]
    p = task['part']
    if p == 'blumer':
        d, v = task['d'], task['v']
        for r in L['r']:
            for g in L['g']:
                got = guard(bound.compute_blumer_bound, r, d, g, v)
                msgs, live = blumer_case(r, d, g, v, got)
                out.count('evaluations')
                out.count('nontrivial', int(live))
                for k, m in msgs:
                    out.violate(k, m, dict(part='blumer', r=r, d=d, g=g, v=v))
            arr = guard(bound.compute_blumer_bound, r, d, np.array(L['g']), v)
            for j, g in enumerate(L['g']):
                one = guard(bound.compute_blumer_bound, r, d, g, v)
                if isinstance(arr, Raised) or np.shape(arr) != (len(L['g']),) or not near(arr[j], float(one)):
                    out.violate('blumer:array', 'radius %r, dimension %d, volume %r: for an array of probabilities %r' % (r, d, v, arr), dict(part='blumer', r=r, d=d, g=g, v=v))
                    break
            out.count('evaluations', len(L['g']))
        arr = guard(bound.compute_blumer_bound, np.array(L['r']), d, 0.1, v)
        for j, r in enumerate(L['r']):
            if isinstance(arr, Raised) or not near(arr[j], float(bound.compute_blumer_bound(r, d, 0.1, v))):
                out.violate('blumer:array', 'dimension %d, volume %r: for an array of radii %r' % (d, v, arr), dict(part='blumer', r=r, d=d, g=.1, v=v))
                break
    elif p == 'numeric':
        d, v = task['d'], task['v']
        for c, t, g in itertools.product(L['c'], L['t'], L['g']):
            for k, m in numeric(c, t, g, d, v, out):
                out.violate(k, m, dict(part='numeric', c=c, t=t, g=g, d=d, v=v))
    elif p == 'radius':
        for c, t in itertools.product(L['c'], L['t']):
            for v in L['v']:
                out.count('evaluations')
                out.count('nontrivial')
                for k, m in radius(c, t, task['d'], v):
                    out.violate(k, m, dict(part='radius', c=c, t=t, d=task['d'], v=v))
    else:
        for d in range(1, 61):
            out.count('evaluations')
            for k, m in ball(d):
                out.violate(k, m, dict(part='ball', d=d))
        arr = guard(lambda: bound.compute_vol_unit_sphere(np.arange(1, 61)))
        if isinstance(arr, Raised) or any(not near(arr[d - 1], B.unit_ball(d)) for d in range(1, 61)):
            out.violate('ball:array', 'volumes of unit balls for an array of dimensions: %r' % (arr,), dict(part='ball', d=1))


def ball(d):
    from nonasymptotic import bound
    from checks import boundlib as B
    got = guard(bound.compute_vol_unit_sphere, d)
    return [] if near(got, B.unit_ball(d)) else [('ball', 'volume of the unit ball in dimension %d: %r' % (d, got))]


def radius(c, t, d, v):
    import mpmath as mp
    from nonasymptotic import bound
    from checks import boundlib as B
    msgs = []
    a = B.alpha(t)
    what = 'clearance %r, tolerance %r' % (c, t)
    net = guard(bound.compute_epsilon_net_radius, c, t)
    if not near(net, a * mp.mpf(c)):
        msgs.append(('net', '%s: net radius %r, should be %s' % (what, net, mp.nstr(a * c, 12))))
    rho = guard(bound.compute_rho, c, t, d, v)
    want = B.rho(c, t, d, v)
    if want > mp.mpf(10) ** -300 and not near(rho, want):
        msgs.append(('rho', '%s, dimension %d, volume %r: measure %r, should be %s' % (what, d, v, rho, mp.nstr(want, 12))))
    if t is not None:
        # two points of neighbouring net balls, whose centres are 2 sqrt(1 - alpha^2) clearance apart
        want = 2 * mp.mpf(c) * (a + mp.sqrt(1 - a * a))
        conn = guard(bound.compute_connection_radius, c, t)
        if not near(conn, want):
            msgs.append(('connect', '%s: connection radius %r, points of neighbouring balls are up to %s apart' % (what, conn, mp.nstr(want, 12))))
    return msgs


def numeric(c, t, g, d, v, out=None):
    import mpmath as mp
    from nonasymptotic import bound
    from checks import boundlib as B
    rho = B.rho(c, t, d, v)
    if rho > 1 or rho < mp.mpf(10) ** -250 or not 0 < 1 - g < 1:
        return []
    got = guard(bound.compute_numerical_bound, c, 1 - g, v, d, t)
    if isinstance(got, Raised):
        return []                           # C15's subject
    b = guard(bound.compute_blumer_bound, float(B.alpha(t) * c), d, 1 - (1 - g), v)
    if out is not None:
        out.count('evaluations')
        out.count('nontrivial')
    what = 'clearance %r, tolerance %r, failure probability %r, dimension %d, volume %r' % (c, t, g, d, v)
    if isinstance(b, Raised):
        return [('blumer:raised', '%s: %s' % (what, b.text))]
    if got[0] > math.ceil(b * (1 + 1e-9)) + 1:
        return [('order', '%s: the search finds %r samples, more than the closed form %r' % (what, got[0], b))]
    msgs = []
    if t is not None:
        conn = guard(bound.compute_connection_radius, c, t)
        if isinstance(conn, Raised) or not near(got[1], float(conn)):
            msgs.append(('connect', '%s: connection radius %r, the sample bound is for %r' % (what, conn, got[1])))
    return msgs


def replay(case):
    from nonasymptotic import bound
    p = case['part']
    if p == 'blumer':
        got = guard(bound.compute_blumer_bound, case['r'], case['d'], case['g'], case['v'])
        msgs = blumer_case(case['r'], case['d'], case['g'], case['v'], got)[0]
        if not msgs:
            from mc.core import Tally
            out = Tally()
            run_task(dict(part='blumer', d=case['d'], v=case['v'], tier='quick'), out)
            msgs = [v[:2] for v in out.violations]
    elif p == 'radius':
        msgs = radius(case['c'], case['t'], case['d'], case['v'])
    elif p == 'numeric':
        msgs = numeric(case['c'], case['t'], case['g'], case['d'], case['v'])
    else:
        msgs = ball(case['d'])
    return ['[%s] %s' % m for m in msgs]
