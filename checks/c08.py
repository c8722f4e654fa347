"""C08 polygon sampler: every answer sequence of the random source over every small region."""
import itertools
import numpy as np
from mc.core import guard, Raised, chunks
from mc.fakerng import FakeRNG, Relay, explore, patched, selector_cells

ID, LEVEL = 'C08', 'exploration'
PRELOAD = ['nonasymptotic.sampler']
TECHNIQUE = 'exhaustive enumeration of small polygonal regions x answers of the random source on the real sampler, area/moment oracle'
NOTE = 'For every region all triangle choices are enumerated with their probabilities and the uniform draws run over ' \
       'an alphabet with the extremes; the triangles are recovered from the samples and must tile the region. Uniformity ' \
       'within a triangle is decided by moments on a 16x16 midpoint grid for part of the regions.'
BOUNDS = {'quick': 'all 511 unions of cells of a 3x3 grid, a ring with every subset of its inner 3x3 cells (touching; '
                   'not touching: up to 4 cells), two blocks with every combination of holes and islands, 14 hand-made shapes',
          'thorough': 'as quick, and all unions of cells of a 4x3 grid and 8192 of a 4x4 grid'}
RULE = 'one case = one answer sequence of the random source for one region; non-trivial = region with a hole, an island ' \
       'or several parts'
ASSUMPTIONS = ['regions are valid polygons in a bounded coordinate range (the sampler marks (-100, -100) as outside)']
ALPHA = [0.0, 0.25, 0.75, 1 - 2.0 ** -53]


def cells(bits, w, h, s=1.0, off=(0.0, 0.0)):
    from shapely.geometry import box
    return [box(off[0] + s * (i % w), off[1] + s * (i // w), off[0] + s * (i % w + 1), off[1] + s * (i // w + 1))
            for i in range(w * h) if bits >> i & 1]


def region(r):
    from shapely import unary_union
    from shapely.geometry import box, Polygon, MultiPolygon
    k, b = r
    if k == 'g33':
        return unary_union(cells(b, 3, 3))
    if k == 'g34':
        return unary_union(cells(b, 4, 3, 0.25, (-0.5, 1.0)))
    if k == 'g44':
        return unary_union(cells(b, 4, 4, 0.5))
    if k == 'ring5':          # islands touch the border of the hole
        return unary_union([box(0, 0, 5, 5).difference(box(1, 1, 4, 4))] + cells(b, 3, 3, 1, (1, 1)))
    if k == 'ring7':          # islands apart from the border
        return unary_union([box(0, 0, 7, 7).difference(box(1, 1, 6, 6))] + cells(b, 3, 3, 1, (2, 2)))
    if k == 'blocks':
        g = [box(0, 0, 5, 3), box(7, -1, 12, 2)]
        holes = [box(1, 1, 2, 2), box(3, 1, 4, 2), box(8, 0, 9, 1), box(10, 0, 11, 1)]
        for i, hbox in enumerate(holes):
            if b >> i & 1:
                g = [x.difference(hbox) for x in g]
                if b >> (4 + i) & 1:
                    x0, y0, x1, y1 = hbox.bounds
                    g.append(box(x0 + .25, y0 + .25, x1 - .25, y1 - .25))
        if b >> 8 & 1:
            g = g[::-1]
        parts = [q for x in g for q in getattr(x, 'geoms', [x])]
        return MultiPolygon(parts)
    return SHAPES()[b]


def SHAPES():
    from shapely import unary_union
    from shapely.geometry import box, Polygon, MultiPolygon
    tri = Polygon([(0, 0), (4, 0), (1, 3)])
    star = Polygon([(0, 3), (.7, 1), (3, 1), (1.2, -.3), (2, -3), (0, -1), (-2, -3), (-1.2, -.3), (-3, 1), (-.7, 1)])
    ell = Polygon([(0, 0), (3, 0), (3, 1), (1, 1), (1, 4), (0, 4)])
    holed = tri.difference(Polygon([(1, .5), (2, .5), (1.2, 1.2)]))
    nest = box(0, 0, 9, 9).difference(box(1, 1, 8, 8)).union(box(2, 2, 7, 7).difference(box(3, 3, 6, 6))).union(box(4, 4, 5, 5))
    strip = Polygon([(0, 0), (10, 0.01), (10, 0.02), (0, 0.01)])
    comb = unary_union([box(0, 0, 9, 1)] + [box(2 * i, 0, 2 * i + 1, 4) for i in range(5)])
    return [tri, star, ell, holed, nest, strip, comb, MultiPolygon([tri, Polygon([(-5, -5), (-4, -5), (-4, -4)])]),
            MultiPolygon([holed, star.buffer(0).intersection(box(-3, -3, -1, 3)).geoms[0] if False else Polygon([(-9, 0), (-8, 0), (-8, 1)])]),
            Polygon([(0, 0), (0, 4), (4, 4), (4, 0)], [[(1, 1), (1, 2), (2, 2), (2, 1)], [(2.5, 2.5), (3, 2.5), (3, 3)]]),
            Polygon([(0, 0), (4, 0), (4, 4), (0, 4)], [[(0, 2), (1, 1), (1, 3)]]),           # hole touches the border
            box(0, 0, 4, 4).difference(Polygon([(1, 1), (3, 1), (2, 3)])).union(Polygon([(1.8, 1.4), (2.2, 1.4), (2, 2)])),
            Polygon([(0, 1), (0, 3), (2, 3)]), unary_union([Polygon([(0, .2), (0, 1), (.8, 1)]).difference(box(.1, .6, .2, .7)),
                                                            box(-1, -1, -.5, -.5)])]


def regions(tier):
    r = [('g33', b) for b in range(1, 512)]
    r += [('ring5', b) for b in range(512)] + [('ring7', b) for b in range(512) if tier == 'thorough' or bin(b).count('1') <= 4]
    bl = sorted({sum(1 << i for i in range(4) if h >> i & 1) | sum(1 << (4 + i) for i in range(4) if h >> i & 1 and il >> i & 1) | o << 8
                 for h in range(16) for il in range(16) for o in (0, 1)})
    r += [('blocks', b) for b in bl]
    r += [('shape', i) for i in range(14)]
    if tier == 'thorough':
        r += [('g34', b) for b in range(1, 4096)] + [('g44', 8 * b + 1) for b in range(8192)]
    return r


def tasks(tier):
    rs = regions(tier)
    n = 32 if tier == 'quick' else 128
    return [dict(regions=c, tier=tier) for c in chunks(rs, n)]


def corners(pts, size):
    """vertices of the convex hull, collinear ones dropped"""
    from shapely.geometry import MultiPoint
    h = MultiPoint(pts).convex_hull
    if h.geom_type != 'Polygon':
        return h
    c = []
    for q in h.exterior.coords[:-1]:
        if all(np.abs(np.array(q) - k).max() > 1e-9 * size for k in c):
            c.append(np.array(q))

    def base(i):        # area of the triangle with its neighbours, relative to the longer side
        a, q, b = c[i - 1], c[i], c[(i + 1) % len(c)]
        return abs((q[0] - a[0]) * (b[1] - a[1]) - (q[1] - a[1]) * (b[0] - a[0])) / max(np.linalg.norm(b - a), 1e-300)
    while len(c) > 3:
        i = min(range(len(c)), key=base)
        if base(i) > 1e-9 * size:
            break
        del c[i]
    keep = c
    from shapely.geometry import Polygon
    keep = [np.round(q, 10) for q in keep]
    return Polygon(keep) if len(keep) >= 3 else h


def runner(geom, alpha, script, use_default=False):
    from nonasymptotic.sampler import random_point_in_mpolygon

    def run(ch):
        rng = FakeRNG(ch, alpha, script)
        if use_default:
            relay = Relay()
            relay.__dict__['cur'] = rng
            with patched(relay):
                p = guard(random_point_in_mpolygon, geom)
        else:
            p = guard(random_point_in_mpolygon, geom, rng)
        return rng, p
    return run


def problems(r, out=None, moments=False):
    from shapely import unary_union
    from shapely.geometry import Polygon, MultiPoint, Point, MultiPolygon
    geom = region(r)
    if geom.is_empty or not geom.is_valid or not isinstance(geom, (Polygon, MultiPolygon)):
        return
    def probe(ch, alphabet, script):
        rng, p = runner(geom, alphabet, script)(ch)
        if isinstance(p, Raised):
            return rng, None
        return rng, (p.x, p.y) if isinstance(p, Point) else tuple(float(x) for x in np.ravel(p))

    # uniform draws that pick a triangle are cut into the intervals with the same triangle
    sel = selector_cells(probe, 2, width=1e-10) or [({}, 1.0)]
    alpha = ALPHA[::2] + ALPHA[3:] if r[0].startswith('ring') else ALPHA
    nt = isinstance(geom, MultiPolygon) or len(geom.interiors) > 0
    size = max(1.0, abs(np.array(geom.bounds)).max())
    groups = {}
    for i_cell, (script, weight) in enumerate(sel):
        for ch, (rng, p) in explore(runner(geom, alpha, script), cap=1000000):
            if isinstance(p, Raised):
                yield 'raised', 'region %s: sampling raised %s (answers %s %s)' % (r, p.text, script, ch.trace)
                return
            xy = (p.x, p.y) if isinstance(p, Point) else tuple(np.ravel(p))
            if len(xy) != 2:
                yield 'shape', 'region %s: returned %r' % (r, p)
                return
            if out:
                out.count('evaluations')
                out.count('nontrivial', int(nt))
            if not np.isfinite(xy).all() or geom.distance(Point(xy)) > 1e-9 * size:
                yield 'outside', 'region %s: sampled %s, outside of the region (answers %s %s)' % (r, xy, script, ch.trace)
                return
            groups.setdefault((i_cell,) + tuple(rng.path), [rng.prob * weight, []])[1].append(xy)
    tris = []
    for path, (prob, pts) in groups.items():
        hull = corners(pts, size)
        if not isinstance(hull, Polygon) or len(hull.exterior.coords) != 4:
            yield 'triangle', 'region %s: samples of one choice do not fill a triangle: %s' % (r, hull.wkt[:200])
            return
        tris.append([hull, prob])
    A = geom.area
    tot = sum(h.area for h, _ in tris)
    if abs(tot - A) > 1e-7 * A or abs(unary_union([h for h, _ in tris]).symmetric_difference(geom).area) > 1e-7 * A:
        yield 'tiling', 'region %s of area %s: triangles of total area %s, covering %s' % (
            r, A, tot, unary_union([h for h, _ in tris]).intersection(geom).area)
    for h, prob in tris:
        if abs(prob - h.area / A) > 1e-7:
            yield 'weight', 'region %s: triangle %s chosen with probability %s, its share of the area is %s' % (
                r, h.wkt, prob, h.area / A)
            break
    if out:
        out.outcome('triangles %d' % len(tris))
    if moments:
        N = 16
        grid = [(i + 0.5) / N for i in range(N)]
        pts = {}
        for i_cell, (script, _) in enumerate(sel):
            for ch, (rng, p) in explore(runner(geom, grid, script, use_default=True), cap=2000000):
                if isinstance(p, Raised):
                    yield 'raised', 'region %s: sampling with the default source raised %s' % (r, p.text)
                    return
                xy = (p.x, p.y) if isinstance(p, Point) else tuple(np.ravel(p))
                pts.setdefault((i_cell,) + tuple(rng.path), []).append(xy)
                if out:
                    out.count('evaluations')
                    out.count('nontrivial', int(nt))
        for path, X in pts.items():
            h = corners(groups[path][1], size)
            V = np.array(h.exterior.coords)[:3]
            B = np.linalg.solve(np.vstack([V.T, np.ones(3)]), np.vstack([np.array(X).T, np.ones(len(X))]))
            m1, m2 = B.mean(1), (B @ B.T) / len(X)
            w2 = (np.ones((3, 3)) + np.eye(3)) / 12
            if B.min() < -1e-9 or np.abs(m1 - 1 / 3).max() > 0.03 or np.abs(m2 - w2).max() > 0.02:
                yield 'uniform', 'region %s: within triangle %s the samples are not uniform (mean of barycentric coordinates %s)' % (
                    r, h.wkt, np.round(m1, 3).tolist())
                return


def run_task(t, out):
    for i, r in enumerate(t['regions']):
        for key, msg in problems(r, out, moments=r[0] == 'shape' or (r[0] == 'ring5' and r[1] % 64 == 5)):
            out.violate(key, msg, dict(region=list(r)))
        if out.stop:
            return
    out.sample(dict(region=list(t['regions'][0])))


def replay(case):
    if 'regions' in case:           # the whole part crashed
        return [m for r in case['regions'] for m in replay(dict(region=r))]
    return [m for _, m in itertools.islice(problems(tuple(case['region']), moments=True), 5)]
