"""Planar convex hull (Andrew's monotone chain); `vertices` counter-clockwise, as scipy reports them in the plane."""
import numpy as np
from mc.core import StubLimit


class QhullError(RuntimeError):
    pass


class ConvexHull:
    def __init__(self, points, **kw):
        pts = np.asarray(points, dtype=float)
        if pts.ndim != 2 or pts.shape[1] != 2:
            raise StubLimit('ConvexHull of shape %s' % (pts.shape,))
        order = sorted(range(len(pts)), key=lambda i: tuple(pts[i]))

        def half(seq):
            h = []
            for i in seq:
                while len(h) > 1:
                    a, b, c = pts[h[-2]], pts[h[-1]], pts[i]
                    if (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) > 1e-12:
                        break
                    h.pop()
                h.append(i)
            return h[:-1]
        v = half(order) + half(order[::-1])
        if len(v) < 3:
            raise QhullError('initial simplex is flat')
        self.points = pts
        self.vertices = np.array(v)
        x, y = pts[v, 0], pts[v, 1]
        self.volume = 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
