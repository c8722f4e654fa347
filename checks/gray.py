"""Independent model of the Gray-code corridor, built from the observable list of cubes only where noted."""
import itertools
import numpy as np

EPS = 1e-9


class Corridor:
    """Geometry of a corridor given its ordered cubes (taken from the environment and checked by C07)."""

    def __init__(self, cubes, thickness):
        self.cubes = [tuple(int(v) for v in c) for c in cubes]
        self.th = thickness
        self.pos = {c: i for i, c in enumerate(self.cubes)}
        self.dim = len(self.cubes[0])
        self.open = {}
        for i, c in enumerate(self.cubes):
            faces = set()
            for j in (i - 1, i + 1):
                if 0 <= j < len(self.cubes):
                    d = [a - b for a, b in zip(self.cubes[j], c)]
                    ax = [k for k in range(self.dim) if d[k]]
                    assert len(ax) == 1 and abs(d[ax[0]]) == 1
                    faces.add((ax[0], d[ax[0]]))
            self.open[c] = faces

    def margin(self, cube, x):
        """distance of x to the nearest wall plane of the cube, minus the thickness"""
        m = np.inf
        for k in range(self.dim):
            if (k, -1) not in self.open[cube]:
                m = min(m, x[k] - cube[k])
            if (k, 1) not in self.open[cube]:
                m = min(m, cube[k] + 1 - x[k])
        return m - self.th

    def touching(self, x):
        """cubes whose closure contains x"""
        opts = []
        for v in x:
            f = int(np.floor(v))
            opts.append([f - 1, f] if v == f else [f])
        return [c for c in itertools.product(*opts) if c in self.pos]

    def segment(self, a, b):
        """'valid', 'invalid' or None (touches something: may go either way)"""
        d = b - a
        ts = [0.0, 1.0]
        for k in range(self.dim):
            if d[k] != 0:
                lo, hi = sorted((a[k], b[k]))
                for p in range(int(np.ceil(lo)), int(np.floor(hi)) + 1):
                    ts.append((p - a[k]) / d[k])
            elif a[k] == np.floor(a[k]):
                return None
        ts = sorted(t for t in ts if 0 <= t <= 1)
        unsure, prev = False, None
        for t0, t1 in zip(ts, ts[1:]):
            if t1 - t0 < 1e-11:
                continue
            mid = a + 0.5 * (t0 + t1) * d
            cube = tuple(int(v) for v in np.floor(mid))
            if cube not in self.pos:
                return 'invalid'
            if prev is not None:
                diff = [i - j for i, j in zip(cube, prev)]
                if sum(1 for v in diff if v) != 1:
                    unsure = True
                elif abs(self.pos[cube] - self.pos[prev]) != 1:
                    return 'invalid'
            m = min(self.margin(cube, a + t0 * d), self.margin(cube, a + t1 * d))
            if m < -EPS:
                return 'invalid'
            if m < EPS:
                unsure = True
            prev = cube
        for x in (a, b):
            for c in self.touching(x):
                if self.margin(c, x) < EPS:
                    unsure = True
        return None if unsure else 'valid'
