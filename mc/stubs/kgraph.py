"""Stand-in for kgraph's Python binding: exact neighbour graph without the point itself; text output in kgraph's
layout, with half of the squared distance."""
import numpy as np
from mc.core import StubLimit


class KGraph:
    def __init__(self, data, metric):
        if metric not in ('euclidean',):
            raise StubLimit('metric %r' % (metric,))
        data = np.asarray(data)
        if data.ndim != 2 or data.shape[1] % 4:
            raise RuntimeError('kgraph: dimension must be a multiple of 4')
        self.data = data.astype(np.float32)
        self.nn = None

    def build(self, reverse=0, K=25, L=100, S=10, **kw):
        if L < K:
            raise RuntimeError('kgraph: L must be at least K')
        x = self.data.astype(np.float64)
        n = x.shape[0]
        d2 = ((x[:, None, :] - x[None, :, :]) ** 2).sum(-1)
        self.nn = []
        for i in range(n):
            order = sorted((j for j in range(n) if j != i), key=lambda j: (d2[i, j], j))[:L]
            self.nn.append([(j, d2[i, j] / 2.0) for j in order])

    def save_text(self, path):
        if self.nn is None:
            raise RuntimeError('kgraph: not built')
        with open(path, 'w') as f:
            f.write('%d\n' % len(self.nn))
            for row in self.nn:
                f.write('%d' % len(row))
                for j, h in row:
                    f.write('\t%d\t%r' % (j, float(h)))
                f.write('\n')

    def save(self, path):
        raise StubLimit('kgraph.save')

    def search(self, *a, **k):
        raise StubLimit('kgraph.search')
