"""Stand-in for pynndescent: exact neighbour graph; like the real one the point itself is its first neighbour."""
import numpy as np
from mc.core import StubLimit


class NNDescent:
    CALLS = []

    def __init__(self, data, metric='euclidean', metric_kwds=None, n_neighbors=30, random_state=None, **kw):
        if metric != 'euclidean':
            raise StubLimit('metric %r' % (metric,))
        self._data = np.array(data, dtype=np.float32)
        self.n_neighbors = int(n_neighbors)
        self._graph()

    def _graph(self):
        x = self._data.astype(np.float64)
        n = x.shape[0]
        d = np.sqrt(((x[:, None, :] - x[None, :, :]) ** 2).sum(-1))
        ids = np.full((n, self.n_neighbors), -1, dtype=np.int32)
        ds = np.full((n, self.n_neighbors), np.inf, dtype=np.float32)
        for i in range(n):
            order = sorted(range(n), key=lambda j: (d[i, j], j != i, j))[:self.n_neighbors]
            ids[i, :len(order)] = order
            ds[i, :len(order)] = d[i, order]
        self._ids, self._ds = ids, ds

    @property
    def neighbor_graph(self):
        return self._ids.copy(), self._ds.copy()

    def update(self, xs_fresh=None, xs_updated=None, updated_indices=None):
        if xs_updated is not None:
            raise StubLimit('xs_updated')
        self._data = np.vstack([self._data, np.array(xs_fresh, dtype=np.float32)])
        self._graph()

    def prepare(self):
        pass

    def query(self, q, k=10, epsilon=0.1):
        raise StubLimit('NNDescent.query')
