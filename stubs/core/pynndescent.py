"""Exact k-nearest-neighbour double of pynndescent: like the real index, every point is its own
first neighbour; rows are sorted by distance; slots that cannot be filled hold -1 / inf."""
import numpy as np
from vdoubles_base import DoubleUnsupported, unsupported


def _knn(data, k):
    n = data.shape[0]
    idx = np.full((n, k), -1, dtype=np.int32)
    dst = np.full((n, k), np.inf, dtype=np.float32 if F32 else np.float64)
    for i in range(n):
        d = np.sqrt(np.sum((data - data[i]) ** 2, axis=1))
        key = d.copy()
        key[i] = -1.0
        order = np.argsort(key, kind='stable')[:k]
        idx[i, :len(order)] = order
        dst[i, :len(order)] = d[order]
    return idx, dst


F32 = False


class NNDescent:
    def __init__(self, data, metric='euclidean', n_neighbors=30, random_state=None, **kw):
        if metric not in ('euclidean', 'l2'):
            raise DoubleUnsupported('metric %r' % (metric,))
        for key in kw:
            if key not in ('diversify_prob', 'pruning_degree_multiplier', 'verbose', 'n_trees', 'leaf_size',
                           'n_iters', 'delta', 'low_memory', 'max_candidates', 'n_jobs', 'compressed',
                           'parallel_batch_queries', 'tree_init', 'max_rptree_depth'):
                raise TypeError('unexpected keyword %r' % key)
        self._data = np.array(data, dtype=float)
        if self._data.ndim != 2:
            raise ValueError('data must be 2-D')
        self.n_neighbors = int(n_neighbors)
        if self.n_neighbors < 1:
            raise ValueError('n_neighbors')
        self._g = None

    @property
    def neighbor_graph(self):
        if self._g is None:
            self._g = _knn(self._data, self.n_neighbors)
        return self._g[0].copy(), self._g[1].copy()

    def prepare(self):
        pass

    def update(self, xs_fresh=None, xs_updated=None, updated_indices=None):
        if xs_updated is not None or updated_indices is not None:
            raise DoubleUnsupported('update of existing points')
        if xs_fresh is not None:
            fresh = np.asarray(xs_fresh, dtype=float)
            self._data = np.concatenate([self._data, fresh.reshape(-1, self._data.shape[1])])
        self._g = None

    def query(self, q, k=10, epsilon=0.1):
        q = np.atleast_2d(np.asarray(q, dtype=float))
        d = np.sqrt(np.sum((q[:, None, :] - self._data[None]) ** 2, axis=2))
        o = np.argsort(d, axis=1, kind='stable')[:, :k]
        return o, np.take_along_axis(d, o, axis=1)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise DoubleUnsupported('NNDescent.%s' % name)


__getattr__ = unsupported('pynndescent')
