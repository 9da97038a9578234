"""Exact double of the kgraph binding: neighbours exclude the point itself, distances are written
as half the squared Euclidean distance, save_text writes one line per point."""
import os

import numpy as np
from vdoubles_base import DoubleUnsupported, unsupported


WRITTEN = []     # every path written in this process, for the checks that look for leftovers


class KGraph:
    def __init__(self, data, metric='euclidean'):
        if metric != 'euclidean':
            raise DoubleUnsupported('kgraph metric %r' % (metric,))
        self.data = np.asarray(data)
        if self.data.ndim != 2 or self.data.shape[1] % 4:
            raise RuntimeError('dimension must be a multiple of four')
        self.rows = None

    def build(self, reverse=0, K=10, L=100, S=10, **kw):
        if L < K:
            raise RuntimeError('L < K')
        n = self.data.shape[0]
        # the index keeps up to L neighbours per point and writes all it keeps
        L = min(int(L), n - 1)
        X = self.data.astype('float64')
        self.rows = []
        for i in range(n):
            d = np.sum((X - X[i]) ** 2, axis=1)
            key = d.copy()
            key[i] = np.inf
            o = np.argsort(key, kind='stable')[:L]
            self.rows.append([(int(j), d[j] / 2.0) for j in o if j != i])

    def save_text(self, path):
        if self.rows is None:
            raise RuntimeError('no graph')
        WRITTEN.append(os.path.abspath(path))
        with open(path, 'w') as f:
            f.write('%d\n' % len(self.rows))
            for r in self.rows:
                f.write(str(len(r)))
                for j, d in r:
                    f.write(' %d %.9g' % (j, d))
                f.write('\n')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise DoubleUnsupported('KGraph.%s' % name)


__getattr__ = unsupported('kgraph')
