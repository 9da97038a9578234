import heapq
import numpy as np
from vdoubles_base import DoubleUnsupported, unsupported
from . import INF


def _sssp(G, s, target=None, targets=None):
    n = G.upperNodeIdBound()
    dist = [INF] * n
    pred = [-1] * n
    dist[s] = 0.0
    h = [(0.0, s)]
    done = [False] * n
    left = set(targets) if targets is not None else None
    while h:
        d, u = heapq.heappop(h)
        if done[u]:
            continue
        done[u] = True
        if u == target:
            break
        if left is not None:
            left.discard(u)
            if not left:
                break
        for v, w in G.iterNeighborsWeights(u):
            nd = d + w
            if nd < dist[v]:
                dist[v] = nd
                pred[v] = u
                heapq.heappush(h, (nd, v))
    return dist, pred


class _Base:
    _ran = False

    def hasFinished(self):
        return self._ran

    def _need(self):
        if not self._ran:
            raise RuntimeError('Error, run must be called first')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise DoubleUnsupported('networkit.distance.%s.%s' % (type(self).__name__, name))


class _STSP(_Base):
    def __init__(self, G, source, target, storePred=True):
        self.G, self.s, self.t, self.sp = G, G._chk(source), G._chk(target), storePred

    def run(self):
        d, pred = _sssp(self.G, self.s, self.t)
        self._d = d[self.t]
        self._p = []
        if self._d < INF and self.s != self.t:
            u = pred[self.t]
            while u != self.s:
                self._p.append(u)
                u = pred[u]
            self._p.reverse()
        self._ran = True
        return self

    def getDistance(self):
        self._need()
        return self._d

    def getPath(self):
        self._need()
        if not self.sp:
            raise RuntimeError('storePred is disabled')
        return list(self._p)

    def setSource(self, s):
        self.s = self.G._chk(s)

    def setTarget(self, t):
        self.t = self.G._chk(t)


class BidirectionalDijkstra(_STSP):
    pass


class AStar(_STSP):
    def __init__(self, G, heu, source, target, storePred=True):
        super().__init__(G, source, target, storePred)


class Dijkstra(_Base):
    def __init__(self, G, source, storePaths=True, storeNodesSortedByDistance=False, target=None):
        self.G, self.s = G, G._chk(source)
        self.t = None if target is None or target == 2 ** 64 - 1 else G._chk(target)

    def run(self):
        self._d, self._pred = _sssp(self.G, self.s, self.t)
        self._ran = True
        return self

    def distance(self, t):
        self._need()
        return self._d[int(t)]

    def getDistances(self, asarray=False):
        self._need()
        return np.array(self._d) if asarray else list(self._d)

    def getPath(self, t):
        self._need()
        t = int(t)
        if self._d[t] >= INF:
            return []
        p = [t]
        while p[-1] != self.s:
            p.append(self._pred[p[-1]])
        return p[::-1]


class MultiTargetDijkstra(_Base):
    def __init__(self, G, source, targets=()):
        self.G, self.s, self.ts = G, G._chk(source), [G._chk(t) for t in targets]

    def setTargets(self, ts):
        self.ts = [self.G._chk(t) for t in ts]

    def run(self):
        d, _ = _sssp(self.G, self.s)
        self._d = [d[t] for t in self.ts]
        self._ran = True
        return self

    def getDistances(self):
        self._need()
        return list(self._d)

    def getTargetIndexMap(self):
        return {t: i for i, t in enumerate(self.ts)}


class SPSP(_Base):
    def __init__(self, G, sources, targets=None):
        self.G = G
        self.sources = [G._chk(s) for s in sources]
        self.targets = None if targets is None else [G._chk(t) for t in targets]

    def setSources(self, s):
        self.sources = [self.G._chk(x) for x in s]

    def setTargets(self, t):
        self.targets = [self.G._chk(x) for x in t]

    def run(self):
        rows = []
        for s in self.sources:
            d, _ = _sssp(self.G, s)
            rows.append(d if self.targets is None else [d[t] for t in self.targets])
        self._rows = rows
        self._ran = True
        return self

    def getDistances(self, asarray=False):
        self._need()
        if asarray:
            nt = self.G.upperNodeIdBound() if self.targets is None else len(self.targets)
            return np.array(self._rows, dtype=float).reshape(len(self.sources), nt)
        return [list(r) for r in self._rows]

    def getDistance(self, u, v):
        self._need()
        i = self.sources.index(int(u))
        j = int(v) if self.targets is None else self.targets.index(int(v))
        return self._rows[i][j]


class APSP(SPSP):
    def __init__(self, G):
        super().__init__(G, list(G.iterNodes()), None)


__getattr__ = unsupported('networkit.distance')
