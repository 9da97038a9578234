"""Pure-Python double of the parts of networkit the repository relies on.

Modelled after networkit 10/11: adjacency arrays per node, removal of an edge swaps the last
entry of the array into the hole (so removing while an edge iterator is live makes the iterator
skip entries), node ids are never reused after removeNode, addNodes returns the LAST new id,
unreachable distances are the largest double, getPath() of a source-target search leaves the two
end nodes out, and GraphTools.merge only adds edges that are missing.
"""
import os
import pickle
import sys as _sys

import numpy as _np

from vdoubles_base import DoubleUnsupported, unsupported as _uns

__version__ = '10.1'
INF = _sys.float_info.max
none = 2 ** 64 - 1


class Graph:
    def __init__(self, n=0, weighted=False, directed=False, edgesIndexed=False):
        if isinstance(n, Graph):
            o = n
            self._out = [list(a) for a in o._out]
            self._w = [list(a) for a in o._w]
            self._exists = list(o._exists)
            self._weighted = bool(weighted) or o._weighted
            self._m, self._loops, self._indexed = o._m, o._loops, o._indexed
            self._eid = dict(o._eid)
            return
        if directed:
            raise DoubleUnsupported('directed graphs')
        n = int(n)
        self._weighted = bool(weighted)
        self._out = [[] for _ in range(n)]
        self._w = [[] for _ in range(n)]
        self._exists = [True] * n
        self._m = 0
        self._loops = 0
        self._indexed = bool(edgesIndexed)
        self._eid = {}

    # ---- nodes
    def _chk(self, u):
        u = int(u)
        if u < 0 or u >= len(self._exists) or not self._exists[u]:
            raise RuntimeError('node %d does not exist' % u)
        return u

    def addNode(self):
        self._out.append([])
        self._w.append([])
        self._exists.append(True)
        return len(self._exists) - 1

    def addNodes(self, numberOfNewNodes):
        k = int(numberOfNewNodes)
        if k < 0:
            raise OverflowError("can't convert negative value to count")
        for _ in range(k):
            self.addNode()
        return len(self._exists) - 1

    def removeNode(self, u):
        u = self._chk(u)
        for v in list(self._out[u]):
            self.removeEdge(u, v)
        self._exists[u] = False

    def restoreNode(self, u):
        u = int(u)
        assert not self._exists[u]
        self._exists[u] = True

    def hasNode(self, u):
        u = int(u)
        return 0 <= u < len(self._exists) and self._exists[u]

    def numberOfNodes(self):
        return sum(self._exists)

    def upperNodeIdBound(self):
        return len(self._exists)

    def iterNodes(self):
        u = 0
        while u < len(self._exists):
            if self._exists[u]:
                yield u
            u += 1

    def forNodes(self, callback):
        for u in list(self.iterNodes()):
            callback(u)

    def nodes(self):
        return list(self.iterNodes())

    def isIsolated(self, u):
        return not self._out[self._chk(u)]

    def degree(self, u):
        return len(self._out[self._chk(u)])

    degreeIn = degreeOut = degree

    def weightedDegree(self, u, countSelfLoopsTwice=False):
        u = self._chk(u)
        return sum(w * (2 if countSelfLoopsTwice and v == u else 1)
                   for v, w in zip(self._out[u], self._w[u]))

    # ---- edges
    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        u, v = int(u), int(v)
        if addMissing:
            while max(u, v) >= len(self._exists):
                self.addNode()
        u, v = self._chk(u), self._chk(v)
        if checkMultiEdge and v in self._out[u]:
            return False
        w = float(w) if self._weighted else 1.0
        self._out[u].append(v)
        self._w[u].append(w)
        if u != v:
            self._out[v].append(u)
            self._w[v].append(w)
        else:
            self._loops += 1
        if self._indexed:
            self._eid[(min(u, v), max(u, v))] = len(self._eid)
        self._m += 1
        return True

    def addEdges(self, inputData, addMissing=False, checkMultiEdge=False):
        weights = None
        data = inputData
        if hasattr(data, 'tocoo'):
            coo = data.tocoo()
            weights, rows, cols = coo.data, coo.row, coo.col
        elif isinstance(data, tuple) and len(data) == 2:
            a, b = data
            if isinstance(b, tuple):
                weights, (rows, cols) = a, b
            else:
                rows, cols = a, b
        else:
            raise DoubleUnsupported('addEdges input')
        for i in range(len(rows)):
            self.addEdge(rows[i], cols[i], 1.0 if weights is None else weights[i],
                         addMissing=addMissing, checkMultiEdge=checkMultiEdge)
        return self

    def hasEdge(self, u, v):
        u, v = int(u), int(v)
        if not self.hasNode(u) or not self.hasNode(v):
            return False
        return v in self._out[u]

    def removeEdge(self, u, v):
        u, v = self._chk(u), self._chk(v)
        if v not in self._out[u]:
            raise RuntimeError('edge (%d,%d) does not exist' % (u, v))
        for a, b in ((u, v), (v, u)):
            i = self._out[a].index(b)
            self._out[a][i] = self._out[a][-1]
            self._w[a][i] = self._w[a][-1]
            self._out[a].pop()
            self._w[a].pop()
            if u == v:
                self._loops -= 1
                break
        self._m -= 1
        return self

    def removeAllEdges(self):
        for u in range(len(self._out)):
            self._out[u], self._w[u] = [], []
        self._m = self._loops = 0

    def removeSelfLoops(self):
        for u in range(len(self._out)):
            while u in self._out[u]:
                self.removeEdge(u, u)

    def removeMultiEdges(self):
        for u in range(len(self._out)):
            for v in set(self._out[u]):
                while self._out[u].count(v) > 1:
                    self.removeEdge(u, v)

    def weight(self, u, v):
        u, v = self._chk(u), self._chk(v)
        if v not in self._out[u]:
            return 0.0
        return self._w[u][self._out[u].index(v)]

    def setWeight(self, u, v, w):
        u, v = self._chk(u), self._chk(v)
        if v not in self._out[u]:
            self.addEdge(u, v, w)
            return self
        self._w[u][self._out[u].index(v)] = float(w)
        self._w[v][self._out[v].index(u)] = float(w)
        return self

    def increaseWeight(self, u, v, w):
        return self.setWeight(u, v, self.weight(u, v) + w)

    def numberOfEdges(self):
        return self._m

    def numberOfSelfLoops(self):
        return self._loops

    def iterEdgesWeights(self):
        u = 0
        while u < len(self._out):
            i = 0
            while i < len(self._out[u]):
                v = self._out[u][i]
                if u <= v:
                    yield u, v, self._w[u][i]
                i += 1
            u += 1

    def iterEdges(self):
        for u, v, _ in self.iterEdgesWeights():
            yield u, v

    def forEdges(self, callback):
        for u, v, w in list(self.iterEdgesWeights()):
            callback(u, v, w, self._eid.get((u, v), 0))

    def iterNeighbors(self, u):
        u = self._chk(u)
        i = 0
        while i < len(self._out[u]):
            yield self._out[u][i]
            i += 1

    iterInNeighbors = iterNeighbors

    def iterNeighborsWeights(self, u):
        u = self._chk(u)
        i = 0
        while i < len(self._out[u]):
            yield self._out[u][i], self._w[u][i]
            i += 1

    def neighbors(self, u):
        return list(self.iterNeighbors(u))

    def edges(self):
        return list(self.iterEdges())

    def indexEdges(self, force=False):
        if self._indexed and not force:
            return
        self._indexed = True
        self._eid = {(u, v): i for i, (u, v) in enumerate(self.iterEdges())}

    def hasEdgeIds(self):
        return self._indexed

    def edgeId(self, u, v):
        return self._eid[(min(u, v), max(u, v))]

    def upperEdgeIdBound(self):
        return len(self._eid)

    def isWeighted(self):
        return self._weighted

    def isDirected(self):
        return False

    def totalEdgeWeight(self):
        return sum(w for _, _, w in self.iterEdgesWeights())

    def size(self):
        return self.numberOfNodes(), self.numberOfEdges()

    def isEmpty(self):
        return self.numberOfNodes() == 0

    def checkConsistency(self):
        return True

    def compactEdges(self):
        pass

    def sortEdges(self):
        for u in range(len(self._out)):
            order = sorted(range(len(self._out[u])), key=lambda i: self._out[u][i])
            self._out[u] = [self._out[u][i] for i in order]
            self._w[u] = [self._w[u][i] for i in order]

    def __copy__(self):
        return Graph(self)

    def __deepcopy__(self, memo):
        return Graph(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise DoubleUnsupported('networkit.Graph.%s' % name)

    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, s):
        self.__dict__.update(s)


class Format:
    METIS = 'METIS'
    GML = 'GML'
    GraphML = 'GraphML'
    EdgeListTabOne = 'EdgeListTabOne'
    EdgeListTabZero = 'EdgeListTabZero'
    EdgeListSpaceOne = 'EdgeListSpaceOne'
    EdgeListSpaceZero = 'EdgeListSpaceZero'
    NetworkitBinary = 'NetworkitBinary'


WRITTEN = []     # every path written in this process, for the checks that look for leftovers


def writeGraph(G, path, fileformat, *args, **kwargs):
    if fileformat != Format.NetworkitBinary:
        raise DoubleUnsupported('graph format %r' % (fileformat,))
    if not isinstance(path, str):
        raise TypeError('networkit requires string paths')
    WRITTEN.append(os.path.abspath(path))
    with open(path, 'wb') as f:
        f.write(b'nkbg003\n')
        pickle.dump(G.__getstate__(), f)


def readGraph(path, fileformat, *args, **kwargs):
    if fileformat != Format.NetworkitBinary:
        raise DoubleUnsupported('graph format %r' % (fileformat,))
    if not os.path.isfile(path):
        raise IOError("{0} is not a file".format(path))
    with open(path, 'rb') as f:
        if f.readline() != b'nkbg003\n':
            raise IOError('not a networkit binary graph')
        st = pickle.load(f)
    g = Graph(0, weighted=True)
    g.__setstate__(st)
    return g


def setNumberOfThreads(n):
    pass


def getMaxNumberOfThreads():
    return 1


def setSeed(seed, useThreadId=False):
    pass


from . import graph, graphtools, distance, components, graphio  # noqa: E402
from .graphtools import GraphTools  # noqa: E402,F401

__getattr__ = _uns('networkit')
