from vdoubles_base import DoubleUnsupported
from . import Graph


class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise DoubleUnsupported('networkit.graphtools.GraphTools.%s' % name)


class GraphTools(metaclass=_Meta):
    def __getattr__(self, name):
        return getattr(type(self), name)

    @staticmethod
    def merge(G, G1):
        while G.upperNodeIdBound() < G1.upperNodeIdBound():
            G.addNode()
        for u, v, w in list(G1.iterEdgesWeights()):
            if not G.hasEdge(u, v):
                G.addEdge(u, v, w)

    @staticmethod
    def append(G, G1):
        off = G.upperNodeIdBound()
        if G1.numberOfNodes() != G1.upperNodeIdBound():
            raise DoubleUnsupported('append of a graph with removed nodes')
        for _ in range(G1.numberOfNodes()):
            G.addNode()
        for u, v, w in list(G1.iterEdgesWeights()):
            G.addEdge(u + off, v + off, w)

    @staticmethod
    def copyNodes(G):
        g = Graph(G.upperNodeIdBound(), weighted=G.isWeighted())
        for u in range(G.upperNodeIdBound()):
            if not G.hasNode(u):
                g.removeNode(u)
        return g

    @staticmethod
    def toWeighted(G):
        return Graph(G, weighted=True)

    @staticmethod
    def subgraphFromNodes(G, nodes, *a, **k):
        nodes = set(int(x) for x in nodes)
        g = Graph(G.upperNodeIdBound(), weighted=G.isWeighted())
        for u in range(G.upperNodeIdBound()):
            if u not in nodes or not G.hasNode(u):
                g.removeNode(u)
        for u, v, w in G.iterEdgesWeights():
            if u in nodes and v in nodes:
                g.addEdge(u, v, w)
        return g

    @staticmethod
    def removeEdgesFromIsolatedSet(G, nodes):
        raise DoubleUnsupported('removeEdgesFromIsolatedSet')


def subgraph(G, nodes):
    return GraphTools.subgraphFromNodes(G, nodes)
