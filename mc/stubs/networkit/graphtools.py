from mc.core import StubLimit


class GraphTools:
    @staticmethod
    def merge(G, G1):
        """Nodes with the same id are identified; G gets every node id and every edge of G1."""
        while G.upperNodeIdBound() < G1.upperNodeIdBound():
            u = G.addNode()
        for u in list(G1.iterNodes()):
            if not G.hasNode(u):
                G._exists[u] = True      # as networkit: the ids of G1 exist afterwards
        for u, v, w in list(G1.iterEdgesWeights()):
            G.addEdge(u, v, w, checkMultiEdge=True)

    @staticmethod
    def append(G, G1):
        off = {}
        for u in G1.iterNodes():
            off[u] = G.addNode()
        for u, v, w in list(G1.iterEdgesWeights()):
            G.addEdge(off[u], off[v], w)

    @staticmethod
    def copyNodes(G):
        from networkit import Graph
        H = Graph(G)
        H.removeAllEdges()
        return H

    @staticmethod
    def subgraphFromNodes(G, nodes, *a, **k):
        from networkit import Graph
        H = Graph(G)
        keep = set(int(x) for x in nodes)
        for u in list(H.iterNodes()):
            if u not in keep:
                H.removeNode(u)
        return H

    @staticmethod
    def getCompactedGraph(G, m):
        raise StubLimit('getCompactedGraph')

    @staticmethod
    def sortEdgesByWeight(G, decreasing=False):
        for a in G._adj:
            a.sort(key=lambda e: e[1], reverse=decreasing)
