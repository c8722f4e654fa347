"""Stand-in for networkit: the graph API, with the container behaviour the real library documents.

Modelled on networkit 10/11: adjacency vectors with swap-and-pop removal, lazy edge iterators over the live
vectors, node ids that are never reused, removed nodes leaving holes, +max-double as 'no path' distance and
an empty path, paths without their end points, binary graph files written to real disk.
Anything not modelled raises StubLimit, so a missing feature never looks like a defect of the code.
"""
import os, pickle, sys, heapq
import numpy as _np
from mc.core import StubLimit

none = 2 ** 64 - 1
INFDIST = sys.float_info.max


class Format:
    NetworkitBinary = 'nkb'
    METIS = 'metis'
    GraphML = 'graphml'
    EdgeListTabZero = 'eltz'
    EdgeListSpaceZero = 'elsz'


class Graph:
    def __init__(self, n=0, weighted=False, directed=False, edgesIndexed=False):
        if isinstance(n, Graph):
            src = n
            self._w, self._directed, self._indexed = weighted or src._w, directed or src._directed, edgesIndexed or src._indexed
            self._exists = list(src._exists)
            self._adj = [list(a) for a in src._adj]
            self._m = src._m
            return
        if directed:
            raise StubLimit('directed graphs')
        self._w, self._directed, self._indexed = bool(weighted), False, bool(edgesIndexed)
        self._exists = [True] * int(n)
        self._adj = [[] for _ in range(int(n))]     # adj[u] = [[v, w], ...]
        self._m = 0

    # ---- nodes
    def numberOfNodes(self):
        return sum(self._exists)

    def numberOfEdges(self):
        return self._m

    def numberOfSelfLoops(self):
        return sum(1 for u in range(len(self._adj)) for v, _ in self._adj[u] if v == u)

    def size(self):
        return self.numberOfNodes(), self._m

    def isEmpty(self):
        return self.numberOfNodes() == 0

    def upperNodeIdBound(self):
        return len(self._exists)

    def upperEdgeIdBound(self):
        return self._m

    def hasNode(self, u):
        return 0 <= int(u) < len(self._exists) and self._exists[int(u)]

    def addNode(self):
        self._exists.append(True)
        self._adj.append([])
        return len(self._exists) - 1

    def addNodes(self, n):
        for _ in range(int(n)):
            self.addNode()
        return len(self._exists) - 1

    def removeNode(self, u):
        u = int(u)
        if not self.hasNode(u):
            raise RuntimeError('Error, the node %d does not exist.' % u)
        for v, _ in list(self._adj[u]):
            self.removeEdge(u, v)
        self._exists[u] = False

    def restoreNode(self, u):
        if self.hasNode(u) or not 0 <= int(u) < len(self._exists):
            raise RuntimeError('Error, node cannot be restored')
        self._exists[int(u)] = True

    def iterNodes(self):
        u = 0
        while u < len(self._exists):
            if self._exists[u]:
                yield u
            u += 1

    nodes = None

    def forNodes(self, f):
        for u in self.iterNodes():
            f(u)

    # ---- edges
    def _check(self, u, add):
        if u != int(u) or int(u) < 0:
            raise OverflowError("can't convert node id %r" % (u,))
        u = int(u)
        if u >= len(self._exists) or not self._exists[u]:
            if add:
                while len(self._exists) <= u:
                    self._exists.append(False)
                    self._adj.append([])
                self._exists[u] = True
            else:
                raise RuntimeError('Cannot create edge: one of the nodes does not exist (%d)' % u)
        return u

    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        u, v = self._check(u, addMissing), self._check(v, addMissing)
        w = float(w) if self._w else 1.0
        if checkMultiEdge and self.hasEdge(u, v):
            return False
        self._adj[u].append([v, w])
        if u != v:
            self._adj[v].append([u, w])
        self._m += 1
        return True

    def addEdges(self, inputData, addMissing=False, checkMultiEdge=False):
        if isinstance(inputData, tuple) and len(inputData) == 2 and isinstance(inputData[1], tuple):
            data, (us, vs) = inputData
        elif isinstance(inputData, tuple) and len(inputData) == 2:
            us, vs = inputData
            data = _np.ones(len(us))
        else:
            raise StubLimit('addEdges input %r' % type(inputData))
        for u, v, w in zip(us, vs, data):
            self.addEdge(u, v, w, addMissing, checkMultiEdge)

    def _idx(self, u, v):
        for i, (x, _) in enumerate(self._adj[u]):
            if x == v:
                return i
        return -1

    def hasEdge(self, u, v):
        u, v = int(u), int(v)
        return self.hasNode(u) and self.hasNode(v) and self._idx(u, v) >= 0

    def removeEdge(self, u, v):
        u, v = int(u), int(v)
        if not (0 <= u < len(self._adj) and 0 <= v < len(self._adj)):
            raise RuntimeError('Error, node does not exist')
        i = self._idx(u, v)
        if i < 0:
            raise RuntimeError('The edge (%d,%d) does not exist' % (u, v))
        a = self._adj[u]
        a[i] = a[-1]
        a.pop()
        if u != v:
            j = self._idx(v, u)
            b = self._adj[v]
            b[j] = b[-1]
            b.pop()
        self._m -= 1
        return self

    def removeAllEdges(self):
        self._adj = [[] for _ in self._adj]
        self._m = 0

    def removeSelfLoops(self):
        for u in range(len(self._adj)):
            while self._idx(u, u) >= 0:
                self.removeEdge(u, u)

    def removeMultiEdges(self):
        for u in range(len(self._adj)):
            seen = set()
            for v, _ in list(self._adj[u]):
                if v in seen:
                    self.removeEdge(u, v)
                seen.add(v)

    def weight(self, u, v):
        i = self._idx(int(u), int(v))
        if i < 0:
            return 0.0
        return self._adj[int(u)][i][1]

    def setWeight(self, u, v, w):
        i = self._idx(int(u), int(v))
        if i < 0:
            self.addEdge(u, v, w)
            return
        self._adj[int(u)][i][1] = float(w)
        if int(u) != int(v):
            self._adj[int(v)][self._idx(int(v), int(u))][1] = float(w)

    def iterEdgesWeights(self):
        u = 0
        while u < len(self._adj):
            i = 0
            while i < len(self._adj[u]):        # live vectors, as the real iterator walks them
                v, w = self._adj[u][i]
                if u <= v:
                    yield u, v, w
                i += 1
            u += 1

    def iterEdges(self):
        for u, v, _ in self.iterEdgesWeights():
            yield u, v

    def forEdges(self, f):
        for eid, (u, v, w) in enumerate(list(self.iterEdgesWeights())):
            f(u, v, w, eid)

    def forEdgesOf(self, u, f):
        for v, w in list(self._adj[int(u)]):
            f(int(u), v, w, 0)

    def iterNeighbors(self, u):
        i = 0
        while i < len(self._adj[int(u)]):
            yield self._adj[int(u)][i][0]
            i += 1

    def iterNeighborsWeights(self, u):
        i = 0
        while i < len(self._adj[int(u)]):
            yield tuple(self._adj[int(u)][i])
            i += 1

    iterInNeighbors = iterNeighbors
    iterInNeighborsWeights = iterNeighborsWeights

    def degree(self, u):
        return len(self._adj[int(u)])

    degreeOut = degreeIn = degree

    def weightedDegree(self, u, countSelfLoopsTwice=False):
        return sum(w for _, w in self._adj[int(u)])

    def isIsolated(self, u):
        return not self._adj[int(u)]

    def totalEdgeWeight(self):
        return sum(w for _, _, w in self.iterEdgesWeights())

    def isWeighted(self):
        return self._w

    def isDirected(self):
        return False

    def hasEdgeIds(self):
        return self._indexed

    def indexEdges(self, force=False):
        self._indexed = True

    def sortEdges(self):
        for a in self._adj:
            a.sort(key=lambda e: e[0])

    def compactEdges(self):
        pass

    def checkConsistency(self):
        return True

    def __copy__(self):
        return Graph(self)

    def __deepcopy__(self, memo):
        return Graph(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise StubLimit('networkit.Graph.%s is not modelled' % name)


def writeGraph(G, path, fileformat=Format.NetworkitBinary, *a, **k):
    if fileformat is not Format.NetworkitBinary:
        raise StubLimit('graph format %r' % (fileformat,))
    with open(path, 'wb') as f:
        pickle.dump((G._w, G._exists, G._adj, G._m, G._indexed), f)


def readGraph(path, fileformat=Format.NetworkitBinary, *a, **k):
    if fileformat is not Format.NetworkitBinary:
        raise StubLimit('graph format %r' % (fileformat,))
    if not os.path.exists(path):
        raise IOError('%s is not a file' % path)
    with open(path, 'rb') as f:
        w, ex, adj, m, ind = pickle.load(f)
    g = Graph(0, weighted=w)
    g._exists, g._adj, g._m, g._indexed = ex, adj, m, ind
    return g


class Graphio:
    pass


def _dijkstra(G, s):
    dist, prev = {s: 0.0}, {}
    heap = [(0.0, s)]
    done = set()
    while heap:
        d, u = heapq.heappop(heap)
        if u in done:
            continue
        done.add(u)
        for v, w in G._adj[u]:
            nd = d + w
            if nd < dist.get(v, float('inf')):
                dist[v], prev[v] = nd, u
                heapq.heappush(heap, (nd, v))
    return dist, prev


def _node(G, u):
    u = int(u)
    if not G.hasNode(u):
        raise RuntimeError('node %d does not exist' % u)
    return u


class _STSP:
    def __init__(self, G, source, target, storePred=True):
        self.G, self.s, self.t, self.storePred = G, _node(G, source), _node(G, target), storePred
        self._run = False

    def run(self):
        dist, prev = _dijkstra(self.G, self.s)
        self._d = dist.get(self.t, INFDIST)
        path = []
        if self.t in dist and self.t != self.s:
            u = prev[self.t]
            while u != self.s:
                path.append(u)
                u = prev[u]
        self._p = path[::-1]
        self._run = True
        return self

    def hasFinished(self):
        return self._run

    def getDistance(self):
        if not self._run:
            raise RuntimeError('Call run method first')
        return self._d

    def getPath(self):
        if not self._run:
            raise RuntimeError('Call run method first')
        return list(self._p)            # without source and target

    def getPredecessors(self):
        raise StubLimit('getPredecessors')

    def setSource(self, s):
        self.s, self._run = _node(self.G, s), False

    def setTarget(self, t):
        self.t, self._run = _node(self.G, t), False

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise StubLimit('networkit.distance.*.%s is not modelled' % name)


class _SSSP:
    def __init__(self, G, source, storePaths=True, storeNodesSortedByDistance=False, target=none):
        self.G, self.s, self._run = G, _node(G, source), False

    def run(self):
        self._dist, self._prev = _dijkstra(self.G, self.s)
        self._run = True
        return self

    def distance(self, t):
        return self._dist.get(int(t), INFDIST)

    def getDistances(self, asarray=True):
        r = [self._dist.get(u, INFDIST) for u in range(self.G.upperNodeIdBound())]
        return _np.array(r) if asarray else r

    def getPath(self, t):
        t = int(t)
        if t not in self._dist:
            return []
        p = [t]
        while p[-1] != self.s:
            p.append(self._prev[p[-1]])
        return p[::-1]                  # including source and target

    def setSource(self, s):
        self.s = _node(self.G, s)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise StubLimit('networkit.distance.Dijkstra.%s is not modelled' % name)


class _SPSP:
    def __init__(self, G, sources):
        self.G, self.sources = G, [_node(G, s) for s in sources]
        self.targets, self._run = None, False

    def setSources(self, sources):
        self.sources = [_node(self.G, s) for s in sources]

    def setTargets(self, targets):
        self.targets = [_node(self.G, t) for t in targets]

    def run(self):
        self._all = {s: _dijkstra(self.G, s)[0] for s in set(self.sources)}
        self._run = True
        return self

    def getDistances(self, asarray=False):
        if not self._run:
            raise RuntimeError('Call run method first')
        tg = self.targets if self.targets is not None else list(range(self.G.upperNodeIdBound()))
        r = [[self._all[s].get(t, INFDIST) for t in tg] for s in self.sources]
        return _np.array(r, dtype=float).reshape(len(self.sources), len(tg)) if asarray else r

    def getDistance(self, u, v):
        return self._all[int(u)].get(int(v), INFDIST)


class _APSP:
    def __init__(self, G):
        self.G = G

    def run(self):
        self._all = {s: _dijkstra(self.G, s)[0] for s in self.G.iterNodes()}
        return self

    def getDistances(self, asarray=False):
        n = self.G.upperNodeIdBound()
        r = [[self._all.get(u, {}).get(v, INFDIST) for v in range(n)] for u in range(n)]
        return _np.array(r) if asarray else r

    def getDistance(self, u, v):
        return self._all[int(u)].get(int(v), INFDIST)


from . import graphtools, distance, components  # noqa: E402,F401
GraphTools = graphtools.GraphTools
