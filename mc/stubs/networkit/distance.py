from networkit import _STSP, _SSSP, _SPSP, _APSP


class BidirectionalDijkstra(_STSP):
    pass


class AStar(_STSP):
    def __init__(self, G, heu, source, target, storePred=True):
        _STSP.__init__(self, G, source, target, storePred)


class BidirectionalBFS(_STSP):
    def __init__(self, *a, **k):
        from mc.core import StubLimit
        raise StubLimit('BidirectionalBFS')


class Dijkstra(_SSSP):
    pass


class SPSP(_SPSP):
    pass


class APSP(_APSP):
    pass
