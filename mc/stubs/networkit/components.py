class ConnectedComponents:
    def __init__(self, G):
        self.G = G

    def run(self):
        self._c, self._comps = {}, []
        for s in self.G.iterNodes():
            if s in self._c:
                continue
            comp, stack = [], [s]
            self._c[s] = len(self._comps)
            while stack:
                u = stack.pop()
                comp.append(u)
                for v, _ in self.G._adj[u]:
                    if v not in self._c:
                        self._c[v] = len(self._comps)
                        stack.append(v)
            self._comps.append(comp)
        return self

    def numberOfComponents(self):
        return len(self._comps)

    def componentOfNode(self, u):
        return self._c[int(u)]

    def getComponents(self):
        return self._comps
