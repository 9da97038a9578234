from vdoubles_base import unsupported


class ConnectedComponents:
    def __init__(self, G):
        self.G = G

    def run(self):
        self.comp = {}
        c = 0
        for s in self.G.iterNodes():
            if s in self.comp:
                continue
            stack = [s]
            self.comp[s] = c
            while stack:
                u = stack.pop()
                for v in self.G.iterNeighbors(u):
                    if v not in self.comp:
                        self.comp[v] = c
                        stack.append(v)
            c += 1
        self.n = c
        return self

    def componentOfNode(self, u):
        return self.comp[u]

    def numberOfComponents(self):
        return self.n

    def getComponents(self):
        out = [[] for _ in range(self.n)]
        for u, c in self.comp.items():
            out[c].append(u)
        return out


__getattr__ = unsupported('networkit.components')
