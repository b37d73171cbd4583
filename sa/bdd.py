"""Reduced ordered binary decision diagrams over hash-consed atoms.

Guards of the value-flow graph are kept canonical, so that two guards built by
differently written code are the same node whenever they are the same boolean
function of the same atoms.
"""


class Bdd:
    FALSE = 0
    TRUE = 1

    def __init__(self):
        self.nodes = [(1 << 60, None, None), (1 << 60, None, None)]
        self.unique = {}
        self.ite_cache = {}
        self.atoms = []
        self.atom_index = {}
        self.support_cache = {0: frozenset(), 1: frozenset()}

    def _mk(self, var, low, high):
        if low == high:
            return low
        key = (var, low, high)
        node = self.unique.get(key)
        if node is None:
            node = self.unique[key] = len(self.nodes)
            self.nodes.append(key)
        return node

    def var(self, atom):
        index = self.atom_index.get(atom)
        if index is None:
            index = self.atom_index[atom] = len(self.atoms)
            self.atoms.append(atom)
        return self._mk(index, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        key = (f, g, h)
        result = self.ite_cache.get(key)
        if result is not None:
            return result
        nodes = self.nodes
        top = min(nodes[f][0], nodes[g][0], nodes[h][0])

        def low(n):
            return nodes[n][1] if nodes[n][0] == top else n

        def high(n):
            return nodes[n][2] if nodes[n][0] == top else n

        result = self._mk(top, self.ite(low(f), low(g), low(h)),
                          self.ite(high(f), high(g), high(h)))
        self.ite_cache[key] = result
        return result

    def not_(self, f):
        return self.ite(f, 0, 1)

    def and_(self, *fs):
        result = 1
        for f in fs:
            result = self.ite(result, f, 0)
        return result

    def or_(self, *fs):
        result = 0
        for f in fs:
            result = self.ite(result, 1, f)
        return result

    def iff(self, f, g):
        return self.ite(f, g, self.not_(g))

    def implies(self, f, g):
        return self.ite(f, g, 1) == 1

    def support(self, f):
        """Atoms the function depends upon."""
        cached = self.support_cache.get(f)
        if cached is not None:
            return cached
        var, low, high = self.nodes[f]
        result = self.support(low) | self.support(high) | {self.atoms[var]}
        self.support_cache[f] = result
        return result

    def cofactor(self, f, atom, value):
        index = self.atom_index[atom]
        cache = {}

        def go(n):
            if n < 2:
                return n
            var, low, high = self.nodes[n]
            if var > index:
                return n
            if n in cache:
                return cache[n]
            result = ((high if value else low)
                      if var == index
                      else self._mk(var, go(low), go(high)))
            cache[n] = result
            return result

        return go(f)

    def compose(self, f, replacement):
        """Substitutes atoms by functions: ``replacement(atom) -> node``."""
        cache = {}

        def go(n):
            if n < 2:
                return n
            if n in cache:
                return cache[n]
            var, low, high = self.nodes[n]
            result = self.ite(replacement(self.atoms[var]), go(high), go(low))
            cache[n] = result
            return result

        return go(f)

    def any_model(self, f):
        """Some assignment (atom -> bool) satisfying the function."""
        assert f != 0
        model = {}
        while f != 1:
            var, low, high = self.nodes[f]
            if low != 0:
                model[self.atoms[var]] = False
                f = low
            else:
                model[self.atoms[var]] = True
                f = high
        return model
