"""Ledger of which instances each leaf holds, kept by watching fits."""
from harness import gen, snap


def numbers(x):
    if isinstance(x, dict):
        return [n for v in x.values() for n in numbers(v)]
    return [float(x)] if snap.is_number(x) else []


def nearest(x, given):
    """The instance's number that x, found by subtraction, stands for."""
    if not given:
        return x
    y = min(given, key=lambda g: abs(g - x))
    return y if abs(y - x) <= 1e-6 * (1 + abs(x)) else x


class Ledger(object):
    """Watches ifit from outside; the returned leaf received the instance."""

    def __init__(self, ctx, tree, numeric=True, structured=False):
        self.ctx = ctx
        self.tree = tree
        self.numeric = numeric
        self.structured = structured
        self.leaves = {}          # id -> (leaf, Agg)
        self.fits = 0

    def clear(self):
        self.leaves = {}
        self.fits = 0

    def before(self):
        if self.structured:
            self.pre = {i: snap.table(l) for i, (l, _) in self.leaves.items()}

    def fit(self, inst):
        self.before()
        # every third instance comes in a dictionary that is used again
        leaf = self.tree.ifit(inst if self.fits % 3 else gen.reused(inst))
        self.after(leaf, inst)
        return leaf

    def after(self, leaf, inst):
        self.fits += 1
        if self.structured:
            inst = self.delta(leaf, inst)
        if id(leaf) not in self.leaves:
            self.leaves[id(leaf)] = (leaf, snap.Agg(self.numeric))
        self.leaves[id(leaf)][1].add(inst)

    def delta(self, leaf, inst):
        """The single (renamed) instance a leaf's table grew by."""
        ctx = self.ctx
        old = self.pre.get(id(leaf), {})
        out = {}
        for a, vals in snap.table(leaf).items():
            grown = {}
            for v, c in vals.items():
                o = old.get(a, {}).get(v)
                if isinstance(c, tuple):
                    d = c[1] - (o[1] if o else 0)
                    if d:
                        if d != 1:
                            ctx.fail('a leaf grew by', d, 'values of', a)
                        # mean * n - old mean * old n
                        x = c[2] * c[1] - (o[2] * o[1] if o else 0.0)
                        grown[nearest(x, numbers(inst))] = 1
                elif c != (o or 0):
                    grown[v] = c - (o or 0)
            if grown:
                if len(grown) != 1 or set(grown.values()) != {1}:
                    ctx.fail('one fit changed the returned leaf by', grown,
                             'for', a, 'fitting', inst)
                out[a] = next(iter(grown))
        return out

    def aggregates(self):
        """[(node, Agg)] for every concept from the ledger alone."""
        ctx = self.ctx
        nodes = snap.walk(self.tree.root)
        agg = {}
        for n in reversed(nodes):
            a = snap.Agg(self.numeric)
            if n.children:
                for c in n.children:
                    a.update(agg[id(c)])
            elif id(n) in self.leaves:
                a.update(self.leaves[id(n)][1])
            elif self.fits:
                ctx.fail('a leaf holds instances no fit put there:',
                         str(n)[:300])
            agg[id(n)] = a
        return [(n, agg[id(n)]) for n in nodes]
