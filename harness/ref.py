"""Independent reference model of concept formation.

Concepts are immutable: (count, table, children, mark). A table maps an
attribute to {value: count} with numeric summaries as ('#', n, mean, M2) under
the key NUM. The model recomputes utilities from the definitions and yields
every outcome of a fit that is legal up to numerical ties.
"""
import math

from harness import snap

NUM = '#numeric#'
NOISE = 1.0 / (4 * math.pi)


class Node(object):
    __slots__ = ('count', 'table', 'children', 'mark', 'real', '_ecg')

    def __init__(self, count, table, children=(), mark=False):
        self.count = count
        self.table = table
        self.children = tuple(children)
        self.mark = mark
        self.real = None
        self._ecg = None


def from_real(node):
    n = Node(float(node.count), real_table(node),
             [from_real(c) for c in node.children])
    n.real = node
    return n


def real_table(node):
    t = {}
    for a, vals in node.av_counts.items():
        d = t[a] = {}
        for v, c in vals.items():
            if snap.is_cv(c):
                sd = c.biased_std() if c.num else 0.0
                d[NUM] = (float(c.num), c.mean, sd * sd * c.num)
            else:
                d[v] = float(c)
    return t


def add_instance(table, inst, numeric):
    t = {a: dict(d) for a, d in table.items()}
    for a, v in inst.items():
        d = t.setdefault(a, {})
        if numeric and snap.is_number(v):
            n, m, q = d.get(NUM, (0.0, 0.0, 0.0))
            v = float(v)
            n1 = n + 1
            m1 = m + (v - m) / n1
            d[NUM] = (n1, m1, q + (v - m) * (v - m1))
        else:
            d[v] = d.get(v, 0.0) + 1
    return t


def join(t1, t2):
    t = {a: dict(d) for a, d in t1.items()}
    for a, d in t2.items():
        o = t.setdefault(a, {})
        for v, c in d.items():
            if v is NUM or v == NUM:
                if NUM in o:
                    n1, m1, q1 = o[NUM]
                    n2, m2, q2 = c
                    n = n1 + n2
                    o[NUM] = (n, (n1 * m1 + n2 * m2) / n,
                              q1 + q2 + (m1 - m2) ** 2 * n1 * n2 / n)
                else:
                    o[NUM] = c
            else:
                o[v] = o.get(v, 0.0) + c
    return t


class Model(object):
    """numeric: whether numbers are summarised; scaling as for the tree."""

    def __init__(self, numeric, scaling=None, inner=True):
        self.numeric = numeric
        self.scaling = scaling
        self.inner = inner
        self.seen = {}            # inner attribute -> values fitted
        self.scale = {}

    @staticmethod
    def for_tree(tree, kind):
        if kind == 'cobweb':
            return Model(False)
        return Model(True, tree.scaling, tree.inner_attr_scaling)

    def inner_attr(self, attr):
        return attr[0] if isinstance(attr, tuple) and self.inner else attr

    def learn_scales(self, inst):
        if not self.numeric:
            return
        for a, v in inst.items():
            if snap.is_number(v):
                k = self.inner_attr(a)
                self.seen.setdefault(k, []).append(float(v))
                self.scale.pop(k, None)

    def spread(self, k):
        """Bias-corrected std of all values fitted for an attribute."""
        vals = self.seen.get(k, [])
        if len(vals) < 2:
            return 0.0
        n, m, q = snap.stats(vals)
        return math.sqrt(q / (n - 1)) / snap.corr(n)

    def scale_of(self, attr):
        """Divisor applied to an attribute's values."""
        if not self.scaling:
            return 1.0
        k = self.inner_attr(attr)
        if k not in self.scale:
            s = self.spread(k) / self.scaling
            self.scale[k] = s if s > 0 else 1.0
        return self.scale[k]

    def clear(self):
        self.seen = {}
        self.scale = {}

    # -- definitions
    def ecg_of(self, count, table):
        total = 0.0
        n = 0
        for a, d in table.items():
            if a[0] == '_':
                continue
            n += 1
            for v, c in d.items():
                if v == NUM:
                    num, mean, q = c
                    sd = 0.0
                    if num > 1:
                        sd = math.sqrt(max(0.0, q) / (num - 1)) / snap.corr(
                            num)
                    sd /= self.scale_of(a)
                    total += (num / count) ** 2 / (
                        2 * math.sqrt(math.pi) * math.sqrt(sd * sd + NOISE))
                else:
                    total += (c / count) ** 2
        return total / n if n else 0.0

    def ecg(self, node):
        if node._ecg is None:
            node._ecg = self.ecg_of(node.count, node.table)
        return node._ecg

    def cu(self, node):
        if not node.children:
            return 0.0
        return (sum(c.count / node.count * self.ecg(c) for c in node.children)
                - self.ecg(node)) / len(node.children)

    def plus(self, node, inst, mark=False, children=None):
        return Node(node.count + 1, add_instance(node.table, inst,
                                                 self.numeric),
                    node.children if children is None else children, mark)

    def leaf(self, inst, mark=True):
        return Node(1.0, add_instance({}, inst, self.numeric), (), mark)

    def exact(self, node, inst):
        vis = {a for a in node.table if a[0] != '_'}
        if vis != {a for a in inst if a[0] != '_'}:
            return False
        for a in vis:
            d = node.table[a]
            v = inst[a]
            if self.numeric and snap.is_number(v):
                if len(d) != 1 or NUM not in d or d[NUM][0] != node.count:
                    return False
                if d[NUM][2] != 0.0 or d[NUM][1] != v:
                    return False
            elif d.get(v) != node.count:
                return False
        return True

    def insert_scores(self, node, inst):
        """Utility of each child after inserting, up to a common affine map.
        """
        out = []
        for c in node.children:
            up = self.plus(c, inst)
            out.append((c.count + 1) * self.ecg(up) - c.count * self.ecg(c))
        return out

    def best_children(self, node, inst, eps):
        """Pairs (best, second) of child indices legal up to ties."""
        sc = self.insert_scores(node, inst)
        tol = eps * (node.count + 1)
        top = max(sc)
        firsts = [i for i, s in enumerate(sc) if s >= top - tol]
        pairs = []
        for i in firsts:
            rest = [(s, j) for j, s in enumerate(sc) if j != i]
            if not rest:
                pairs.append((i, None))
                continue
            t2 = max(s for s, _ in rest)
            pairs.extend((i, j) for s, j in rest if s >= t2 - tol)
        return pairs

    def options(self, node, inst, i, j):
        """{operation: utility} given the two best children."""
        kids = list(node.children)
        up = self.plus(node, inst)
        b1 = kids[i]
        ops = {}
        rest = kids[:i] + kids[i + 1:]
        ops['best'] = self.cu(Node(up.count, up.table,
                                   rest + [self.plus(b1, inst)]))
        ops['new'] = self.cu(Node(up.count, up.table,
                                  kids + [self.leaf(inst)]))
        if len(kids) > 2 and j is not None:
            b2 = kids[j]
            merged = Node(b1.count + b2.count, join(b1.table, b2.table),
                          (b1, b2))
            others = [k for x, k in enumerate(kids) if x not in (i, j)]
            ops['merge'] = self.cu(Node(up.count, up.table,
                                        others + [self.plus(merged, inst)]))
        if b1.children:
            ops['split'] = self.cu(Node(node.count, node.table,
                                        rest + list(b1.children)))
        return ops

    def outcomes(self, node, inst, eps, ops=()):
        """Yields (new node, operations) for every legal outcome."""
        if not node.children:
            if node.count == 0 or self.exact(node, inst):
                yield (self.plus(node, inst, True),
                       ops + (('match',) if node.count else ('first',)))
            else:
                yield (Node(node.count + 1,
                            add_instance(node.table, inst, self.numeric),
                            (node, self.leaf(inst))), ops + ('fringe',))
            return
        up = self.plus(node, inst)
        for i, j in self.best_children(node, inst, eps):
            kids = list(node.children)
            b1 = kids[i]
            rest = kids[:i] + kids[i + 1:]
            util = self.options(node, inst, i, j)
            top = max(util.values())
            for op, u in sorted(util.items()):
                if u < top - eps:
                    continue
                if op == 'best':
                    for n, o in self.outcomes(b1, inst, eps, ops + ('best',)):
                        yield Node(up.count, up.table, rest + [n]), o
                elif op == 'new':
                    yield (Node(up.count, up.table, kids +
                                [self.leaf(inst)]), ops + ('new',))
                elif op == 'merge':
                    b2 = kids[j]
                    m = Node(b1.count + b2.count, join(b1.table, b2.table),
                             (b1, b2))
                    others = [k for x, k in enumerate(kids)
                              if x not in (i, j)]
                    for n, o in self.outcomes(m, inst, eps,
                                              ops + ('merge',)):
                        yield Node(up.count, up.table, others + [n]), o
                else:
                    flat = Node(node.count, node.table,
                                rest + list(b1.children))
                    for n, o in self.outcomes(flat, inst, eps,
                                              ops + ('split',)):
                        yield n, o

    def descents(self, node, inst, eps):
        """Leaves categorization may return, as reference nodes."""
        if not node.children:
            return [node]
        sc = self.insert_scores(node, inst)
        top = max(sc)
        tol = eps * (node.count + 1)
        out = []
        for c, s in zip(node.children, sc):
            if s >= top - tol:
                out.extend(self.descents(c, inst, eps))
        return out


def leaf_key(count, table, visible):
    """Content of a leaf. Numbers by count and mean (leaves are uniform)."""
    parts = []
    for a, d in table.items():
        h = a[0] == '_'
        if visible and h:
            continue
        for v, c in d.items():
            if v == NUM:
                parts.append((snap.key(a), '#', c[0],
                              None if h else repr(c[1])))
            else:
                parts.append((snap.key(a), snap.key(v), c))
    parts.sort(key=repr)
    return (count, tuple(parts))


class Canon(object):
    """Interned canonical forms of hierarchies."""

    def __init__(self, visible=False):
        self.ids = {}
        self.visible = visible

    def intern(self, x):
        return self.ids.setdefault(x, len(self.ids))

    def ref(self, node):
        if not node.children:
            return self.intern(('L', node.mark, leaf_key(
                node.count, node.table, self.visible)))
        return self.intern(('N',) + tuple(sorted(self.ref(c) for c in
                                                 node.children)))

    def real(self, node, returned):
        if not node.children:
            return self.intern(('L', node is returned, leaf_key(
                float(node.count), real_table(node), self.visible)))
        return self.intern(('N',) + tuple(sorted(self.real(c, returned) for c
                                                 in node.children)))
