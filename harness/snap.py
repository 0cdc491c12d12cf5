"""Observation of trees: walks, snapshots, canonical forms, aggregates."""
import math

from harness.core import short


def CV():
    from concept_formation.continuous_value import ContinuousValue
    return ContinuousValue


def cv_key():
    from concept_formation.cobweb3 import cv_key as k
    return k


def walk(node, limit=200000):
    """All concepts from a node down, parents first."""
    out = []
    stack = [node]
    while stack:
        n = stack.pop()
        out.append(n)
        if len(out) > limit:
            raise RuntimeError('the concept graph has a cycle')
        stack.extend(reversed(list(n.children)))
    return out


def is_cv(v):
    return isinstance(v, CV())


def cv_obs(v):
    return ('#num', v.num, v.mean, v.biased_std() if v.num else 0.0,
            v.unbiased_std())


def table(node):
    """Copy of a concept's table; numeric summaries as observations."""
    return {a: {val: (cv_obs(c) if is_cv(c) else c)
                for val, c in vals.items()}
            for a, vals in node.av_counts.items()}


def hidden(attr):
    return attr[0] == '_'


def scales(tree):
    s = getattr(tree, 'attr_scales', None)
    return None if s is None else {k: cv_obs(v) for k, v in s.items()}


def key(v):
    """A deterministic text for any hashable value or attribute."""
    if isinstance(v, (frozenset, set)):
        return 'fs{' + ','.join(sorted(key(e) for e in v)) + '}'
    if isinstance(v, tuple):
        return '(' + ','.join(key(e) for e in v) + ')'
    return type(v).__name__ + ':' + repr(v)


def table_key(tab, visible=False):
    return ';'.join(sorted(
        key(a) + '=' + ','.join(sorted(key(v) + '#' + repr(c) for v, c in
                                       vals.items()))
        for a, vals in tab.items() if not (visible and hidden(a))))


def canon(node, visible=False, mark=None):
    """Canonical text of a (sub)tree: no ids, no child order."""
    kids = sorted(canon(c, visible, mark) for c in node.children)
    return '[%s%r|%s|%s]' % ('*' if mark is not None and node is mark else '',
                             float(node.count),
                             table_key(table(node), visible), ''.join(kids))


def canon_tree(tree, visible=False, mark=None):
    return canon(tree.root, visible, mark) + repr(sorted(
        (key(k), repr(v)) for k, v in (scales(tree) or {}).items()
        if not (visible and hidden(k))))


def snapshot(tree):
    """Everything a tree knows, with identities."""
    nodes = {}
    for n in walk(tree.root):
        nodes[id(n)] = (n.concept_id, float(n.count), table(n),
                        frozenset(id(c) for c in n.children),
                        id(n.parent) if n.parent is not None else None,
                        n.tree is tree, len(n.children))
    return {'root': id(tree.root), 'nodes': nodes, 'scales': scales(tree),
            'keep': walk(tree.root),
            'cfg': (getattr(tree, 'scaling', None),
                    getattr(tree, 'inner_attr_scaling', None))}


def diff(a, b):
    """First difference of two snapshots, or None."""
    if a['root'] != b['root']:
        return 'the root was replaced'
    if set(a['nodes']) != set(b['nodes']):
        return 'concepts appeared or disappeared'
    for i in a['nodes']:
        if a['nodes'][i] != b['nodes'][i]:
            names = ('identity', 'count', 'table', 'children', 'parent',
                     'tree', 'number of children')
            for nm, x, y in zip(names, a['nodes'][i], b['nodes'][i]):
                if x != y:
                    return 'a concept changed its %s: %s -> %s' % (
                        nm, short(x, 400), short(y, 400))
    if a['scales'] != b['scales']:
        return 'scaling statistics changed: %s -> %s' % (
            short(a['scales'], 300), short(b['scales'], 300))
    if a['cfg'] != b['cfg']:
        return 'settings changed'
    return None


def is_number(v):
    from numbers import Number
    return (isinstance(v, Number) and not isinstance(v, bool) and
            not math.isnan(v))


class Agg(object):
    """Reference aggregate of a multiset of instances."""

    def __init__(self, numeric=True):
        self.numeric = numeric
        self.count = 0
        self.nom = {}
        self.num = {}

    def add(self, inst):
        self.count += 1
        for a, v in inst.items():
            if self.numeric and is_number(v):
                self.num.setdefault(a, []).append(float(v))
            else:
                d = self.nom.setdefault(a, {})
                d[v] = d.get(v, 0) + 1

    def update(self, other):
        self.count += other.count
        for a, d in other.nom.items():
            m = self.nom.setdefault(a, {})
            for v, c in d.items():
                m[v] = m.get(v, 0) + c
        for a, l in other.num.items():
            self.num.setdefault(a, []).extend(l)

    def attrs(self):
        return set(self.nom) | set(self.num)


# c4(n), from its definition
def c4(n):
    n = int(n)
    return math.sqrt(2.0 / (n - 1)) * math.exp(
        math.lgamma(n / 2.0) - math.lgamma((n - 1) / 2.0))


def corr(n):
    return c4(n) if n < 30 else 1.0


def stats(values):
    """(n, mean, M2) by exact summation."""
    n = len(values)
    if min(values) == max(values):
        return n, values[0], 0.0
    m = math.fsum(values) / n
    return n, m, math.fsum((x - m) * (x - m) for x in values)


def std_tol(values):
    """Tolerance for a standard deviation computed stably."""
    big = max(abs(x) for x in values)
    n = len(values)
    return 1e-7, 64 * n * 2.3e-16 * big


def compare_table(node, agg):
    """First difference between a concept and a reference aggregate."""
    if float(node.count) != float(agg.count):
        return 'count is %r, should be %r' % (node.count, agg.count)
    tab = node.av_counts
    K = cv_key()
    if set(tab) != agg.attrs():
        return 'attributes are %s, should be %s' % (
            short(sorted(map(str, tab))), short(sorted(map(str,
                                                           agg.attrs()))))
    for a in tab:
        nom = {v: c for v, c in tab[a].items() if not is_cv(c)}
        if nom != agg.nom.get(a, {}):
            return 'counts of %r are %s, should be %s' % (
                a, short(nom), short(agg.nom.get(a, {})))
        cvs = [c for v, c in tab[a].items() if is_cv(c)]
        if (len(cvs) == 1) != (a in agg.num) or len(cvs) > 1:
            return 'numeric summary of %r present: %r, expected: %r' % (
                a, len(cvs), a in agg.num)
        if cvs:
            if K not in tab[a]:
                return 'numeric summary under another key'
            vals = agg.num[a]
            n, m, m2 = stats(vals)
            cv = cvs[0]
            rel, at = std_tol(vals)
            if float(cv.num) != n:
                return 'numeric %r counts %r values, should be %r' % (
                    a, cv.num, n)
            if not abs(cv.unbiased_mean() - m) <= at + rel * abs(m) * 1e-3:
                return 'mean of %r is %r, should be %r' % (
                    a, cv.unbiased_mean(), m)
            sd = math.sqrt(m2 / n)
            if not abs(cv.biased_std() - sd) <= at + rel * sd:
                return 'std of %r is %r, should be %r' % (
                    a, cv.biased_std(), sd)
            ub = math.sqrt(m2 / (n - 1)) / corr(n) if n > 1 else 0.0
            if not abs(cv.unbiased_std() - ub) <= 2 * at + rel * ub:
                return 'unbiased std of %r is %r, should be %r' % (
                    a, cv.unbiased_std(), ub)
    return None
