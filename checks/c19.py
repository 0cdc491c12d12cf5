"""C19: clusterings are faithful, nested cuts of the tree."""
import copy
import random

from harness import gen, snap
from harness.core import close

PID = 'C19'
CASES = {'quick': 9375, 'thorough': 120000}
REQUIRED = {'clear choice of split': 1000, 'clustering': 4000, 'split': 2800,
            'depth label': 7000, 'heuristic AIC': 120, 'heuristic AICc': 120,
            'heuristic BIC': 100, 'heuristic CU': 250,
            'heuristic of the caller': 150, 'k clustering': 1500,
            'k: root only': 250, 'k: stopped before exceeding': 300,
            'late window': 1000, 'later split is best': 90,
            'no finite value': 90, 'plain interface': 800, 'refused': 1000,
            'split search': 600, 'split to the leaves': 1200, 'window': 1600}
RULE = ('Trees (given, learned or empty) cluster instances, with and without '
        'fitting them, by every heuristic and by functions of the caller. A '
        'recording subclass observes which leaf each instance is sorted to; '
        'the labels are checked against the paths to those leaves, each '
        'split against all alternative splits, and the cut functions '
        'against the complete sequence. Non-trivial: a distinct sequence of '
        'clusterings.')
ASSUMPTIONS = ['instances reach the tree through its public ifit or '
               'categorize, where a subclass records them',
               'without fitting, the tree has learned something',
               'runs with the same random seed are compared with each other']

EPS = 1e-9


class Log(object):
    calls = []


def recorder(cls):
    class Recorder(cls):
        def ifit(self, instance):
            leaf = cls.ifit(self, instance)
            Log.calls.append(('fit', copy.deepcopy(instance), leaf))
            return leaf

        def categorize(self, instance):
            leaf = cls.categorize(self, instance)
            Log.calls.append(('cat', copy.deepcopy(instance), leaf))
            return leaf
    return Recorder


_CLS = {}


def make(kind):
    from concept_formation.cobweb import CobwebTree
    from concept_formation.cobweb3 import Cobweb3Tree
    from concept_formation.trestle import TrestleTree
    if not _CLS:
        for c in (CobwebTree, Cobweb3Tree, TrestleTree):
            _CLS[c.__name__] = recorder(c)
    return {'cobweb': lambda: _CLS['CobwebTree'](),
            'cobweb3': lambda: _CLS['Cobweb3Tree'](),
            'cobweb3-off': lambda: _CLS['Cobweb3Tree'](scaling=None),
            'trestle': lambda: _CLS['TrestleTree']()}[kind]()


def setup(rng, ctx):
    kind = rng.choice(['cobweb', 'cobweb', 'cobweb3', 'cobweb3',
                       'cobweb3-off', 'trestle'])
    if kind == 'trestle' and rng.random() < 0.6:
        spec = gen.StructSpec(rng, max_objects=2)
        stream = spec.stream(rng.randint(1, 6))
        extra = [spec.instance() for _ in range(2)]
    elif kind == 'cobweb3' and rng.random() < 0.08:
        spec = gen.deep_spec(rng)
        stream = gen.deep_stream(rng)
        extra = [spec.instance() for _ in range(3)]
        ctx.ev('deep tree')
    else:
        spec = gen.FlatSpec(rng, tuples=kind != 'trestle', tame=True,
                            max_attrs=4)
        stream = spec.stream(gen.length(rng, big=22))
        extra = [x for x in (spec.query() for _ in range(3))]
    mod = rng.random() < 0.5
    trained = list(stream)
    if mod and rng.random() < 0.4:
        trained = []
    elif mod and rng.random() < 0.5:
        trained = stream[:len(stream) // 2]
    tree = make(kind)
    for x in trained:
        tree.ifit(x)
    some = [rng.choice(stream + extra) for _ in range(rng.randint(1, 12))]
    if rng.random() < 0.3:
        some = list(stream)
    ctx.note = (kind, trained, 'cluster', some, 'mod', mod)
    return tree, some, mod


def custom(rng):
    k = rng.randrange(3)
    if k == 0:
        return lambda c, l: float(len(set(c)))
    if k == 1:
        return lambda c, l: -float(len(set(c)))
    # prefers even partitions; distinct values are likely
    return lambda c, l: sum(c.count(x) ** 2 for x in set(c)) / len(c)


def heuristic(rng, ctx):
    from concept_formation import cluster as C
    r = rng.random()
    if r < 0.25:
        ctx.ev('heuristic of the caller')
        f = custom(rng)
        return f, f
    name = rng.choice(['CU', 'CU', 'AIC', 'BIC', 'AICc'])
    f = getattr(C, name)
    ctx.ev('heuristic ' + name)
    if r < 0.6:
        return f, f
    return rng.choice([name, name.lower(), name.upper()]), f


def path(n):
    out = [n]
    while out[-1].parent is not None:
        out.append(out[-1].parent)
        if len(out) > 5000:
            raise RuntimeError('endless ancestry')
    return out[::-1]


def name(n):
    return 'Concept' + str(n.concept_id)


def partition(labels):
    first = {}
    return [first.setdefault(x, len(first)) for x in labels]


def sequence(rng, ctx, tree, some, mod, h, f, seed, maxsplit=100000):
    """Runs the splitting to the end, checking every step.

    Returns ([clusterings], [values], [labels])."""
    from concept_formation.cluster import cluster_iter
    Log.calls = []
    random.seed(seed)
    it = cluster_iter(tree, some, heuristic=h, minsplit=1, maxsplit=maxsplit,
                      mod=mod, labels=False)
    paths = None
    prev = None
    out, vals = [], []
    alts = None
    for clus, value in it:
        if paths is None:
            ctx.check([c[0] for c in Log.calls] == ['fit' if mod else 'cat']
                      * len(some), 'the instances were sorted by', [
                          c[0] for c in Log.calls], 'mod', mod)
            ctx.check(all(c[1] == x for c, x in zip(Log.calls, some)),
                      'other instances were sorted than given')
            leaves = [c[2] for c in Log.calls]
            paths = [path(l) for l in leaves]
            root = paths[0][0]
            ctx.check(all(p[0] is root for p in paths), 'leaves belong to '
                      'different trees')
            ctx.check(not any(l.children for l in leaves), 'sorted to an '
                      'inner concept')
            kids = {id(n): list(n.children) for n in snap.walk(root)}
            ctx.check(root is not tree.root, 'the given tree itself is cut')
        ctx.check(len(clus) == len(some), 'a clustering has', len(clus),
                  'labels for', len(some), 'instances')
        pos = []
        for c, p in zip(clus, paths):
            w = [i for i, n in enumerate(p) if n is c]
            ctx.check(w, 'an instance is put in a cluster that does not '
                      'contain its leaf:', str(c), 'leaf', str(p[-1]))
            pos.append(w[0])
        # disjoint branches
        for i in range(len(some)):
            for j in range(i):
                if clus[i] is not clus[j]:
                    ctx.check(not any(n is clus[j] for n in
                                      paths[i][:pos[i]]), 'one cluster '
                              'contains another')
                    ctx.check(not any(n is clus[j] for n in
                                      paths[i][pos[i]:]), 'an instance is '
                              'in two clusters')
        if prev is None:
            ctx.check(all(k == min(1, len(p) - 1) for k, p in
                          zip(pos, paths)), 'the first clustering is not '
                      'the first level of the tree', pos)
        else:
            target = {id(c): c for c, d in zip(prev, clus) if c is not d}
            ctx.check(len(target) == 1, 'a split changed', len(target),
                      'clusters')
            t = next(iter(target))
            for i, (c, d) in enumerate(zip(prev, clus)):
                if id(c) == t:
                    ctx.check(c is not d and any(
                        x is d for x in kids[t]), 'an instance of the split '
                        'cluster is not in one of its parts')
            ctx.ev('split')
            # the split with the smallest heuristic value is made
            v = alts[t]
            best = min(alts.values())
            ctx.check(v <= best or close(v, best, EPS, EPS),
                      'split a cluster giving', v, 'when another split gives',
                      best)
            if len(alts) > 1 and sum(1 for a in alts.values() if
                                     a <= best + 1e-6) == 1:
                ctx.ev('clear choice of split')
        ctx.check(close(value, f(list(clus), leaves)), 'the value of a '
                  'clustering is', value, 'not', f(list(clus), leaves))
        alts = {}
        for c in clus:
            if id(c) in alts or not kids[id(c)]:
                continue
            alt = [x if x is not c else p[k + 1] for x, p, k in
                   zip(clus, paths, pos)]
            alts[id(c)] = f(alt, leaves)
        prev = list(clus)
        out.append(prev)
        vals.append(value)
        ctx.ev('clustering')
        if len(out) >= maxsplit:
            break
    else:
        ctx.check(not alts, 'stopped splitting while a cluster still has '
                  'parts')
        ctx.ev('split to the leaves')
    return out, vals


def same_clusters(ctx, mod, labels, nodes, what):
    """Labels (of another run) denote the clusters in nodes."""
    if mod:
        ctx.check(partition(labels) == partition([id(n) for n in nodes]),
                  what, 'gives', labels, 'should be', [name(n) for n in
                                                       nodes])
    else:
        ctx.check(list(labels) == [name(n) for n in nodes], what, 'gives',
                  labels, 'should be', [name(n) for n in nodes])


def cuts(rng, ctx):
    from concept_formation import cluster as C
    tree, some, mod = setup(rng, ctx)
    h, f = heuristic(rng, ctx)
    seed = rng.getrandbits(32)
    before = snap.snapshot(tree)
    out, vals = sequence(rng, ctx, tree, some, mod, h, f, seed)
    n = len(out)
    ctx.seen(repr([partition([id(x) for x in c]) for c in out]) + repr(vals))
    ctx.sample('%d instances, %d clusterings of %r clusters' % (
        len(some), n, [len(set(map(id, c))) for c in out]))
    ids = {name(x) for x in snap.walk(tree.root)}

    # clusterings between two numbers of splits
    for _ in range(2):
        lo = rng.randint(1, n + 1)
        hi = rng.randint(lo, n + 2)
        random.seed(seed)
        got = list(C.cluster_iter(tree, some, h, lo, hi, mod))
        ctx.check(len(got) == max(0, min(hi, n) - lo + 1), 'splits', lo, 'to',
                  hi, 'of', n, 'gave', len(got), 'clusterings')
        for (lab, v), nodes, w in zip(got, out[lo - 1:], vals[lo - 1:]):
            same_clusters(ctx, mod, lab, nodes, 'a clustering')
            ctx.check(close(v, w), 'its value is', v, 'not', w)
            if not mod:
                ctx.check(set(lab) <= ids, 'labels', lab, 'are not concepts '
                          'of the tree')
            ctx.ev('window')
            if lo > 1:
                ctx.ev('late window')
    # the search for the best number of splits
    lo = rng.randint(1, n)
    hi = rng.randint(lo, n + 1)
    labels = rng.random() < 0.6
    random.seed(seed)
    got = C.cluster_split_search(tree, some, h, lo, hi, mod, labels)
    ctx.check(len(got) == len(some), 'split search labels', len(got),
              'instances')
    window = list(zip(out, vals))[lo - 1:hi]
    best = min(v for _, v in window)
    if best == float('inf'):
        # no clustering has a finite value: everything together
        ctx.check(all(g == (name(tree.root) if labels else g) for g in got)
                  and len(set(got)) == 1, 'split search without finite '
                  'values gives', got)
        ctx.ev('no finite value')
    else:
        cand = [c for c, v in window if close(v, best, EPS, EPS)]
        lab = got if labels else [name(g) for g in got]
        ctx.check(all(isinstance(g, str) == labels for g in got),
                  'split search returns the wrong kind of labels')
        ok = any((partition(lab) == partition([id(x) for x in c])) if mod
                 else (list(lab) == [name(x) for x in c]) for c in cand)
        ctx.check(ok, 'split search gives', lab, 'but the smallest value is '
                  'that of', [[name(x) for x in c] for c in cand])
        ctx.ev('split search')
        if len(window) > 1 and out.index(cand[0]) != lo - 1:
            ctx.ev('later split is best')
    d = snap.diff(before, snap.snapshot(tree))
    ctx.check(d is None, 'clustering changed the tree:', d)


def k(rng, ctx):
    from concept_formation import cluster as C
    tree, some, mod = setup(rng, ctx)
    seed = rng.getrandbits(32)
    out, vals = sequence(rng, ctx, tree, some, mod, C.CU, C.CU, seed)
    for kk in {2, rng.randint(2, 6), rng.randint(2, 12), 1000}:
        random.seed(seed)
        got = C.k_cluster(tree, some, kk, mod)
        ctx.check(len(got) == len(some), 'k-clustering labels', len(got))
        ctx.check(len(set(got)) <= kk, 'asked for at most', kk, 'clusters, '
                  'got', got)
        fit = []
        for c in out:
            if len(set(map(id, c))) > kk:
                break
            fit = c
        if not fit:
            ctx.check(set(got) == {name(tree.root)}, 'no clustering has so '
                      'few clusters, but got', got)
            ctx.ev('k: root only')
        else:
            same_clusters(ctx, mod, got, fit, '%d-clustering' % kk)
            ctx.ev('k clustering')
            if fit is not out[-1]:
                ctx.ev('k: stopped before exceeding')
    # the plain interface
    m = rng.randint(1, len(out))
    lo = rng.randint(1, m)
    random.seed(seed)
    got = list(C.cluster(tree, some, lo, m, mod))
    ctx.check(len(got) == m - lo + 1, 'cluster() gives', len(got),
              'clusterings for splits', lo, 'to', m)
    for g, c in zip(got, out[lo - 1:]):
        same_clusters(ctx, mod, g, c, 'cluster()')
        ctx.ev('plain interface')
    random.seed(seed)
    got = list(C.cluster(tree, some, mod=mod))
    ctx.check(len(got) == 1, 'cluster() gives', len(got), 'by default')
    same_clusters(ctx, mod, got[0], out[0], 'cluster() by default')


def depth(rng, ctx):
    from concept_formation.cluster import depth_labels
    tree, some, mod = setup(rng, ctx)
    before = snap.snapshot(tree)
    Log.calls = []
    got = depth_labels(tree, some, mod)
    ctx.check([c[0] for c in Log.calls] == ['fit' if mod else 'cat'] *
              len(some) and all(c[1] == x for c, x in zip(Log.calls, some)),
              'depth labels sorted other instances')
    if not mod:
        d = snap.diff(before, snap.snapshot(tree))
        ctx.check(d is None, 'depth labels changed the tree:', d)
    ps = [[name(n) for n in path(c[2])] for c in Log.calls]
    top = max(len(p) for p in ps)
    ctx.check(len(got) == top, 'depth labels for', len(got), 'levels, the '
              'deepest leaf is at level', top)
    for lev, row in enumerate(got):
        ctx.check(len(row) == len(some), 'a row has', len(row), 'labels')
        for lab, p in zip(row, ps):
            ctx.check(lab == p[min(lev, len(p) - 1)], 'at depth', lev,
                      'label', lab, 'on the path', p)
            ctx.ev('depth label')
    ctx.check(set(got[0]) == {name(tree.root)}, 'the first row is not the '
              'root')
    ctx.seen(repr([partition(r) for r in got]))


def refused(rng, ctx):
    from concept_formation import cluster as C
    tree, some, mod = setup(rng, ctx)
    before = snap.snapshot(tree)
    bad = [lambda: list(C.cluster(tree, some, 0, 2, mod)),
           lambda: list(C.cluster(tree, some, 3, 2, mod)),
           lambda: list(C.cluster(tree, [], 1, 2, mod)),
           lambda: C.cluster_split_search(tree, some, 'nonsense', 1, 2, mod),
           lambda: C.cluster_split_search(tree, some, 'CU', -1, 2, mod),
           lambda: C.cluster_split_search(tree, some, 'CU', 5, 4, mod),
           lambda: C.k_cluster(tree, some, 1, mod),
           lambda: C.k_cluster(tree, some, 0, mod),
           lambda: C.k_cluster(tree, [], 2, mod)]
    for i, b in enumerate(bad):
        try:
            r = b()
        except ValueError:
            ctx.ev('refused')
            continue
        ctx.fail('invalid request', i, 'was answered with', r)
    d = snap.diff(before, snap.snapshot(tree))
    ctx.check(d is None, 'a refused request changed the tree:', d)


SCENARIOS = [('cuts', cuts, 6), ('k', k, 4), ('depth', depth, 2),
             ('refused', refused, 1)]
