"""C20: cluster heuristics and likelihoods equal their definitions."""
import math

from harness import gen, snap
from harness.core import close
from harness.ref import NOISE, NUM, Model, Node, join, real_table

PID = 'C20'
CASES = {'quick': 18750, 'thorough': 240000}
REQUIRED = {'AIC': 3000, 'AICc': 3000, 'AICc at the edge': 500, 'AICc finite': 900, 'BIC': 3000,
            'CU': 2500, 'CU of several clusters': 1200, 'built': 350,
            'likelihood': 15000, 'missing term': 30000, 'nominal term': 90000,
            'numeric term': 70000, 'outlier': 3, 'structured': 150}
RULE = ('For leaves, their ancestors and random cuts of learned trees the '
        'log-likelihood, AIC, AICc, BIC and CU values are compared with the '
        'reference computed from the tables by the definitions. Non-trivial: '
        'a distinct (tree, cut, leaves).')
ASSUMPTIONS = ['leaves given to a heuristic lie below their clusters; a leaf '
               'given several times counts several times; agreement to 1e-7']


def eq(a, b):
    return a == b or close(a, b, 1e-7, 1e-7)


def spread(d):
    n, m, q = d
    if n < 2:
        return 0.0
    return math.sqrt(max(0.0, q) / (n - 1)) / snap.corr(n)


def likelihood(ctx, node, leaf):
    """From the definition."""
    t, l = real_table(node), real_table(leaf)
    terms = []
    for a in set(t) | set(l):
        if a[0] == '_':
            continue
        lt, tt = l.get(a, {}), t.get(a, {})
        have = sum(c[0] if v == NUM else c for v, c in lt.items())
        if have < leaf.count:
            there = sum(c[0] if v == NUM else c for v, c in tt.items())
            p = (node.count - there) / node.count
            terms.append(math.log(p * (leaf.count - have) / leaf.count))
            ctx.ev('missing term')
        for v, c in lt.items():
            if v == NUM:
                x, y = tt[NUM], c
                var = spread(x) ** 2 + spread(y) ** 2 + 2 * NOISE
                terms.append(
                    math.log(x[0] / node.count) + math.log(y[0] / leaf.count)
                    - 0.5 * math.log(2 * math.pi * var)
                    - (x[1] - y[1]) ** 2 / (2 * var))
                ctx.ev('numeric term')
            else:
                terms.append(math.log(tt[v] / node.count) +
                             math.log(c / leaf.count))
                ctx.ev('nominal term')
    return math.fsum(terms)


def parameters(clusters):
    k = 0
    seen = []
    for c in clusters:
        if any(c is s for s in seen):
            continue
        seen.append(c)
        for a, d in real_table(c).items():
            if a[0] != '_':
                k += sum(2 if v == NUM else 1 for v in d)
    return k


def cut(rng, root, p):
    """A random antichain covering all leaves."""
    if not root.children or rng.random() < p:
        return [root]
    out = []
    for c in root.children:
        out.extend(cut(rng, c, p))
    return out


def below(n, leaf):
    while leaf is not None:
        if leaf is n:
            return True
        leaf = leaf.parent
    return False


def cu_reference(model, clusters, leaves):
    kids = []
    seen = []
    for c in clusters:
        if any(c is s for s in seen):
            continue
        seen.append(c)
        t, n = {}, 0.0
        for l in leaves:
            if below(c, l):
                t = join(t, real_table(l))
                n += l.count
        kids.append(Node(n, t))
    t, n = {}, 0.0
    for k in kids:
        t = join(t, k.table)
        n += k.count
    return -model.cu(Node(n, t, kids))


def judge(rng, ctx, tree, model):
    from concept_formation import cluster as C
    leaves_all = [n for n in snap.walk(tree.root) if not n.children]
    # likelihoods along whole paths
    for leaf in rng.sample(leaves_all, min(4, len(leaves_all))):
        n = leaf
        while n is not None:
            got, want = n.log_likelihood(leaf), likelihood(ctx, n, leaf)
            ctx.check(eq(got, want), 'log-likelihood of', str(leaf), 'under',
                      str(n), 'is', got, 'should be', want)
            ctx.check(isinstance(got, (int, float)), 'log-likelihood type')
            ctx.ev('likelihood')
            n = n.parent
    for _ in range(2):
        p = rng.choice([0.1, 0.4, 0.7])
        part = ([x for c in tree.root.children for x in cut(rng, c, p)] if
                rng.random() < 0.85 else []) or [tree.root]
        m = rng.choice([1, 2, len(leaves_all), 3 * len(leaves_all), 60])
        leaves = [rng.choice(leaves_all) for _ in range(max(1, m))]
        clusters = [next(c for c in part if below(c, l)) for l in leaves]
        k = parameters(clusters)
        if k + 4 < 400 and rng.random() < 0.4:
            # about as many instances as parameters
            m = max(1, k + rng.choice([0, 1, 2, 2, 3, 4]))
            leaves, clusters = leaves[:m], clusters[:m]
            k = parameters(clusters)
            m = max(1, k + rng.choice([0, 1, 2, 2, 3, 4]))
            while len(leaves) < m:
                j = rng.randrange(len(leaves))
                leaves.append(leaves[j])
                clusters.append(clusters[j])
            if len(leaves) - k in (1, 2):
                ctx.ev('AICc at the edge')
        n = len(leaves)
        ll = sum(likelihood(ctx, c, l) for c, l in zip(clusters, leaves))
        want = {'AIC': 2 * k - 2 * ll, 'BIC': k * math.log(n) - 2 * ll,
                'AICc': (float('inf') if n - k - 1 <= 0 else
                         2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1))}
        for name, w in want.items():
            got = getattr(C, name)(clusters, leaves)
            ctx.check(eq(got, w), name, 'of', len(set(map(id, clusters))),
                      'clusters with', k, 'parameters and', n, 'instances is',
                      got, 'should be', w)
            ctx.ev(name)
        if want['AICc'] != float('inf'):
            ctx.ev('AICc finite')
        if model is not None:
            got = C.CU(clusters, leaves)
            w = cu_reference(model, clusters, leaves)
            ctx.check(eq(got, w), 'CU of the clustering is', got, 'should be',
                      w, 'clusters', [str(c) for c in clusters])
            ctx.ev('CU')
            if len(set(map(id, clusters))) > 1:
                ctx.ev('CU of several clusters')
        ctx.seen((snap.canon(tree.root), tuple(
            c.concept_id - tree.root.concept_id for c in clusters)))


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, big=30, max_attrs=4,
                                              mixed=rng.random() < 0.3)
    ctx.note = (kind, stream)
    model = Model.for_tree(tree, kind)
    if kind != 'cobweb' and not tree.scaling:
        model.scaling = None
    for inst in stream:
        tree.ifit(inst)
        model.learn_scales(inst)
    judge(rng, ctx, tree, model)
    ctx.sample('%s: %r' % (kind, stream[-3:]))


def structured(rng, ctx):
    tree = gen.make_tree(rng.choice(['trestle', 'trestle-off']))
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(2, 8))
    ctx.note = stream
    for inst in stream:
        tree.ifit(inst)
    judge(rng, ctx, tree, None)
    ctx.ev('structured')


def built(rng, ctx):
    """Concepts put together by hand, larger than trees get."""
    from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node
    tree = Cobweb3Tree(scaling=None)
    spec = gen.FlatSpec(rng, mixed=True, max_attrs=3)
    ctx.note = 'built'
    insts = []
    for _ in range(rng.randint(2, 6)):
        child = Cobweb3Node()
        child.tree = tree
        child.parent = tree.root
        inst = spec.instance()
        for _ in range(rng.choice([1, 2, 40, 700])):
            child.increment_counts(inst)
        if rng.random() < 0.3:
            # a mixed leaf
            child.increment_counts(spec.instance())
        insts.append(inst)
        tree.root.children.append(child)
        tree.root.update_counts_from_node(child)
    ctx.note = insts
    judge(rng, ctx, tree, Model(True))
    ctx.ev('built')


def outlier(rng, ctx):
    """Likelihoods too small for a floating point number."""
    from concept_formation import cluster as C
    from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node
    for n in (200, 2000, 20000):
        tree = Cobweb3Tree()
        kids = []
        for v, times in ((0.0, n), (1e6, 1)):
            c = Cobweb3Node()
            c.tree = tree
            c.parent = tree.root
            for _ in range(times):
                c.increment_counts({'x': v})
            kids.append(c)
            tree.root.children.append(c)
            tree.root.update_counts_from_node(c)
        for k in kids:
            got, want = tree.root.log_likelihood(k), likelihood(
                ctx, tree.root, k)
            ctx.check(eq(got, want), 'log-likelihood with', n, 'values is',
                      got, 'should be', want)
        leaves = [kids[1]] * 30
        ll = 30 * likelihood(ctx, tree.root, kids[1])
        for f, want in ((C.AIC, 4 - 2 * ll), (C.BIC, 2 * math.log(30) -
                                              2 * ll),
                        (C.AICc, 4 - 2 * ll + 12 / 27)):
            got = f([tree.root] * 30, leaves)
            ctx.check(eq(got, want), f.__name__, 'of outliers is', got,
                      'should be', want)
        ctx.ev('outlier')


SCENARIOS = [('flat', flat, 6), ('structured', structured, 1),
             ('built', built, 2)]
DIRECTED = [('outlier', outlier)]
