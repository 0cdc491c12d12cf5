"""C08: concept probabilities are proper distributions matching the data."""
import math

from harness import gen, snap
from harness.core import close
from harness.ledger import Ledger
from harness.ref import Model

PID = 'C08'
CASES = {'quick': 16500, 'thorough': 211200}
REQUIRED = {'nominal probability': 50000, 'missing probability': 50000,
            'unseen probability': 50000, 'sum': 50000,
            'numeric score': 30000, 'scaled numeric score': 10000,
            'unscaled numeric score': 5000, 'mixed attribute': 300,
            'structured node': 1000, 'standalone concept': 100}
RULE = ('After a generated stream every attribute of every concept is asked '
        'for all its values, an unseen one and missing; the answers are '
        'compared with relative frequencies and the noisy Gaussian computed '
        'from the instances the ledger saw going into the leaves below. '
        'Non-trivial: a distinct (concept table, attribute).')
ASSUMPTIONS = ['finite numbers below 1e7']
SQ2PI = math.sqrt(2 * math.pi)


def gauss(share, x, mean, sd, scale):
    s = math.sqrt((sd / scale) ** 2 + 1 / (2 * math.pi))
    z = (x - mean) / scale
    return share / (SQ2PI * s) * math.exp(-z * z / (2 * s * s))


def eq(a, b):
    return close(a, b, 1e-6, 1e-9)


def node_ok(rng, ctx, node, agg, model, extra):
    n = agg.count
    for a in list(agg.attrs()) + extra:
        nom = agg.nom.get(a, {})
        num = agg.num.get(a, [])
        total = 0.0
        for v, c in nom.items():
            p = node.probability(a, v)
            ctx.check(close(p, c / n), 'P(%r=%r)' % (a, v), 'is', p,
                      'with', c, 'of', n, 'instances')
            ctx.check(0 <= p <= 1, 'probability', p, 'out of range')
            total += p
            ctx.ev('nominal probability')
        miss = (n - sum(nom.values()) - len(num)) / n
        p = node.probability(a, None)
        ctx.check(eq(p, miss) and -1e-12 <= p <= 1 + 1e-12,
                  'P(%r missing)' % (a,), 'is', p, 'should be', miss)
        ctx.ev('missing probability')
        p = node.probability(a, 'never-seen-value')
        ctx.check(p == 0, 'an unseen value of', a, 'has probability', p)
        ctx.ev('unseen probability')
        w = {}
        for v, x in node.get_weighted_values(a):
            ctx.check(-1e-12 <= x <= 1 + 1e-12, 'weight', x, 'of', v)
            k = v if v is None or v in nom else '#num'
            w[k] = w.get(k, 0.0) + x
        want = {v: c / n for v, c in nom.items()}
        if miss > 1e-12 or None in w:
            want[None] = miss
        if num:
            want['#num'] = len(num) / n
        ctx.check(set(w) == set(want) and all(eq(w[k], want[k]) for k in w),
                  'weighted values of', a, 'are', w, 'should be', want)
        ctx.check(eq(sum(w.values()), 1.0), 'weights of', a, 'sum to',
                  sum(w.values()))
        ctx.ev('sum')
        if a in agg.attrs():
            w2 = dict((v if v in nom else '#num', x) for v, x in
                      node.get_weighted_values(a, allow_none=False))
            want.pop(None, None)
            ctx.check(set(w2) == set(want) and all(eq(w2[k], want[k])
                                                   for k in w2),
                      'weighted values without missing of', a, 'are', w2,
                      'should be', want)
        if num and nom:
            ctx.ev('mixed attribute')
        if num:
            numeric(rng, ctx, node, a, num, n, model)
        elif model.numeric and nom:
            ctx.check(node.probability(a, 1.25) == 0,
                      'a number has positive probability for nominal', a)
        ctx.seen((snap.key(a), n, repr(sorted((snap.key(v), c) for v, c in
                                              nom.items())), len(num),
                  round(sum(num), 9)))


def numeric(rng, ctx, node, a, num, n, model):
    share = len(num) / n
    k, mean, m2 = snap.stats(num)
    sd = math.sqrt(m2 / (k - 1)) / snap.corr(k) if k > 1 else 0.0
    scale = model.scale_of(a)
    top = node.probability(a, mean)
    ctx.check(top <= share + 1e-9, 'score', top, 'exceeds the share', share)
    for x in [mean, rng.choice(num), mean + scale * rng.uniform(-3, 3),
              mean + scale * 30]:
        p = node.probability(a, x)
        want = gauss(share, x, mean, sd, scale)
        ctx.check(eq(p, want), 'the score of', a, x, 'is', p, 'should be',
                  want, '(mean %r sd %r scale %r share %r)'
                  % (mean, sd, scale, share))
        ctx.check(p <= top + 1e-9, 'the score of', a, 'is greater at', x,
                  'than at the mean', mean)
        ctx.ev('numeric score')
        ctx.ev('scaled numeric score' if model.scaling else
               'unscaled numeric score')


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(
        rng, kinds=gen.TREES + ['cobweb3-s2'], mixed=rng.random() < 0.3,
        big=40)
    ctx.note = (kind, stream)
    led = Ledger(ctx, tree, numeric=kind != 'cobweb')
    model = Model.for_tree(tree, kind)
    for inst in stream:
        led.fit(inst)
        model.learn_scales(inst)
    rows = led.aggregates()
    if len(rows) > 25:
        rows = rows[:5] + rng.sample(rows[5:], 20)
    others = [a for a in rows[0][1].attrs()]
    for node, agg in rows:
        extra = [a for a in others if a not in agg.attrs()] + ['no-attr']
        node_ok(rng, ctx, node, agg, model, extra)
    ctx.sample('%s: %d instances such as %r' % (kind, len(stream), stream[-1]))


def structured(rng, ctx):
    kind = rng.choice(['trestle', 'trestle-off', 'trestle-noinner'])
    tree = gen.make_tree(kind)
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(3, 12))
    ctx.note = (kind, stream)
    led = Ledger(ctx, tree, structured=True)
    model = Model.for_tree(tree, kind)
    for inst in stream:
        led.before()
        leaf = tree.ifit(gen.handed(rng, inst))
        model.learn_scales(led.delta(leaf, inst))
        led.after(leaf, inst)
    for node, agg in led.aggregates():
        node_ok(rng, ctx, node, agg, model, ['no-attr'])
        ctx.ev('structured node')


def dummy(rng, ctx):
    from concept_formation.dummy import DummyTree
    tree = DummyTree()
    spec = gen.FlatSpec(rng, tuples=False)
    stream = spec.stream(gen.length(rng))
    ctx.note = ('dummy', stream)
    model = Model(True, tree.scaling, True)
    agg = snap.Agg()
    for inst in stream:
        tree.ifit(inst)
        agg.add(inst)
        model.learn_scales(inst)
    node_ok(rng, ctx, tree.root, agg, model, ['no-attr'])


def standalone(rng, ctx):
    """A concept that belongs to no tree: unscaled."""
    from concept_formation.cobweb import CobwebNode
    from concept_formation.cobweb3 import Cobweb3Node
    numeric_ = rng.random() < 0.8
    node = Cobweb3Node() if numeric_ else CobwebNode()
    spec = gen.FlatSpec(rng)
    stream = spec.stream(gen.length(rng, big=20))
    ctx.note = ('standalone', numeric_, stream)
    model = Model(numeric_, False, True)
    agg = snap.Agg() if numeric_ else snap.Agg(numeric=False)
    for inst in stream:
        node.increment_counts(inst)
        agg.add(inst)
    node_ok(rng, ctx, node, agg, model, ['no-attr'])
    ctx.ev('standalone concept')


def empty(rng, ctx):
    for kind in gen.TREES:
        tree = gen.make_tree(kind)
        for a in ['a', '_h', ('x', '?o1')]:
            ctx.check(tree.root.probability(a, None) == 1.0 and
                      tree.root.probability(a, 'v') == 0.0 and
                      tree.root.probability(a, 3) == 0.0,
                      'probabilities in an empty tree')


SCENARIOS = [('flat', flat, 8), ('structured', structured, 2),
             ('dummy', dummy, 1), ('standalone', standalone, 1)]
DIRECTED = [('empty', empty)]
