"""C03: each fit makes only category-utility-maximising moves."""
from itertools import islice

from harness import gen, snap
from harness.ledger import Ledger
from harness.ref import Canon, Model, from_real

PID = 'C03'
CASES = {'quick': 6000, 'thorough': 76800}
REQUIRED = {'fit decided': 20000, 'op best': 10000, 'op new': 3000,
            'op merge': 1000, 'op split': 500, 'op fringe': 3000,
            'op match': 1000, 'structured fit decided': 800}
RULE = ('A case is a generated stream; before every fit the tree is copied '
        'into the reference model, which enumerates all outcomes legal up to '
        'numerical ties (1e-9); the real outcome (shape, leaf contents, '
        'returned leaf) has to be one of them. Non-trivial: a distinct '
        '(sequence of operations, tree shape) among decided fits.')
ASSUMPTIONS = ['numeric values below 1e7, where utilities are accurate to '
               '1e-9', 'for structured instances the renamed instance is read '
               'from the returned leaf', 'splits are scored without the '
               'instance, as documented']
EPS = 1e-9
LIMIT = 96


def shape(node):
    return '(%s)' % ''.join(sorted(shape(c) for c in node.children))


def step(ctx, tree, model, canon, inst, pre, leaf, what):
    """Decides one observed fit."""
    model.learn_scales(inst)
    pre.clear_cache()
    post = canon.real(tree.root, leaf)
    n = 0
    tried = []
    for node, ops in islice(model.outcomes(pre.node, inst, EPS), LIMIT):
        n += 1
        if canon.ref(node) == post:
            for o in ops:
                ctx.ev('op ' + o)
            ctx.ev(what + ' decided')
            if n > 1:
                ctx.ev('tie')
            ctx.seen((ops, shape(tree.root)))
            return True
        tried.append('/'.join(ops))
    if n >= LIMIT:
        ctx.ev('inconclusive: too many ties')
        return False
    ctx.fail('a fit did something else than the moves of highest utility;',
             'legal:', sorted(set(tried)), 'tree before:',
             describe(pre.node), 'instance:', inst, 'tree after:',
             str(tree.root)[:1500])


def describe(node, d=0):
    s = '  ' * d + '%r %r\n' % (node.count, node.table)
    return s + ''.join(describe(c, d + 1) for c in node.children)


class Pre(object):
    def __init__(self, tree):
        self.node = from_real(tree.root)

    def clear_cache(self):
        stack = [self.node]
        while stack:
            n = stack.pop()
            n._ecg = None
            stack.extend(n.children)


def drive(rng, ctx, kind, tree, stream):
    ctx.note = (kind, stream)
    model = Model.for_tree(tree, kind)
    for inst in stream:
        pre = Pre(tree)
        leaf = tree.ifit(gen.handed(rng, inst))
        step(ctx, tree, model, Canon(), inst, pre, leaf, 'fit')


KINDS = ['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3-off',
         'cobweb3-s1', 'cobweb3-s2', 'cobweb3-noinner', 'trestle']


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, kinds=KINDS, big=45,
                                              mixed=rng.random() < 0.1)
    drive(rng, ctx, kind, tree, stream)
    ctx.sample('%s: %d instances such as %r' % (kind, len(stream), stream[-1]))


def nominal(rng, ctx):
    """Small alphabets, many classes: rich in merges, splits and ties."""
    kind = rng.choice(['cobweb', 'cobweb3'])
    tree = gen.make_tree(kind)
    spec = gen.FlatSpec(rng, numeric=False, hidden=rng.random() < 0.3,
                        min_nominal=3)
    spec.noise = rng.choice([0.3, 0.6, 1.0])
    drive(rng, ctx, kind, tree, spec.stream(rng.randint(15, 60)))


def numbers(rng, ctx):
    kind = rng.choice(['cobweb3', 'cobweb3', 'cobweb3-off', 'cobweb3-s1',
                       'cobweb3-noinner'])
    tree = gen.make_tree(kind)
    spec = gen.FlatSpec(rng, nominal=False, hidden=rng.random() < 0.3,
                        tame=True)
    drive(rng, ctx, kind, tree, spec.stream(rng.randint(10, 50)))


def upheaval(rng, ctx):
    """Order effects: a misleading start forces merges and splits later."""
    kind = rng.choice(['cobweb', 'cobweb3'])
    tree = gen.make_tree(kind)
    spec = gen.FlatSpec(rng, numeric=kind == 'cobweb3', min_nominal=2,
                        tame=True, hidden=False)
    spec.noise = 0.15
    spec.classes = 4
    a = [spec.instance(0) for _ in range(rng.randint(4, 12))]
    b = [spec.instance() for _ in range(rng.randint(15, 40))]
    drive(rng, ctx, kind, tree, a + b)


def structured(rng, ctx):
    kind = rng.choice(['trestle', 'trestle', 'trestle-off',
                       'trestle-noinner'])
    tree = gen.make_tree(kind)
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(4, 16))
    ctx.note = (kind, stream)
    model = Model.for_tree(tree, kind)
    led = Ledger(ctx, tree, structured=True)
    for inst in stream:
        pre = Pre(tree)
        led.before()
        leaf = tree.ifit(gen.handed(rng, inst))
        d = led.delta(leaf, inst)
        led.after(leaf, inst)
        for a in d:
            vals = leaf.av_counts[a]
            if a[0] != '_' and any(snap.is_cv(c) for c in vals.values()):
                d[a] = vals[snap.cv_key()].unbiased_mean()
        step(ctx, tree, model, Canon(True), d, pre, leaf, 'structured fit')


SCENARIOS = [('flat', flat, 5), ('nominal', nominal, 4),
             ('numbers', numbers, 3), ('upheaval', upheaval, 3),
             ('structured', structured, 2)]
