"""C04: categorization returns the leaf reached by best-child descent."""
from itertools import permutations

from harness import gen, snap
from harness.ref import Model, from_real

PID = 'C04'
CASES = {'quick': 15000, 'thorough': 192000}
REQUIRED = {'query decided': 15000, 'query with one legal leaf': 8000,
            'depth 2 or more': 4000, 'size tie decided': 500,
            'structured query decided': 300, 'empty query': 500}
RULE = ('A case is a learned tree and a set of queries (full, partial, empty, '
        'with unseen values or attributes). The reference model recomputes '
        'the utility of inserting into each child from the definition and '
        'follows all descents legal up to numerical ties (1e-9); the returned '
        'leaf has to be the end of one. Size ties are built from siblings '
        'with equal content and different size. Non-trivial: a distinct '
        '(tree, query) whose legal leaf is unique among several leaves.')
ASSUMPTIONS = ['numeric values below 1e7', 'utilities within 1e-9 count as '
               'tied except in the constructed exact ties']
EPS = 1e-9


def learn(tree, model, stream):
    for inst in stream:
        tree.ifit(inst)
        model.learn_scales(inst)


def decide(rng, ctx, tree, model, query, ref=None):
    ref = ref or from_real(tree.root)
    got = tree.categorize(gen.handed(rng, query))
    legal = model.descents(ref, query, EPS)
    ctx.check(any(n.real is got for n in legal),
              'categorizing', query, 'gave', got, 'instead of',
              [str(n.real) for n in legal][:3], 'in tree', str(tree.root))
    ctx.ev('query decided')
    if not query:
        ctx.ev('empty query')
    d = 0
    n = got
    while n.parent is not None and d < 1000:
        n, d = n.parent, d + 1
    if d >= 2:
        ctx.ev('depth 2 or more')
    if len(legal) == 1 and tree.root.children:
        ctx.ev('query with one legal leaf')
        ctx.seen((snap.canon(tree.root), tuple(sorted(
            snap.key(k) + snap.key(v) for k, v in query.items()))))


def flat(rng, ctx):
    kinds = ['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3-off',
             'cobweb3-s1', 'cobweb3-noinner', 'trestle']
    kind, tree, spec, stream = gen.flat_setup(rng, kinds=kinds, big=50)
    model = Model.for_tree(tree, kind)
    ctx.note = (kind, stream)
    learn(tree, model, stream)
    ref = from_real(tree.root)
    for _ in range(8):
        q = spec.query() if rng.random() < 0.6 else dict(rng.choice(stream))
        ctx.note = (kind, stream, 'query', q)
        decide(rng, ctx, tree, model, q, ref)
    ctx.sample('%s of %d instances, query %r' % (kind, len(stream), q))


def interleaved(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(
        rng, kinds=['cobweb', 'cobweb3', 'cobweb3-s2', 'cobweb3-noinner'],
        big=25)
    model = Model.for_tree(tree, kind)
    for i, inst in enumerate(stream):
        ctx.note = (kind, stream[:i + 1])
        learn(tree, model, [inst])
        decide(rng, ctx, tree, model, spec.query())


def ties(rng, ctx):
    """Siblings of equal content and different size: the larger one wins.

    The total size plus one is a power of two, so that every way to compute
    the utilities is exact.
    """
    kind = rng.choice(['cobweb', 'cobweb3'])
    k = rng.randint(1, 4)
    inst = {'a%d' % i: 'v%d' % rng.randrange(3) for i in range(k)}
    if k == 3:
        inst['a3'] = 'v'
    inst_h = dict(inst)
    total = rng.choice([7, 15, 31])
    parts = rng.randint(2, 4)
    while True:
        cut = sorted(rng.sample(range(1, total), parts - 1))
        sizes = [b - a for a, b in zip([0] + cut, cut + [total])]
        top = max(sizes)
        if sizes.count(top) == 1:
            break
    rng.shuffle(sizes)
    ctx.note = (kind, inst, sizes)
    tree = gen.make_tree(kind)
    hidden = rng.random() < 0.3
    kids = []
    for s in sizes:
        c = None
        for j in range(s):
            if hidden:
                inst_h = dict(inst, _id='i%d' % j)
            tree.root.increment_counts(inst_h)
            if c is None:
                c = tree.root.create_new_child(inst_h)
            else:
                c.increment_counts(inst_h)
        kids.append(c)
    best = kids[sizes.index(top)]
    rest = sorted((s for s in sizes), reverse=True)
    for _ in range(4):
        got = tree.categorize(gen.handed(rng, dict(inst)))
        ctx.check(got is best, 'of equally good children of sizes', sizes,
                  'one of size', got.count, 'was chosen')
        ctx.ev('size tie decided')
    _, b1, b2 = tree.root.two_best_children(dict(inst))
    ctx.check(b1 is best and b2 is not None and b2.count == rest[1],
              'the two best of', sizes, 'are', b1.count, b2 and b2.count)


def structured(rng, ctx):
    """Any one-to-one matching of at most two objects may be chosen."""
    from concept_formation.preprocessor import (Flattener, NameStandardizer,
                                                Pipeline,
                                                SubComponentProcessor)
    kind = rng.choice(['trestle', 'trestle-off'])
    tree = gen.make_tree(kind)
    spec = gen.StructSpec(rng, max_objects=2, numeric=False)
    stream = spec.stream(rng.randint(3, 12))
    ctx.note = (kind, stream)
    for x in stream:
        tree.ifit(x)
    model = Model.for_tree(tree, kind)
    ref = from_real(tree.root)
    pool = sorted(gen.variables({a: 1 for a in tree.root.av_counts}))
    if len(pool) > 6:
        ctx.ev('structured query skipped')
        return
    for _ in range(4):
        q = spec.instance()
        ctx.note = (kind, stream, 'query', q)
        got = tree.categorize(gen.handed(rng, q))
        n = iter(range(1000))
        pipe = Pipeline(NameStandardizer(lambda: '?fresh%d' % next(n)),
                        Flattener(), SubComponentProcessor())
        flat_q = pipe.transform(q)
        mine = sorted(gen.variables(flat_q))
        if len(mine) > 2:
            ctx.ev('structured query skipped')
            continue
        ok = False
        for target in set(permutations(pool + mine, len(mine))):
            m = dict(zip(mine, target))
            if any(t in mine and t != v for v, t in m.items()):
                continue
            r = gen.rename_objects(flat_q, m)
            if any(l.real is got for l in model.descents(ref, r, EPS)):
                ok = True
                break
        ctx.check(ok, 'categorizing', q, 'ended in', got, 'which no matching '
                  'of its objects leads to; tree', str(tree.root))
        ctx.ev('structured query decided')


SCENARIOS = [('flat', flat, 6), ('interleaved', interleaved, 2),
             ('ties', ties, 1), ('structured', structured, 1)]
