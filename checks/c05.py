"""C05: queries never change what a tree knows or learns next."""
import random

from harness import gen, ops, snap

PID = 'C05'
CASES = {'quick': 7500, 'thorough': 96000}
REQUIRED = {'query': 12000, 'op cluster': 500, 'op infer_missing': 1000,
            'op visualise': 200, 'op copy': 500, 'op utilities': 500,
            'twin compared': 500, 'structured query': 500}
RULE = ('A case interleaves fits with random read-only operations. A full '
        'snapshot (identities, links, tables, scales) is compared around '
        'every operation, and a twin that gets only the fits (same random '
        'seeds) has to end up the same. Non-trivial: a distinct (tree, '
        'operation) pair.')
ASSUMPTIONS = ['the twin comparison covers flat instances; for structured '
               'ones (where fresh object names are drawn by queries too) the '
               'snapshots decide', 'web browser opening is stubbed']


def one(rng, ctx, tree, q, stream):
    before = snap.snapshot(tree)
    name = ops.query(rng, tree, q, stream)
    d = snap.diff(before, snap.snapshot(tree))
    ctx.check(d is None, 'the read-only operation', name,
              'changed the tree:', d)
    ctx.ev('query')
    ctx.ev('op ' + name)
    return name


def twins(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(
        rng, big=30, kinds=gen.TREES + ['cobweb3-s2'], tame=True)
    twin = gen.make_tree(kind)
    ctx.note = (kind, stream)
    every = rng.choice([1, 2, 5])
    name = None
    for i, inst in enumerate(stream):
        seed = rng.getrandbits(32)
        random.seed(seed)
        tree.ifit(inst)
        random.seed(seed)
        twin.ifit(inst)
        if i % every == 0:
            for _ in range(rng.randint(1, 2)):
                name = one(rng, ctx, tree, spec.query, stream)
                ctx.note = (kind, stream, 'after fit', i, name)
        ctx.check(snap.canon_tree(tree) == snap.canon_tree(twin),
                  'a tree that was queried learned otherwise than one that '
                  'was not; last operation', name, 'trees', str(tree.root),
                  str(twin.root))
        ctx.ev('twin compared')
    ctx.seen((snap.canon(tree.root), name))
    ctx.sample('%s: %d fits, %r' % (kind, len(stream), stream[-1]))


def structured(rng, ctx):
    kind = rng.choice(['trestle', 'trestle', 'trestle-off'])
    tree = gen.make_tree(kind)
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(2, 9))
    ctx.note = (kind, stream)
    flat = []
    for inst in stream:
        tree.ifit(inst)
        flat.append({'kind': 'k1', 'size': 'v1'})
        for _ in range(2):
            before = snap.snapshot(tree)
            name, f = rng.choice(ops.WEIGHTED)
            f(rng, tree, spec.instance,
              flat if name in ('utilities', 'copy') else stream)
            d = snap.diff(before, snap.snapshot(tree))
            ctx.check(d is None, 'the read-only operation', name,
                      'changed the tree:', d)
            ctx.ev('structured query')
            ctx.ev('op ' + name)
            ctx.seen((snap.canon(tree.root), name))


def dummy(rng, ctx):
    from concept_formation.dummy import DummyTree
    tree = DummyTree()
    spec = gen.FlatSpec(rng, tuples=False)
    stream = spec.stream(rng.randint(2, 12))
    ctx.note = ('dummy', stream)
    for inst in stream:
        tree.ifit(inst)
        before = snap.snapshot(tree)
        ops.categorize(rng, tree, spec.query, stream)
        ops.infer(rng, tree, spec.query, stream)
        ops.predict(rng, tree, spec.query, stream)
        ops.probability(rng, tree, spec.query, stream)
        d = snap.diff(before, snap.snapshot(tree))
        ctx.check(d is None, 'querying the baseline changed it:', d)
        ctx.ev('query', 4)


SCENARIOS = [('twins', twins, 5), ('structured', structured, 2),
             ('dummy', dummy, 1)]
