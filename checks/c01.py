"""C01: every concept's table is the exact summary of what lies beneath it."""
from harness import gen, snap
from harness.ledger import Ledger

PID = 'C01'
CASES = {'quick': 4875, 'thorough': 62400}
REQUIRED = {'fit': 20000, 'node checked': 200000, 'numeric attr': 20000,
            'hidden attr': 5000, 'clear': 100, 'structured fit': 2000}
RULE = ('A case is a generated stream fitted into one tree; after fits every '
        'concept is compared with the aggregate of the instances the ledger '
        'saw going into the leaves below it. Non-trivial: a distinct tree '
        '(canonical form) with at least three concepts.')
ASSUMPTIONS = ['values are finite numbers below 1e7 or hashable labels; '
               'equal-hash labels of different types are not mixed',
               'a leaf returned by a fit stays the leaf that holds the '
               'instance (C02)']


def verify(ctx, ledger):
    tree = ledger.tree
    rows = ledger.aggregates()
    root, agg = rows[0]
    ctx.check(float(root.count) == ledger.fits, 'the root counts',
              root.count, 'instances after', ledger.fits, 'fits')
    ctx.check(agg.count == ledger.fits,
              'only', agg.count, 'of', ledger.fits,
              'fitted instances are in leaves of the tree')
    for node, a in rows:
        d = snap.compare_table(node, a)
        if d:
            ctx.fail('a concept at depth %d with %d children is no summary of '
                     'its instances:' % (depth(node), len(node.children)), d)
        ctx.ev('node checked')
        ctx.ev('numeric attr', len(a.num))
        ctx.ev('hidden attr', sum(1 for x in a.attrs() if x[0] == '_'))
    if len(rows) > 2:
        ctx.seen(snap.canon(tree.root))


def depth(node):
    d = 0
    while node.parent is not None and d < 10000:
        node = node.parent
        d += 1
    return d


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, mixed=rng.random() < 0.2)
    ctx.note = (kind, stream)
    led = Ledger(ctx, tree, numeric=kind != 'cobweb')
    every = rng.choice([1, 1, 3])
    for i, inst in enumerate(stream):
        if rng.random() < 0.01:
            tree.clear()
            led.clear()
            ctx.ev('clear')
            ctx.check(not tree.root.count and not tree.root.children and
                      not tree.root.av_counts, 'a cleared tree is not empty')
        led.fit(inst)
        ctx.ev('fit')
        if i % every == 0 or i == len(stream) - 1:
            verify(ctx, led)
    ctx.sample('%s: %d instances such as %r' % (kind, len(stream), stream[-1]))


def refit(rng, ctx):
    """The same small pool again and again: many exact matches, clears."""
    kind, tree, spec, stream = gen.flat_setup(rng, hidden=True)
    pool = stream[:rng.randint(2, 6)]
    ctx.note = (kind, pool)
    led = Ledger(ctx, tree, numeric=kind != 'cobweb')
    for rnd in range(rng.randint(1, 3)):
        for i in range(rng.randint(5, 40)):
            led.fit(dict(rng.choice(pool)))
            ctx.ev('fit')
            if i % 4 == 0:
                verify(ctx, led)
        verify(ctx, led)
        if rng.random() < 0.6:
            tree.clear()
            led.clear()
            ctx.ev('clear')
            verify_empty(ctx, tree)


def verify_empty(ctx, tree):
    r = tree.root
    ctx.check(not r.count and not r.av_counts and not r.children and
              not (snap.scales(tree) or {}),
              'clearing left knowledge behind:', str(r))


def long_run(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng)
    stream = spec.stream(rng.randint(100, 220))
    ctx.note = (kind, stream)
    led = Ledger(ctx, tree, numeric=kind != 'cobweb')
    for i, inst in enumerate(stream):
        led.fit(inst)
        ctx.ev('fit')
        if i % 25 == 24:
            verify(ctx, led)
    verify(ctx, led)


def structured(rng, ctx):
    kind = rng.choice(['trestle', 'trestle', 'trestle-off',
                       'trestle-noinner'])
    tree = gen.make_tree(kind)
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(3, 16))
    ctx.note = (kind, stream)
    led = Ledger(ctx, tree, structured=True)
    for inst in stream:
        led.fit(inst)
        ctx.ev('structured fit')
        verify(ctx, led)


SCENARIOS = [('flat', flat, 6), ('refit', refit, 2), ('long', long_run, 1),
             ('structured', structured, 3)]
