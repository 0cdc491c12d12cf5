"""C24: the baseline tree is a single concept summarising everything."""
from checks.c08 import node_ok
from checks.c09 import FNS, allowed, explains, possible
from checks.c18 import complete, flatten, given_facts, isomorphic
from checks.c18 import stored_facts
from harness import gen, snap
from harness.ledger import Ledger
from harness.ref import Model

PID = 'C24'
CASES = {'quick': 50000, 'thorough': 640000}
REQUIRED = {'step': 12000, 'nested step': 4500, 'mapped step': 2000,
            'batch': 1200, 'cleared': 400, 'completed': 3000,
            'completed without missing': 400, 'predicted': 7000,
            'nominal probability': 30000, 'numeric score': 20000,
            'objects lined up': 150, 'single concept': 18000}
RULE = ('Streams of flat and structured instances are fitted to the baseline '
        'tree with and without structure mapping, one at a time and in '
        'batches, with queries and clears in between; after every step the '
        'one concept is compared with the independent aggregate of the '
        '(flattened or renamed) instances, and predictions, probabilities '
        'and completed instances with that distribution. Non-trivial: a '
        'distinct (table of the concept).')
ASSUMPTIONS = ['with structure mapping the stored form of an instance is '
               'read off the growth of the table and compared up to '
               'renaming of objects']


def single(ctx, tree, root):
    ctx.check(tree.root is root, 'the baseline tree replaced its concept')
    ctx.check(not root.children and root.parent is None,
              'the baseline tree has more than one concept')
    ctx.ev('single concept')


def flat(rng, ctx):
    from concept_formation.dummy import DummyTree
    tree = DummyTree()
    spec = gen.FlatSpec(rng, tuples=False, mixed=True)
    stream = spec.stream(gen.length(rng, big=40))
    mapping = rng.choice([None, False, True, 'mix'])
    ctx.note = ('flat', mapping, stream)
    model = Model(True, tree.scaling, True)
    agg = snap.Agg()
    root = tree.root
    i = 0
    while i < len(stream):
        if rng.random() < 0.04 and i:
            tree.clear()
            ctx.log('clear')
            root = tree.root
            model = Model(True, tree.scaling, True)
            agg = snap.Agg()
            ctx.ev('cleared')
        if rng.random() < 0.1:
            k = rng.randint(1, 4)
            part = stream[i:i + k]
            tree.fit(part, randomize_first=rng.random() < 0.5)
            ctx.ev('batch')
        else:
            part = stream[i:i + 1]
            m = rng.choice([True, False]) if mapping == 'mix' else mapping
            r = (tree.ifit(part[0]) if m is None else
                 tree.ifit(part[0], do_mapping=m) if rng.random() < 0.5 else
                 tree.ifit(part[0], m))
            ctx.check(r is root, 'fitting returned', r, 'not the one concept')
        for x in part:
            agg.add(x)
            model.learn_scales(x)
        i += len(part)
        single(ctx, tree, root)
        d = snap.compare_table(root, agg)
        ctx.check(d is None, 'after', i, 'instances', d)
        q = spec.query()
        ctx.check(tree.categorize(q) is root, 'categorizing did not return '
                  'the one concept')
        ctx.ev('step')
    ctx.seen(snap.canon(root))
    node_ok(rng, ctx, root, agg, model, ['no-attr'])
    for _ in range(3):
        q = spec.query()
        fn = rng.choice(FNS)
        none = rng.random() < 0.5
        out = tree.infer_missing(dict(q), fn, none)
        w = explains(root, q, out, fn, none)
        ctx.check(w is None, 'completing', q, 'gave', out, 'but', w)
        ctx.ev('completed')
        for a in list(root.av_counts)[:4]:
            p = tree.categorize(q).predict(a, fn, none)
            labels, cv = possible(root, a, fn, none)
            ctx.check(allowed(p, labels, cv, fn), 'predicted', p, 'for', a,
                      'from', snap.table(root)[a])
            ctx.ev('predicted')
    ctx.sample('flat %r -> %s' % (stream[:2], str(root)[:200]))


def nested(rng, ctx):
    """Structured instances are flattened, objects keep their names."""
    from concept_formation.dummy import DummyTree
    tree = DummyTree()
    root = tree.root
    spec = gen.StructSpec(rng)
    stream = spec.stream(gen.length(rng, big=15))
    ctx.note = ('nested', stream)
    agg = snap.Agg()
    model = Model(True, tree.scaling, True)
    for x in stream:
        given = gen.deep(x)
        r = tree.ifit(x) if rng.random() < 0.5 else tree.ifit(x, False)
        ctx.check(r is root, 'fitting returned', r)
        ctx.check(gen.same(x, given), 'fitting changed the instance')
        f = flatten(x)
        agg.add(f)
        model.learn_scales(f)
        single(ctx, tree, root)
        d = snap.compare_table(root, agg)
        ctx.check(d is None, 'after fitting', x, d)
        ctx.check(tree.categorize(spec.instance()) is root,
                  'categorizing did not return the one concept')
        ctx.ev('nested step')
    node_ok(rng, ctx, root, agg, model, ['no-attr'])
    ctx.seen(snap.canon(root))


def mapped(rng, ctx):
    """With structure mapping, instances are stored up to object names."""
    from concept_formation.dummy import DummyTree
    tree = DummyTree()
    root = tree.root
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(1, 8))
    ctx.note = ('mapped', stream)
    led = Ledger(ctx, tree, structured=True)
    model = Model(True, tree.scaling, True)
    for x in stream:
        given = gen.deep(x)
        led.before()
        r = tree.ifit(x, do_mapping=True)
        ctx.check(r is root, 'fitting returned', r)
        ctx.check(gen.same(x, given), 'fitting changed the instance')
        grown = led.delta(root, x)
        m = isomorphic(given_facts(x), stored_facts(grown))
        ctx.check(m is not None, 'the concept gained', grown, 'from', x)
        led.after(root, x)
        model.learn_scales(grown)
        single(ctx, tree, root)
        agg = led.leaves[id(root)][1]
        d = snap.compare_table(root, agg)
        ctx.check(d is None, 'after fitting', x, d)
        ctx.ev('mapped step')
        if rng.random() < 0.4:
            complete(rng, ctx, tree, spec.instance())
    node_ok(rng, ctx, root, agg, model, ['no-attr'])
    ctx.seen(snap.canon(root))


def shared_objects(rng, ctx):
    """Mapping lines objects up: identical instances, one set of names."""
    from concept_formation.dummy import DummyTree
    tree = DummyTree()
    k = rng.randint(1, 3)
    n = rng.randint(2, 6)
    for i in range(n):
        names = rng.sample(['?a', '?b', '?c', '?d', '?e'], k)
        x = {nm: {'color': 'c%d' % j, 'shape': 's%d' % j}
             for j, nm in enumerate(names)}
        ctx.note = x
        tree.ifit(x, do_mapping=True)
    tab = snap.table(tree.root)
    ctx.check(len(tab) == 2 * k, 'lined-up objects give', tab)
    for a, vals in tab.items():
        ctx.check(list(vals.values()) == [n], a, 'has the values', vals)
    ctx.ev('objects lined up')


SCENARIOS = [('flat', flat, 5), ('nested', nested, 3), ('mapped', mapped, 3),
             ('shared_objects', shared_objects, 1)]
