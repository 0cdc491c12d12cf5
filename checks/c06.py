"""C06: caller data is never modified by, or shared with, the library."""
import random

from harness import gen, ops, snap

PID = 'C06'
CASES = {'quick': 18750, 'thorough': 240000}
REQUIRED = {'fit': 3000, 'query': 1500, 'preprocess': 5000, 'batch': 300,
            'alias probe': 3000, 'result probe': 1500, 'mapping': 500,
            'lists': 500}
RULE = ('Every argument is deep-copied before the call and compared with '
        'types and list order afterwards; then the arguments (and returned '
        'completed instances) are changed in place and the tree snapshot and '
        'the other objects have to stay. Non-trivial: a distinct (operation, '
        'argument) pair.')
ASSUMPTIONS = ['values inside instances are immutable (hashable) except '
               'components and lists']


def order(x):
    """Deep copy that also records the order of attributes."""
    if isinstance(x, dict):
        return [(k, order(v)) for k, v in x.items()]
    if isinstance(x, list):
        return ['list'] + [order(v) for v in x]
    return x


def guarded(ctx, what, args, call):
    """Runs call() and checks that the argument objects are untouched."""
    before = [gen.deep(a) for a in args]
    olds = [order(a) for a in args]
    out = call()
    for a, b, o in zip(args, before, olds):
        ctx.check(gen.same(a, b), what, 'changed its argument from', b, 'to',
                  a)
        ctx.check(order(a) == o, what, 'reordered its argument', a)
    return out


def spoil(rng, x):
    """Changes a nested instance in place, everywhere."""
    if isinstance(x, list):
        for v in x:
            spoil(rng, v)
        x.append('spoilt')
        return
    if not isinstance(x, dict):
        return
    for k in list(x):
        if isinstance(x[k], (dict, list)):
            spoil(rng, x[k])
        elif rng.random() < 0.5:
            x[k] = 'spoilt'
        else:
            del x[k]
    x['spoilt'] = 1


def learn(rng, ctx, kind, tree, spec, stream, query):
    ctx.note = (kind, stream)
    for inst in stream:
        mine = gen.deep(inst)
        guarded(ctx, 'fitting', [mine], lambda: tree.ifit(mine))
        ctx.ev('fit')
        s = snap.snapshot(tree)
        spoil(rng, mine)
        d = snap.diff(s, snap.snapshot(tree))
        ctx.check(d is None, 'changing a fitted instance changed the tree:',
                  d)
        ctx.ev('alias probe')
        if rng.random() < 0.3:
            q = gen.deep(query())
            ctx.note = (kind, stream, 'query', q)
            guarded(ctx, 'categorizing', [q], lambda: tree.categorize(q))
            orig = gen.deep(q)
            fn = rng.choice(['most likely', 'sampled'])
            none = rng.random() < 0.5
            out = guarded(ctx, 'inferring', [q],
                          lambda: tree.infer_missing(q, fn, none))
            ctx.ev('query', 2)
            s = snap.snapshot(tree)
            ctx.seen(('infer', repr(order(q))))
            kept = gen.deep(out)
            spoil(rng, q)
            ctx.check(gen.same(out, kept), 'a completed instance is tied to '
                      'the query it came from:', out)
            q = gen.deep(orig)
            out = tree.infer_missing(q, fn, none)
            s = snap.snapshot(tree)
            spoil(rng, out)
            d = snap.diff(s, snap.snapshot(tree))
            ctx.check(d is None, 'changing a completed instance changed the '
                      'tree:', d)
            ctx.check(gen.same(q, orig), 'changing a completed instance '
                      'changed the query', orig)
            ctx.ev('result probe')


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, big=25)
    learn(rng, ctx, kind, tree, spec, stream, spec.query)


def structured(rng, ctx):
    tree = gen.make_tree('trestle')
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(2, 8))
    learn(rng, ctx, 'trestle', tree, spec, stream, spec.instance)


def batch(rng, ctx):
    from concept_formation import cluster as C
    from concept_formation import evaluation as E
    kind, tree, spec, stream = gen.flat_setup(rng, big=20, tame=True,
                                              hidden=False)
    ctx.note = (kind, stream)
    guarded(ctx, 'batch fitting', [stream], lambda: tree.fit(
        stream, iterations=rng.randint(1, 3),
        randomize_first=rng.random() < 0.7))
    some = stream[:rng.randint(1, 6)]
    mod = rng.random() < 0.5
    guarded(ctx, 'cluster', [some], lambda: list(C.cluster(
        tree, some, 1, rng.randint(1, 4), mod=mod)))
    guarded(ctx, 'k_cluster', [some], lambda: C.k_cluster(
        tree, some, rng.randint(2, 4), mod=mod))
    guarded(ctx, 'cluster_split_search', [some], lambda:
            C.cluster_split_search(tree, some, rng.choice(['CU', 'AIC',
                                                           'BIC']),
                                   1, 3, mod=mod))
    guarded(ctx, 'depth_labels', [some],
            lambda: C.depth_labels(tree, some, mod=mod))
    attr = rng.choice([a[0] for a in spec.attrs])
    guarded(ctx, 'incremental_evaluation', [stream], lambda:
            E.incremental_evaluation(tree, stream, attr, rng.randint(1, 8),
                                     rng.randint(1, 3),
                                     randomize_first=rng.random() < 0.7))
    inst = spec.instance()
    for a in inst:
        guarded(ctx, 'evaluation.probability', [inst],
                lambda: E.probability(tree, inst, a, inst[a]))
        if not snap.is_number(inst[a]):
            guarded(ctx, 'evaluation.error', [inst],
                    lambda: E.error(tree, inst, a, inst[a]))
    ctx.ev('batch')
    ctx.seen(('batch', repr(order(stream))))


def nested_lists(rng, depth=0):
    def value():
        r = rng.random()
        if r < 0.4 or depth > 2:
            return rng.choice(['a', 'b', 1, 2.5, True])
        if r < 0.7:
            return [rng.choice(['x', 'y', 3]) if rng.random() < 0.6 else
                    nested_lists(rng, depth + 1)
                    for _ in range(rng.randint(1, 4))]
        return nested_lists(rng, depth + 1)
    out = {'k%d%d' % (depth, i): value() for i in range(rng.randint(1, 3))}
    if depth and rng.random() < 0.5:
        # an object among the attributes of an element
        out['?n%d' % rng.randrange(10 ** 6)] = {'a': rng.choice(['x', 'y'])}
    return out


def preprocessors(rng, ctx):
    from concept_formation import preprocessor as P
    from concept_formation import structure_mapper as S
    spec = gen.StructSpec(rng)
    inst = spec.instance()
    extra = {'1': 'x', 'n': '2.5', '(rel ?a (foo b 2.5))': True}
    plain = dict(gen.deep(inst), **extra)
    lists = nested_lists(rng)
    ctx.note = (inst, lists)
    n = iter(range(10000))
    flatp = P.Pipeline(P.NameStandardizer(lambda: '?mine%d' % next(n)),
                       P.Flattener())
    flat = flatp.transform(inst)
    for name, p, x in [
            ('Tuplizer', P.Tuplizer(), {k: v for k, v in plain.items()
                                        if not isinstance(k, tuple)}),
            ('NameStandardizer', P.NameStandardizer(), inst),
            ('NameStandardizer', P.NameStandardizer(), lists),
            ('Flattener', P.Flattener(), inst),
            ('Flattener', P.Flattener(), lists),
            ('ListProcessor, then NameStandardizer', P.Pipeline(
                P.ListProcessor(), P.NameStandardizer()), lists),
            ('ObjectVariablizer', P.ObjectVariablizer(), lists),
            ('NumericToNominal', P.NumericToNominal(), lists),
            ('NominalToNumeric', P.NominalToNumeric('drop'), lists),
            ('NominalToNumeric', P.NominalToNumeric('zero'), lists),
            ('Sanitizer', P.Sanitizer(), lists),
            ('SubComponentProcessor', P.SubComponentProcessor(), flat),
            ('Pipeline', P.Pipeline(P.NameStandardizer(), P.Flattener(),
                                    P.SubComponentProcessor()), inst),
            ('ExtractListElements', P.ExtractListElements(), lists),
            ('ListProcessor', P.ListProcessor(), lists),
            ('ObjectVariablizer', P.ObjectVariablizer(), inst),
            ('ObjectVariablizer', P.ObjectVariablizer('scene', 'sub'), inst),
            ('NumericToNominal', P.NumericToNominal(), plain),
            ('NumericToNominal', P.NumericToNominal('num'), plain),
            ('NominalToNumeric', P.NominalToNumeric('drop'), plain),
            ('NominalToNumeric', P.NominalToNumeric('zero', 'n'), plain),
            ('Sanitizer', P.Sanitizer(), plain),
            ('Sanitizer', P.Sanitizer('cobweb'), plain),
            ('Sanitizer', P.Sanitizer('cobweb3'), lists)]:
        out = guarded(ctx, name + '.transform', [x], lambda: p.transform(x))
        # the pattern of instances in a batch
        guarded(ctx, name + '.batch_transform', [[x]],
                lambda: p.batch_transform([x]))
        ctx.ev('preprocess')
        out = p.transform(x)
        guarded(ctx, name + '.undo_transform', [out],
                lambda: p.undo_transform(out))
        ctx.ev('preprocess')
        ctx.seen((name, repr(order(x))))
    el = P.ExtractListElements().transform(lists)
    p = P.ListsToRelations()
    out = guarded(ctx, 'ListsToRelations.transform', [el],
                  lambda: p.transform(el))
    guarded(ctx, 'ListsToRelations.undo_transform', [out],
            lambda: p.undo_transform(out))
    ctx.ev('lists')
    # structure mapping
    tree = gen.make_tree('trestle')
    for x in spec.stream(3):
        tree.ifit(x)
    s = snap.snapshot(tree)
    sm = S.StructureMapper(tree.root)
    flat = P.SubComponentProcessor().transform(flat)
    out = guarded(ctx, 'StructureMapper.transform', [flat],
                  lambda: sm.transform(flat))
    guarded(ctx, 'StructureMapper.undo_transform', [out],
            lambda: sm.undo_transform(out))
    m = {v: '?z%d' % i for i, v in enumerate(sorted(gen.variables(flat)))}
    guarded(ctx, 'rename_flat', [flat, m], lambda: S.rename_flat(flat, m))
    d = snap.diff(s, snap.snapshot(tree))
    ctx.check(d is None, 'structure mapping changed the concept:', d)
    ctx.ev('mapping')
    ctx.sample(inst)


SCENARIOS = [('flat', flat, 3), ('structured', structured, 2),
             ('batch', batch, 2), ('preprocessors', preprocessors, 3)]
