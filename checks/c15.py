"""C15: structure mapping is a reversible, locally optimal renaming."""
from harness import gen, snap
from harness.ref import Model, add_instance, join, real_table

PID = 'C15'
CASES = {'quick': 120000, 'thorough': 1536000}
REQUIRED = {'mapped': 3000, 'undone': 3000, 'neighbour': 5000,
            'object matched': 3000, 'object kept apart': 500,
            'single object optimal': 600, 'identical matched': 200,
            'initial mapping': 300, 'concept table mapped': 200,
            'collision refused': 50, 'learned concept': 500,
            'many objects': 200}
RULE = ('Random concepts over objects (built directly or learned) are '
        'matched with random instances over other objects; the renaming is '
        'checked against an independent renamer, all neighbours of the '
        'chosen correspondence are evaluated with the reference definition '
        'of expected correct guesses. Non-trivial: a distinct (concept, '
        'instance, correspondence).')
ASSUMPTIONS = ['an improvable result is only reported if no neighbour has '
               'equal value (local search may end on a plateau)']
EPS = 1e-9


def ren(attr, m):
    if attr in m:
        return m[attr]
    if isinstance(attr, tuple):
        return tuple(ren(e, m) for e in attr)
    return attr


def rename(target, m):
    return {ren(a, m): v for a, v in target.items()}


def value(model, base, count, target, m, is_table, add):
    """Expected correct guesses after adding the renamed target."""
    r = rename(target, m)
    if is_table:
        return model.ecg_of(count + add, join(base, r))
    return model.ecg_of(count + 1, add_instance(base, r, True))


def neighbours(mapping, inames, cnames):
    """Swapping two counterparts; giving an unused counterpart."""
    used = set(mapping.values())
    free = [c for c in cnames if c not in used]
    names = sorted(mapping)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if mapping[a] == a and mapping[b] == b:
                continue
            m = dict(mapping)
            m[a] = a if mapping[b] == b else mapping[b]
            m[b] = b if mapping[a] == a else mapping[a]
            yield m
        for c in free:
            m = dict(mapping)
            m[a] = c
            yield m


def scalar(rng, a, t):
    if a == 'num':
        return rng.choice([t, t + 0.5, rng.gauss(t, 1)])
    return 'v%d' % (t if rng.random() < 0.7 else rng.randrange(3))


def flat_instance(rng, names, const=True):
    """A flat relational instance over the given object names."""
    inst = {}
    for i, n in enumerate(names):
        t = i % 3 if rng.random() < 0.8 else rng.randrange(3)
        for a in ['color', 'size', 'num']:
            if rng.random() < 0.6:
                inst[(a, n)] = scalar(rng, a, t)
        if rng.random() < 0.2:
            inst[('_', '_id', n)] = 'u%d' % rng.randrange(100)
        if rng.random() < 0.2:
            inst[('color', ('part', n))] = scalar(rng, 'color', t)
        if rng.random() < 0.1:
            inst[n] = 'plain%d' % rng.randrange(2)
        if not gen.variables(inst) & {n}:
            inst[('color', n)] = 'v%d' % t
    for _ in range(rng.randint(0, 2 * len(names))):
        a, b = rng.choice(names), rng.choice(names)
        k = rng.random()
        if k < 0.5:
            inst[('on', a, b)] = True
        elif k < 0.7:
            inst[('has-component', a, b)] = True
        elif k < 0.8:
            inst[('lt', ('size', a), ('size', b))] = rng.choice([True, 'y'])
        elif k < 0.9:
            inst[('near', a, 'const')] = 'yes'
        else:
            inst[('because', ('on', a, b), ('on', b, a))] = True
    if const:
        if rng.random() < 0.5:
            inst['kind'] = 'k%d' % rng.randrange(2)
        if rng.random() < 0.3:
            inst[('light', 'scene')] = 'l%d' % rng.randrange(2)
        if rng.random() < 0.2:
            inst['_hidden'] = 'x'
    return inst


def check(rng, ctx, base, target, model, initial=None, is_table=False,
          add=1):
    from concept_formation.structure_mapper import StructureMapper
    m = StructureMapper(base)
    before = (float(base.count), snap.table(base))
    given = snap.key(tuple(target)), repr(target)
    if initial is None:
        out = m.transform(target)
    else:
        out = m.transform(target, initial)
    mapping = m.get_mapping()
    ctx.ev('mapped')
    ctx.check(before == (float(base.count), snap.table(base)),
              'mapping changed the concept')
    ctx.check(given == (snap.key(tuple(target)), repr(target)),
              'mapping changed its input')
    inames = gen.variables({a: 0 for a in target})
    cnames = gen.variables({a: 0 for a in base.av_counts})
    for o, c in mapping.items():
        ctx.check(o in inames, 'something else than an object is mapped:', o)
        ctx.check(c == o or c in cnames, 'object', o, 'is renamed to', c,
                  'which is neither its name nor an object of the concept')
        ctx.ev('object matched' if c != o else 'object kept apart')
    ctx.check(len(set(mapping.values())) == len(mapping),
              'two objects are mapped to one:', mapping)
    want = rename(target, mapping)
    ctx.check(len(want) == len(target), 'the mapping merges attributes',
              mapping)
    ctx.check(gen.same(out, want) if not is_table else out == want,
              'the transformed instance is', out, 'should be', want)
    back = m.undo_transform(out)
    ctx.check(gen.same(back, target) if not is_table else back == target,
              'undoing gives', back, 'instead of', target)
    ctx.ev('undone')

    # local optimality
    full = {o: mapping.get(o, o) for o in inames}
    table = real_table(base)
    t2 = target
    if is_table:
        class Fake(object):
            av_counts = target
        t2 = real_table(Fake)
    if inames and cnames:
        cur = value(model, table, base.count, t2, full, is_table, add)
        best, tie = None, False
        pool = full if initial is None else dict(mapping)
        for n in neighbours(pool, inames, cnames):
            v = value(model, table, base.count, t2, n, is_table, add)
            ctx.ev('neighbour')
            if abs(v - cur) <= EPS:
                tie = True
            elif v > cur and (best is None or v > best[0]):
                best = (v, n)
        # a plateau may also have been entered by matching an object that
        # was kept apart, which has no step back
        for o in pool:
            if best and not tie and pool[o] != o:
                n = dict(pool)
                n[o] = o
                tie = abs(value(model, table, base.count, t2, n, is_table,
                                add) - cur) <= EPS
        if best and not tie:
            ctx.fail('the correspondence', full, 'of value', cur,
                     'is improved to', best[0], 'by', best[1])
        if initial is not None:
            i = dict(initial)
            i = {a: i[a] for a in i if a in inames and i[a] in cnames}
            v = value(model, table, base.count, t2, i, is_table, add)
            ctx.check(cur >= v - EPS, 'refining the initial mapping', i,
                      'of value', v, 'gave', full, 'of value', cur)
            ctx.ev('initial mapping')
        elif len(inames) == 1:
            o = next(iter(inames))
            top = max(value(model, table, base.count, t2, {o: c}, is_table,
                            add) for c in list(cnames) + [o])
            ctx.check(cur >= top - EPS, 'a single object is mapped to',
                      full, 'of value', cur, 'the best is', top)
            ctx.ev('single object optimal')
    ctx.seen((snap.table_key(snap.table(base)), snap.key(tuple(sorted(
        full.items())))))
    return mapping, out


def new_base(rng, ctx, many=False):
    """A concept built directly, with a tree that has scales."""
    from concept_formation.trestle import TrestleTree
    kind = rng.choice([0.5, 0.5, None, 1.0])
    tree = TrestleTree(scaling=kind)
    model = Model(True, kind, True)
    base = tree.root
    if many:
        names = ['?c%d' % i for i in range(rng.choice([3, 6, 7, 8]))]
    else:
        names = ['?c%d' % i for i in range(rng.choice([0, 1, 1, 2, 2, 3,
                                                       4]))]
    hist = []
    for _ in range(rng.randint(1, 5)):
        use = (rng.sample(names, rng.randint(1, len(names))) if names else
               [])
        inst = (flat_instance(rng, use) if use else
                {'kind': 'k1', ('light', 'scene'): 'l0'})
        tree.update_scales(inst)
        base.increment_counts(inst)
        model.learn_scales(inst)
        hist.append(inst)
    return tree, model, base, names, hist


def crowd(rng, ctx):
    """Many objects."""
    direct(rng, ctx, True)
    ctx.ev('many objects')


def direct(rng, ctx, many=False):
    tree, model, base, names, hist = new_base(rng, ctx, many)
    k = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if many:
        k = rng.choice([5, 6, 7, 8])
    mine = ['?m%d' % i for i in range(k)]
    target = (flat_instance(rng, mine) if mine else
              {'kind': 'k1', 'other': 2.5})
    ctx.note = ('concept of', hist, 'target', target, 'scaling',
                tree.scaling)
    init = None
    if k and names and rng.random() < 0.3:
        n = rng.randint(1, min(k, len(names)))
        init = dict(zip(rng.sample(mine, n), rng.sample(names, n)))
        if rng.random() < 0.2:
            init['?nobody'] = names[0]
            if names[0] in [v for a, v in init.items() if a != '?nobody']:
                del init['?nobody']
        init = rng.choice([init, frozenset(init.items()),
                           list(init.items())])
    check(rng, ctx, base, target, model, init)
    ctx.sample('concept over %r, instance %r' % (names, target))


def identical(rng, ctx):
    """One object on each side, equal up to the name."""
    from concept_formation.trestle import TrestleTree
    tree = TrestleTree()
    model = Model(True, 0.5, True)
    inst = flat_instance(rng, ['?c1'])
    inst[('shape', '?c1')] = 'round'
    for _ in range(rng.randint(1, 3)):
        tree.update_scales(inst)
        tree.root.increment_counts(inst)
        model.learn_scales(inst)
    target = rename(inst, {'?c1': '?mine'})
    ctx.note = (inst, target)
    mapping, out = check(rng, ctx, tree.root, target, model)
    ctx.check(mapping == {'?mine': '?c1'} and gen.same(out, inst),
              'an identical object was not matched:', mapping)
    ctx.ev('identical matched')


def tables(rng, ctx):
    """Mapping a concept's table onto a concept."""
    from concept_formation.cobweb3 import Cobweb3Node
    tree, model, base, names, hist = new_base(rng, ctx)
    other = Cobweb3Node()
    other.tree = tree
    mine = ['?m%d' % i for i in range(rng.randint(1, 3))]
    h2 = []
    for _ in range(rng.randint(1, 3)):
        x = flat_instance(rng, rng.sample(mine, rng.randint(1, len(mine))))
        x['kind'] = 'k%d' % rng.randrange(2)
        other.increment_counts(x)
        h2.append(x)
    ctx.note = ('concept of', hist, 'table of', h2)
    check(rng, ctx, base, other.av_counts, model, is_table=True,
          add=len(h2))
    ctx.ev('concept table mapped')


def learned(rng, ctx):
    """Concepts of learned trees and preprocessed instances."""
    from concept_formation.preprocessor import (NameStandardizer, Flattener,
                                                SubComponentProcessor,
                                                Pipeline)
    tree = gen.make_tree(rng.choice(['trestle', 'trestle-off',
                                     'trestle-noinner']))
    spec = gen.StructSpec(rng, max_objects=4)
    stream = spec.stream(rng.randint(1, 6))
    for x in stream:
        tree.ifit(x)
    q = spec.instance()
    ctx.note = (stream, q)
    c = [0]

    def fresh():
        c[0] += 1
        return '?mine%d' % c[0]
    p = Pipeline(NameStandardizer(fresh), Flattener(),
                 SubComponentProcessor())
    target = p.transform(q)
    model = Model.for_tree(tree, 'trestle')
    # the divisors in force, read off the tree's statistics
    for k, cv in tree.attr_scales.items():
        s = cv.unbiased_std() / tree.scaling if tree.scaling else 0
        model.scale[k] = s if s > 0 else 1.0
    if target:
        check(rng, ctx, rng.choice(snap.walk(tree.root)), target, model)
        ctx.ev('learned concept')


def collision(rng, ctx):
    from concept_formation.structure_mapper import StructureMapper
    tree, model, base, names, hist = new_base(rng, ctx)
    cn = sorted(gen.variables({a: 0 for a in base.av_counts}))
    if not cn:
        return
    target = flat_instance(rng, ['?m1', cn[0]])
    ctx.note = (hist, target)
    m = StructureMapper(base)
    try:
        m.undo_transform(target)
    except Exception:
        pass
    else:
        ctx.fail('undo before transform was accepted')
    try:
        m.transform(target)
    except Exception as e:
        ctx.check('collide' in str(e) or isinstance(e, ValueError) or
                  type(e) is Exception, 'collision gives', repr(e))
        ctx.ev('collision refused')
    else:
        ctx.fail('names shared with the concept were accepted: the renaming '
                 'cannot be told apart')


SCENARIOS = [('direct', direct, 24), ('identical', identical, 4),
             ('tables', tables, 4), ('learned', learned, 12),
             ('collision', collision, 4), ('crowd', crowd, 1)]
