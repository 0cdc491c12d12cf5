"""C07: invalid instances are rejected atomically, valid ones accepted."""
import random
from fractions import Fraction

from harness import gen, snap

PID = 'C07'
CASES = {'quick': 15000, 'thorough': 192000}
REQUIRED = {'rejected': 15000, 'accepted fit': 10000, 'accepted query': 8000,
            'bad at the end': 2000, 'rejected by trestle': 1500,
            'odd value': 1000, 'hidden only': 500, 'empty': 500,
            'batch with invalid': 200}
RULE = ('A case interleaves valid instances (ordinary, empty, hidden-only, '
        'odd hashable values) with invalid ones (bad attribute or value at '
        'any position). Rejections have to raise and leave the full snapshot '
        'as it was; a twin that never sees the invalid ones has to stay '
        'equal. Non-trivial: a distinct (tree kind, invalid part, position).')
ASSUMPTIONS = ['infinite numbers, Decimal and complex values are not '
               'generated', 'Trestle may raise any exception type, and need '
               'not check queries for inference']


class Odd(object):
    """A hashable value without order."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Odd%d' % self.n


ODD = [Odd(1), Odd(2), len, int, ('a', ('b', 1)), frozenset([1, 2]), b'bytes',
       Ellipsis, Fraction(1, 3), 10 ** 30, -0.0, '', '#', '\n', '\u2603',
       (), 1e-300, True]

BAD_VALUES = [None, [1], [], {1, 2}, set(), bytearray(b'x'), ([1],),
              (1, {'a': 1}), {'deep': 'x'}, {}]
BAD_ATTRS = [1, 0, 2.5, None, '', (), frozenset(['a']), True, len, Odd(3)]


# relations of structured instances: every member has to be subscriptable
BAD_RELATIONS = [('rel', 5), ('rel', '?a', None), (2.5, '?a'),
                 ('rel', ('x', 7), 'b'), ('rel', ('x', ('y', len))),
                 ('rel', '?a', ''), ('rel', ()), ('rel', True)]


class Evil(object):
    def __hash__(self):
        raise TypeError('unhashable')

    def __repr__(self):
        return 'Evil'


def invalid(rng, base, trestle):
    """(instance, description)"""
    items = list(base.items())
    if rng.random() < 0.5:
        if trestle:
            v = rng.choice([None, [1], {1, 2}, ([1],), bytearray(b'x'),
                            Evil()])
        else:
            v = rng.choice(BAD_VALUES + [Evil()])
        bad = (rng.choice(['zz-bad', 'a', '_h', ('t', 'o')]), v)
        if bad[0] in base:
            items = [i for i in items if i[0] != bad[0]]
    else:
        bad = (rng.choice(BAD_ATTRS + BAD_RELATIONS if trestle else
                          BAD_ATTRS), rng.choice(['v', 1.5]))
        v = bad[0]
    if trestle and rng.random() < 0.4:
        bad = ('?obj', {'x': 'v', bad[0]: bad[1]})
    pos = rng.choice([0, len(items), len(items), rng.randint(0, len(items))])
    items.insert(pos, bad)
    return dict(items), repr(v), pos == len(items) - 1


def reject(rng, ctx, tree, base, trestle, kind, reuse=False):
    inst, what, last = invalid(rng, base, trestle)
    if reuse:
        # the very object that was accepted before, now spoiled
        base.clear()
        base.update(inst)
        inst = base
        ctx.ev('spoiled after use')
    before = snap.snapshot(tree)
    calls = [('fitting', tree.ifit), ('categorizing', tree.categorize)]
    if not trestle:
        calls.append(('inferring', tree.infer_missing))
    for name, f in calls:
        try:
            f(inst)
        except ValueError:
            pass
        except Exception as e:
            ctx.check(trestle, name, 'an invalid instance', inst, 'raised',
                      repr(e), 'rather than ValueError')
        else:
            ctx.fail(name, 'accepted the invalid instance', inst)
        d = snap.diff(before, snap.snapshot(tree))
        ctx.check(d is None, name, 'an invalid instance', inst,
                  'raised an error but changed the tree:', d)
        ctx.ev('rejected')
        if last:
            ctx.ev('bad at the end')
        if trestle:
            ctx.ev('rejected by trestle')
    ctx.seen((kind, what, last, len(inst)))


def valid(rng, ctx, spec, numeric):
    r = rng.random()
    if r < 0.12:
        ctx.ev('empty')
        return {}
    if r < 0.24:
        ctx.ev('hidden only')
        return {'_id': rng.choice(['h', 1.5]), '_z': 'q'}
    inst = spec.instance()
    if r < 0.45:
        v = rng.choice(ODD)
        a = rng.choice(['odd', 'odd2', ('odd', 'o')])
        if not numeric or not snap.is_number(v):
            inst[a] = v
            ctx.ev('odd value')
        else:
            inst['oddnum'] = v
            ctx.ev('odd value')
    return inst


def accept(ctx, tree, inst):
    n = tree.root.count
    try:
        tree.ifit(inst)
    except Exception as e:
        ctx.fail('fitting the valid instance', inst, 'raised', repr(e))
    ctx.check(tree.root.count == n + 1, 'a valid instance', inst,
              'was not learned')
    ctx.ev('accepted fit')


def answer(rng, ctx, tree, inst):
    try:
        got = tree.categorize(inst)
        out = tree.infer_missing(inst, rng.choice(['most likely', 'sampled']),
                                 rng.random() < 0.5)
    except Exception as e:
        ctx.fail('querying with the valid instance', inst, 'raised', repr(e))
    ctx.check(got is not None and out is not None, 'no answer to', inst)
    ctx.ev('accepted query', 2)


def mixed(rng, ctx):
    kind = rng.choice(gen.TREES)
    numeric = kind != 'cobweb'
    trestle = kind.startswith('trestle')
    tree, twin = gen.make_tree(kind), gen.make_tree(kind)
    spec = gen.FlatSpec(rng, tuples=not trestle)
    done = []
    for _ in range(gen.length(rng, big=25)):
        inst = valid(rng, ctx, spec, numeric)
        if trestle:
            inst = {k: v for k, v in inst.items() if not isinstance(k, tuple)}
        ctx.note = (kind, done, 'next', inst)
        if rng.random() < 0.6:
            reject(rng, ctx, tree, inst, trestle, kind)
        if rng.random() < 0.4:
            answer(rng, ctx, tree, inst)
        seed = rng.getrandbits(32)
        random.seed(seed)
        accept(ctx, tree, inst)
        random.seed(seed)
        twin.ifit(inst)
        done.append(dict(inst))
        if rng.random() < 0.1:
            reject(rng, ctx, tree, inst, trestle, kind, reuse=True)
    ctx.check(snap.canon_tree(tree) == snap.canon_tree(twin),
              'a tree that rejected instances learned otherwise than its '
              'twin:', str(tree.root), str(twin.root))
    ctx.sample('%s: %r' % (kind, done[-1]))


def structured(rng, ctx):
    tree = gen.make_tree('trestle')
    spec = gen.StructSpec(rng, max_objects=3)
    done = []
    for _ in range(rng.randint(2, 8)):
        inst = spec.instance()
        ctx.note = (done, 'next', inst)
        reject(rng, ctx, tree, inst, True, 'structured')
        if rng.random() < 0.5:
            answer(rng, ctx, tree, inst)
        accept(ctx, tree, inst)
        done.append(inst)


def batch(rng, ctx):
    """A batch with an invalid instance learns only what precedes it."""
    kind = rng.choice(['cobweb', 'cobweb3', 'cobweb3-off'])
    tree, twin = gen.make_tree(kind), gen.make_tree(kind)
    spec = gen.FlatSpec(rng)
    good = spec.stream(rng.randint(0, 8))
    bad, _, _ = invalid(rng, spec.instance(), False)
    ctx.note = (kind, good, bad)
    seed = rng.getrandbits(32)
    random.seed(seed)
    try:
        tree.fit(good + [bad] + spec.stream(3), randomize_first=False)
    except ValueError:
        pass
    else:
        ctx.fail('fitting a batch with an invalid instance did not raise')
    random.seed(seed)
    for i in good:
        twin.ifit(i)
    ctx.check(snap.canon_tree(tree) == snap.canon_tree(twin),
              'an invalid instance in a batch left traces:', str(tree.root))
    ctx.ev('batch with invalid')
    ctx.ev('rejected')


def dummy(rng, ctx):
    """The baseline tree."""
    from concept_formation.dummy import DummyTree
    tree = DummyTree()
    spec = gen.FlatSpec(rng, tuples=False)
    done = []
    for _ in range(rng.randint(1, 8)):
        inst = valid(rng, ctx, spec, True)
        inst = {k: v for k, v in inst.items() if not isinstance(k, tuple)}
        ctx.note = ('dummy', done, 'next', inst)
        bad, what, last = invalid(rng, inst, True)
        before = snap.snapshot(tree)
        for mapping in (False, True):
            try:
                tree.ifit(bad, mapping)
            except Exception:
                ctx.ev('rejected')
            else:
                ctx.fail('the baseline tree accepted', bad)
            d = snap.diff(before, snap.snapshot(tree))
            ctx.check(d is None, 'the baseline tree rejected', bad,
                      'but changed:', d)
        accept(ctx, tree, inst)
        answer(rng, ctx, tree, inst)
        done.append(inst)
    ctx.seen(('dummy', repr(done)))


SCENARIOS = [('dummy', dummy, 1), ('mixed', mixed, 6), ('structured', structured, 1),
             ('batch', batch, 1)]
