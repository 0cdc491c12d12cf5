"""C27: batch fitting is repeated incremental fitting of every instance."""
import random
from collections import Counter

from harness import gen, snap
from harness.gen import deep, same

PID = 'C27'
CASES = {'quick': 31250, 'thorough': 400000}
REQUIRED = {'batch': 800, 'ordered pass equal': 250}
RULE = ('Collections (lists, tuples, generators, with repeated and equal '
        'instances, empty) are batch fitted on subclasses of the trees that '
        'record every incremental fit; the log is checked pass by pass, and '
        'fitting the logged sequence one at a time under the same random '
        'choices is compared with the result. Non-trivial: a distinct '
        '(order of fits).')
ASSUMPTIONS = ['batch fitting reaches the incremental fit of the tree, where '
               'a subclass records it; the comparison of results does not '
               'depend on that',
               'two random orders of twelve or more instances differ']
KINDS = ['cobweb', 'cobweb3', 'cobweb3-off', 'trestle', 'dummy']


class Log(object):
    on = None


_CLS = {}


def make(kind):
    from concept_formation.cobweb import CobwebTree
    from concept_formation.cobweb3 import Cobweb3Tree
    from concept_formation.dummy import DummyTree
    from concept_formation.trestle import TrestleTree
    if not _CLS:
        for n, cls in (('cobweb', CobwebTree), ('cobweb3', Cobweb3Tree),
                       ('trestle', TrestleTree), ('dummy', DummyTree)):
            _CLS[n] = record(cls)
    if kind == 'cobweb3-off':
        return _CLS['cobweb3'](scaling=None)
    return _CLS[kind]()


def record(cls):
    class Recorder(cls):
        def ifit(self, instance, *a, **k):
            if Log.on is not None:
                Log.on.append((instance, random.getstate()))
            return cls.ifit(self, instance, *a, **k)
    return Recorder


def collection(rng, kind, n):
    if kind in ('trestle', 'dummy') and rng.random() < 0.5:
        spec = gen.StructSpec(rng, max_objects=2)
        n = min(n, 6)
    else:
        spec = gen.FlatSpec(rng, tuples='cobweb' in kind)
    data = spec.stream(n)
    n = len(data)
    if rng.random() < 0.6:
        for i, x in enumerate(data):
            x['_uid'] = 'u%d' % i
    if n and rng.random() < 0.2:
        # the same object more than once
        data[rng.randrange(n)] = data[rng.randrange(n)]
    return data


def passes(rng, ctx):
    kind = rng.choice(KINDS)
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 13, 16, 16, 24])
    data = collection(rng, kind, n)
    n = len(data)
    its = rng.choice([None, 0, 1, 1, 2, 3, rng.choice([4, 5, 6])])
    rf = rng.choice([None, True, False, False])
    tree = make(kind)
    for x in data[:rng.choice([0, 0, 2])]:
        tree.ifit(x)
    count0 = tree.root.count
    kw = {}
    if its is not None:
        kw['iterations'] = its
    if rf is not None:
        kw['randomize_first'] = rf
    form = rng.choice(['list', 'list', 'tuple', 'iter', 'gen'])
    coll = {'list': list, 'tuple': tuple, 'iter': iter,
            'gen': lambda d: (x for x in d)}[form](data)
    ctx.note = (kind, form, kw, data)
    keep = deep(data)
    before = list(data)
    Log.on = log = []
    try:
        tree.fit(coll, **kw)
    finally:
        Log.on = None
    its = 1 if its is None else its
    rf = True if rf is None else rf
    ctx.check(same(data, keep), 'fitting changed the instances')
    if form == 'list':
        ctx.check(len(coll) == n and all(a is b for a, b in
                                         zip(coll, before)),
                  'fitting reordered or changed the collection')
    ctx.check(tree.root.count == count0 + its * n, 'the tree grew by',
              tree.root.count - count0, 'for', n, 'instances and', its,
              'iterations')
    ctx.ev('batch')
    if not log and its * n:
        # no incremental fits to be seen from outside: only the results
        ctx.ev('unrecorded batch')
        return
    ctx.check(len(log) == its * n, len(log), 'fits for', n, 'instances and',
              its, 'iterations')
    orders = []
    for k in range(its):
        part = [x for x, _ in log[k * n:(k + 1) * n]]
        ctx.check(Counter(map(repr, part)) == Counter(map(repr, data)),
                  'pass', k, 'fitted', part, 'not each instance once')
        orders.append([repr(x) for x in part])
        ctx.ev('pass')
    given = [repr(x) for x in data]
    if its and not rf:
        ctx.check(orders[0] == given, 'the first pass is not in the given '
                  'order')
        ctx.ev('given order')
    distinct = len(set(given))
    if distinct >= 12 and len(given) == distinct:
        if its and rf:
            ctx.check(orders[0] != given, 'the first pass was not '
                      'randomised')
            ctx.ev('random order')
        for a, b in zip(orders, orders[1:]):
            ctx.check(a != b, 'two passes in the same order')
            ctx.ev('reshuffled')
        if its > 1:
            ctx.check(orders[1] != given, 'the second pass is in the given '
                      'order')
    if n:
        ctx.seen(repr((kind, orders)))
    ctx.sample('%s %s %r: %d fits' % (kind, form, kw, len(log)))


def equals(rng, ctx):
    """Batch fitting equals fitting the same sequence one by one."""
    kind = rng.choice(KINDS)
    data = collection(rng, kind, rng.choice([1, 3, 6, 10, 15]))
    its = rng.choice([1, 1, 1, 1, 2, 2, 3, 5])
    rf = rng.random() < 0.5
    seed = rng.getrandbits(40)
    ctx.note = (kind, its, rf, seed, data)
    a, b = make(kind), make(kind)
    random.seed(seed)
    Log.on = log = []
    try:
        a.fit(data, its, rf)
    finally:
        Log.on = None
    if not log:
        ctx.ev('unrecorded batch')
        return
    # replay: the same sequence, the same random choices in each fit
    for x, state in log:
        random.setstate(state)
        b.ifit(x)
    ctx.check(snap.canon_tree(a) == snap.canon_tree(b),
              'batch fitting gave another tree than one by one:', str(a),
              'and', str(b))
    ctx.ev('equal to one by one')
    if len(data) > 2:
        ctx.ev('equal, several instances')


def ordered(rng, ctx):
    """Unrecorded trees: one pass in the given order, deterministic data."""
    kind = rng.choice(gen.TREES)
    spec = gen.FlatSpec(rng, tuples=not kind.startswith('trestle'))
    data = spec.stream(rng.choice([1, 4, 10, 20]))
    seed = rng.getrandbits(40)
    ctx.note = (kind, seed, data)
    a, b = gen.make_tree(kind), gen.make_tree(kind)
    random.seed(seed)
    a.fit(data, randomize_first=False)
    random.seed(seed)
    for x in data:
        b.ifit(x)
    ctx.check(snap.canon_tree(a) == snap.canon_tree(b),
              'one ordered pass gave another tree than one by one:', str(a),
              'and', str(b))
    ctx.ev('ordered pass equal')


def positions(rng, ctx):
    """Every instance can come first in a random first pass."""
    kind = rng.choice(['dummy', 'cobweb'])
    k = rng.choice([2, 3])
    its = rng.choice([1, 2, 2, 4])
    data = [{'a': 'v%d' % i} for i in range(k)]
    first = [Counter() for _ in range(its)]
    for _ in range(120):
        t = make(kind)
        Log.on = log = []
        try:
            t.fit(data, iterations=its, randomize_first=True)
        finally:
            Log.on = None
        if not log:
            ctx.ev('unrecorded batch')
            return
        for i in range(its):
            first[i][log[k * i][0]['a']] += 1
    for c in first:
        ctx.check(len(c) == k and min(c.values()) >= 10,
                  'first instances of the passes:', first)
    ctx.ev('random positions')


SCENARIOS = [('passes', passes, 12), ('equals', equals, 8),
             ('ordered', ordered, 4), ('positions', positions, 1)]
