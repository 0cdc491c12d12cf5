"""C12: numeric scaling tracks the data and removes units of measurement."""
import math
import random
from itertools import islice

from harness import gen, snap
from harness.core import close
from harness.ledger import Ledger
from harness.ref import Model, from_real

PID = 'C12'
CASES = {'quick': 6750, 'thorough': 86400}
REQUIRED = {'fit compared': 8000, 'categorization compared': 4000,
            'exact units': 3000, 'shifted units': 2000,
            'structured fit compared': 500, 'scale observed': 15000,
            'pooled scale observed': 3000, 'unscaled observed': 2000,
            'queries leave scales': 2000, 'probability compared': 2000}
RULE = ('Two trees are given the same stream, one with numeric attributes '
        're-expressed (times a power of two, or any factor plus a shift), '
        'with the same random seed before every operation; the hierarchies '
        '(as nested sets of instance numbers) and categorizations have to '
        'agree, except where the reference model finds a tie. The divisor in '
        'force is read off probabilities and expected correct guesses and '
        'compared with the spread of the values fitted. Non-trivial: a '
        'distinct (hierarchy, units).')
ASSUMPTIONS = ['attributes sharing an innermost name share their unit when '
               'they are pooled', 'shifts are at most 1000 and factors '
               'between 1e-3 and 1e3, or powers of two, so that distinct '
               'values stay distinct', 'structured instances and queries are '
               'compared once the attribute has a spread (there is no unit '
               'before)']
EPS = 1e-6


class Tracked(object):
    """A tree and the leaf every instance went to."""

    def __init__(self, kind):
        self.kind = kind
        self.tree = gen.make_tree(kind)
        self.members = {}
        self.n = 0

    def fit(self, inst, seed):
        random.seed(seed)
        leaf = self.tree.ifit(inst)
        self.members.setdefault(id(leaf), []).append(self.n)
        self.n += 1
        return leaf

    def index(self, node):
        return frozenset(self.members.get(id(node), ['?']))

    def form(self, node=None):
        node = self.tree.root if node is None else node
        if not node.children:
            return tuple(self.members.get(id(node), ['?']))
        return tuple(sorted((self.form(c) for c in node.children), key=repr))


def tied(kind, stream, seeds, i):
    """Whether fit i is a tie, judged by the reference on a replay."""
    a = Tracked(kind)
    model = Model.for_tree(a.tree, kind)
    for x, s in zip(stream[:i], seeds):
        a.fit(x, s)
        model.learn_scales(x)
    pre = from_real(a.tree.root)
    model.learn_scales(stream[i])
    return len(list(islice(model.outcomes(pre, stream[i], EPS), 2))) > 1


def convert(inst, unit):
    out = {}
    for a, v in inst.items():
        k = a[0] if isinstance(a, tuple) else a
        if snap.is_number(v) and k in unit:
            f, s = unit[k]
            v = v * f + s
        out[a] = v
    return out


def numeric_stream(rng, n):
    """Numeric attributes of several objects plus nominal ones."""
    if rng.random() < 0.5:
        spec = gen.FlatSpec(rng, min_numeric=1, tame=True)
        return spec.stream(n), spec.query
    names = rng.sample(['w', 'h', 'x'], rng.randint(1, 2))
    objs = ['o1', 'o2', ('p', 'q')]
    src = {a: gen.numeric_source(rng, True)[1] for a in names}
    off = {o: rng.choice([0, 0, 5.0]) for o in objs}
    k = rng.randint(1, 4)
    pool = [(a, o) for a in names for o in objs] + names
    if rng.random() < 0.3:
        # numbers that relate several objects
        pool += [(a,) + tuple(rng.sample(objs, 2) + ['o3', 'o4'][:m])
                 for a in names for m in (0, 1, 2)]
    attrs = rng.sample(pool, rng.randint(1, min(5, len(pool))))

    def one():
        c = rng.randrange(k)
        inst = {}
        for a in attrs:
            if rng.random() < 0.85:
                if isinstance(a, tuple):
                    inst[a] = src[a[0]](c) + off[a[1]]
                else:
                    inst[a] = src[a](c)
        if rng.random() < 0.7:
            inst['kind'] = 'k%d' % (c if rng.random() < 0.8
                                    else rng.randrange(4))
        if rng.random() < 0.2:
            inst['_id'] = rng.random()
        return inst
    return [one() for _ in range(n)], one


def units(rng, stream, exact):
    names = set()
    for i in stream:
        for a, v in i.items():
            if snap.is_number(v):
                names.add(a[0] if isinstance(a, tuple) else a)
    out = {}
    for a in sorted(names, key=repr):
        if exact:
            out[a] = (2.0 ** rng.randint(-20, 20), 0.0)
        else:
            out[a] = (rng.choice([1.0, 2.54, 0.001, 1000.0,
                                  rng.uniform(0.1, 10)]),
                      rng.choice([0.0, 32.0, 273.15, -1000.0]))
    return out


def injective(stream, other):
    """Whether re-expression kept distinct values distinct."""
    seen, back = {}, {}
    for x, y in zip(stream, other):
        for a in x:
            if snap.is_number(x[a]):
                u, v = float(x[a]), float(y[a])
                if (seen.setdefault((a, u), v) != v or
                        back.setdefault((a, v), u) != u):
                    return False
    return True


KINDS = ['cobweb3', 'cobweb3', 'cobweb3-s1', 'cobweb3-s2', 'cobweb3-noinner',
         'cobweb3-noinner2']


def compare(rng, ctx, exact):
    kind = rng.choice(KINDS)
    stream, query = numeric_stream(rng, gen.length(rng, big=40))
    unit = units(rng, stream, exact)
    other = [convert(i, unit) for i in stream]
    if not injective(stream, other):
        return
    ctx.note = (kind, stream, unit)
    a, b = Tracked(kind), Tracked(kind)
    model = Model.for_tree(a.tree, kind)
    seeds = []
    for i, (x, y) in enumerate(zip(stream, other)):
        seeds.append(rng.getrandbits(32))
        a.fit(x, seeds[-1])
        b.fit(y, seeds[-1])
        model.learn_scales(x)
        if a.form() != b.form():
            if tied(kind, stream, seeds, i):
                ctx.ev('stopped at a tie')
                return
            ctx.fail('in other units', unit, 'fit', i, 'of', x,
                     'gave another hierarchy:', a.form(), b.form())
        ctx.ev('fit compared')
        ctx.ev('exact units' if exact else 'shifted units')
        ctx.check(close(a.tree.root.expected_correct_guesses(),
                        b.tree.root.expected_correct_guesses(), 1e-6, 1e-9),
                  'in other units', unit, 'the root has other expected '
                  'correct guesses')
        if i % 3 == 0:
            for _ in range(2):
                q = {k: v for k, v in query().items() if not
                     snap.is_number(v) or model.spread(model.inner_attr(k))}
                s = rng.getrandbits(32)
                random.seed(s)
                l1 = a.tree.categorize(q)
                random.seed(s)
                l2 = b.tree.categorize(convert(q, unit))
                if a.index(l1) != b.index(l2):
                    if len(model.descents(from_real(a.tree.root), q,
                                          EPS)) > 1:
                        ctx.ev('tied categorization')
                        continue
                    ctx.fail('in other units', unit, 'categorizing', q,
                             'gives leaf', a.index(l1), 'or', b.index(l2))
                ctx.ev('categorization compared')
                num = [k for k in q if snap.is_number(q[k]) and
                       k in a.tree.root.av_counts]
                if num:
                    k = rng.choice(num)
                    p = a.tree.root.probability(k, q[k])
                    r = b.tree.root.probability(k, convert(q, unit)[k])
                    ctx.check(close(p, r, 1e-5, 1e-9), 'in other units',
                              unit, k, q[k], 'has probability', p, 'or', r)
                    ctx.ev('probability compared')
    ctx.seen((a.form(), repr(sorted(map(repr, unit.items())))))
    ctx.sample('%s: units %r, instances such as %r' % (kind, unit,
                                                       stream[-1]))


def exact_units(rng, ctx):
    compare(rng, ctx, True)


def shifted_units(rng, ctx):
    compare(rng, ctx, False)


def scale(inst, unit):
    if isinstance(inst, dict):
        return {k: (v * unit[k] if k in unit and snap.is_number(v)
                    else scale(v, unit)) for k, v in inst.items()}
    return inst


def structured_units(rng, ctx):
    """Exact units in structured instances: same names, same choices."""
    kind = 'trestle'
    spec = gen.StructSpec(rng, max_objects=3)
    spec.numeric = True
    stream = spec.stream(rng.randint(3, 10))
    for x in stream:
        x.pop('height', None)
    # matching needs a spread before the second instance comes
    stream.insert(0, {'?a': {'num': rng.uniform(-5, 5), 'color': 'v1'},
                      '?b': {'num': rng.uniform(-5, 5), 'color': 'v2'}})
    unit = {'num': 2.0 ** rng.randint(-12, 12)}
    ctx.note = (kind, stream, unit)
    a, b = Tracked(kind), Tracked(kind)
    for i, x in enumerate(stream):
        s = rng.getrandbits(32)
        a.fit(x, s)
        b.fit(scale(x, unit), s)
        e1 = a.tree.root.expected_correct_guesses()
        e2 = b.tree.root.expected_correct_guesses()
        if a.form() != b.form():
            if close(e1, e2, 1e-9):
                ctx.ev('stopped at a possible tie')
                return
            ctx.fail('in other units', unit, 'fit', i, 'of', x,
                     'gave another hierarchy:', a.form(), b.form())
        ctx.check(close(e1, e2, 1e-9), 'in other units', unit,
                  'the root has expected correct guesses', e1, e2)
        ctx.ev('structured fit compared')


def observe(rng, ctx, tree, model, node, stream):
    """Reads the divisor in force off scores of one concept."""
    want = model.ecg(from_real(node))
    got = node.expected_correct_guesses()
    ctx.check(close(got, want, 1e-7, 1e-9), 'expected correct guesses are',
              got, 'with the divisors', {a: model.scale_of(a) for a in
                                         node.av_counts}, 'it is', want)
    for a, d in node.av_counts.items():
        c = d.get(snap.cv_key())
        if c is None or not snap.is_cv(c):
            continue
        sc = model.scale_of(a)
        # one divisor away from the mean, relative to the mean itself
        m = c.unbiased_mean()
        s2 = (c.unbiased_std() / sc) ** 2 + 1 / (2 * math.pi)
        p0, p1 = node.probability(a, m), node.probability(a, m + sc)
        ratio = math.exp(-1 / (2 * s2))
        ctx.check(close(p1, p0 * ratio, 1e-5, 1e-9), 'attribute', a,
                  'is not divided by', sc, ': scores', p0, p1,
                  'expected ratio', ratio)
        ctx.ev('scale observed' if model.scaling else 'unscaled observed')
        if isinstance(a, tuple) and model.scaling and model.inner:
            ctx.ev('pooled scale observed')


def tracking(rng, ctx):
    kind = rng.choice(KINDS + ['cobweb3-off', 'cobweb3-none'])
    stream, query = numeric_stream(rng, gen.length(rng, big=50))
    if rng.random() < 0.15:
        unit = units(rng, stream, True)
        stream = [convert(i, unit) for i in stream]
    ctx.note = (kind, stream)
    tree = gen.make_tree(kind)
    model = Model.for_tree(tree, kind)
    for i, x in enumerate(stream):
        tree.ifit(x)
        model.learn_scales(x)
        observe(rng, ctx, tree, model, tree.root, stream)
        nodes = snap.walk(tree.root)
        observe(rng, ctx, tree, model, rng.choice(nodes), stream)
        if i % 3 == 0:
            tree.categorize(query())
            tree.infer_missing(query(), rng.choice(['most likely',
                                                    'sampled']))
            try:
                tree.ifit({'bad': [1], 'w': 1e6, 'x': 5.0})
            except ValueError:
                pass
            observe(rng, ctx, tree, model, tree.root, stream)
            ctx.ev('queries leave scales')
        if rng.random() < 0.03:
            tree.clear()
            model.clear()


def structured_tracking(rng, ctx):
    kind = rng.choice(['trestle', 'trestle-noinner', 'trestle-off'])
    tree = gen.make_tree(kind)
    model = Model.for_tree(tree, kind)
    spec = gen.StructSpec(rng, max_objects=3)
    spec.numeric = True
    led = Ledger(ctx, tree, structured=True)
    stream = spec.stream(rng.randint(3, 10))
    ctx.note = (kind, stream)
    for x in stream:
        led.before()
        leaf = tree.ifit(x)
        model.learn_scales(led.delta(leaf, x))
        led.after(leaf, x)
        for n in snap.walk(tree.root)[:6]:
            observe(rng, ctx, tree, model, n, stream)


SCENARIOS = [('exact', exact_units, 4), ('shifted', shifted_units, 3),
             ('structured', structured_units, 2), ('tracking', tracking, 4),
             ('structured tracking', structured_tracking, 1)]
