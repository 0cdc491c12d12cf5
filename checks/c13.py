"""C13: hidden attributes are stored but never influence learning."""
import random

from harness import gen, ops, snap, twin
from harness.core import close
from harness.ledger import Ledger

PID = 'C13'
CASES = {'quick': 7500, 'thorough': 96000}
REQUIRED = {'fit compared': 8000, 'categorization compared': 3000,
            'likelihood compared': 2000, 'utility compared': 2500,
            'stored': 4000, 'stripped twin': 400, 'changed twin': 200,
            'structured fit compared': 800, 'hidden component': 200,
            'exact match across hidden': 500}
RULE = ('A stream and the same stream with its hidden attributes removed, '
        'added or changed are learned by twin trees with the same random '
        'seed before each operation; the visible parts of the trees, '
        'categorizations, utilities and likelihoods have to be equal. The '
        'ledger checks that hidden values are counted. Non-trivial: a '
        'distinct visible tree.')
ASSUMPTIONS = ['every object of a structured instance has a visible '
               'attribute and its own role, so that matching has no ties '
               'that depend on internal ordering']


def strip(x):
    """Removes hidden attributes at any depth."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not hid(k)}
    return x


def hid(k):
    return k[0] == '_'


def change(rng, x, p=0.5):
    """Replaces, adds and drops hidden attributes at any depth."""
    if not isinstance(x, dict):
        return x
    out = {}
    for k, v in x.items():
        if hid(k):
            r = rng.random()
            if r < 0.3:
                continue
            if r < 0.7:
                v = rng.choice(['zz%d' % rng.randrange(5), rng.random(), 7])
            out[k] = v
        else:
            out[k] = change(rng, v, p)
    if rng.random() < p:
        out['_new%d' % rng.randrange(3)] = rng.choice(['q', 3.25, 'r'])
    return out


def flat_attrs(rng, inst, uid):
    """Adds hidden attributes of all kinds to a flat instance."""
    out = dict(inst)
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(['_a', '_', '_b', ('_', '_c', 'o1'), ('_', '_x', 'o2'),
                        '_num'])
        out[k] = (rng.choice([1.5, 2, rng.gauss(0, 5)]) if k == '_num' else
                  rng.choice(['u%s' % uid, 'h', ('t', 1)]))
    if rng.random() < 0.3:
        items = list(out.items())
        rng.shuffle(items)
        # keep the visible attributes in their order
        vis = iter([i for i in inst.items() if not hid(i[0])])
        out = dict(i if hid(i[0]) else next(vis) for i in items)
    return out


def likelihoods(rng, tree):
    leaf = rng.choice([n for n in snap.walk(tree.root) if not n.children])
    out = []
    n = leaf
    while n is not None:
        out.append(n.log_likelihood(leaf))
        n = n.parent
    return out


def pairs(a, b):
    """Corresponding concepts of two trees that grew alike."""
    out = [(a, b)]
    kids = {}
    for y in b.children:
        kids.setdefault(snap.canon(y, True), []).append(y)
    for x in a.children:
        out.extend(pairs(x, kids[snap.canon(x, True)].pop()))
    return out


class Twins(object):
    """Two trees that learn instances differing in hidden attributes."""

    def __init__(self, ctx, kind, flat):
        self.ctx = ctx
        self.kind = kind
        self.one, self.two = gen.make_tree(kind), gen.make_tree(kind)
        self.s1, self.s2, self.seeds = [], [], []
        self.flat = flat

    def excused(self, op1, op2, y, fit):
        def make():
            return gen.make_tree(self.kind)
        if self.flat and twin.numeric_tie(make, self.kind, self.s2,
                                          self.seeds, y, fit):
            return True
        return twin.only_a_tie((make, self.s1), (make, self.s2), self.seeds,
                               op1, op2, True)

    def fit(self, x, y, seed):
        """False if an exact tie was broken differently."""
        random.seed(seed)
        l1 = self.one.ifit(x)
        random.seed(seed)
        l2 = self.two.ifit(y)
        if (snap.canon_tree(self.one, True, l1) !=
                snap.canon_tree(self.two, True, l2)):
            self.ctx.check(self.excused(lambda t: t.ifit(x),
                                        lambda t: t.ifit(y), y, True),
                           'hidden attributes changed what was learned from',
                           x, 'and', y, '\nwith:', str(self.one.root),
                           '\nor:', str(self.two.root))
            self.ctx.ev('stopped at a tie')
            return False
        self.s1.append(x)
        self.s2.append(y)
        self.seeds.append(seed)
        self.ctx.ev('fit compared')
        return True

    def categorize(self, x, y, seed):
        random.seed(seed)
        c1 = self.one.categorize(x)
        random.seed(seed)
        c2 = self.two.categorize(y)
        self.ctx.check(
            snap.canon_tree(self.one, True, c1) ==
            snap.canon_tree(self.two, True, c2) or
            self.excused(lambda t: t.categorize(x), lambda t:
                         t.categorize(y), y, False),
            'hidden attributes changed where', x, y, 'is categorized')
        self.ctx.ev('categorization compared')


def flat(rng, ctx):
    kind = rng.choice(gen.TREES + ['cobweb'])
    spec = gen.FlatSpec(rng, hidden=False, tuples='trestle' not in kind,
                        max_attrs=4)
    base = spec.stream(gen.length(rng, big=40))
    mode = rng.choice(['strip', 'change'])
    s1 = [flat_attrs(rng, b, i) for i, b in enumerate(base)]
    if mode == 'strip':
        s2 = [strip(x) for x in s1]
        ctx.ev('stripped twin')
    else:
        s2 = [change(rng, x) for x in s1]
        ctx.ev('changed twin')
    ctx.note = (kind, s1, s2)
    tw = Twins(ctx, kind, True)
    one, two = tw.one, tw.two
    for i, (x, y) in enumerate(zip(s1, s2)):
        if not tw.fit(x, y, rng.getrandbits(32)):
            return
        if i % 4 == 0:
            q = spec.query()
            tw.categorize(flat_attrs(rng, q, i), q, rng.getrandbits(32))
    ps = pairs(one.root, two.root)
    for a, b in rng.sample(ps, min(len(ps), 8)):
        ctx.check(close(a.expected_correct_guesses(),
                        b.expected_correct_guesses()) and
                  close(a.category_utility(), b.category_utility()),
                  'hidden attributes change utilities of', str(a), str(b))
        ctx.ev('utility compared')
        visible = {k: v for k, v in snap.table(a).items() if not hid(k)}
        ctx.check(set(a.attrs()) == set(visible), 'visible attributes are',
                  list(a.attrs()))
        if a.children:
            h = flat_attrs(rng, rng.choice(base), 0)
            ctx.check(close(a.cu_for_new_child(h),
                            b.cu_for_new_child(strip(h))) and
                      all(close(a.cu_for_insert(c, h),
                                b.cu_for_insert(d, strip(h)))
                          for c, d in ps if c.parent is a and
                          d.parent is b),
                      'hidden attributes change utilities of inserting', h)
        else:
            # exact matching looks at visible attributes only
            h = flat_attrs(rng, rng.choice(base), 'q')
            ctx.check(a.is_exact_match(h) == b.is_exact_match(strip(h)),
                      'hidden attributes decide exact matching of', h, 'and',
                      str(a))
            ctx.ev('exact match across hidden')
    if sum(n.count for n, _ in ps) < 400:
        leaves = [(a, b) for a, b in ps if not a.children]
        for a, b in rng.sample(leaves, min(3, len(leaves))):
            n, m = a, b
            while n is not None:
                ctx.check(close(n.log_likelihood(a), m.log_likelihood(b)),
                          'hidden attributes change the likelihood of',
                          str(a), 'under', str(n))
                n, m = n.parent, m.parent
                ctx.ev('likelihood compared')
    ctx.seen(snap.canon(one.root, True))
    ctx.sample('%s: %d instances such as %r' % (kind, len(s1), s1[-1]))


def stored(rng, ctx):
    """Hidden values are counted like others, everywhere."""
    kind, tree, spec, _ = gen.flat_setup(rng, hidden=False, max_attrs=3,
                                         big=20)
    led = Ledger(ctx, tree, numeric=kind != 'cobweb')
    stream = [flat_attrs(rng, b, i) for i, b in
              enumerate(spec.stream(gen.length(rng, big=30)))]
    ctx.note = (kind, stream)
    for x in stream:
        led.fit(x)
    for node, agg in led.aggregates():
        d = snap.compare_table(node, agg)
        ctx.check(d is None, 'concept does not store', d)
        for a in agg.attrs():
            if hid(a):
                for v, c in agg.nom.get(a, {}).items():
                    ctx.check(close(node.probability(a, v), c / agg.count),
                              'hidden attribute', a, 'has probability',
                              node.probability(a, v))
                ctx.ev('stored')
        ctx.check(set(node.attrs('all')) == agg.attrs(), 'attrs("all")')
    # and can be inferred
    q = strip(stream[-1])
    out = tree.infer_missing(q, allow_none=False)
    leaf = [n for n in snap.walk(tree.root) if not n.children]
    ctx.check(all(k in out for k in q), 'inference dropped attributes')
    del leaf


def structured(rng, ctx):
    """Hidden attributes in objects, components and hidden components."""
    kind = rng.choice(['trestle', 'trestle', 'trestle-off'])
    k = rng.choice([0, 1, 1, 1, 2, 3])
    names = ['?x%d' % i for i in range(k)]

    def one(i):
        inst = {'kind': rng.choice(['k1', 'k2'])}
        for j, nm in enumerate(names):
            o = {'role%d' % j: 'r', 'color': rng.choice(['c1', 'c2'])}
            if rng.random() < 0.5:
                o['_h'] = rng.choice(['u%d' % i, 2.5])
            if rng.random() < 0.4:
                o['part'] = {'mat': rng.choice(['m1', 'm2']),
                             '_serial': 's%d' % i}
            if rng.random() < 0.3:
                o['_meta'] = {'src': 's%d' % i, 'n': i}
                ctx.ev('hidden component')
            inst[nm] = o
        if k > 1 and rng.random() < 0.5:
            inst[('on', names[0], names[1])] = True
        if k == 0:
            inst['part'] = {'mat': rng.choice(['m1', 'm2']), '_serial': i,
                            'deep': {'z': rng.choice(['1', '2']),
                                     '_y': rng.random()}}
        if rng.random() < 0.5:
            inst['_guid'] = 'g%d' % i
        if rng.random() < 0.3:
            inst['_top'] = {'a': rng.choice(['a1', i]), 'b': {'c': i}}
            ctx.ev('hidden component')
        return inst

    s1 = [one(i) for i in range(rng.randint(2, 10))]
    s2 = ([strip(x) for x in s1] if rng.random() < 0.6 else
          [change(rng, x, 0.3) for x in s1])
    ctx.note = (kind, s1, s2)
    tw = Twins(ctx, kind, False)
    for x, y in zip(s1, s2):
        if not tw.fit(x, y, rng.getrandbits(32)):
            return
        ctx.ev('structured fit compared')
        q = one(99)
        tw.categorize(q, strip(q), rng.getrandbits(32))
    ctx.seen(snap.canon(tw.one.root, True))


SCENARIOS = [('flat', flat, 6), ('stored', stored, 2),
             ('structured', structured, 3)]
