"""C30: structural primitives treat names alike at every depth."""
from harness import gen, snap
from harness.ref import real_table
from checks.c15 import flat_instance, new_base, rename, ren, value

PID = 'C30'
CASES = {'quick': 125000, 'thorough': 1600000}
REQUIRED = {'variables listed': 20000, 'all names listed': 20000,
            'contained': 10000, 'not contained': 10000, 'renamed': 20000,
            'undone': 5000, 'bound': 20000, 'partial match': 5000,
            'no partial match': 5000, 'cost of an instance': 3000,
            'cost of a table': 1000, 'deep attribute': 5000}
RULE = ('Random nested attributes, mappings and concepts; listings, '
        'containment, renaming, partial matches and costs are compared with '
        'independent definitions. Non-trivial: a distinct (attribute, '
        'mapping) or (concept, instance, mapping).')
ASSUMPTIONS = ['names are non-empty strings',
               'whether a nested relation that begins with a hidden name is '
               'itself listed is left open']
CONST = ['a', 'b', 'on', 'c1', 'c2', 'has-component', 'o', '1', 'x?', ' ']
HIDDEN = ['_', '_a', '_hid', '__']


def variables(rng, n=6):
    return ['?c%d' % i for i in range(1, n)] + ['?o1', '?o11', '?', '?_x']


def attr(rng, depth=0):
    r = rng.random()
    if depth < 4 and r < (0.85 if depth == 0 else 0.35):
        return tuple(attr(rng, depth + 1) for _ in range(rng.randint(1, 4)))
    if r < 0.8:
        return rng.choice(variables(rng))
    if r < 0.95:
        return rng.choice(CONST)
    return rng.choice(HIDDEN)


def depth(a):
    return 1 + max(map(depth, a)) if isinstance(a, tuple) and a else 0


def parts(a):
    yield a
    if isinstance(a, tuple):
        for e in a:
            yield from parts(e)


def strings(a):
    return {p for p in parts(a) if isinstance(p, str)}


def perturb(rng, a, m):
    """An attribute like a, mapped or with something changed."""
    if isinstance(a, tuple):
        out = [perturb(rng, e, m) for e in a]
        if rng.random() < 0.05:
            out.append('b')
        return tuple(out)
    if rng.random() < 0.05:
        return rng.choice(CONST + variables(rng) + [('a',)])
    if a[0] == '?':
        if a in m:
            return m[a] if rng.random() < 0.95 else a
        return rng.choice(variables(rng)) if rng.random() < 0.95 else 'a'
    return a


def matches(a, b, m):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return (isinstance(a, tuple) and isinstance(b, tuple) and
                len(a) == len(b) and
                all(matches(x, y, m) for x, y in zip(a, b)))
    if a[0] == '?' and a in m:
        return m[a] == b
    if a[0] == '?' and b[0] == '?':
        return True
    return a == b


def mapping(rng, names):
    names = sorted(names)
    k = rng.randint(0, len(names))
    pool = ['?n%d' % i for i in range(9)] + names
    return dict(zip(rng.sample(names, k), rng.sample(pool, k)))


def names_of(rng, ctx):
    from concept_formation import structure_mapper as S
    from concept_formation.preprocessor import (get_attribute_components,
                                                rename_relation)
    attrs = {attr(rng): rng.choice([1, 'v', 2.5])
             for _ in range(rng.randint(1, 5))}
    ctx.note = attrs
    allv, alls = set(), set()
    for a in attrs:
        v = {s for s in strings(a) if s[0] == '?'}
        n = {s for s in strings(a) if s[0] != '_'}
        allv |= v
        alls |= n
        got = set(get_attribute_components(a))
        ctx.check(got == v, 'the variables of', a, 'are listed as', got)
        got = set(get_attribute_components(a, False))
        ctx.check({s for s in got if isinstance(s, str)} == n, 'the names '
                  'in', a, 'are listed as', got)
        sub = {p for p in parts(a) if isinstance(p, tuple)}
        # relations headed by a hidden name are left open
        must = {p for p in sub if p and not isinstance(p[0], tuple) and
                p[0][0] != '_'}
        ctx.check(must <= {s for s in got if isinstance(s, tuple)} <= sub,
                  'the relations in', a, 'are listed as', got)
        if depth(a) > 2:
            ctx.ev('deep attribute')
        for c in rng.sample(variables(rng) + CONST, 4) + [
                rng.choice(list(parts(a)))]:
            want = any(p == c and type(p) is type(c) for p in parts(a))
            ctx.check(bool(S.contains_component(c, a)) == want, c,
                      'in', a, 'should be', want)
            ctx.ev('contained' if want else 'not contained')
        m = mapping(rng, strings(a) | set(rng.sample(CONST, 2)))
        before = dict(m)
        want = ren(a, m)
        got = S.bind_flat_attr(a, m)
        ctx.check(got == want, a, 'with', m, 'is bound to', got,
                  'should be', want)
        ctx.ev('bound')
        if isinstance(a, tuple):
            got = rename_relation(a, m)
            ctx.check(got == want, a, 'with', m, 'is renamed to', got,
                      'should be', want)
        ctx.check(m == before, 'the mapping was changed')
        mv = mapping(rng, v | set(rng.sample(variables(rng), 2)))
        for _ in range(2):
            b = perturb(rng, a, mv)
            want = matches(a, b, mv)
            got = S.is_partial_match(a, b, mv)
            ctx.check(bool(got) == want, a, 'and', b, 'under', mv,
                      'partially match:', got, 'should be', want)
            ctx.ev('partial match' if want else 'no partial match')
        ctx.seen((snap.key(a), snap.key(tuple(sorted(m.items())))))
    got = set(S.get_component_names(attrs))
    ctx.check(got == allv, 'the objects are listed as', got, 'should be',
              allv)
    ctx.ev('variables listed')
    got = set(S.get_component_names(attrs, False))
    ctx.check({s for s in got if isinstance(s, str)} == alls, 'the names '
              'are listed as', got, 'should be', alls)
    ctx.ev('all names listed')
    # one-to-one renaming of an instance
    names = sorted(allv if rng.random() < 0.7 else alls)
    k = rng.randint(0, len(names))
    m = dict(zip(rng.sample(names, k), ['?new%d' % i for i in range(k)]))
    if rng.random() < 0.3 and k > 1:      # a permutation
        src = rng.sample(names, k)
        m = dict(zip(src, rng.sample(src, k)))
    given = repr(attrs)
    got = S.rename_flat(attrs, m)
    want = rename(attrs, m)
    ctx.check(gen.same(got, want), 'renaming with', m, 'gives', got,
              'should be', want)
    ctx.check(repr(attrs) == given and got is not attrs, 'renaming changed '
              'its input')
    ctx.ev('renamed')
    if len(want) == len(attrs):
        back = S.rename_flat(got, {b: a for a, b in m.items()})
        ctx.check(gen.same(back, attrs), 'the inverse of', m, 'gives', back)
        ctx.ev('undone')
    ctx.sample('%r with %r' % (attrs, m))


def costs(rng, ctx):
    from concept_formation.cobweb3 import Cobweb3Node
    from concept_formation import structure_mapper as S
    tree, model, base, names, hist = new_base(rng, ctx)
    mine = ['?m%d' % i for i in range(rng.randint(1, 3))]
    is_table = rng.random() < 0.3
    if is_table:
        other = Cobweb3Node()
        other.tree = tree
        add = rng.randint(1, 3)
        for _ in range(add):
            x = flat_instance(rng, rng.sample(mine, rng.randint(1,
                                                                len(mine))))
            x['kind'] = 'k%d' % rng.randrange(2)
            other.increment_counts(x)
        target = other.av_counts

        class Fake(object):
            av_counts = target
        plain = real_table(Fake)
    else:
        add = 1
        plain = target = flat_instance(rng, mine)
    k = rng.randint(0, min(len(mine), len(names)))
    m = dict(zip(rng.sample(mine, k), rng.sample(names, k)))
    ctx.note = (hist, target, m)
    before = (float(base.count), snap.table(base), repr(target))
    got = S.mapping_cost(rng.choice([m, frozenset(m.items())]), target, base)
    ctx.check(before == (float(base.count), snap.table(base), repr(target)),
              'computing a cost changed the concept or the instance')
    want = -value(model, real_table(base), base.count, plain, m, is_table,
                  add)
    ctx.check(abs(got - want) <= 1e-9, 'the cost of', m, 'is', got,
              'should be', want)
    ctx.ev('cost of a table' if is_table else 'cost of an instance')
    ctx.seen((snap.table_key(snap.table(base)), repr(target), repr(m)))


SCENARIOS = [('names', names_of, 5), ('costs', costs, 2)]
