"""C17: list and relation-string conversions round-trip."""
from harness import gen, snap

PID = 'C17'
CASES = {'quick': 450000, 'thorough': 5760000}
REQUIRED = {'list round trip': 6000, 'nested list': 2000,
            'repeated element': 2000, 'list in component': 2000,
            'own objects present': 2000, 'full pipeline': 2000,
            'order chain': 1500, 'order kept': 1500, 'cycle': 200,
            'tuplized': 2000, 'elements extracted': 2000,
            'transformed form': 6000, 'long list': 500, 'hidden list': 2000,
            'direct': 1000, 'component with a val': 500}
RULE = ('Random nestings of lists, components and scalars are converted and '
        'undone (element extraction, relations, both, and the full '
        'pipeline); random sets of element and order relations (chains, '
        'partial orders, cycles) are undone; random relation strings are '
        'converted and back. Non-trivial: a distinct shape of nesting or '
        'relation graph.')
ASSUMPTIONS = ['lists are not empty (hidden ones become texts), list '
               'components have no lone attribute called val', 'in the full pipeline lists are at '
               'the top level or in objects nested in objects']


def value(rng, depth, ctx, obj=True):
    r = rng.random()
    if r < 0.55 or depth > 3:
        return rng.choice(['a', 'b', 'c', 1, 2, 2.5, True, '', 'a b', '?x',
                           '_u', ('t', 1), '(r a)'])
    if r < 0.8:
        return component(rng, depth + 1, ctx)
    return a_list(rng, depth + 1, ctx)


def a_list(rng, depth, ctx):
    if depth > 1:
        ctx.ev('nested list')
    n = rng.choice([1, 1, 2, 3, 4, 6])
    if rng.random() < 0.02:
        n = rng.randint(7, 25)
        depth = 5
        ctx.ev('long list')
    out = [value(rng, depth + 1, ctx) for _ in range(n)]
    if n > 1 and rng.random() < 0.4:
        out[-1] = gen.deep(out[0])
        ctx.ev('repeated element')
    if n > 2 and rng.random() < 0.2:
        out = [gen.deep(out[0])] * n
        out = [gen.deep(x) for x in out]
    return out


def component(rng, depth, ctx):
    o = {}
    for _ in range(rng.randint(1, 3)):
        o[rng.choice(['p', 'q', 'r', 'name', '_h'])] = rng.choice(
            ['s', 't', 4])
    if rng.random() < 0.05:
        o['val'] = rng.choice(['s', 4, 'x'])
        ctx.ev('component with a val')
    if rng.random() < 0.4 and depth < 4:
        o[rng.choice(['l1', 'items'])] = a_list(rng, depth + 1, ctx)
        ctx.ev('list in component')
    if rng.random() < 0.25 and depth < 4:
        o[rng.choice(['in', '?in%d' % rng.randrange(9)])] = component(
            rng, depth + 1, ctx)
    return o


def instance(rng, ctx):
    inst = {}
    for _ in range(rng.randint(1, 3)):
        inst[rng.choice(['l', 'm', 'list one', 'n'])] = a_list(rng, 0, ctx)
    if rng.random() < 0.5:
        inst[rng.choice(['c', 'd'])] = component(rng, 1, ctx)
    if rng.random() < 0.5:
        # the caller's own objects, named as generated names are
        for _ in range(rng.randint(1, 3)):
            inst['?o%d' % rng.randint(1, 40)] = component(rng, 1, ctx)
        ctx.ev('own objects present')
    if rng.random() < 0.4:
        inst['k'] = rng.choice(['v', 3, 1.5])
    if rng.random() < 0.3:
        inst[('on', '?o1', '?o%d' % rng.randint(2, 40))] = True
    if rng.random() < 0.2:
        inst['_id'] = 'u'
    if rng.random() < 0.15:
        # a hidden list is kept as a text
        holder = rng.choice([inst] + [v for v in inst.values() if
                                      isinstance(v, dict)])
        holder['_hl'] = a_list(rng, 3, ctx)
        ctx.ev('hidden list')
    items = list(inst.items())
    rng.shuffle(items)
    return dict(items)


def shown(x):
    """With hidden lists as texts."""
    if isinstance(x, dict):
        return {k: str(v) if isinstance(v, list) and k[0] == '_' else
                shown(v) for k, v in x.items()}
    if isinstance(x, list):
        return [shown(v) for v in x]
    return x


def shape(x):
    if isinstance(x, dict):
        return '{%s}' % ''.join(sorted(snap.key(k) + shape(v) for k, v in
                                       x.items()))
    if isinstance(x, list):
        return '[%s]' % ''.join(shape(v) for v in x)
    return '.'


def no_lists(x):
    if isinstance(x, list):
        return False
    if isinstance(x, dict):
        return all(no_lists(v) for v in x.values())
    return True


def count_lists(x):
    """(number of lists, number of elements) at any depth."""
    if isinstance(x, list):
        a, b = 1, len(x)
        for e in x:
            c, d = count_lists(e)
            a, b = a + c, b + d
        return a, b
    if isinstance(x, dict):
        a = b = 0
        for e in x.values():
            c, d = count_lists(e)
            a, b = a + c, b + d
        return a, b
    return 0, 0


def round_trip(rng, ctx):
    from concept_formation import preprocessor as P
    inst = instance(rng, ctx)
    ctx.note = inst
    if rng.random() < 0.5:
        P._gensym_counter = rng.choice([0, 0, 5])
    given = gen.deep(inst)
    lp = P.ListProcessor()
    out = lp.transform(inst)
    ctx.check(gen.same(inst, given), 'processing lists changed the input')
    inst = shown(inst)
    ctx.check(no_lists(out), 'a list is left in', out)
    n, els = count_lists(inst)
    has = [a for a in out if isinstance(a, tuple) and a[0] == 'has-element']
    order = [a for a in out if isinstance(a, tuple) and
             a[0] == 'ordered-list']
    ctx.check(len(has) == els, els, 'elements give', len(has),
              'has-element relations in', out)
    ctx.check(len(set(a[2] for a in has)) == els, 'element objects collide',
              out)
    ctx.check(len(order) == els - n, els - n, 'successions give', len(order),
              'order relations in', out)
    ctx.ev('transformed form')
    back = lp.undo_transform(out)
    ctx.check(gen.same(back, inst), 'undoing gives', back, 'via', out)
    ctx.ev('list round trip')
    if rng.random() < 0.3:
        items = list(out.items())
        rng.shuffle(items)
        back = lp.undo_transform(dict(items))
        ctx.check(gen.same(back, inst), 'with the relations listed in '
                  'another order undoing gives', back)
    ctx.seen(shape(inst))
    ctx.sample(inst)


def elements(rng, ctx):
    """Element extraction by itself."""
    from concept_formation.preprocessor import ExtractListElements
    inst = instance(rng, ctx)
    ctx.note = inst
    n = [rng.choice([0, 0, 7])]

    def sym():
        n[0] += 1
        return '?o%d' % n[0]
    given = gen.deep(inst)
    e = ExtractListElements(sym) if rng.random() < 0.7 else \
        ExtractListElements()
    out = e.transform(inst)
    ctx.check(gen.same(inst, given), 'extracting changed the input')
    inst = shown(inst)

    def look(d):
        for k, v in d.items():
            if isinstance(v, dict):
                look(v)
            elif isinstance(v, list):
                ctx.check(len(set(v)) == len(v), 'one object for several '
                          'elements', v)
                for x in v:
                    ctx.check(isinstance(x, str) and x[:1] == '?' and
                              isinstance(d.get(x), dict), 'element', x,
                              'of', k, 'has no object beside its list', d)
    look(out)
    back = e.undo_transform(out)
    ctx.check(gen.same(back, inst), 'undoing extraction gives', back, 'via',
              out)
    ctx.ev('elements extracted')
    ctx.seen(shape(inst))


def objects(rng, names, ctx, depth=0):
    o = {'p': rng.choice(['s', 't', 4])}
    if rng.random() < 0.5:
        o[rng.choice(['l', 'items'])] = [
            rng.choice(['a', 'b', 1, {'x': 'y', 'z': {'w': 1}},
                        {'m': ['u', 'v'], 'k': 1}])
            for _ in range(rng.randint(1, 4))]
    if names and depth < 2 and rng.random() < 0.4:
        nm = names.pop()
        o[nm] = objects(rng, names, ctx, depth + 1)
    return o


def full(rng, ctx):
    """Lists through the whole pipeline and back."""
    from concept_formation import preprocessor as P
    names = rng.sample(['?o%d' % i for i in range(1, 30)] + ['?a', '?b'],
                       rng.randint(0, 4))
    inst = {'l': [rng.choice(['a', 'b', 2, {'x': 'y'}, {'x': ['q', 'q'],
                                                       'n': 1}])
                  for _ in range(rng.randint(1, 4))]}
    if rng.random() < 0.3:
        del inst['l']
    while names:
        nm = names.pop()
        inst[nm] = objects(rng, names, ctx)
    inst['k'] = 'v'
    ctx.note = inst
    parts = [P.NameStandardizer(), P.ListProcessor()]
    if rng.random() < 0.5:
        parts.reverse()
    pl = P.Pipeline(*([P.Tuplizer()] + parts + [P.Flattener(),
                                                P.SubComponentProcessor()]))
    out = pl.transform(inst)
    back = pl.undo_transform(out)
    ctx.check(gen.same(back, inst), 'undoing the pipeline gives', back,
              'via', out)
    ctx.ev('full pipeline')


def is_chain(els, pairs):
    """The list whose successions are exactly the pairs, or None."""
    nxt, prev = {}, {}
    for a, b in pairs:
        if a in nxt or b in prev or a == b:
            return None
        nxt[a], prev[b] = b, a
    if not set(nxt) | set(prev) <= set(els):
        return None
    starts = [e for e in els if e not in prev]
    if len(starts) != 1:
        return None
    out = [starts[0]]
    while out[-1] in nxt and len(out) <= len(els):
        out.append(nxt[out[-1]])
    return out if len(out) == len(els) else None


def orders(rng, ctx):
    from concept_formation.preprocessor import ListsToRelations
    inst = {'k': 1}
    want = {'k': 1}
    where = {}
    for ln in rng.sample(['l', ('l', 'c'), ('m', ('n', 'c'))],
                         rng.randint(1, 2)):
        els = rng.sample('abcdefghijklmnopqrst', rng.choice([
            1, 2, 3, 4, 5, 5, 9, 16]))
        pairs = list(zip(els, els[1:]))
        kind = rng.randrange(6)
        if kind == 1 and pairs:
            del pairs[rng.randrange(len(pairs))]
        elif kind == 2 and len(els) > 1:
            pairs.append((els[-1], els[0]))
        elif kind == 3:
            pairs = [(rng.choice(els), rng.choice(els))
                     for _ in range(rng.randint(0, 5))]
        elif kind == 4:
            pairs.append((els[0], 'zz'))
        elif kind == 5 and len(els) > 2:
            pairs.append((els[0], els[2]))
        if rng.random() < 0.1:
            # names that differ in blanks and case only
            odd = dict(zip(els, ['a', ' a', 'a ', 'A', 'aa', 'a a', '']))
            els = [odd.get(e, e * 3) for e in els]
            pairs = [(odd.get(a, a * 3), odd.get(b, b * 3))
                     for a, b in pairs]
        pairs = list(dict.fromkeys(pairs))
        if kind == 2:
            ctx.ev('cycle')
        rel = {}
        for e in els:
            rel[('has-element', ln, e)] = True
        for a, b in pairs:
            rel[('ordered-list', ln, a, b)] = True
        inst.update(rel)
        where[ln] = (els, pairs, rel)
        cur, wcur = inst, want
        if isinstance(ln, tuple):
            for d in (cur, wcur):
                c = d.setdefault('c', {'x': 1})
                if ln[0] == 'm':
                    c.setdefault('n', {'y': 2})
    for ln in where:
        els, pairs, rel = where[ln]
        d1, d2 = inst, want
        name = ln
        if isinstance(ln, tuple):
            name = ln[0]
            d1, d2 = inst['c'], want['c']
            if name == 'm':
                d1, d2 = d1['n'], d2['n']
        d1[name] = {}
        chain = is_chain(els, pairs)
        if chain is None:
            d2[name] = {}
            want.update(rel)
            ctx.ev('order kept')
        else:
            d2[name] = chain
            ctx.ev('order chain')
        ctx.seen((len(els), snap.key(tuple(sorted(
            (els.index(a), els.index(b) if b in els else 9)
            for a, b in pairs)))))
    items = list(inst.items())
    rng.shuffle(items)
    inst = dict(items)
    ctx.note = inst
    given = gen.deep(inst)
    back = ListsToRelations().undo_transform(inst)
    ctx.check(gen.same(inst, given), 'undoing changed its input')
    ctx.check(gen.same(back, want), 'order relations give', back,
              'should be', want)


def term(rng, depth=0):
    if rng.random() < 0.02:
        # deeply nested
        out = ('f', '?a')
        for _ in range(rng.randint(3, 12)):
            out = rng.choice([('g', out), ('g', out, 'c'), ('g', '?b', out)])
        return out
    n = rng.randint(1, 4)
    out = []
    for i in range(n + 1):
        if i and depth < 3 and rng.random() < 0.25:
            out.append(term(rng, depth + 1))
        elif i and rng.random() < 0.15:
            out.append(rng.choice([12.4, 0.5, -3.25, 1e20, 7.0]))
        else:
            out.append(rng.choice(['on', '?a', 'b-c', 'x1', '<', 'é', '?o12',
                                   '_h', "it's", 'a.b']))
    return tuple(out)


def text(t):
    return '(' + ' '.join(text(e) if isinstance(e, tuple) else str(e)
                          for e in t) + ')'


def direct(rng, ctx):
    """Order relations by themselves: distinct texts as elements."""
    from concept_formation.preprocessor import ListsToRelations
    pool = ['a', ' a', 'a ', 'A', 'a b', '?o1', '_h', '1', '1.0', '(r a)',
            'é', 'b', 'c', 'd']
    inst = {}
    for nm in rng.sample(['l', 'm', 'list one'], rng.randint(1, 2)):
        inst[nm] = rng.sample(pool, rng.randint(1, len(pool)))
    inst['c'] = {'l': rng.sample(pool, rng.randint(1, 4)), 'x': 1}
    inst['k'] = 'v'
    ctx.note = inst
    given = gen.deep(inst)
    p = ListsToRelations()
    out = p.transform(inst)
    ctx.check(gen.same(inst, given), 'converting changed its input')
    want = {'k': 'v', 'c': {'l': {}, 'x': 1}}
    for nm, els in [(n, v) for n, v in inst.items() if isinstance(v, list)
                    ] + [(('l', 'c'), inst['c']['l'])]:
        if isinstance(nm, str):
            want[nm] = {}
        for e in els:
            want[('has-element', nm, e)] = True
        for a, b in zip(els, els[1:]):
            want[('ordered-list', nm, a, b)] = True
    ctx.check(gen.same(out, want), 'lists become', out, 'should be', want)
    back = p.undo_transform(out)
    ctx.check(gen.same(back, inst), 'undoing gives', back)
    ctx.ev('direct')


def strings(rng, ctx):
    from concept_formation.preprocessor import Tuplizer
    inst, want = {}, {}
    for _ in range(rng.randint(1, 4)):
        t = term(rng)
        v = rng.choice([True, 'v', 4.3, {'in': 1}])
        inst[text(t)] = v
        want[t] = v
    for a in rng.sample(['plain', '?x', '_h', 'with space', 'a(b)', 'x)'],
                        rng.randint(0, 3)):
        inst[a] = want[a] = rng.choice(['v', 2, {'(r a b)': 1}, [1]])
    ctx.note = inst
    given = gen.deep(inst)
    t = Tuplizer()
    out = t.transform(inst)
    ctx.check(gen.same(out, want), 'strings', list(inst), 'become',
              list(out), 'should be', list(want))
    back = t.undo_transform(out)
    ctx.check(gen.same(back, inst) and gen.same(inst, given),
              'undoing gives', back)
    ctx.ev('tuplized')
    ctx.seen(snap.key(tuple(sorted(map(snap.key, want)))))


SCENARIOS = [('round trip', round_trip, 4), ('elements', elements, 2),
             ('full', full, 2), ('orders', orders, 2),
             ('strings', strings, 2), ('direct', direct, 1)]
