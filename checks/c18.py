"""C18: structured learning treats instances up to renaming of objects."""
import copy
import random

from checks.c16 import decode, paths, relational, split
from harness import gen, snap, twin
from harness.ledger import Ledger

PID = 'C18'
CASES = {'quick': 9000, 'thorough': 115200}
REQUIRED = {'crowd fitted': 300, 'worn tree fitted': 3000,
            'leaf gain matched': 2500, 'objects renamed': 4500,
            'nested object': 500, 'completed': 700, 'facts inferred': 2500,
            'completed without missing': 300, 'names of the tree used': 300,
            'plain fit compared': 4000, 'plain query compared': 1400,
            'renamed twins': 1300, 'flattened twins': 800}
RULE = ('Streams of structured instances (objects, nesting, relations, '
        'constants, hidden parts) are fitted; what the returned leaf gained '
        'is matched, up to a one-to-one renaming of objects, with an '
        'independent description of the instance. Renamed and reordered, '
        'nested and flattened, and object-free twins are compared, and '
        'completed instances are checked fact by fact. Non-trivial: a '
        'distinct (tree, instance).')
ASSUMPTIONS = ['object names are distinct within an instance and objects '
               'nest only in objects',
               'renamed twins are compared on objects with distinguishing '
               'attributes, and outcomes that differ for one seed are '
               'compared as sets over several seeds (exact ties)']


# ----------------------------------------------------------- descriptions

def attr_fact(path):
    return ('attr',) + tuple(path)


def given_facts(inst):
    """{fact: value} of a nested instance, containment included."""
    out = {}
    for p, v in paths(inst).items():
        if p and p[0] == 'relation' and len(p) == 2 and isinstance(p[1],
                                                                   tuple):
            if not relational(p[1]):
                # an attribute left in flat form
                p = decode(p[1])[0]
            else:
                out[('rel', norm(p[1]))] = v
                for c in contained(p[1]):
                    out[c] = True
                continue
        p2, rels = split(p)
        out[attr_fact(p2)] = v
        for outer, inner in rels:
            out[('rel', ('has-component', outer if len(outer) > 1 else
                         outer[0], inner))] = True
    return out


def norm(a):
    """Objects named by their path (nested pairs) are named plainly."""
    if isinstance(a, tuple):
        if len(a) == 2 and isinstance(a[0], str) and a[0][:1] == '?':
            return a[0]
        return tuple(norm(e) for e in a)
    return a


def contained(a):
    """Containments that paths inside a relation express."""
    out = []
    if isinstance(a, tuple):
        if len(a) == 2:
            p, rels = split(decode(a)[0])
            for outer, inner in rels:
                out.append(('rel', ('has-component', outer if len(outer) > 1
                                    else outer[0], inner)))
        else:
            for e in a:
                out.extend(contained(e))
    return out


def stored_fact(a):
    """The fact an attribute of a concept denotes."""
    if relational(a):
        if a[0] == 'has-component' and len(a) == 3 and isinstance(a[1],
                                                                  tuple):
            return ('rel', ('has-component', decode(a[1])[0], a[2]))
        return ('rel', norm(a))
    return attr_fact(decode(a)[0])


def stored_facts(flat):
    return {stored_fact(a): v for a, v in flat.items()}


def fact_vars(f):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            for e in x:
                go(e)
        elif isinstance(x, str) and x[:1] == '?':
            out.add(x)
    go(f[1:])
    return out


def ren(x, m):
    if isinstance(x, tuple):
        return tuple(ren(e, m) for e in x)
    return m.get(x, x)


def embed(a, b, ok, limit=200000):
    """An injective renaming of a's objects making every fact ok in b."""
    facts = list(a.items())
    names = sorted(set().union(*[fact_vars(f) for f, _ in facts]) if facts
                   else [])
    targets = sorted(set().union(*[fact_vars(f) for f in b]) if b else [])
    by = {}
    for f, v in facts:
        vs = fact_vars(f)
        last = max((names.index(x) for x in vs), default=-1)
        by.setdefault(last, []).append((f, v))
    for f, v in by.get(-1, []):
        if not ok(f, v):
            return None
    steps = [0]

    def go(i, m, used):
        steps[0] += 1
        if steps[0] > limit:
            raise RuntimeError('matching too large')
        if i == len(names):
            return dict(m)
        for t in targets:
            if t in used:
                continue
            m[names[i]] = t
            if all(ok(ren(f, m), v) for f, v in by.get(i, [])):
                r = go(i + 1, m, used | {t})
                if r is not None:
                    return r
        m.pop(names[i], None)
        return None
    return go(0, {}, frozenset())


def isomorphic(a, b):
    if len(a) != len(b):
        return None
    return embed(a, b, lambda f, v: f in b and b[f] == v)


# ---------------------------------------------------------------- learning

def fits(rng, ctx):
    kind = rng.choice(['trestle', 'trestle', 'trestle-off',
                       'trestle-noinner'])
    tree = gen.make_tree(kind)
    spec = gen.StructSpec(rng, max_objects=4)
    stream = spec.stream(rng.randint(2, 9))
    ctx.note = (kind, stream)
    led = Ledger(ctx, tree, structured=True)
    for i, inst in enumerate(stream):
        led.before()
        leaf = tree.ifit(gen.handed(rng, inst))
        got = stored_facts(led.delta(leaf, inst))
        want = given_facts(inst)
        m = isomorphic(want, got)
        ctx.check(m is not None, 'the leaf gained', got, 'from', inst,
                  'which is not', want, 'up to renaming of objects')
        led.after(leaf, inst)
        ctx.ev('leaf gain matched')
        if m:
            ctx.ev('objects renamed', len(m))
        if any(f[1][0] == 'has-component' for f in want if f[0] == 'rel'):
            ctx.ev('nested object')
        if i % 3 == 2:
            complete(rng, ctx, tree, spec.instance())
        ctx.seen((snap.canon(tree.root), repr(inst)))
    ctx.sample('%s fitted %r' % (kind, stream[-1]))


def crowd(rng, ctx):
    """Many objects, told apart by an attribute of their own."""
    tree = gen.make_tree(rng.choice(['trestle', 'trestle-off']))
    k = rng.randint(5, 10)
    pool = (['?o%d' % i for i in range(1, 25)] if rng.random() < 0.5 else
            ['?' + c for c in 'abcdefghijklmnop'])
    led = Ledger(ctx, tree, structured=True)
    for i in range(rng.randint(2, 3)):
        names = rng.sample(pool, k)
        inst = {nm: {'mark': 'm%d' % j, 'size': rng.choice(['s', 'm'])}
                for j, nm in enumerate(names)}
        for _ in range(rng.randint(0, 3)):
            inst[('on',) + tuple(rng.sample(names, 2))] = True
        inst['scene'] = 'c%d' % i
        ctx.note = inst
        led.before()
        leaf = tree.ifit(inst)
        got = stored_facts(led.delta(leaf, inst))
        ctx.check(isomorphic(given_facts(inst), got) is not None,
                  'the leaf gained', got, 'from', inst)
        led.after(leaf, inst)
        ctx.ev('crowd fitted')
        q = dict(inst)
        del q['scene']
        complete(rng, ctx, tree, q)
        ctx.seen((snap.canon(tree.root), repr(inst)))


def worn(rng, ctx):
    """A long life: dozens of fits, and more queries between them."""
    tree = gen.make_tree(rng.choice(['trestle', 'trestle-off']))
    led = Ledger(ctx, tree, structured=True)
    pool = ['?o%d' % i for i in range(1, 60)] + ['?a', '?b', '?c']
    k = rng.randint(1, 3)

    def scene():
        names = rng.sample(pool, rng.randint(1, k))
        x = {nm: {'mark': 'm%d' % j, 'size': rng.choice(['s', 'm', 2.0])}
             for j, nm in enumerate(names)}
        if len(names) > 1:
            x[('on', names[0], names[1])] = True
        x['kind'] = rng.choice(['p', 'q', 'r'])
        return x

    log = []
    ctx.note = log
    for i in range(rng.randint(20, 45)):
        inst = scene()
        log.append(inst)
        led.before()
        leaf = tree.ifit(inst)
        got = stored_facts(led.delta(leaf, inst))
        ctx.check(isomorphic(given_facts(inst), got) is not None,
                  'the leaf gained', got, 'from', inst, 'the', i + 1,
                  'th instance')
        led.after(leaf, inst)
        for _ in range(rng.choice([0, 0, 1, 9])):
            if rng.random() < 0.5:
                tree.categorize(scene())
            else:
                complete(rng, ctx, tree, scene())
            ctx.ev('query of a worn tree')
        ctx.ev('worn tree fitted')
    ctx.seen((snap.canon(tree.root), repr(inst)))


def thin(rng, inst):
    """Drops some attributes, keeping the nesting."""
    out = {}
    for k, v in inst.items():
        if isinstance(v, dict):
            t = thin(rng, v)
            if t:
                out[k] = t
        elif rng.random() < 0.6:
            out[k] = v
    return out


def complete(rng, ctx, tree, inst):
    if rng.random() < 0.7:
        inst = thin(rng, inst)
    # names the tree itself uses must not be confused with the caller's
    if rng.random() < 0.5:
        names = sorted(gen.variables(inst))
        own = sorted(set().union(*[fact_vars(stored_fact(a)) for a in
                                   tree.root.av_counts]) or ['?o1'])
        pool = [x for x in own + ['?o%d' % i for i in range(1, 40)]]
        pool = list(dict.fromkeys(pool))
        new = rng.sample(pool[:max(len(names), 8)], len(names))
        inst = gen.rename_objects(inst, dict(zip(names, new)))
        ctx.ev('names of the tree used')
    given = gen.deep(inst)
    allow = rng.random() < 0.5
    fn = rng.choice(['most likely', 'sampled'])
    ctx.log('infer_missing', inst, fn, allow)
    out = tree.infer_missing(gen.handed(rng, inst), fn, allow)
    ctx.check(gen.same(inst, given), 'infer_missing changed the instance')
    want, got = given_facts(inst), given_facts(out)
    for f, v in want.items():
        ctx.check(f in got, 'completing lost', f, 'of', inst, 'giving', out)
        ctx.check(got[f] == v, 'completing changed', f, 'of', inst, 'giving',
                  out)
    ctx.ev('completed')
    extra = {f: v for f, v in got.items() if f not in want}
    if extra:
        ctx.ev('facts inferred', len(extra))
    # all added facts have to be known, with that value, in one concept
    best = None
    for leaf in snap.walk(tree.root):
        if leaf.children:
            continue
        tab = {}
        for a, vals in leaf.av_counts.items():
            tab.setdefault(stored_fact(a), {}).update(vals)

        def ok(f, v):
            if f not in tab:
                return False
            if v in tab[f] and not snap.is_cv(tab[f][v]):
                return True
            return snap.is_number(v) and any(
                snap.is_cv(c) for c in tab[f].values())
        try:
            m = embed(extra, tab, ok)
            if m is None:
                continue
            if not allow:
                # every attribute of the concept has a value
                free = {f: None for f in tab}
                if embed(free, {**got, **free}, lambda f, v: f in got) is None:
                    best = 'incomplete'
                    continue
        except RuntimeError:
            ctx.ev('matching given up')
            best = leaf
            break
        best = leaf
        break
    ctx.check(best is not None, 'the added facts', extra, 'are not those of '
              'any leaf concept; completed', inst, 'to', out)
    ctx.check(best != 'incomplete', 'missing values disallowed, but not '
              'every attribute of the concept was filled in:', inst, out)
    if not allow:
        ctx.ev('completed without missing')


# ------------------------------------------------------------------- twins

def plain(rng, ctx):
    """Without objects the structured tree is the numeric tree."""
    from concept_formation.cobweb3 import Cobweb3Tree
    from concept_formation.trestle import TrestleTree
    args = rng.choice([(), (None,), (1.0,), (0.5, False), (False, True)])
    a, b = TrestleTree(*args), Cobweb3Tree(*args)
    spec = gen.FlatSpec(rng, tuples=False, tame=True)
    consts = rng.random() < 0.3

    def order(x):
        return dict(sorted(x.items(), key=lambda kv: (isinstance(
            kv[0], tuple), str(kv[0]))))

    def dress(x):
        if consts and x and rng.random() < 0.7:
            x = dict(x)
            x[rng.choice([('on', 'c1', 'c2'), ('on', 'c2', 'c1'),
                          ('p', ('q', 'c1'), 'c2')])] = rng.choice(
                              [True, 'y'])
        return order(x)

    def past(n):
        return ((lambda: TrestleTree(*args), stream[:n]),
                (lambda: Cobweb3Tree(*args), stream[:n]), seeds)

    def tied(n, x, fit):
        return twin.numeric_tie(lambda: Cobweb3Tree(*args), 'cobweb3',
                                stream[:n], seeds, x, fit)

    stream = [dress(x) for x in spec.stream(gen.length(rng, big=30))]
    ctx.note = (args, stream)
    seeds = []
    for i, inst in enumerate(stream):
        seed = rng.getrandbits(32)
        seeds.append(seed)
        random.seed(seed)
        l1 = a.ifit(inst)
        random.seed(seed)
        l2 = b.ifit(inst)
        if snap.canon_tree(a, mark=l1) != snap.canon_tree(b, mark=l2):
            ctx.check(tied(i, inst, True) or
                      twin.only_a_tie(*past(i), lambda t: t.ifit(inst),
                                      lambda t: t.ifit(inst)),
                      'fitting', inst, 'the structured tree learned',
                      str(a.root), 'the numeric one', str(b.root))
            ctx.ev('stopped at a tie')
            return
        ctx.ev('plain fit compared')
        if i % 3 == 0:
            q = dress(spec.query())
            random.seed(seed)
            c1 = a.categorize(q)
            random.seed(seed)
            c2 = b.categorize(q)
            ctx.check(snap.canon_tree(a, mark=c1) ==
                      snap.canon_tree(b, mark=c2) or tied(i + 1, q, False)
                      or twin.only_a_tie(
                          *past(i + 1), lambda t: t.categorize(q),
                          lambda t: t.categorize(q)), 'categorizing', q,
                      'differs')
            random.seed(seed)
            r1 = a.infer_missing(q)
            random.seed(seed)
            r2 = b.infer_missing(q)
            ctx.check(r1 == r2 or tied(i + 1, q, False) or
                      twin.completion_tie(*past(i + 1), q),
                      'completing', q, 'gives', r1, 'and', r2)
            ctx.ev('plain query compared')
    ctx.seen(snap.canon(a.root))


ROLES = 4


def role_instance(rng, spec):
    """(instance, roles): objects that cannot be mistaken for each other."""
    k = spec['k'] if rng.random() < 0.7 else rng.randint(1, spec['k'])
    roles = rng.sample(range(spec['k']), k)
    names = {r: '?n%d' % r for r in roles}
    inst = {'kind': rng.choice(['k1', 'k2'])}
    place = {}
    for i, r in enumerate(roles):
        o = {'role%d%s' % (r, c): 'r' for c in 'abc'}
        o['color'] = rng.choice(['c1', 'c2', 'c3'])
        if rng.random() < 0.4:
            o['num'] = rng.choice([1.0, 2.5, float(r)])
        if rng.random() < 0.3:
            o['part'] = {'mat': rng.choice(['m1', 'm2'])}
        if rng.random() < 0.2:
            o['_h'] = rng.choice(['u1', 'u2'])
        holder = inst
        if spec['nest'] and i and rng.random() < 0.4:
            holder = place[rng.choice(roles[:i])]
        holder[names[r]] = o
        place[r] = o
    if k > 1 and rng.random() < 0.6:
        a, b = rng.sample(roles, 2)
        inst[('on', names[a], names[b])] = True
        if rng.random() < 0.3:
            inst[('lt', ('color', names[a]), ('color', names[b]))] = 'yes'
    if rng.random() < 0.3:
        inst['scene'] = {'light': rng.choice(['l1', 'l2'])}
    return inst


def disguise(rng, inst):
    """The same instance with other names and another listed order."""
    names = sorted(gen.variables(inst))
    pool = rng.choice([['?o%d' % i for i in range(1, 12)],
                       ['?' + c for c in 'zyxwvutsr'],
                       ['?n0', '?n1', '?n2', '?n3', '?n4', '?n5']])
    out = gen.rename_objects(inst, dict(zip(names, rng.sample(pool,
                                                              len(names)))))

    def mix(d):
        items = [(k, mix(v) if isinstance(v, dict) else v) for k, v in
                 d.items()]
        rng.shuffle(items)
        return dict(items)
    return mix(out)


def role_names(tree):
    m, clear = {}, True
    for a in tree.root.av_counts:
        if (isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str)
                and a[0][:4] == 'role' and isinstance(a[1], str)):
            if m.setdefault(a[1], a[0][:5]) != a[0][:5]:
                clear = False
    return m, clear and len(set(m.values())) == len(m)


def role_canon(tree, leaf):
    """Canonical text with objects named by the role they play."""
    m, clear = role_names(tree)

    def go(n):
        tab = {ren(a, m): v for a, v in snap.table(n).items()}
        return '[%s%r|%s|%s]' % ('*' if n is leaf else '', float(n.count),
                                 rounded(tab),
                                 ''.join(sorted(go(c) for c in n.children)))
    return go(tree.root), clear


def rounded(tab):
    out = []
    for a, vals in tab.items():
        out.append(snap.key(a) + '=' + ','.join(sorted(
            snap.key(v) + '#' + (repr([round(x, 6) for x in c[1:]])
                                 if isinstance(c, tuple) else repr(c))
            for v, c in vals.items())))
    return ';'.join(sorted(out))


def outcome(tree, inst, seed, query):
    t = copy.deepcopy(tree)
    random.seed(seed)
    leaf = t.categorize(inst) if query else t.ifit(inst)
    return role_canon(t, leaf)


def alike(rng, ctx, tree, x, y, what):
    query = rng.random() < 0.3
    seed = rng.getrandbits(32)
    (a, c1), (b, c2) = (outcome(tree, x, seed, query),
                        outcome(tree, y, seed, query))
    if not (c1 and c2):
        ctx.ev('roles confused')
        return False
    if a != b:
        # may be an exact tie: compare the sets of possible outcomes
        sa = {outcome(tree, x, s, query)[0] for s in range(12)} | {a}
        sb = {outcome(tree, y, s, query)[0] for s in range(12)} | {b}
        ctx.ev('tie examined')
        ctx.check(sa & sb, what, 'are treated differently:', x, 'and', y,
                  '\n', a, '\n', b)
    ctx.ev(what)
    return True


def renamed(rng, ctx):
    kind = rng.choice(['trestle', 'trestle', 'trestle-off'])
    tree = gen.make_tree(kind)
    spec = {'k': rng.randint(1, ROLES), 'nest': rng.random() < 0.5}
    log = []
    ctx.note = (kind, log)
    for _ in range(rng.randint(2, 9)):
        x = role_instance(rng, spec)
        if not alike(rng, ctx, tree, x, disguise(rng, x), 'renamed twins'):
            return
        log.append(x)
        tree.ifit(x)
        ctx.seen((snap.canon(tree.root), repr(x)))


def flatten(inst):
    """Independent flattening in the library's documented notation."""
    out = {}

    def go(d, outer):
        for k, v in d.items():
            if outer is None:
                a = k
            elif k[0] == '_' or outer[0] == '_':
                a = ('_', (k, outer))
            else:
                a = (k, outer)
            if isinstance(v, dict):
                go(v, a)
            else:
                out[a] = v
    go(inst, None)
    return out


def flattened(rng, ctx):
    """Components are the same as their flattened form."""
    kind = rng.choice(['trestle', 'trestle', 'trestle-off'])
    tree = gen.make_tree(kind)
    spec = {'k': rng.randint(1, 3), 'nest': rng.random() < 0.5}
    log = []
    ctx.note = (kind, log)
    only = rng.random() < 0.3
    for i in range(rng.randint(2, 8)):
        x = role_instance(rng, spec)
        if only:
            x = {k: v for k, v in x.items() if not gen.variables({k: 0})}
            x['part'] = {'mat': rng.choice(['m1', 'm2']), 'deep': {
                'z': rng.choice(['1', 2.5]), '_y': 'u%d' % i}}
        if not alike(rng, ctx, tree, x, flatten(x), 'flattened twins'):
            return
        log.append(x)
        tree.ifit(x)


SCENARIOS = [('fits', fits, 12), ('plain', plain, 6), ('renamed', renamed, 6),
             ('flattened', flattened, 4), ('crowd', crowd, 2),
             ('worn', worn, 1)]
