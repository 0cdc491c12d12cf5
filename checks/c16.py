"""C16: structural preprocessing is lossless and reversible."""
from collections import Counter

from harness import gen, snap

PID = 'C16'
CASES = {'quick': 300000, 'thorough': 3840000}
REQUIRED = {'standardized': 8000, 'flattened': 8000, 'extracted': 6000,
            'pipeline undone': 6000, 'nested object': 2000,
            'hidden path': 3000, 'relation renamed': 4000,
            'plain variable': 800, 'list of objects': 400,
            'batch': 200, 'stages': 5000, 'batch standardized': 1000, 'left relational': 200, 'edited then undone': 1000,
            'named by path': 500, 'added to a plain variable': 100}
RULE = ('Random structured instances with distinct object names (nesting, '
        'hidden attributes and components, relations, variables with plain '
        'values, awkward names) go through each step and the pipeline; the '
        'results are compared with an independent description (paths and '
        'values, containment) and undone. Non-trivial: a distinct flattened '
        'instance.')
ASSUMPTIONS = ['objects (variables) nest only in objects, as names of '
               'objects inside constants and repeated names are not '
               'representable', 'no empty components; relations have at '
               'least three elements and plain values, at the top level']


def deep_object(rng, names, depth, style):
    """An object with constants, components and nested objects."""
    o = {}
    for _ in range(rng.randint(1, 3)):
        a = rng.choice(['color', 'size', 'x', 'A b', '_h', 'é', 'val', 'o1'])
        o[a] = rng.choice(['v1', 'v2', 3, 2.5, True, ('t', 1), '?v', '_x',
                           '(a b)', False, '', '?o1', '?g2', '?o5'])
    if depth < 3 and rng.random() < 0.4:
        comp = {}
        cur = comp
        for _ in range(rng.randint(1, 3)):
            cur[rng.choice(['p', 'q', '_r'])] = rng.choice(['w', 1])
            nxt = {}
            cur[rng.choice(['in', '_in', 'deep'])] = nxt
            cur = nxt
        cur['z'] = rng.choice(['w', 0])
        o[rng.choice(['part', '_meta', 'sub'])] = comp
    if names and depth < 3 and rng.random() < 0.45:
        for _ in range(rng.randint(1, 2)):
            if names:
                nm = names.pop()
                o[nm] = deep_object(rng, names, depth + 1, style)
    if names and rng.random() < 0.12:
        o[names.pop()] = rng.choice(['plain', 7])
    return o


def instance(rng):
    if rng.random() < 0.3:
        return gen.StructSpec(rng).instance()
    n = rng.randint(0, 6) if rng.random() < 0.9 else rng.randint(7, 20)
    pool = (['?o%d' % i for i in range(1, 25)] if rng.random() < 0.6 else
            ['?a', '?b', '?ab', '?a b', '?_x', '?é', '??', '?A', '?1'])
    names = rng.sample(pool, min(n, len(pool)))
    all_names = list(names)
    inst = {}
    while names:
        nm = names.pop()
        if rng.random() < 0.1:
            inst[nm] = rng.choice(['plain', 1.5])
        else:
            inst[nm] = deep_object(rng, names, 0, 0)
    for a in rng.sample(['kind', '_id', 'n', 'scene', '_top', 'w'],
                        rng.randint(0, 4)):
        if a in ('scene', '_top'):
            inst[a] = {'light': 'l1', '_s': 3, 'in': {'d': rng.choice(
                ['e', 2])}}
        else:
            inst[a] = rng.choice(['k', 2, 0.5, False])
    for _ in range(rng.randint(0, 3)):
        if all_names:
            a, b = rng.choice(all_names), rng.choice(all_names + ['const',
                                                                  '?free'])
            k = rng.randrange(5)
            key = [('on', a, b), ('lt', ('size', a), ('x', b)),
                   ('why', ('on', a, b), 'c1', b), ('r', 'c1', 'c2'),
                   ('amid', 'c1', a, ('x', b), b)][k]
            inst[key] = rng.choice([True, 'y', 2.5])
    items = list(inst.items())
    rng.shuffle(items)
    return dict(items)


def paths(inst):
    """{path from outermost to innermost: value}; relations by themselves."""
    out = {}

    def walk(d, pre):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, pre + (k,))
            elif isinstance(k, tuple):
                out[('relation', k)] = v
            else:
                out[pre + (k,)] = v
    walk(inst, ())
    return out


def decode(attr):
    """Path of a flattened attribute and whether it is marked hidden."""
    mark = False
    path = []
    while isinstance(attr, tuple) and len(attr) == 2:
        if attr[0] == '_':
            mark = True
            attr = attr[1]
        else:
            path.append(attr[0])
            attr = attr[1]
    path.append(attr)
    return tuple(reversed(path)), mark


def relational(attr):
    return isinstance(attr, tuple) and len(attr) != 2


def decoded(ctx, flat):
    out = {}
    for a, v in flat.items():
        ctx.check(not isinstance(v, dict), 'a component is left:', a, v)
        p = ('relation', a) if relational(a) else decode(a)[0]
        ctx.check(p not in out, 'two attributes denote the same', p)
        out[p] = v
    return out


def plain(attr):
    """Objects in relations by name instead of by path."""
    if isinstance(attr, tuple):
        if (len(attr) == 2 and isinstance(attr[0], str) and
                attr[0][:1] == '?'):
            return attr[0]
        return tuple(plain(e) for e in attr)
    return attr


def same_meaning(a, b):
    """Equal, relations naming nested objects plainly or by their path."""
    return gen.same(*[{plain(k) if relational(k) else k: v
                       for k, v in x.items()} for x in (a, b)])


class Fresh(object):
    def __init__(self, n=0, prefix='?o'):
        self.n = n
        self.prefix = prefix
        self.made = []

    def __call__(self):
        self.n += 1
        self.made.append('%s%d' % (self.prefix, self.n))
        return self.made[-1]


def standardize(rng, ctx, inst):
    from concept_formation.preprocessor import NameStandardizer
    sym = Fresh(rng.choice([0, 0, 3, 100]), rng.choice(['?o', '?o', '?g']))
    std = NameStandardizer(sym)
    given = gen.deep(inst)
    out = std.transform(inst)
    ctx.check(gen.same(inst, given), 'standardizing changed its input')
    old, new = gen.variables(inst), gen.variables(out)
    ctx.check(new <= set(sym.made), 'names', new - set(sym.made),
              'do not come from the name generator', sym.made)
    ctx.check(len(old) == len(new), 'objects', old, 'became', new)
    # ask the preprocessor itself which name stands for which
    m = {}
    for n in new:
        back = std.undo_transform({n: 'probe'})
        m[next(iter(back))] = n
    ctx.check(set(m) == old, 'names', new, 'stand for', sorted(m))
    want = gen.rename_objects(inst, m)
    ctx.check(gen.same(out, want), 'standardizing gives', out, 'should be',
              want)
    back = std.undo_transform(out)
    ctx.check(gen.same(back, inst), 'undoing standardizing gives', back)
    ctx.ev('standardized')
    if any(isinstance(k, tuple) and gen.variables({k: 0}) for k in inst):
        ctx.ev('relation renamed')
    return std, out


def flatten(rng, ctx, inst):
    from concept_formation.preprocessor import Flattener
    f = Flattener()
    given = gen.deep(inst)
    flat = f.transform(inst)
    ctx.check(gen.same(inst, given), 'flattening changed its input')
    got, want = decoded(ctx, flat), paths(inst)
    ctx.check(set(got) == set(want), 'flattening lost', set(want) - set(got),
              'or invented', set(got) - set(want))
    for p in want:
        ctx.check(gen.same(got[p], want[p]), 'the value of', p, 'became',
                  got[p], 'from', want[p])
    for a in flat:
        if relational(a):
            continue
        p, mark = decode(a)
        hid = any(isinstance(x, str) and x[:1] == '_' for x in p)
        ctx.check(hid == (a[0] == '_'), 'attribute', a, 'is hidden:',
                  a[0] == '_', 'should be', hid)
        if hid and len(p) > 1:
            ctx.ev('hidden path')
    back = f.undo_transform(flat)
    ctx.check(gen.same(back, inst), 'undoing flattening gives', back,
              'instead of', inst)
    ctx.ev('flattened')
    return f, flat


def split(path):
    """(path below the last object, containments) of a path."""
    var = [i for i, x in enumerate(path) if isinstance(x, str) and
           x[:1] == '?']
    if not var:
        return path, []
    rel = []
    for i, j in zip(var, var[1:]):
        rel.append((path[i:j], path[j]))
    return path[var[-1]:], rel


def extract(rng, ctx, flat):
    from concept_formation.preprocessor import SubComponentProcessor
    s = SubComponentProcessor()
    out = s.transform(flat)
    want, rels = {}, set()
    for a, v in flat.items():
        if relational(a):
            continue
        p, _ = decode(a)
        p2, r = split(p)
        want[p2] = v
        rels.update(r)
        if r:
            ctx.ev('nested object')
        if len(p2) == 1 and p2[0][:1] == '?':
            ctx.ev('plain variable')
    got, grel, other = {}, Counter(), {}
    for a, v in out.items():
        if isinstance(a, tuple) and len(a) == 3 and a[0] == 'has-component':
            ctx.check(v is True, 'a has-component relation has value', v)
            grel[(decode(a[1])[0], a[2])] += 1
        elif relational(a):
            other[a] = v
        else:
            got[decode(a)[0]] = v
    ctx.check(gen.same(got, want), 'extraction gives attributes', got,
              'should be', want)
    ctx.check(set(grel) == rels, 'extraction gives containments', set(grel),
              'should be', rels)
    rest = {a: v for a, v in flat.items() if relational(a)}
    ctx.check(gen.same(other, rest), 'extraction changed relations', other,
              'from', rest)
    back = s.undo_transform(out)
    ctx.check(same_meaning(back, flat), 'undoing extraction gives', back,
              'instead of', flat)
    ctx.ev('extracted')
    return s, out


def path_names(flat):
    """{object: its name by path} of objects nested in objects."""
    out = {}
    for a in flat:
        if relational(a):
            continue
        p = decode(a)[0]
        if any(isinstance(x, str) and x[:1] == '_' for x in p):
            continue
        name = None
        for x in p:
            name = x if name is None else (x, name)
            if isinstance(name, tuple) and x[:1] == '?':
                out[x] = name
    return out


def placed(rng, ctx):
    """Relations may name nested objects by their path."""
    from concept_formation.preprocessor import Flattener
    from concept_formation.preprocessor import SubComponentProcessor
    inst = instance(rng)
    flat = Flattener().transform(inst)
    names = path_names(flat)
    if not names:
        return
    objs = sorted(gen.variables(inst))
    for _ in range(rng.randint(1, 3)):
        members = tuple(rng.choice([o, ('size', o), 'c'])
                        for o in rng.choices(objs, k=rng.randint(2, 5)))
        flat[('r',) + members] = rng.choice([True, 'y', 2])
    given = dict(flat)

    def place(x):
        if isinstance(x, tuple):
            if len(x) == 2:
                return (x[0], place(x[1]))
            return tuple(place(e) for e in x)
        return names[x] if x in names and rng.random() < 0.7 else x
    other = {place(a) if relational(a) else a: v for a, v in flat.items()}
    ctx.note = other
    if len(other) != len(flat):
        return
    s = SubComponentProcessor()
    a, b = s.transform(other), s.transform(given)
    ctx.check(gen.same(a, b), 'with objects named by their path extraction '
              'gives', a, 'by their name', b)
    ctx.check(same_meaning(s.undo_transform(a), given), 'undoing gives',
              s.undo_transform(a), 'instead of', given)
    ctx.ev('named by path')


def steps(rng, ctx):
    inst = instance(rng)
    ctx.note = inst
    if rng.random() < 0.5:
        flatten(rng, ctx, inst)
    std, named = standardize(rng, ctx, inst)
    f, flat = flatten(rng, ctx, named)
    extract(rng, ctx, flat)
    ctx.seen(snap.key(tuple(sorted(map(snap.key, flat)))))
    ctx.sample(inst)


def pipeline(rng, ctx):
    from concept_formation.preprocessor import (Pipeline, NameStandardizer,
                                                Flattener,
                                                SubComponentProcessor)
    inst = instance(rng)
    ctx.note = inst
    given = gen.deep(inst)
    std = NameStandardizer(Fresh(rng.choice([0, 2])))
    parts = [std, Flattener(), SubComponentProcessor()]
    if rng.random() < 0.3:
        p = Pipeline(Pipeline(*parts[:2]), parts[2])
    else:
        p = Pipeline(*parts)
    out = p.transform(inst)
    one = Pipeline().transform(inst)
    ctx.check(gen.same(one, inst), 'an empty pipeline changes instances')
    back = p.undo_transform(out)
    ctx.check(same_meaning(back, inst), 'undoing the pipeline gives', back,
              'via', out)
    ctx.check(gen.same(inst, given), 'the pipeline changed its input')
    ctx.ev('pipeline undone')
    # a value added to or changed in the flat form shows up in its place
    objs = sorted(gen.variables(inst))
    new = sorted(gen.variables(out))
    if new:
        n = rng.choice(new)
        if n in out:
            beside(rng, ctx, p, std, out, n)
            return
        more = dict(out)
        more[('added', n)] = 'A'
        more['top-added'] = 5
        back = p.undo_transform(more)
        want = gen.deep(inst)
        want['top-added'] = 5
        name = next(iter(std.undo_transform({n: 1})))
        place = find(want, name)
        if place is not None:
            place['added'] = 'A'
        else:
            want[name] = {'added': 'A'}
        ctx.check(same_meaning(back, want), 'with an attribute added to', name,
                  'undoing gives', back, 'should be', want)
        ctx.ev('edited then undone')
    del objs


def beside(rng, ctx, p, std, out, n):
    """An attribute added to a variable with a plain value: both stay."""
    items = list(out.items()) + [(('added', n), 'A')]
    rng.shuffle(items)
    back = p.undo_transform(dict(items))
    name = next(iter(std.undo_transform({n: 1})))
    found = []

    def go(d, pre):
        for k, v in d.items():
            path = pre + decode(k)[0]
            if isinstance(v, dict):
                go(v, path)
            else:
                found.append((path, v))
    go(back, ())
    ctx.check(any(q[-1] == name and gen.same(v, out[n]) for q, v in found)
              and any(q[-2:] == (name, 'added') and v == 'A'
                      for q, v in found), 'with an attribute added to', name,
              'whose value is', out[n], 'undoing gives', back)
    ctx.ev('added to a plain variable')


def find(inst, name):
    for k, v in inst.items():
        if k == name and isinstance(v, dict):
            return v
        if isinstance(v, dict):
            x = find(v, name)
            if x is not None:
                return x
    return None


def lists(rng, ctx):
    """Objects inside lists are renamed too."""
    inst = instance(rng)
    els = []
    for i in range(rng.randint(1, 3)):
        els.append(rng.choice(['s', 3, '?o1', '?o2', '?g1', '?o4', {'a': 1}, {'?l%d' % i: {'b': 'c'}},
                               {'k': {'?m%d' % i: {'b': 2}}}]))
    where = rng.choice([inst] + [v for k, v in inst.items() if
                                 isinstance(v, dict)])
    where['things'] = els
    ctx.note = inst
    standardize(rng, ctx, inst)
    ctx.ev('list of objects')


def stages(rng, ctx):
    """Pipelines of any number of stages undo them in reverse."""
    from concept_formation.preprocessor import Pipeline, Preprocessor

    class Stage(Preprocessor):
        def __init__(self, n):
            self.n = n

        def transform(self, x):
            return {'past': x['past'] + (self.n,)}

        def undo_transform(self, x):
            ctx.check(x['past'] and x['past'][-1] == self.n, 'stage', self.n,
                      'is undone when', x['past'], 'are done')
            return {'past': x['past'][:-1]}

    def build(names):
        if len(names) > 1 and rng.random() < 0.3:
            i = rng.randrange(len(names))
            return Pipeline(build(names[:i]), *[Stage(n) for n in names[i:]])
        return Pipeline(*[Stage(n) for n in names])
    names = tuple(range(rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 14])))
    ctx.note = names
    p = build(names)
    for _ in range(2):
        out = p.transform({'past': ()})
        ctx.check(out == {'past': names}, 'stages were applied as', out)
        ctx.check(p.undo_transform(out) == {'past': ()}, 'stages left')
    k = rng.randint(0, 4)
    outs = p.batch_transform([{'past': ()} for _ in range(k)])
    ctx.check(outs == [{'past': names}] * k, 'a batch of', k, 'gave', outs)
    ctx.check(len(set(map(id, outs))) == k or not names, 'a batch gives one '
              'object for several instances')
    ctx.check(p.batch_undo(outs) == [{'past': ()}] * k, 'undoing a batch')
    ctx.ev('stages', len(names))
    # every instance of a batch gets its own fresh names
    from concept_formation.preprocessor import NameStandardizer
    inst = instance(rng)
    vs = gen.variables(inst)
    outs = NameStandardizer(Fresh(0)).batch_transform(
        [inst, gen.deep(inst), inst])
    new = [v for x in outs for v in gen.variables(x)]
    ctx.check(len(new) == len(set(new)), 'equal instances of a batch share '
              'object names:', outs)
    if vs:
        ctx.ev('batch standardized')


def stateless_batch(rng, ctx):
    from concept_formation.preprocessor import (Flattener, Pipeline,
                                                SubComponentProcessor)
    insts = [instance(rng) for _ in range(rng.randint(1, 5))]
    ctx.note = insts
    p = Pipeline(Flattener(), SubComponentProcessor())
    out = p.batch_transform(insts)
    ctx.check(len(out) == len(insts) and
              all(gen.same(x, p.transform(y)) for x, y in zip(out, insts)),
              'a batch is not transformed one by one')
    back = p.batch_undo(out)
    ctx.check(all(map(same_meaning, back, insts)), 'undoing a batch gives',
              back)
    ctx.ev('batch')


def shared(rng, ctx):
    """Shared and cyclic components are left relational, nothing is lost."""
    from concept_formation.preprocessor import SubComponentProcessor
    objs = ['?a', '?b', '?c', '?d'][:rng.randint(2, 4)]
    flat = {}
    for o in objs:
        flat[('color', o)] = rng.choice(['v1', 'v2'])
    pairs = set()
    for _ in range(rng.randint(1, 5)):
        x, y = rng.choice(objs), rng.choice(objs)
        pairs.add((x, y))
        flat[('has-component', x, y)] = True
    flat['k'] = 1
    ctx.note = flat
    s = SubComponentProcessor()
    back = s.undo_transform(flat)
    colors = {}
    contain = set()
    left = set()
    for a, v in back.items():
        if relational(a) and a[0] == 'has-component':
            x, y = decode(a[1])[0][-1], decode(a[2])[0][-1]
            left.add((x, y))
            # the names in a relation may be spelled by their place
            for e in a[1:]:
                p = decode(e)[0]
                contain.update(zip(p, p[1:]))
        elif a == 'k':
            ctx.check(v == 1, 'value')
        else:
            p = decode(a)[0]
            colors[p[-2]] = v
            ctx.check(len(set(p)) == len(p), 'an object contains itself', a)
            contain.update(zip(p[:-1], p[1:-1]))
    ctx.check(colors == {o: flat[('color', o)] for o in objs},
              'undoing lost attributes:', back)
    ctx.check(contain | left == pairs, 'undoing lost or invented '
              'containments:', contain, left, 'given', pairs, 'result', back)
    again = s.transform(back)
    got = {(decode(a[1])[0][-1], decode(a[2])[0][-1]) for a in again if
           relational(a)}
    ctx.check(got == pairs, 'containments after another round are', got,
              'not', pairs)
    if left:
        ctx.ev('left relational')


SCENARIOS = [('steps', steps, 8), ('pipeline', pipeline, 6),
             ('lists', lists, 1), ('batch', stateless_batch, 1),
             ('shared', shared, 1), ('stages', stages, 1),
             ('placed', placed, 1)]
