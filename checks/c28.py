"""C28: structural queries and concept copies agree with the tree."""
import copy
import re

from harness import gen, snap
from harness.core import close

PID = 'C28'
CASES = {'quick': 8000, 'thorough': 102400}
REQUIRED = {'ancestor': 100000, 'no ancestor': 400000, 'attributes': 20000,
            'hidden attributes': 9000, 'filtered': 15000,
            'copy constructor': 1300, 'copy deepcopy': 600,
            'copy shallow': 600, 'independent': 2600,
            'depth and size': 80000, 'printed': 20000,
            'exact match': 10000, 'no exact match': 50000,
            'exact match of several': 800,
            'no exact match of several': 10000, 'performed merge': 300,
            'performed split': 300, 'performed new': 500,
            'performed fringe': 1000}
RULE = ('On trees of all kinds, at several points of a stream, every '
        'concept\'s depth, ancestor tests, size, attribute listings, copies '
        'and printed form are compared with a walk over the links; copies '
        'are then changed and the originals compared with a snapshot, and '
        'the other way round. Non-trivial: a distinct tree of more than one '
        'concept.')
ASSUMPTIONS = ['the printed form is only required to show each concept on '
               'a line of its own, indented by its depth, with its count and '
               'its attributes and values']


def structure(rng, ctx, tree):
    nodes = snap.walk(tree.root)
    depth = {id(tree.root): 0}
    anc = {id(tree.root): {id(tree.root)}}
    for n in nodes:
        for c in n.children:
            depth[id(c)] = depth[id(n)] + 1
            anc[id(c)] = anc[id(n)] | {id(c)}
    size = {}
    for n in reversed(nodes):
        size[id(n)] = 1 + sum(size[id(c)] for c in n.children)
    for n in nodes:
        ctx.check(n.depth() == depth[id(n)], 'depth is', n.depth(),
                  'should be', depth[id(n)])
        ctx.check(n.num_concepts() == size[id(n)], 'number of concepts is',
                  n.num_concepts(), 'should be', size[id(n)])
        ctx.ev('depth and size')
    some = nodes if len(nodes) <= 12 else rng.sample(nodes, 12)
    for a in some:
        for b in some:
            r = a.is_parent(b)
            ctx.check(bool(r) == (id(a) in anc[id(b)]), 'is_parent says', r,
                      'at depths', depth[id(a)], depth[id(b)])
            ctx.ev('ancestor' if r else 'no ancestor')
    other = gen.make_tree('cobweb')
    ctx.check(not other.root.is_parent(nodes[-1]) and
              not nodes[0].is_parent(other.root),
              'concepts of different trees are related')
    if size[id(tree.root)] > 1:
        ctx.seen(snap.canon(tree.root))
    return depth, size


def attributes(rng, ctx, tree):
    for n in snap.walk(tree.root):
        every = list(n.av_counts)
        ctx.check(sorted(map(snap.key, n.attrs('all'))) ==
                  sorted(map(snap.key, every)), 'all attributes are',
                  list(n.attrs('all')), 'of', every)
        vis = [a for a in every if a[0] != '_']
        for got in (list(n.attrs()), list(n.attrs(None))):
            ctx.check(sorted(map(snap.key, got)) ==
                      sorted(map(snap.key, vis)), 'visible attributes are',
                      got, 'of', every)
        ctx.ev('attributes')
        if len(vis) < len(every):
            ctx.ev('hidden attributes')
        pick = {a for a in every if rng.random() < 0.5}
        got = list(n.attrs(lambda a: a in pick))
        ctx.check(sorted(map(snap.key, got)) == sorted(map(snap.key, pick)),
                  'filtered attributes are', got, 'should be', pick)
        ctx.check(list(n.attrs(lambda a: False)) == [], 'an empty filter')
        if pick:
            ctx.ev('filtered')


def near(x, y):
    if isinstance(x, tuple) and x[:1] == ('#num',):
        return (isinstance(y, tuple) and len(x) == len(y) and
                x[1] == y[1] and close(x[2], y[2], 1e-12, 1e-15) and
                all(close(p, q, 1e-9, 1e-12 * (1 + abs(x[2])))
                    for p, q in zip(x[3:], y[3:])))
    return x == y


def equal(a, b, deep):
    if float(a.count) != float(b.count):
        return False
    s, t = snap.table(a), snap.table(b)
    if set(s) != set(t) or any(
            set(s[x]) != set(t[x]) or
            any(not near(s[x][v], t[x][v]) for v in s[x]) for x in s):
        return False
    if not deep:
        return True
    return (len(a.children) == len(b.children) and
            all(equal(x, y, True) for x, y in zip(a.children, b.children)))


def ids(n):
    return {x.concept_id for x in snap.walk(n)}


def identities(node):
    """Everything mutable a concept owns."""
    out = set()
    for n in snap.walk(node):
        out.add(id(n))
        out.add(id(n.av_counts))
        out.add(id(n.children))
        for vals in n.av_counts.values():
            out.add(id(vals))
            for c in vals.values():
                if snap.is_cv(c):
                    out.add(id(c))
    return out


def copies(rng, ctx, tree, insts):
    nodes = snap.walk(tree.root)
    node = rng.choice(nodes)
    mode = rng.choice(['shallow', 'constructor', 'constructor', 'deepcopy'])
    before = snap.snapshot(tree)
    known = ids(tree.root)
    if mode == 'shallow':
        c = node.shallow_copy()
        ctx.check(equal(c, node, False), 'a shallow copy differs', str(c),
                  str(node))
        ctx.check(not c.children, 'a shallow copy has children')
    elif mode == 'constructor':
        c = node.__class__(node)
        ctx.check(equal(c, node, True), 'a copy differs', str(c), str(node))
        ctx.check(len(ids(c)) == len(snap.walk(c)), 'copied concepts share '
                  'an identity')
    else:
        t = copy.deepcopy(tree)
        c = t.root
        ctx.check(equal(c, tree.root, True), 'a copied tree differs')
        for x in snap.walk(c):
            ctx.check(x.tree is t, 'a copied concept belongs to the original')
        structure(rng, ctx, t)
    if mode != 'deepcopy':
        ctx.check(type(c) is type(node), 'a copy is a', type(c))
        ctx.check(c.tree is node.tree, 'a copy belongs to another tree')
        ctx.check(c.parent is node.parent, 'a copy has another parent')
        ctx.check(not (ids(c) & known), 'a copy has the identity of a '
                  'concept of the tree')
        ctx.check(mode == 'shallow' or
                  close(c.category_utility(), node.category_utility(), 1e-9,
                        1e-9), 'a copy has another utility')
        ctx.check(close(c.expected_correct_guesses(),
                        node.expected_correct_guesses(), 1e-9, 1e-9),
                  'a copy has other expected correct guesses')
    ctx.check(not (identities(c) & identities(tree.root)),
              'a copy shares parts with the original')
    ctx.check(snap.diff(before, snap.snapshot(tree)) is None,
              'copying changed the tree')
    ctx.ev('copy ' + mode)
    # independent: change the copy, then the original
    inst = rng.choice(insts)
    for x in snap.walk(c):
        x.increment_counts(inst)
    d = snap.diff(before, snap.snapshot(tree))
    ctx.check(d is None, 'changing a copy changed the tree:', d)
    frozen = [(x, float(x.count), snap.table(x)) for x in snap.walk(c)]
    for x in insts[:2]:
        tree.ifit(x)
    for x, n, tab in frozen:
        ctx.check(float(x.count) == n and snap.table(x) == tab,
                  'changing the tree changed a copy')
    ctx.ev('independent')


def exact(node, inst):
    """Does every instance of the concept equal this one? None if the
    numbers are too close to tell."""
    numeric = hasattr(node, 'get_inner_attr') or node.__class__.__name__ != \
        'CobwebNode'
    vis = {a for a in node.av_counts if a[0] != '_'}
    if vis != {a for a in inst if a[0] != '_'}:
        return False
    unsure = False
    for a in vis:
        x = inst[a]
        vals = node.av_counts[a]
        if not (numeric and snap.is_number(x)):
            if x not in vals or snap.is_cv(vals[x]) or vals[x] != node.count:
                return False
            continue
        cv = [c for c in vals.values() if snap.is_cv(c)]
        if len(vals) != 1 or not cv or cv[0].num != node.count:
            return False
        cv = cv[0]
        if cv.mean == x and (cv.meanSq == 0 or cv.num < 2):
            continue
        eps = 1e-9 * (1 + abs(x))
        if abs(cv.mean - x) > eps or (cv.num > 1 and
                                      cv.meanSq / cv.num > eps * eps):
            return False
        unsure = True
    return None if unsure else True


def only(node):
    """The instance having each attribute's most frequent value."""
    out = {}
    for a, vals in node.av_counts.items():
        v, c = max(vals.items(), key=lambda p: p[1].num if snap.is_cv(p[1])
                   else p[1])
        out[a] = c.mean if snap.is_cv(c) else v
    return out


def matches(rng, ctx, tree, insts):
    nodes = snap.walk(tree.root)
    for n in nodes if len(nodes) <= 15 else rng.sample(nodes, 15):
        for inst in (only(n), dict(rng.choice(insts)), only(n), only(n)):
            r = rng.random()
            vis = [a for a in inst if a[0] != '_']
            if r < 0.2:
                inst['_hidden'] = rng.random()
            elif r < 0.4 and vis:
                del inst[rng.choice(sorted(vis, key=snap.key))]
            elif r < 0.5:
                inst['extra attribute'] = rng.choice(['x', 2.5])
            elif r < 0.65 and vis:
                a = rng.choice(sorted(vis, key=snap.key))
                inst[a] = rng.choice(['another value', 123456.75])
            want = exact(n, inst)
            if want is None:
                continue
            got = n.is_exact_match(inst)
            ctx.check(bool(got) == want, 'exact match of', inst, 'is', got,
                      'for the concept', n.count, n.av_counts)
            ctx.ev('exact match' if want else 'no exact match')
            if n.count > 1:
                ctx.ev('exact match of several' if want else
                       'no exact match of several')


def linked(ctx, root, what):
    seen = set()
    for n in snap.walk(root):
        ctx.check(id(n) not in seen, what, 'puts a concept in two places')
        seen.add(id(n))
        for c in n.children:
            ctx.check(c.parent is n, what, 'leaves a child with another '
                      'parent')
            ctx.check(c.tree is n.tree, what, 'leaves a child without the '
                      'tree of its parent')
        if n.children:
            ctx.check(close(sum(c.count for c in n.children), n.count, 1e-9,
                            1e-9), what, 'loses instances:', str(n))


def restructured(rng, ctx, tree, insts):
    """The operations on concepts, performed on a copy of the tree."""
    t = copy.deepcopy(tree)
    for _ in range(3):
        nodes = snap.walk(t.root)
        n = rng.choice(nodes)
        inst = rng.choice(insts)
        kids = list(n.children)
        ops = ['new'] if kids else ['fringe'] if n.count else []
        if len(kids) > 2:
            ops += ['merge'] * 2
        if any(c.children for c in kids):
            ops += ['split'] * 2
        if not ops:
            continue
        op = rng.choice(ops)
        ctx.log(op)
        if op in ('new', 'fringe'):
            for a in up(n):
                if a is not n:
                    a.increment_counts(inst)
            if op == 'fringe':
                was = n.shallow_copy()
                c = n.create_child_with_current_counts()
                ctx.check(equal(c, was, False) and equal(n, was, False) and
                          len(n.children) == 1 and n.children[0] is c,
                          'a fringe child differs')
            n.increment_counts(inst)
            c = n.create_new_child(inst)
            one = n.__class__()
            one.increment_counts(inst)
            ctx.check(equal(c, one, True) and c.count == 1, 'a new child has', c.count,
                      c.av_counts, 'for', inst)
            ctx.check(sum(1 for x in n.children if x is c) == 1 and
                      len(n.children) == len(kids) + (1 if op == 'new' else
                                                      2),
                      'the new child is not one of the children')
        elif op == 'merge':
            a, b = rng.sample(kids, 2)
            c = n.merge(a, b)
            ctx.check({id(x) for x in c.children} == {id(a), id(b)},
                      'a merged concept has other children')
            ctx.check({id(x) for x in n.children} == {
                id(x) for x in kids if x is not a and x is not b} | {id(c)},
                'merging changed the other children')
        else:
            c = rng.choice([x for x in kids if x.children])
            sub = list(c.children)
            n.split(c)
            ctx.check({id(x) for x in n.children} == {
                id(x) for x in kids + sub if x is not c}, 'splitting left '
                'other children')
        linked(ctx, t.root, op)
        structure(rng, ctx, t)
        ctx.ev('performed ' + op)


def up(n):
    out = [n]
    while out[-1].parent is not None:
        out.append(out[-1].parent)
    return out


def printed(rng, ctx, tree):
    from collections import Counter
    nodes = snap.walk(tree.root)
    depth = {id(tree.root): 0}
    for n in nodes:
        for c in n.children:
            depth[id(c)] = depth[id(n)] + 1
    if any('\n' in snap.key(a) or any('\n' in snap.key(v) for v in vals)
           for a, vals in tree.root.av_counts.items()):
        return
    text = str(tree)
    lines = text.split('\n')
    ctx.check(lines[-1] == '', 'the print does not end a line')
    lines.pop()
    ctx.check(len(lines) == len(nodes), len(nodes), 'concepts are printed on',
              len(lines), 'lines')
    # parents first, depth first: the printed depths follow the links
    want = Counter((depth[id(n)], str(n.count)) for n in nodes)
    got = Counter()
    for ln in lines:
        m = re.match(r'^(\t*)\|-', ln)
        ctx.check(m is not None, 'a printed line is', ln)
        got[(len(m.group(1)), re.split(r':\s*', ln)[-1])] += 1
    ctx.check(got == want, 'printed depths and counts', got, 'should be',
              want)
    for n, ln in zip(nodes, lines):
        ctx.check(len(ln) - len(ln.lstrip('\t')) == depth[id(n)],
                  'concept order and indentation do not follow the tree')
        for a, vals in n.av_counts.items():
            ctx.check(str(a) in ln or repr(a) in ln, 'attribute', a,
                      'is not printed in', ln)
            for v, c in vals.items():
                if not snap.is_cv(c):
                    ctx.check(str(v) in ln or repr(v) in ln, 'value', v,
                              'is not printed in', ln)
                    ctx.check(str(c) in ln, 'count', c, 'not printed')
    ctx.ev('printed', len(nodes))
    k = rng.randint(0, 3)
    n = rng.choice(nodes)
    sub = n.pretty_print(k) if k else n.pretty_print()
    ctx.check(sub.count('\n') == len(snap.walk(n)) and
              sub.startswith('\t' * k + '|-'), 'printing at depth', k, 'gave',
              sub)
    ctx.check(str(n) == n.pretty_print(), 'str and pretty_print differ')


def names(ctx, tree):
    nodes = snap.walk(tree.root)
    ctx.check(len({n.concept_id for n in nodes}) == len(nodes),
              'two concepts have the same name')
    for n in nodes:
        ctx.check(hash(n) == hash(n), 'hash varies')
    ctx.check(len(set(nodes)) == len(nodes), 'concepts are confused in sets')


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, big=40)
    ctx.note = (kind, stream)
    for i, x in enumerate(stream):
        if i % 7 == 0:
            structure(rng, ctx, tree)
        tree.ifit(x)
    everything(rng, ctx, tree, stream)
    ctx.sample('%s with %d concepts' % (kind, len(snap.walk(tree.root))))


def structured(rng, ctx):
    tree = gen.make_tree(rng.choice(['trestle', 'trestle-off']))
    spec = gen.StructSpec(rng, max_objects=2)
    stream = spec.stream(rng.randint(1, 8))
    ctx.note = stream
    for x in stream:
        tree.ifit(x)
    from checks.c18 import flatten
    everything(rng, ctx, tree, [flatten(x) for x in stream])


def everything(rng, ctx, tree, flat_insts):
    structure(rng, ctx, tree)
    attributes(rng, ctx, tree)
    names(ctx, tree)
    printed(rng, ctx, tree)
    matches(rng, ctx, tree, flat_insts)
    restructured(rng, ctx, tree, flat_insts)
    for _ in range(2):
        copies(rng, ctx, tree, flat_insts)
    structure(rng, ctx, tree)


def empty(rng, ctx):
    for kind in gen.TREES:
        tree = gen.make_tree(kind)
        ctx.check(tree.root.depth() == 0 and tree.root.num_concepts() == 1 and
                  list(tree.root.attrs()) == [] and
                  list(tree.root.attrs('all')) == [] and
                  tree.root.is_parent(tree.root), 'queries on an empty tree')
        printed(rng, ctx, tree)
        for c in (tree.root.__class__(tree.root), tree.root.shallow_copy()):
            ctx.check(equal(c, tree.root, True) and
                      c.concept_id != tree.root.concept_id, 'copy of an '
                      'empty concept')
        ctx.ev('empty tree')


SCENARIOS = [('flat', flat, 5), ('structured', structured, 1)]
DIRECTED = [('empty', empty)]
