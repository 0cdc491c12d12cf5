"""C10: utility scores follow their definition and the realised utility."""
import copy

from harness import gen, snap
from harness.core import close
from harness.ref import Model, Node, from_real, join

PID = 'C10'
CASES = {'quick': 8000, 'thorough': 102400}
REQUIRED = {'expected correct guesses': 20000, 'category utility': 4000,
            'insert': 5000, 'new': 2000, 'merge': 1000, 'split': 800,
            'fringe': 2000, 'ranking': 1500, 'best operation': 1500,
            'numeric concept': 5000, 'structured': 200,
            'standalone concept': 150}
RULE = ('For concepts of learned trees, scores are compared with the '
        'reference computed from the definition and with the utility found '
        'after performing the operation on a deep copy. Non-trivial: a '
        'distinct (concept, children, instance, operation).')
ASSUMPTIONS = ['finite numbers below 1e7; agreement to 1e-8']


def eq(a, b):
    return close(a, b, 1e-8, 1e-9)


def definitions(ctx, tree, model):
    ref = from_real(tree.root)
    stack = [ref]
    while stack:
        r = stack.pop()
        stack.extend(r.children)
        node = r.real
        e = node.expected_correct_guesses()
        ctx.check(eq(e, model.ecg(r)), 'expected correct guesses of',
                  node.av_counts, node.count, 'are', e, 'should be',
                  model.ecg(r))
        ctx.check(-1e-12 <= e <= 1 + 1e-9, 'expected correct guesses', e,
                  'out of range')
        ctx.ev('expected correct guesses')
        if any(snap.is_cv(c) for a in node.av_counts
               for c in node.av_counts[a].values()):
            ctx.ev('numeric concept')
        u = node.category_utility()
        ctx.check(eq(u, model.cu(r)), 'category utility of', str(node), 'is',
                  u, 'should be', model.cu(r))
        if r.children:
            ctx.ev('category utility')
        else:
            ctx.check(u == 0, 'a leaf has category utility', u)
    return ref


def twin_of(tree, node):
    """The corresponding concept of a deep copy of the tree."""
    t = copy.deepcopy(tree)
    nodes = snap.walk(tree.root)
    twins = snap.walk(t.root)
    i = next(i for i, n in enumerate(nodes) if n is node)
    return twins[i]


def realised(tree, node, inst, op, i=None, j=None):
    n = twin_of(tree, node)
    if op == 'insert':
        c = n.children[i]
        n.increment_counts(inst)
        c.increment_counts(inst)
    elif op == 'new':
        n.increment_counts(inst)
        n.create_new_child(inst)
    elif op == 'merge':
        a, b = n.children[i], n.children[j]
        n.increment_counts(inst)
        n.merge(a, b).increment_counts(inst)
    elif op == 'split':
        n.split(n.children[i])
    return n.category_utility()


def operations(rng, ctx, tree, model, r, inst):
    node = r.real
    kids = list(node.children)
    k = len(kids)
    up = model.plus(r, inst)
    by = {id(x.real): x for x in r.children}
    ref = [by[id(c)] for c in kids]

    def judge(op, got, want, real):
        ctx.check(eq(got, want), 'the utility of', op, 'is given as', got,
                  'by definition it is', want, 'concept', str(node),
                  'instance', inst)
        ctx.check(eq(got, real), 'the utility of', op, 'is given as', got,
                  'but performing it gives', real, 'concept', str(node),
                  'instance', inst)
        ctx.ev(op)
        ctx.seen((op, snap.canon(node), repr(sorted((snap.key(a), snap.key(
            v)) for a, v in inst.items()))))

    cus = []
    for i in range(k):
        rest = ref[:i] + ref[i + 1:]
        want = model.cu(Node(up.count, up.table,
                             rest + [model.plus(ref[i], inst)]))
        cus.append(want)
        if i < 3:
            judge('insert', node.cu_for_insert(kids[i], inst), want,
                  realised(tree, node, inst, 'insert', i))
    judge('new', node.cu_for_new_child(inst),
          model.cu(Node(up.count, up.table, ref + [model.leaf(inst)])),
          realised(tree, node, inst, 'new'))
    if k > 2:
        i, j = rng.sample(range(k), 2)
        m = Node(ref[i].count + ref[j].count,
                 join(ref[i].table, ref[j].table))
        rest = [c for x, c in enumerate(ref) if x not in (i, j)]
        judge('merge', node.cu_for_merge(kids[i], kids[j], inst),
              model.cu(Node(up.count, up.table,
                            rest + [model.plus(m, inst)])),
              realised(tree, node, inst, 'merge', i, j))
    inner = [i for i in range(k) if kids[i].children]
    if inner:
        i = rng.choice(inner)
        judge('split', node.cu_for_split(kids[i]),
              model.cu(Node(r.count, r.table, ref[:i] + ref[i + 1:] +
                            list(ref[i].children))),
              realised(tree, node, inst, 'split', i))
    # ranking
    const = node.compute_relative_CU_const(inst)
    rel = [node.relative_cu_for_insert(c, inst) for c in kids]
    for i in range(k):
        ctx.check(eq(rel[i] / k / (node.count + 1) + const, cus[i]),
                  'relative score', rel[i], 'and constant', const,
                  'do not give the utility', cus[i])
        for j in range(k):
            if cus[i] > cus[j] + 1e-8:
                ctx.check(rel[i] > rel[j], 'relative scores', rel,
                          'rank children otherwise than utilities', cus)
    ctx.ev('ranking')
    cu1, b1, b2 = node.two_best_children(inst)
    i = next(x for x in range(k) if kids[x] is b1)
    ctx.check(eq(cu1, cus[i]) and cus[i] >= max(cus) - 1e-8,
              'the best child has utility', cu1, 'utilities are', cus)
    if k > 1:
        j = next(x for x in range(k) if kids[x] is b2)
        ctx.check(i != j and cus[j] >= max(c for x, c in enumerate(cus)
                                           if x != i) - 1e-8,
                  'the second best child is no. %d of' % j, cus)
    # best operation among a subset
    names = {'best': cus[i], 'new': node.cu_for_new_child(inst)}
    if k > 2:
        names['merge'] = node.cu_for_merge(b1, b2, inst)
    if b1.children:
        names['split'] = node.cu_for_split(b1)
    want = rng.choice([['best', 'new', 'merge', 'split'], ['best', 'new'],
                       ['best'], ['new', 'split']])
    opts = {o: u for o, u in names.items() if o in want}
    u, name = node.get_best_operation(inst, b1, b2, cu1, possible_ops=want)
    ctx.check(name in opts and eq(u, opts[name]) and
              opts[name] >= max(opts.values()) - 1e-8,
              'best operation', (u, name), 'of', opts)
    ctx.ev('best operation')


def fringe(ctx, tree, model, r, inst):
    node = r.real
    got = node.cu_for_fringe_split(inst)
    up = model.plus(r, inst)
    want = model.cu(Node(up.count, up.table, (r, model.leaf(inst))))
    ctx.check(eq(got, want), 'the utility of a fringe split is given as', got,
              'should be', want, 'leaf', str(node), 'instance', inst)
    n = twin_of(tree, node)
    n.create_child_with_current_counts()
    n.increment_counts(inst)
    n.create_new_child(inst)
    ctx.check(eq(got, n.category_utility()), 'the utility of a fringe split '
              'is given as', got, 'performing it gives', n.category_utility())
    ctx.ev('fringe')


def probe(rng, ctx, tree, model, query, few=False):
    ref = definitions(ctx, tree, model)
    all_ = []
    stack = [ref]
    while stack:
        r = stack.pop()
        all_.append(r)
        stack.extend(r.children)
    inner = [r for r in all_ if r.children]
    leaves = [r for r in all_ if not r.children]
    for r in rng.sample(inner, min(2, len(inner))):
        operations(rng, ctx, tree, model, r, query())
    for r in rng.sample(leaves, min(2, len(leaves))):
        fringe(ctx, tree, model, r, query())


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(
        rng, kinds=['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3-off',
                    'cobweb3-s1', 'cobweb3-s2', 'cobweb3-noinner'],
        big=40, mixed=rng.random() < 0.2)
    model = Model.for_tree(tree, kind)
    ctx.note = (kind, stream)
    at = {len(stream) - 1, rng.randrange(len(stream))}
    for i, inst in enumerate(stream):
        tree.ifit(inst)
        model.learn_scales(inst)
        if i in at:
            probe(rng, ctx, tree, model, spec.query)
    ctx.sample('%s: %d instances such as %r' % (kind, len(stream), stream[-1]))


def structured(rng, ctx):
    kind = rng.choice(['trestle', 'trestle-off', 'trestle-noinner'])
    tree = gen.make_tree(kind)
    spec = gen.StructSpec(rng, max_objects=3)
    stream = spec.stream(rng.randint(3, 10))
    ctx.note = (kind, stream)
    from harness.ledger import Ledger
    led = Ledger(ctx, tree, structured=True)
    model = Model.for_tree(tree, kind)
    last = {}
    for inst in stream:
        led.before()
        leaf = tree.ifit(inst)
        last = led.delta(leaf, inst)
        model.learn_scales(last)
        led.after(leaf, inst)
    probe(rng, ctx, tree, model, lambda: {
        a: v for a, v in last.items() if rng.random() < 0.8})
    ctx.ev('structured')


def standalone(rng, ctx):
    """Concepts that belong to no tree: unscaled."""
    from concept_formation.cobweb import CobwebNode
    from concept_formation.cobweb3 import Cobweb3Node
    numeric = rng.random() < 0.8
    cls = Cobweb3Node if numeric else CobwebNode
    spec = gen.FlatSpec(rng, tame=True)
    root = cls()
    for _ in range(rng.randint(1, 4)):
        kid = cls()
        kid.parent = root
        root.children.append(kid)
        for inst in spec.stream(rng.randint(1, 4)):
            root.increment_counts(inst)
            kid.increment_counts(inst)
    ctx.note = ('standalone', numeric, str(root))
    model = Model(numeric, False, True)

    class Alone(object):
        pass

    tree = Alone()
    tree.root = root
    probe(rng, ctx, tree, model, spec.query)
    ctx.ev('standalone concept')


SCENARIOS = [('flat', flat, 5), ('structured', structured, 1),
             ('standalone', standalone, 1)]
