"""C02: the concept hierarchy is always a well-formed tree."""
import os
import pickle
import random
import subprocess
import sys

from harness import gen, snap
from harness.core import REPO

PID = 'C02'
CASES = {'quick': 11250, 'thorough': 144000}
REQUIRED = {'fit': 20000, 'node checked': 200000, 'leaf match': 1000,
            'root replaced': 300, 'structured fit': 2000,
            'restored elsewhere': 40}
RULE = ('A case is a generated stream fitted into one tree; after every fit '
        'the whole hierarchy is walked and the returned leaf and all earlier '
        'ones are examined. Non-trivial: a distinct hierarchy shape with at '
        'least three concepts.')
ASSUMPTIONS = ['values are finite numbers or hashable labels; equal-hash '
               'labels of different types are not mixed']


def shape(node):
    return '(%s)' % ''.join(sorted(shape(c) for c in node.children))


def examine(ctx, tree, owned, ids):
    root = tree.root
    ctx.check(root.parent is None, 'the root has a parent')
    seen = {}
    leaves = set()
    for n in snap.walk(root):
        ctx.ev('node checked')
        ctx.check(id(n) not in seen, 'a concept is reachable twice')
        seen[id(n)] = n
        ctx.check(n.tree is tree, 'a concept does not belong to its tree')
        ctx.check(n.count > 0, 'an empty concept is in the tree')
        k = len(n.children)
        ctx.check(k != 1, 'a concept has a single child')
        for c in n.children:
            ctx.check(c.parent is n,
                      'a child does not point back to its parent')
        if k == 0:
            leaves.add(id(n))
            pure(ctx, n)
        else:
            ctx.check(sum(c.count for c in n.children) == n.count,
                      'children of a concept do not partition it:',
                      [c.count for c in n.children], n.count)
    cids = [n.concept_id for n in seen.values()]
    ctx.check(len(set(cids)) == len(cids), 'two concepts share an identity')
    for n in seen.values():
        old = ids.setdefault(id(n), (n, n.concept_id))
        ctx.check(old[1] == n.concept_id, 'a concept changed its identity')
    for i, (leaf, count) in owned.items():
        ctx.check(i in leaves, 'a leaf returned by an earlier fit is no '
                  'longer a leaf of the tree')
        ctx.check(leaf.count >= count, 'an earlier leaf lost instances')
    if len(seen) > 2:
        ctx.seen(shape(root))
    return seen


def pure(ctx, leaf):
    """A leaf's instances agree on all visible attributes."""
    for a, vals in leaf.av_counts.items():
        if a[0] == '_':
            continue
        ctx.check(len(vals) == 1, 'a leaf has several values of', a, vals)
        for v, c in vals.items():
            if snap.is_cv(c):
                ctx.check(c.num == leaf.count and c.unbiased_std() == 0.0,
                          'a leaf has differing numbers for', a, c)
            else:
                ctx.check(c == leaf.count, 'a leaf mixes instances with and '
                          'without', a, vals, leaf.count)


def contains(ctx, leaf, inst, numeric):
    vis = {a for a in leaf.av_counts if a[0] != '_'}
    want = {a for a in inst if a[0] != '_'}
    ctx.check(vis == want, 'the returned leaf has attributes', vis,
              'for instance', inst)
    for a, v in inst.items():
        vals = leaf.av_counts.get(a, {})
        if numeric and snap.is_number(v):
            cvs = [c for c in vals.values() if snap.is_cv(c)]
            ctx.check(len(cvs) == 1, 'the returned leaf lacks numeric', a)
            if a[0] != '_':
                ctx.check(cvs[0].unbiased_mean() == v,
                          'the returned leaf holds', cvs[0], 'for', a, v)
        else:
            ctx.check(v in vals and vals[v] >= 1,
                      'the returned leaf lacks', a, v, vals)


def drive(rng, ctx, kind, tree, stream, structured=False):
    owned = {}
    ids = {}
    numeric = kind != 'cobweb'
    ctx.note = (kind, stream)
    for inst in stream:
        root = tree.root
        counts = {i: l.count for i, (l, _) in owned.items()}
        leaf = tree.ifit(gen.handed(rng, inst))
        ctx.ev('structured fit' if structured else 'fit')
        if tree.root is not root:
            ctx.ev('root replaced')
        nodes = examine(ctx, tree, owned, ids)
        ctx.check(leaf is not None and id(leaf) in nodes,
                  'a fit returned a concept outside the tree')
        ctx.check(not leaf.children, 'a fit returned an internal concept')
        if not structured:
            contains(ctx, leaf, inst, numeric)
        if id(leaf) in counts:
            ctx.ev('leaf match')
            ctx.check(leaf.count == counts[id(leaf)] + 1,
                      'an existing leaf took the instance but grew from',
                      counts[id(leaf)], 'to', leaf.count)
        else:
            ctx.check(leaf.count == 1, 'a new leaf starts with', leaf.count)
        for i, c in counts.items():
            if i != id(leaf):
                ctx.check(owned[i][0].count == c,
                          'a leaf that did not get the instance changed')
        owned[id(leaf)] = (leaf, leaf.count)
    ctx.check(len(owned) == sum(1 for n in snap.walk(tree.root)
                                if not n.children),
              'the tree has leaves no fit returned')


def flat(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, mixed=rng.random() < 0.1)
    drive(rng, ctx, kind, tree, stream)
    ctx.sample('%s: %d instances such as %r' % (kind, len(stream), stream[-1]))


def pool(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng)
    p = stream[:rng.randint(2, 8)]
    drive(rng, ctx, kind, tree,
          [dict(rng.choice(p)) for _ in range(rng.randint(10, 60))])


def skew(rng, ctx):
    """Streams that first build one structure and then contradict it."""
    kind = rng.choice(['cobweb', 'cobweb3', 'cobweb3-off'])
    s1 = gen.FlatSpec(rng, numeric=kind != 'cobweb')
    s1.noise = 0.05
    s2 = gen.FlatSpec(rng, numeric=False, hidden=False)
    a = s1.stream(rng.randint(10, 30))
    b = s1.stream(rng.randint(5, 20))
    for x in b:
        for k in list(x):
            if rng.random() < 0.5:
                del x[k]
    c = [{('n', str(k)): v for k, v in i.items()} for i in
         s2.stream(rng.randint(3, 12))]
    drive(rng, ctx, kind, gen.make_tree(kind), a + b + c + a[:5])


def structured(rng, ctx):
    kind = rng.choice(['trestle', 'trestle', 'trestle-off'])
    spec = gen.StructSpec(rng, max_objects=3)
    drive(rng, ctx, kind, gen.make_tree(kind),
          spec.stream(rng.randint(3, 16)), structured=True)


CHILD = '''
import sys, random, pickle
sys.path.insert(0, %r); sys.path.insert(1, %r)
from checks.c02 import continued
pickle.dump(continued(pickle.load(sys.stdin.buffer)), sys.stdout.buffer)
'''


def continued(job):
    """In a new process: restores the tree and goes on fitting."""
    data, stream, seed = job
    random.seed(seed)
    tree = pickle.loads(data)
    for inst in stream:
        leaf = tree.ifit(inst)
    nodes = snap.walk(tree.root)
    return (sorted(n.concept_id for n in nodes), leaf in nodes,
            all(c.parent is n for n in nodes for c in n.children),
            all(n.tree is tree for n in nodes), tree.root.count)


def restored(rng, ctx):
    """A tree stored by one process goes on growing in another one."""
    kind = rng.choice(['cobweb', 'cobweb3', 'trestle'])
    spec = gen.FlatSpec(rng, numeric=kind != 'cobweb')
    tree = gen.make_tree(kind)
    stream = spec.stream(rng.randint(5, 40))
    cut = rng.randint(1, len(stream) - 1)
    for inst in stream[:cut]:
        tree.ifit(inst)
    ctx.note = (kind, stream, 'stored after', cut)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run(
        [sys.executable, '-B', '-c', CHILD % (REPO, here)], cwd='/',
        input=pickle.dumps((pickle.dumps(tree), stream[cut:],
                            rng.getrandbits(30))),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    ctx.check(p.returncode == 0, 'going on in another process failed:',
              p.stderr.decode()[-800:])
    ids, inside, linked, owned, count = pickle.loads(p.stdout)
    ctx.check(len(set(ids)) == len(ids),
              'two concepts of a restored tree share an identity', ids)
    ctx.check(inside and linked and owned and count == len(stream),
              'a restored tree is not well-formed')
    ctx.ev('restored elsewhere')


DIRECTED = [('restored %d' % i, restored) for i in range(40)]
SCENARIOS = [('flat', flat, 5), ('pool', pool, 2), ('skew', skew, 3),
             ('structured', structured, 3)]
