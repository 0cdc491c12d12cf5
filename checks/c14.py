"""C14: learning is reproducible and trees do not affect one another."""
import copy
import pickle
import hashlib
import os
import random
import subprocess
import sys

from harness import gen, ops, snap
from harness.core import REPO, case_rng

PID = 'C14'
CASES = {'quick': 2437, 'thorough': 31200}
REQUIRED = {'same seed compared': 2000, 'result compared': 4000,
            'among others': 3000, 'cleared': 150, 'deep copy continued': 1500,
            'deep copy diverged': 150, 'structured compared': 150,
            'other process compared': 20, 'whole run compared': 80}
RULE = ('Twin trees perform the same random operations with the same seeds: '
        'alone and while other trees learn in between, new and cleared, '
        'original and deep copy, in this process and in processes with other '
        'hash seeds. Trees and query results have to be equal after every '
        'step. Non-trivial: a distinct (tree, last result).')
ASSUMPTIONS = ['across processes with other hash seeds only flat instances '
               'are compared: matching of objects breaks ties by set order']


def result(tree, x):
    """Canonical text of what an operation returned."""
    if hasattr(x, 'av_counts'):
        return snap.canon_tree(tree, mark=x)
    if isinstance(x, dict):
        return repr(sorted((snap.key(k), result(tree, v)) for k, v in
                           x.items()))
    if isinstance(x, (list, tuple)):
        return repr([result(tree, e) for e in x])
    return snap.key(x)


def act(rng, spec_query, stream):
    """A random operation as (name, function of a tree)."""
    k = rng.randrange(6)
    if k == 0:
        q = spec_query()
        return 'categorize', lambda t: t.categorize(q)
    if k == 1:
        q = spec_query()
        c = rng.choice(['most likely', 'sampled'])
        n = rng.random() < 0.5
        return 'infer', lambda t: t.infer_missing(q, c, n)
    if k == 2:
        i = rng.random()
        c = rng.choice(['most likely', 'sampled'])

        def predict(t):
            nodes = snap.walk(t.root)
            n = nodes[int(i * len(nodes))]
            return [n.predict(a, c) for a in sorted(n.av_counts,
                                                    key=snap.key)]
        return 'predict', predict
    if k == 3:
        from concept_formation import cluster as C
        some = [rng.choice(stream) for _ in range(3)]
        # node names differ between trees, so only the partition is compared

        def clust(t):
            out = []
            for lab in C.cluster(t, some, maxsplit=3):
                first = {}
                out.append([first.setdefault(x, len(first)) for x in lab])
            return out
        return 'cluster', clust
    if k == 4:
        part = [rng.choice(stream) for _ in range(rng.randint(1, 4))]
        it = rng.randint(1, 2)
        rf = rng.random() < 0.5
        return 'fit', lambda t: t.fit(part, iterations=it,
                                      randomize_first=rf)
    inst = rng.choice(stream)
    return 'ifit', lambda t: t.ifit(inst)


def both(ctx, a, b, name, f, seed, between=None):
    random.seed(seed)
    r1 = result(a, f(a))
    if between:
        between()
    random.seed(seed)
    r2 = result(b, f(b))
    ctx.check(r1 == r2, name, 'gave different results with the same seed:',
              r1, r2)
    ctx.check(snap.canon_tree(a) == snap.canon_tree(b), name, 'with the same '
              'seed gave different trees:', str(a.root), str(b.root))
    ctx.ev('result compared')


def setup(rng, ctx, big=25):
    if rng.random() < 0.2:
        kind = rng.choice(['trestle', 'trestle-off'])
        spec = gen.StructSpec(rng, max_objects=3)
        stream = spec.stream(rng.randint(2, 8))
        ctx.note = (kind, stream)
        return kind, stream, spec.instance, True
    kind, _, spec, stream = gen.flat_setup(rng, big=big)
    ctx.note = (kind, stream)
    return kind, stream, spec.query, False


def same_seed(rng, ctx):
    kind, stream, query, struct = setup(rng, ctx)
    a, b = gen.make_tree(kind), gen.make_tree(kind)
    others = [gen.make_tree(rng.choice(['cobweb', 'cobweb3', 'trestle']))
              for _ in range(2)]
    noise = gen.FlatSpec(rng, tuples=False)

    def between():
        t = rng.choice(others)
        for _ in range(rng.randint(1, 3)):
            t.ifit(noise.instance())
        t.categorize(noise.instance())
        if rng.random() < 0.2:
            t.clear()
        ctx.ev('among others')

    for inst in stream:
        both(ctx, a, b, 'ifit', lambda t: t.ifit(inst), rng.getrandbits(32),
             between)
        ctx.ev('same seed compared')
        if struct:
            ctx.ev('structured compared')
        if rng.random() < 0.4:
            name, f = act(rng, query, stream)
            both(ctx, a, b, name, f, rng.getrandbits(32), between)
    ctx.seen(snap.canon(a.root))
    ctx.sample('%s: %d fits' % (kind, len(stream)))


def whole_run(rng, ctx):
    """One seed at the start of the whole history."""
    kind, stream, query, struct = setup(rng, ctx)
    todo = [('ifit', lambda t, i=i: t.ifit(i)) for i in stream]
    for _ in range(5):
        todo.insert(rng.randint(1, len(todo)), act(rng, query, stream))
    seed = rng.getrandbits(32)
    logs = []
    for _ in range(2):
        tree = gen.make_tree(kind)
        random.seed(seed)
        log = []
        for name, f in todo:
            log.append((name, result(tree, f(tree))))
        log.append(('end', snap.canon_tree(tree)))
        logs.append(log)
    for x, y in zip(*logs):
        ctx.check(x == y, 'the same seed and history gave', x, y)
    ctx.ev('whole run compared')
    ctx.seen(logs[0][-1][1])


def cleared(rng, ctx):
    kind, stream, query, struct = setup(rng, ctx)
    a, b = gen.make_tree(kind), gen.make_tree(kind)
    before = rng.sample(stream, rng.randint(1, len(stream)))
    for inst in before:
        a.ifit(inst)
    if rng.random() < 0.5:
        a.categorize(query())
        a.infer_missing(query())
    a.clear()
    ctx.check(snap.canon_tree(a) == snap.canon_tree(b),
              'a cleared tree is not as a new one')
    for inst in stream:
        both(ctx, b, a, 'ifit after clear', lambda t: t.ifit(inst),
             rng.getrandbits(32))
        if rng.random() < 0.3:
            name, f = act(rng, query, stream)
            both(ctx, b, a, name + ' after clear', f, rng.getrandbits(32))
    ctx.ev('cleared')
    ctx.seen(snap.canon(a.root))


def deep_copy(rng, ctx):
    kind, stream, query, struct = setup(rng, ctx)
    a, w = gen.make_tree(kind), gen.make_tree(kind)
    cut = rng.randint(0, len(stream))
    for inst in stream[:cut]:
        seed = rng.getrandbits(32)
        random.seed(seed)
        a.ifit(inst)
        random.seed(seed)
        w.ifit(inst)
    if rng.random() < 0.35:
        b = pickle.loads(pickle.dumps(a))
        ctx.ev('restored')
    else:
        b = copy.deepcopy(a)
    ctx.check(snap.canon_tree(a) == snap.canon_tree(b), 'a deep copy differs')
    ids = {id(n) for n in snap.walk(a.root)}
    for n in snap.walk(b.root):
        ctx.check(id(n) not in ids, 'a deep copy shares concepts')
        ctx.check(n.tree is b, 'a copied concept belongs to the original')
    # the copy goes on like the witness while the original goes elsewhere
    other = list(stream)
    rng.shuffle(other)
    for i, inst in enumerate(stream[cut:] + stream[:3]):
        frozen = snap.snapshot(a)
        both(ctx, w, b, 'ifit on a deep copy', lambda t: t.ifit(inst),
             rng.getrandbits(32))
        d = snap.diff(frozen, snap.snapshot(a))
        ctx.check(d is None, 'fitting a deep copy changed the original', d)
        frozen = snap.snapshot(b)
        a.ifit(other[i % len(other)])
        d = snap.diff(frozen, snap.snapshot(b))
        ctx.check(d is None, 'fitting the original changed a deep copy', d)
        ctx.ev('deep copy continued')
    ctx.ev('deep copy diverged')
    ctx.seen(snap.canon(b.root))


CHILD = '''
import sys, random, json, hashlib
sys.path.insert(0, %r); sys.path.insert(1, %r)
from checks.c14 import digest
print(digest(int(sys.argv[1]), int(sys.argv[2])))
'''


def partition(labels):
    """Which instances are together; the names do not matter."""
    seen = {}
    return repr([seen.setdefault(x, len(seen)) for x in labels])


def digest(seed, index):
    """What a whole run in this process ends with."""
    from concept_formation import cluster as C
    rng = case_rng(seed, PID, 'process', index)
    out = []
    for _ in range(4):
        kind = rng.choice(['cobweb', 'cobweb3', 'cobweb3', 'cobweb3-off',
                           'trestle'])
        spec = gen.FlatSpec(rng, tuples=False)
        spec.noise = rng.choice([0.2, 0.5, 1.0])
        stream = spec.stream(rng.randint(10, 30))
        # values with names that hash differently in each process
        tree = gen.make_tree(kind)
        random.seed(rng.getrandbits(32))
        tree.fit(stream, iterations=rng.randint(1, 2))
        out.append(snap.canon_tree(tree))
        for _ in range(5):
            q = spec.query()
            out.append(result(tree, tree.categorize(q)))
            out.append(result(tree, tree.infer_missing(q, 'sampled')))
        some = stream[:8]
        for labels in C.cluster(tree, some, minsplit=1, maxsplit=3,
                                mod=False):
            out.append(partition(labels))
        out.append(partition(C.k_cluster(tree, some, k=3, mod=False)))
        out.append(partition(C.cluster_split_search(
            tree, some, rng.choice([C.CU, C.AIC, C.BIC, C.AICc]),
            minsplit=1, maxsplit=4, mod=True)))
    return hashlib.sha256('\n'.join(out).encode()).hexdigest()


def processes(rng, ctx):
    index = rng.getrandbits(30)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    got = {}
    for h in ['0', str(rng.randint(1, 4000000000))]:
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, '-B', '-c', CHILD % (REPO, here), '1',
                            str(index)], env=env, cwd='/',
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, timeout=120)
        ctx.check(p.returncode == 0, 'a run in another process failed:',
                  p.stderr[-800:])
        got[h] = p.stdout.strip()
    ctx.note = ('process', index, got)
    ctx.check(len(set(got.values())) == 1, 'the same seed gives another '
              'result in another process:', got)
    ctx.ev('other process compared')



SCENARIOS = [('same seed', same_seed, 4), ('whole run', whole_run, 2),
             ('cleared', cleared, 4), ('deep copy', deep_copy, 4)]
DIRECTED = [('processes %d' % i, processes) for i in range(40)]
