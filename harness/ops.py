"""The read-only operations of the library, as random calls."""
import contextlib
import copy
import os
import shutil
import tempfile

from harness import snap


@contextlib.contextmanager
def no_browser():
    import webbrowser
    old = webbrowser.open
    calls = []
    webbrowser.open = lambda *a, **k: calls.append(a) or True
    try:
        yield calls
    finally:
        webbrowser.open = old


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-cf-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rnode(rng, tree):
    return rng.choice(snap.walk(tree.root))


def rinner(rng, tree):
    c = [n for n in snap.walk(tree.root) if n.children]
    return rng.choice(c) if c else None


def rattr(rng, node):
    a = list(node.av_counts)
    return rng.choice(a) if a and rng.random() < 0.9 else 'no-such-attr'


def categorize(rng, tree, q, stream):
    tree.categorize(q())


def infer(rng, tree, q, stream):
    tree.infer_missing(q(), rng.choice(['most likely', 'sampled', 'm', 's']),
                       rng.random() < 0.5)


def predict(rng, tree, q, stream):
    n = rnode(rng, tree)
    n.predict(rattr(rng, n), rng.choice(['most likely', 'sampled']),
              rng.random() < 0.5)
    n.get_weighted_values(rattr(rng, n), rng.random() < 0.5)


def probability(rng, tree, q, stream):
    n = rnode(rng, tree)
    a = rattr(rng, n)
    vals = [v for v, c in n.av_counts.get(a, {}).items() if not snap.is_cv(c)]
    n.probability(a, rng.choice(vals + [None, 'unseen', 1.5]))


def utilities(rng, tree, q, stream):
    n = rnode(rng, tree)
    n.expected_correct_guesses()
    n.category_utility()
    inst = rng.choice(stream)
    n.cu_for_fringe_split(inst)
    n.is_exact_match(inst)
    n = rinner(rng, tree)
    if n is not None:
        n.cu_for_new_child(inst)
        c = rng.choice(n.children)
        d = rng.choice(n.children)
        n.cu_for_insert(c, inst)
        n.relative_cu_for_insert(c, inst)
        n.compute_relative_CU_const(inst)
        cu, b1, b2 = n.two_best_children(inst)
        n.get_best_operation(inst, b1, b2, cu)
        if c is not d:
            n.cu_for_merge(c, d, inst)
        if c.children:
            n.cu_for_split(c)


def likelihood(rng, tree, q, stream):
    leaf = rng.choice([n for n in snap.walk(tree.root) if not n.children])
    n = leaf
    while n is not None:
        n.log_likelihood(leaf)
        n = n.parent


def export(rng, tree, q, stream):
    tree.root.output_json()
    str(tree)
    rnode(rng, tree).pretty_print(rng.randrange(3))


def shape(rng, tree, q, stream):
    a, b = rnode(rng, tree), rnode(rng, tree)
    a.depth()
    a.is_parent(b)
    a.num_concepts()
    list(a.attrs())
    list(a.attrs('all'))
    hash(a)


def copies(rng, tree, q, stream):
    n = rnode(rng, tree)
    c = n.shallow_copy()
    c.increment_counts(rng.choice(stream))
    c.update_counts_from_node(rnode(rng, tree))
    c = n.__class__(n)
    for x in snap.walk(c):
        x.increment_counts(rng.choice(stream))
    if rng.random() < 0.3:
        t = copy.deepcopy(tree)
        t.ifit(rng.choice(stream))


def clustering(rng, tree, q, stream):
    from concept_formation import cluster as C
    some = [rng.choice(stream) for _ in range(rng.randint(1, 5))]
    mod = rng.random() < 0.4
    k = rng.randrange(4)
    if k == 0:
        list(C.cluster(tree, some, minsplit=1, maxsplit=rng.randint(1, 4),
                       mod=mod))
    elif k == 1:
        C.k_cluster(tree, some, k=rng.randint(2, 4), mod=mod)
    elif k == 2:
        C.cluster_split_search(tree, some,
                               rng.choice(['CU', 'AIC', 'BIC', 'AICc']),
                               minsplit=1, maxsplit=rng.randint(1, 4),
                               mod=mod, labels=rng.random() < 0.5)
    else:
        C.depth_labels(tree, some, mod=False)


def scoring(rng, tree, q, stream):
    from concept_formation import evaluation as E
    inst = q()
    if not inst:
        return
    a = rng.choice(list(inst))
    if not isinstance(inst[a], dict):
        E.probability(tree, inst, a, inst[a])
        if not snap.is_number(inst[a]):
            E.absolute_error(tree, inst, a, inst[a])


def visual(rng, tree, q, stream):
    from concept_formation import visualize as V
    with no_browser(), scratch() as d:
        d = os.path.join(d, 'out')
        os.mkdir(d)
        k = rng.randrange(3)
        if k == 0:
            V.visualize(tree, dst=d)
        elif k == 1:
            V.visualize_no_leaves(tree, cuts=rng.randint(1, 3), dst=d)
        else:
            V.visualize_clusters(tree, [rnode(rng, tree)], dst=d)


OPS = [('categorize', categorize, 4), ('infer_missing', infer, 4),
       ('predict', predict, 2), ('probability', probability, 2),
       ('utilities', utilities, 3), ('likelihood', likelihood, 1),
       ('export', export, 1), ('shape', shape, 1), ('copy', copies, 2),
       ('cluster', clustering, 2), ('score', scoring, 1),
       ('visualise', visual, 1)]
WEIGHTED = [(n, f) for n, f, w in OPS for _ in range(w)]


def query(rng, tree, q, stream):
    """Performs one random read-only operation; returns its name."""
    name, f = rng.choice(WEIGHTED)
    f(rng, tree, q, stream)
    return name
