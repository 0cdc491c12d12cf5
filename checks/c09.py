"""C09: predictions and inferred values come from the best evidence."""
import math

from harness import gen, snap
from harness.core import close
from harness.ref import Model, from_real

PID = 'C09'
CASES = {'quick': 16250, 'thorough': 208000}
REQUIRED = {'most likely': 30000, 'sampled': 30000, 'numeric most likely':
            8000, 'numeric sampled': 5000, 'missing predicted': 1500,
            'infer decided': 3000, 'value inferred': 1500,
            'frequency test': 400, 'spread test': 300, 'spread test of few values': 40,
            'normal test': 100, 'tied prediction': 500}
RULE = ('Predictions at all kinds of concepts are compared with the '
        'concept\'s table; repeated samples with their distribution (six '
        'standard errors); completed instances with the leaves the reference '
        'descent may end in. Non-trivial: a distinct (concept table, '
        'attribute, choice function) with more than one possible value, or a '
        'distinct completed query.')
ASSUMPTIONS = ['sampled numbers of a spread concept may be any number; their '
               'mean and spread are tested over 400 draws']
EPS = 1e-9


def weights(node, attr, allow_none):
    w = {}
    for v, c in node.av_counts[attr].items():
        w[v] = (c.num if snap.is_cv(c) else c) / node.count
    if allow_none:
        w[None] = 1.0 - sum(w.values())
        if abs(w[None]) < 1e-12:
            w[None] = 0.0
    return w


def possible(node, attr, fn, allow_none):
    """(set of allowed labels incl. None, numeric summary or None)"""
    w = weights(node, attr, allow_none)
    if fn[0] == 'm':
        top = max(w.values())
        ok = [v for v in w if w[v] >= top - 1e-12]
    else:
        ok = [v for v in w if w[v] > 0]
    cv = None
    labels = []
    for v in ok:
        c = node.av_counts[attr].get(v) if v is not None else None
        if c is not None and snap.is_cv(c):
            cv = c
        else:
            labels.append(v)
    return labels, cv


def allowed(value, labels, cv, fn):
    if value is None:
        return None in labels
    if any(v is not None and type(v) is type(value) and v == value
           for v in labels):
        return True
    if cv is not None and snap.is_number(value):
        m = cv.unbiased_mean()
        sd = cv.unbiased_std()
        if fn[0] == 'm' or sd == 0:
            return close(value, m, 1e-9, 1e-12)
        return abs(value - m) <= 12 * sd
    return False


FNS = ['most likely', 'sampled', 'm', 's']


def predictions(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, mixed=rng.random() < 0.3,
                                              big=35)
    ctx.note = (kind, stream)
    for i in stream:
        tree.ifit(i)
    nodes = snap.walk(tree.root)
    inner = [n for n in nodes if n.children]
    for node in ([tree.root] + rng.sample(inner, min(6, len(inner))) +
                 rng.sample(nodes, min(3, len(nodes)))):
        for a in node.av_counts:
            fn = rng.choice(FNS)
            none = rng.random() < 0.5
            labels, cv = possible(node, a, fn, none)
            for _ in range(4):
                v = node.predict(a, fn, none)
                ctx.check(allowed(v, labels, cv, fn), fn, 'prediction of', a,
                          'is', v, 'from', node.av_counts[a], 'of',
                          node.count, 'allow_none=%r' % none)
                ctx.ev('most likely' if fn[0] == 'm' else 'sampled')
                if v is None:
                    ctx.ev('missing predicted')
                elif cv is not None and snap.is_number(v):
                    ctx.ev('numeric most likely' if fn[0] == 'm' else
                           'numeric sampled')
            if len(labels) + (cv is not None) > 1:
                if fn[0] == 'm':
                    ctx.ev('tied prediction')
                ctx.seen((repr(sorted((snap.key(v), repr(c)) for v, c in
                                      node.av_counts[a].items())), fn, none))
        for fn in FNS:
            ctx.check(node.predict('no-such-attr', fn) is None,
                      'an unknown attribute was predicted')


def picked(got, v, numeric):
    if numeric:
        return [x for x in got if snap.is_number(x)]
    return [x for x in got if type(x) is type(v) and x == v]


def surprise(n, N, p):
    """Chernoff: a share as far off as n of N has probability at most
    exp(-surprise)."""
    def part(q, r):
        return 0.0 if q <= 0 else math.inf if r <= 0 else q * math.log(q / r)
    if p >= 1 - 1e-9:
        p = 1.0 if n == N else 1 - 1e-9
    return N * (part(n / N, p) + part(1 - n / N, 1 - p))


def frequencies(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(rng, mixed=rng.random() < 0.3,
                                              big=40)
    ctx.note = (kind, stream)
    for i in stream:
        tree.ifit(i)
    node = tree.root
    if rng.random() < 0.6:
        node = rng.choice(snap.walk(tree.root))
    attrs = list(node.av_counts)
    N = 400
    for a in rng.sample(attrs, min(3, len(attrs))):
        none = rng.random() < 0.5
        w = weights(node, a, none)
        total = sum(w.values())
        if total <= 0:
            continue
        got = [node.predict(a, 'sampled', none) for _ in range(N)]
        cvs = [v for v in w if v is not None and
               snap.is_cv(node.av_counts[a][v])]
        for v in w:
            p = w[v] / total
            xs = picked(got, v, v in cvs)
            if surprise(len(xs), N, p) > 9:
                # unlikely: settled by a second, larger sample
                M = 20 * N
                n = len(picked([node.predict(a, 'sampled', none)
                                for _ in range(M)], v, v in cvs))
                ctx.check(surprise(n, M, p) <= 28, 'sampling', a, 'gave', v,
                          n, 'times of', M, 'with probability', p)
                ctx.ev('frequency test repeated')
            ctx.ev('frequency test')
            if v in cvs and len(xs) > 100:
                cv = node.av_counts[a][v]
                m, sd = cv.unbiased_mean(), cv.unbiased_std()
                mm = sum(xs) / len(xs)
                ctx.check(abs(mm - m) <= 6 * sd / math.sqrt(len(xs)) +
                          1e-9 * abs(m), 'sampled', a, 'has mean', mm,
                          'instead of', m)
                if sd > 1e-9 * abs(m):
                    s2 = math.sqrt(sum((x - mm) ** 2 for x in xs) / len(xs))
                    off = 7 / math.sqrt(2 * len(xs)) + 0.01
                    ctx.check(abs(s2 / sd - 1) <= off, 'sampled', a,
                              'has spread', s2, 'instead of', sd)
                    ctx.ev('spread test')
                    if cv.num < 4:
                        ctx.ev('spread test of few values')
                ctx.ev('normal test')


def explains(leaf, q, out, fn, none):
    for a in out:
        if a in q:
            if not gen.same(out[a], q[a]):
                return 'the given %r became %r' % (a, out[a])
        elif a not in leaf.av_counts:
            return 'the concept does not have %r' % (a,)
        else:
            labels, cv = possible(leaf, a, fn, none)
            if out[a] is None or not allowed(out[a], labels, cv, fn):
                return 'the concept does not predict %r=%r' % (a, out[a])
    for a in q:
        if a not in out:
            return 'the given %r was lost' % (a,)
    for a in leaf.av_counts:
        if a not in out:
            if not none or None not in possible(leaf, a, fn, none)[0]:
                return '%r was not filled in' % (a,)
    return None


def infer(rng, ctx):
    kind, tree, spec, stream = gen.flat_setup(
        rng, kinds=['cobweb', 'cobweb3', 'cobweb3', 'cobweb3-off',
                    'cobweb3-noinner', 'trestle'], big=35)
    model = Model.for_tree(tree, kind)
    ctx.note = (kind, stream)
    q = spec.query()
    if not stream:
        return
    ctx.check(gen.same(tree.infer_missing(q), q),
              'an empty tree inferred something for', q)
    for i in stream:
        tree.ifit(i)
        model.learn_scales(i)
    ref = from_real(tree.root)
    for _ in range(6):
        q = spec.query()
        if rng.random() < 0.4:
            q = dict(rng.choice(stream))
            for k in list(q):
                if rng.random() < 0.5:
                    del q[k]
        fn = rng.choice(FNS)
        none = rng.random() < 0.5
        ctx.note = (kind, stream, 'query', q, fn, none)
        out = tree.infer_missing(gen.handed(rng, dict(q)), fn, none)
        why = []
        for leaf in model.descents(ref, q, EPS):
            w = explains(leaf.real, q, out, fn, none)
            if w is None:
                break
            why.append(w)
        else:
            ctx.fail('completing', q, 'gave', out, 'because', why)
        ctx.ev('infer decided')
        if len(out) > len(q):
            ctx.ev('value inferred')
            ctx.seen((kind, repr(sorted(map(snap.key, out))),
                      repr(sorted(map(snap.key, q))), fn, none,
                      snap.canon(tree.root)))
    ctx.sample('%r -> %r' % (q, out))


SCENARIOS = [('predictions', predictions, 5), ('frequencies', frequencies, 1),
             ('infer', infer, 5)]
