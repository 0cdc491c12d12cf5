"""C21: incremental evaluation scores predict before learning."""
from harness import gen, snap
from harness.core import close

PID = 'C21'
CASES = {'quick': 40000, 'thorough': 512000}
REQUIRED = {'step': 15000, 'run': 2500, 'query withheld': 8000,
            'given order': 800, 'random order': 150, 'reshuffled': 150,
            'probability scored': 1000, 'error scored': 3000,
            'numeric error scored': 800, 'negative error': 100, 'large error': 300,
            'repeated instances': 1500,
            'not comparable': 300, 'component refused': 600}
RULE = ('Evaluations run on recording subclasses of the trees: every clear, '
        'query, score and fit is logged in order with the instances the '
        'root summarises at that moment, and the score table is compared '
        'with the log. The scoring functions are compared with the tables '
        'of the concept the query was sorted to. Non-trivial: a distinct '
        '(order of instances, score table).')
ASSUMPTIONS = ['the length of a run is only required to be the same for all '
               'runs and to cover the requested number of instances, with '
               'at most two more',
               'queries and fits reach the tree through its public '
               'operations, where a subclass records them']


class Log(object):
    events = []


def recorder(cls):
    class Recorder(cls):
        def clear(self):
            Log.events.append(('clear',))
            return cls.clear(self)

        def ifit(self, instance, *a, **k):
            pre = summary(self.root)
            r = cls.ifit(self, instance, *a, **k)
            Log.events.append(('fit', dict(instance), pre))
            return r

        def categorize(self, instance):
            pre = summary(self.root)
            r = cls.categorize(self, instance)
            Log.events.append(('query', dict(instance), pre, r))
            return r
    return Recorder


def summary(root):
    """(number of instances, ids of the instances below the root)."""
    return float(root.count), frozenset(
        v for v in root.av_counts.get('_uid', {}))


_CLS = {}


def make(kind):
    from concept_formation.cobweb import CobwebTree
    from concept_formation.cobweb3 import Cobweb3Tree
    from concept_formation.trestle import TrestleTree
    from concept_formation.dummy import DummyTree
    if not _CLS:
        for n, c in (('cobweb', CobwebTree), ('cobweb3', Cobweb3Tree),
                     ('trestle', TrestleTree), ('dummy', DummyTree)):
            _CLS[n] = recorder(c)
    if kind == 'cobweb3-off':
        return _CLS['cobweb3'](scaling=None)
    return _CLS[kind]()


KINDS = ['cobweb', 'cobweb', 'cobweb3', 'cobweb3', 'cobweb3-off', 'trestle',
         'dummy']


def dataset(rng, kind, n, **kw):
    spec = gen.FlatSpec(rng, hidden=False, tuples='cobweb' in kind,
                        tame=True, max_attrs=4, **kw)
    out = []
    for i, x in enumerate(spec.stream(n)):
        x['_uid'] = 'u%d' % i
        out.append(x)
    return spec, out


def once(events):
    """Without the repetitions of a query."""
    out = []
    for e in events:
        if not (out and e[0] == 'query' and e[:3] == out[-1][:3]):
            out.append(e)
    return out


def protocol(rng, ctx, custom):
    from concept_formation import evaluation as E
    kind = rng.choice(KINDS)
    n = rng.choice([1, 2, 3, 6, 12, 14, 20])
    spec, data = dataset(rng, kind, n)
    if rng.random() < 0.3:
        # the same instance several times, next to each other and apart
        data = [x for x in data for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.5:
            data.append(data[0])
        data = data[:max(n, 8)]
        n = len(data)
        ctx.ev('repeated instances')
    nominal = [a[0] for a in spec.attrs if a[1] == 'nom']
    attr = rng.choice([a[0] for a in spec.attrs] + ['no-such-attr'])
    tree = make(kind)
    # an evaluation must not depend on what the tree knew before
    for x in data[:rng.randint(0, 4)]:
        tree.ifit(dict(x, _uid='old'))
    runs = rng.choice([1, 1, 2, 3]) if rng.random() < 0.95 else \
        rng.randint(4, 8)
    rl = rng.choice([0, 1, 2, 5, n, n + 5, max(1, n - 3)])
    rf = rng.random() < 0.5
    given = [dict(x) for x in data]
    ctx.note = (kind, data, 'attr', attr, 'run_length', rl, 'runs', runs,
                'randomize_first', rf)
    Log.events = []
    marks = []

    def score(t, inst, a, val):
        Log.events.append(('score', dict(inst), a, val, summary(t.root),
                           t is tree))
        marks.append(object())
        return marks[-1]

    fn = score
    if not custom:
        fn = rng.choice([E.probability] + ([
            E.error, E.absolute_error, E.squared_error] if attr in nominal
            else []))
    kw = {} if fn is E.probability and rng.random() < 0.5 else {'score': fn}
    if not rf or rng.random() < 0.5:
        kw['randomize_first'] = rf
    else:
        rf = True
    if runs > 1 or rng.random() < 0.5:
        kw['runs'] = runs
    table = E.incremental_evaluation(tree, data, attr, rl, **kw)
    ctx.check(data == given, 'evaluation changed the instances')
    ev = Log.events
    ctx.check(len(table) == runs, 'asked for', runs, 'runs, got', len(table))
    rows = []
    for e in ev:
        if e[0] == 'clear':
            rows.append([])
        else:
            ctx.check(rows, 'evaluation started without clearing the tree')
            rows[-1].append(e)
    rows = [once(r) for r in rows if r] if n else rows
    ctx.check(len(rows) == runs, runs, 'runs cleared the tree', len(rows),
              'times')
    orders = []
    for row, scores in zip(rows, table):
        step = 2
        ctx.check(len(row) % step == 0 and len(row) // step == len(scores),
                  'a run made', len(row), 'queries and fits and', len(scores),
                  'scores')
        seen = []
        for i, s in enumerate(scores):
            q, f = row[2 * i], row[2 * i + 1]
            ctx.check(f[0] == 'fit' and q[0] == ('score' if custom else
                                                 'query'),
                      'calls are', q[0], f[0], 'at', i)
            inst = f[1]
            ctx.check(inst in data, 'fitted an instance that was not given')
            state = (float(i), frozenset(x['_uid'] for x in seen))
            ctx.check(f[2] == state, 'the tree had learned', f[2], 'before '
                      'the fit, should be', state)
            want = {k: v for k, v in inst.items()}
            if custom:
                ctx.check(q[5], 'scored another tree')
                ctx.check(q[1] == want and q[2] == attr and
                          q[3] == inst.get(attr), 'scored', q[1:4], 'for',
                          inst)
                ctx.check(q[4] == state, 'when scoring, the tree had learned',
                          q[4], 'should be', state)
                ctx.check(s is marks.pop(0), 'the table does not hold the '
                          'scores in order')
            else:
                want.pop(attr, None)
                ctx.check(q[1] == want, 'the query is', q[1], 'for', inst,
                          'and target', attr)
                ctx.check(q[2] == state, 'at the query, the tree had learned',
                          q[2], 'should be', state)
                ctx.ev('query withheld')
            seen.append(inst)
            ctx.check(sum(x['_uid'] == inst['_uid'] for x in seen) <=
                      sum(x['_uid'] == inst['_uid'] for x in data),
                      'a run took an instance too often', inst)
            ctx.ev('step')
        orders.append([x['_uid'] for x in seen])
        ctx.ev('run')
    lens = {len(o) for o in orders}
    ctx.check(len(lens) == 1 and min(n, rl) <= min(lens) <= min(n, rl + 2),
              'run length', rl, 'of', n, 'instances gave runs of', lens)
    if not rf:
        ctx.check(orders[0] == [x['_uid'] for x in data][:len(orders[0])],
                  'the first run is in order', orders[0])
        ctx.ev('given order')
    elif len(set(orders[0])) >= 12:
        ctx.check(orders[0] != [x['_uid'] for x in data][:len(orders[0])],
                  'the first run was not randomized')
        ctx.ev('random order')
    if runs > 1 and all(len(set(o)) >= 12 for o in orders):
        ctx.check(all(a != b for a, b in zip(orders, orders[1:])),
                  'successive runs have the same order')
        ctx.ev('reshuffled')
    # the tree holds the last run
    ctx.check(summary(tree.root) == (float(len(orders[-1])),
                                     frozenset(orders[-1])),
              'afterwards the tree holds', summary(tree.root))
    ctx.seen(repr((orders, [[str(x)[:12] for x in r] for r in table]
                   if not custom else len(table))))
    ctx.sample('%s %d instances, orders %r' % (kind, n, orders))


def recorded(rng, ctx):
    protocol(rng, ctx, True)


def builtin(rng, ctx):
    protocol(rng, ctx, False)


def shares(node, attr):
    """[(value or mean, probability)] of a concept's attribute."""
    out = []
    have = 0.0
    for v, c in node.av_counts.get(attr, {}).items():
        if snap.is_cv(c):
            out.append((c.mean, c.num / node.count, True))
            have += c.num
        else:
            out.append((v, c / node.count, False))
            have += c
    if not node.count:
        return [(None, 1.0, False)]
    if have < node.count:
        out.append((None, (node.count - have) / node.count, False))
    return out


def scores(rng, ctx):
    """The scoring functions on trained trees."""
    from concept_formation import evaluation as E
    kind = rng.choice(KINDS)
    n = gen.length(rng, big=25)
    spec, data = dataset(rng, kind, n)
    tree = make(kind)
    for x in data:
        tree.ifit(x)
    ctx.note = (kind, data)
    for _ in range(6):
        inst = (spec.instance(full=True) if rng.random() < 0.7 else
                dict(rng.choice(data)))
        name, akind = rng.choice([(a[0], a[1]) for a in spec.attrs])
        val = inst.get(name)
        if rng.random() < 0.2:
            val = rng.choice(['unseen', None])
        elif akind != 'nom' and rng.random() < 0.3:
            # far from everything seen
            val = rng.choice([-1, 1]) * rng.choice([1e5, 2e6, 3e9, 1e12])
            if rng.random() < 0.3:
                val = int(val)
        if rng.random() < 0.4:
            inst.pop(name, None)
        given = dict(inst)
        fn = rng.choice(['probability', 'error', 'absolute_error',
                         'squared_error'])
        Log.events = []
        ctx.log(fn, inst, name, val)
        try:
            got = getattr(E, fn)(tree, inst, name, val)
        except Exception as e:
            if fn == 'probability' or not Log.events:
                raise
            conc = Log.events[-1][3]
            sh = shares(conc, name)
            top = max(p for _, p, _ in sh)
            best = [(v, c) for v, p, c in sh if p >= top - 1e-12]
            if snap.is_number(val):
                # nothing (or a label) was predicted for a number
                ctx.check(any(not snap.is_number(v) for v, c in best),
                          'scoring raised', repr(e), 'predictions', best)
            else:
                ctx.check(val is None and any(snap.is_number(v) for v, c in
                                              best), 'scoring raised',
                          repr(e), 'predictions', best)
            ctx.ev('not comparable')
            continue
        ctx.check(inst == given, fn, 'changed the instance')
        want = {k: v for k, v in inst.items() if k != name}
        ctx.check(Log.events and all(e[0] == 'query' and e[1] == want
                                     for e in Log.events), fn,
                  'made the calls', Log.events, 'for target', name)
        conc = Log.events[-1][3]
        sh = shares(conc, name)
        if fn == 'probability':
            p = conc.probability(name, val)
            ctx.check(close(got, p), 'probability score', got, 'concept says',
                      p)
            if not snap.is_number(val):
                q = sum(p for v, p, c in sh if v == val and not c)
                ctx.check(close(got, q, 1e-9, 1e-9), 'probability score', got,
                          'of', val, 'relative frequency', q)
            ctx.ev('probability scored')
            continue
        top = max(p for _, p, _ in sh)
        best = [v for v, p, c in sh if p >= top - 1e-12]
        outs = []
        for b in best:
            if snap.is_number(val):
                if snap.is_number(b):
                    outs.append(val - b)
            else:
                outs.append(0 if b == val else 1)
        if fn == 'absolute_error':
            outs = [abs(o) for o in outs]
        elif fn == 'squared_error':
            outs = [o * o for o in outs]
        ctx.check(any(close(got, o, 1e-9, 1e-12) for o in outs), fn, 'is',
                  got, 'for', val, 'with predictions', best, 'should be',
                  outs)
        ctx.ev('error scored')
        if snap.is_number(val):
            ctx.ev('numeric error scored')
            if abs(got) > 1e6:
                ctx.ev('large error')
            if got < 0:
                ctx.ev('negative error')
                ctx.check(fn == 'error', fn, 'is negative')


def components(rng, ctx):
    from concept_formation import evaluation as E
    tree = make('trestle')
    spec = gen.StructSpec(rng)
    for x in spec.stream(3):
        tree.ifit(x)
    inst = dict(spec.instance(), comp={'a': 'b'})
    before = snap.snapshot(tree)
    for fn in (E.probability, E.error, E.absolute_error, E.squared_error):
        try:
            r = fn(tree, inst, 'comp', inst['comp'])
        except Exception:
            ctx.ev('component refused')
            continue
        ctx.fail('a component was scored', r)
    d = snap.diff(before, snap.snapshot(tree))
    ctx.check(d is None, 'scoring changed the tree', d)


SCENARIOS = [('recorded', recorded, 4), ('builtin', builtin, 5),
             ('scores', scores, 4), ('components', components, 1)]
