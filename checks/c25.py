"""C25: choice and statistics helpers honour their contracts."""
import decimal
import fractions
import math
import random
import statistics
from collections import Counter

from harness import gen, snap

PID = 'C25'
CASES = {'quick': 240000, 'thorough': 3072000}
REQUIRED = {'draw': 500000, 'frequencies tested': 220, 'most likely': 30000,
            'ties seen': 320, 'tie frequencies': 250, 'refused': 13000,
            'statistic': 1000, 'scale free': 500, 'extreme draw': 2000, 'correction factor': 36,
            'number': 10, 'not a number': 13}
RULE = ('Random option lists (zero, tiny, huge, tied and integer weights, '
        'repeated options, unorderable options) are drawn from repeatedly '
        'and the frequencies compared with the weights; the generator state '
        'is watched; statistics are compared with exact fractions. '
        'Non-trivial: a distinct (helper, input, outcome).')
ASSUMPTIONS = ['frequencies are accepted within six standard errors, over '
               'at least 600 draws',
               'ties of the most-likely choice: 60 draws show every one of '
               'at most four tied options']


def options(rng, orderable=False):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 10])
    k = rng.randrange(4)
    if k == 0 or orderable:
        vals = ['v%d' % i for i in range(n)]
    elif k == 1:
        vals = [None, 'a', 3, ('t',), 2.5, 'b', True, b'x', frozenset(),
                'z'][:n]
    elif k == 2:
        vals = [None] + ['v%d' % i for i in range(n - 1)]
    else:
        vals = list(range(n))
    ws = []
    mode = rng.randrange(5)
    for _ in vals:
        if mode == 0:
            w = rng.choice([0, 0.0, 1, 1, 2, 3])
        elif mode == 1:
            w = rng.random()
        elif mode == 2:
            w = rng.choice([0.1, 0.2, 0.3, 0.7])
        elif mode == 3:
            w = rng.choice([1e-300, 1e-12, 1.0, 1e12]) * rng.randint(0, 2)
        else:
            w = 1
        ws.append(w)
    return list(zip(vals, ws))


def okey(v):
    return snap.key(v)


def weighted(rng, ctx):
    from concept_formation.utils import weighted_choice
    ch = options(rng)
    given = list(ch)
    total = sum(w for _, w in ch)
    ctx.note = ('weighted_choice', ch)
    if total <= 0:
        ctx.ev('all zero')
        return
    n = 2000 if rng.random() < 0.15 else 30
    got = Counter()
    for _ in range(n):
        v = weighted_choice(ch)
        got[okey(v)] += 1
    ctx.check(ch == given, 'weighted_choice changed its options')
    want = Counter()
    for v, w in ch:
        want[okey(v)] += w / total
    for v, c in got.items():
        ctx.check(want.get(v, 0) > 0, 'drew', v, 'of weight', want.get(v),
                  'from', ch)
    ctx.ev('draw', n)
    if n >= 2000:
        for v, p in want.items():
            se = math.sqrt(n * p * (1 - p))
            ctx.check(abs(got[v] - n * p) <= 6 * se + 3, 'drew', v, got[v],
                      'times out of', n, 'at weight', p)
        ctx.ev('frequencies tested')
    ctx.seen(repr((ch, sorted(got))))
    ctx.sample('%r drawn %r' % (ch, dict(got)))


def extreme(rng, ctx):
    """The generator's smallest and largest draws."""
    from concept_formation.utils import weighted_choice
    ch = options(rng)
    if rng.random() < 0.3:
        ch = [(i, 0.1) for i in range(rng.randint(1, 60))]
    if sum(w for _, w in ch) <= 0:
        return
    u = rng.choice([0.0, 0.0, 2.0 ** -53, 1 - 2.0 ** -53, 1 - 2.0 ** -52])
    ctx.note = ('weighted_choice', ch, 'when the generator draws', u)
    want = {okey(v) for v, w in ch if w > 0}
    random._inst.random = lambda: u
    try:
        v = weighted_choice(ch)
    finally:
        del random._inst.random
    ctx.check(okey(v) in want, 'drew', v, 'of weight zero from', ch)
    ctx.ev('extreme draw')


def scaled(rng, ctx):
    """Multiplying all weights leaves the choice alone."""
    from concept_formation.utils import weighted_choice
    ch = options(rng)
    if sum(w for _, w in ch) <= 0:
        return
    f = 2.0 ** rng.randint(-40, 40)
    s = rng.getrandbits(40)
    ctx.note = ('scaled weights', ch, f)
    a = []
    for c in (ch, [(v, w * f) for v, w in ch]):
        random.seed(s)
        a.append([okey(weighted_choice(c)) for _ in range(10)])
    ctx.check(a[0] == a[1], 'scaling the weights by', f, 'changed the '
              'choices from', a[0], 'to', a[1])
    ctx.ev('scale free')


def likely(rng, ctx):
    from concept_formation.utils import most_likely_choice
    ch = options(rng)
    given = list(ch)
    top = max(w for _, w in ch)
    best = {okey(v) for v, w in ch if w == top}
    ctx.note = ('most_likely_choice', ch)
    n = 80 if 1 < len(best) <= 4 else 5
    got = Counter(okey(most_likely_choice(ch)) for _ in range(n))
    ctx.check(ch == given, 'most_likely_choice changed its options')
    for v in got:
        ctx.check(v in best, 'chose', v, 'of', ch)
    ctx.ev('most likely', n)
    if n == 80:
        ctx.check(set(got) == best, 'of the tied', best, 'only', set(got),
                  'were chosen in', n)
        # no option is strongly preferred
        ctx.ev('ties seen')
    ctx.seen(repr(('ml', ch)))


def tie_frequency(rng, ctx):
    from concept_formation.utils import most_likely_choice
    k = rng.randint(2, 4)
    w = rng.choice([0, 1, 0.25, 3])
    ch = [('v%d' % i, w) for i in range(k)]
    if w:
        ch += [('low', w / 2)]
    rng.shuffle(ch)
    n = 1000
    got = Counter(most_likely_choice(ch) for _ in range(n))
    for i in range(k):
        p = 1.0 / k
        ctx.check(abs(got['v%d' % i] - n * p) <= 6 * math.sqrt(
            n * p * (1 - p)), 'tied options were chosen', dict(got))
    ctx.ev('tie frequencies')


def refused(rng, ctx):
    from concept_formation import utils as U
    ch = options(rng)
    i = rng.randrange(len(ch) + 1)
    neg = rng.choice([-1, -0.25, -1e-9, -5])
    bad = ch[:i] + [('bad', neg)] + ch[i:]
    for f in (U.weighted_choice, U.most_likely_choice):
        for c in (bad, []):
            ctx.note = (f.__name__, c)
            for _ in range(3):
                try:
                    r = f(c)
                except ValueError:
                    ctx.ev('refused')
                else:
                    ctx.fail(f.__name__, 'accepted', c, 'giving', r)
    for f in (U.mean, U.std):
        try:
            r = f([])
        except ValueError:
            ctx.ev('refused')
        else:
            ctx.fail(f.__name__, 'of nothing is', r)
    for n in (1, 0, -3):
        try:
            r = U.c4(n)
        except ValueError:
            ctx.ev('refused')
        else:
            ctx.fail('c4', n, 'is', r)


def statistic(rng, ctx):
    from concept_formation import utils as U
    n = rng.choice([1, 2, 3, 5, 10, 40])
    k = rng.randrange(4)
    if k == 0:
        vals = [rng.randint(-100, 100) for _ in range(n)]
    elif k == 1:
        vals = [rng.gauss(0, 1) for _ in range(n)]
    elif k == 2:
        c = rng.choice([1e6, -1e5, 3.0])
        vals = [c + rng.random() for _ in range(n)]
    else:
        vals = [rng.choice([0.5, 2])] * n
    given = list(vals)
    ctx.note = ('mean/std', vals)
    fr = [fractions.Fraction(v) for v in vals]
    m = sum(fr) / n
    var = sum((x - m) ** 2 for x in fr) / n
    big = max(abs(v) for v in vals)
    got = U.mean(vals if rng.random() < 0.5 else tuple(vals))
    ctx.check(isinstance(got, float) and
              abs(got - float(m)) <= 1e-13 * n * (big + 1), 'mean', got,
              'should be', float(m))
    sd = U.std(vals)
    ctx.check(abs(sd - math.sqrt(var)) <= 1e-9 * math.sqrt(var) +
              1e-14 * n * (big + 1), 'std', sd, 'should be', math.sqrt(var))
    ctx.check(vals == given, 'statistics changed the list')
    ctx.check(abs(sd - statistics.pstdev(vals)) <= 1e-9 * sd + 1e-13 * n *
              (big + 1), 'std is not the population statistic')
    ctx.ev('statistic')
    ctx.seen(repr(('stat', vals)))


def correction(rng, ctx):
    from concept_formation import utils as U
    from concept_formation.continuous_value import ContinuousValue
    for n in range(2, 30):
        ctx.check(abs(U.c4(n) - snap.c4(n)) <= 1e-12, 'c4', n, 'is', U.c4(n),
                  'should be', snap.c4(n))
        ctx.check(U.c4(float(n)) == U.c4(n), 'c4 of a float size')
        ctx.ev('correction factor')
    for n in [30, 31, 50, 100, 1000, 10 ** 6, 10 ** 12, 30.0]:
        ctx.check(U.c4(n) == 1.0, 'c4', n, 'is', U.c4(n))
        ctx.ev('correction factor')
    last = 0.0
    for n in range(2, 60):
        ctx.check(last <= U.c4(n) <= 1.0, 'c4 is not increasing at', n)
        last = U.c4(n)
    for n in range(2, 40):
        vals = [float(i * i % 7) for i in range(n)]
        cv = ContinuousValue()
        cv.update_batch(vals)
        m = statistics.stdev(vals) / (snap.c4(n) if n < 30 else 1.0)
        ctx.check(abs(cv.unbiased_std() - m) <= 1e-9 * (1 + m),
                  'corrected deviation of', n, 'values')


def numbers(rng, ctx):
    from concept_formation.utils import isNumber
    yes = [0, 1, -5, 2.5, -0.0, 1e300, 10 ** 30, float('inf'),
           fractions.Fraction(1, 3), decimal.Decimal('2.5')]
    no = [True, False, float('nan'), '1', '', None, [], {}, (1,), b'1', int,
          frozenset(), decimal.Decimal('NaN')]
    for v in yes:
        ctx.check(isNumber(v) is True or isNumber(v) == True,  # noqa: E712
                  'not a number:', repr(v))
        ctx.ev('number')
    for v in no:
        ctx.check(not isNumber(v), 'a number:', repr(v))
        ctx.ev('not a number')
    # and the trees agree with it
    t = gen.make_tree('cobweb3')
    for v in [True, float('nan'), 2.5]:
        t.ifit({'a': v})
    vals = t.root.av_counts['a']
    ctx.check(sum(1 for c in vals.values() if snap.is_cv(c)) == 1 and
              len(vals) == 3, 'the tree tells numbers apart as', vals)


SCENARIOS = [('weighted', weighted, 6), ('scaled', scaled, 2),
             ('likely', likely, 5), ('tie_frequency', tie_frequency, 1),
             ('refused', refused, 3), ('statistic', statistic, 4),
             ('extreme', extreme, 1)]
DIRECTED = [('correction', correction), ('numbers', numbers)]
