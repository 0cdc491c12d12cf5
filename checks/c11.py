"""C11: numeric summaries equal batch statistics in any order and grouping."""
import copy
import math
from fractions import Fraction

from harness import snap
from harness.core import close

PID = 'C11'
CASES = {'quick': 200000, 'thorough': 2560000}
REQUIRED = {'summary compared': 10000, 'combine': 15000, 'far from zero':
            1500, 'overlap': 500, 'copy': 600, 'small sample': 4000,
            'large sample': 1000, 'regrouped': 2500, 'mass': 800}
RULE = ('Random numbers (integers, clusters far from zero, tiny and huge '
        'scales, constants) are fed one at a time, in batches, by combining '
        'summaries along random trees, and in other orders; all statistics '
        'are compared with exact rational arithmetic. Non-trivial: a '
        'distinct (values, grouping) of at least three values.')
ASSUMPTIONS = ['tolerance is that of stable algorithms: relative 1e-9 plus a '
               'rounding term proportional to size and magnitude; a '
               'difference-of-squares computation exceeds it',
               'combining two empty summaries and the spread of an empty '
               'summary are not defined']


def CV():
    from concept_formation.continuous_value import ContinuousValue
    return ContinuousValue()


def exact(values):
    f = [Fraction(v) for v in values]
    n = len(f)
    m = sum(f) / n
    return n, float(m), float(sum((x - m) ** 2 for x in f))


def compare(ctx, cv, values, how):
    n = len(values)
    if n == 0:
        ctx.check(cv.num == 0, how, 'an empty summary counts', cv.num)
        ctx.check(cv.unbiased_std() == 0.0, 'an empty summary has spread')
        return
    _, m, m2 = exact(values)
    big = max(abs(v) for v in values)
    tol = 8 * (n + 8) * 2.3e-16 * big
    ctx.check(cv.num == n, how, 'counts', cv.num, 'of', n, 'values')
    for name, x in (('mean', cv.mean), ('unbiased_mean', cv.unbiased_mean())):
        ctx.check(abs(x - m) <= tol, how, name, 'is', x, 'should be', m,
                  'for', values)
    sd = math.sqrt(m2 / n)
    got = cv.biased_std()
    ctx.check(abs(got - sd) <= 4 * tol + 1e-9 * sd, how, 'biased std is', got,
              'should be', sd, 'for', values)
    ub = math.sqrt(m2 / (n - 1)) / snap.corr(n) if n > 1 else 0.0
    got = cv.unbiased_std()
    ctx.check(abs(got - ub) <= 8 * tol + 1e-9 * ub, how, 'unbiased std is',
              got, 'should be', ub, 'for', values)
    if n == 1 or (min(values) == max(values) and how == 'update'):
        ctx.check(got == 0.0, how, 'equal values have spread', got)
    ctx.ev('summary compared')
    if big > 1e5 * (sd + 1e-300) and sd > 0:
        ctx.ev('far from zero')
    if 2 <= n < 30:
        ctx.ev('small sample')
    elif n >= 30:
        ctx.ev('large sample')


def draw(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 10, 15, 28, 29, 30, 31, 40, 80])
    k = rng.randrange(7)
    if k == 0:
        return [rng.randint(-20, 20) for _ in range(n)]
    if k == 1:
        off = rng.choice([1e6, -3e7, 1e8, 1e9, 1e10])
        return [off + rng.gauss(0, 1) for _ in range(n)]
    if k == 2:
        return [rng.choice([0.1, 0.2, 1 / 3.0])] * n
    if k == 3:
        s = 10.0 ** rng.randint(-12, 12)
        return [s * rng.gauss(0, 1) for _ in range(n)]
    if k == 4:
        return [rng.choice([0.1, 0.7, -0.3]) for _ in range(n)]
    if k == 5:
        v = [rng.gauss(0, 1) for _ in range(n)]
        v[rng.randrange(n)] = rng.choice([1e4, -1e5])
        return v
    return [rng.uniform(-5, 5) for _ in range(n)]


def tree_combine(rng, ctx, values):
    """Combines summaries of random consecutive groups."""
    if len(values) <= 1 or rng.random() < 0.2:
        c = CV()
        if rng.random() < 0.5:
            c.update_batch(values)
        else:
            for v in values:
                c.update(v)
        return c
    i = rng.randint(0, len(values))
    if i in (0, len(values)) and rng.random() < 0.7:
        i = len(values) // 2
    if i == 0 or i == len(values):
        a, b = CV(), tree_combine(rng, ctx, values)
        if i:
            a, b = b, a
    else:
        a = tree_combine(rng, ctx, values[:i])
        b = tree_combine(rng, ctx, values[i:])
    before = (b.num, b.mean, b.biased_std() if b.num else 0, b.unbiased_std())
    a.combine(b)
    after = (b.num, b.mean, b.biased_std() if b.num else 0, b.unbiased_std())
    ctx.check(before == after, 'combining changed the other summary from',
              before, 'to', after)
    ctx.ev('combine')
    return a


def groupings(rng, ctx):
    values = draw(rng)
    ctx.note = values
    one = CV()
    for i, v in enumerate(values):
        one.update(v)
        if i < 3 or i == len(values) - 1:
            compare(ctx, one, values[:i + 1], 'update')
    b = CV()
    b.update_batch(iter(values) if rng.random() < 0.3 else values)
    compare(ctx, b, values, 'update_batch')
    for _ in range(2):
        vs = list(values)
        rng.shuffle(vs)
        c = tree_combine(rng, ctx, vs)
        compare(ctx, c, values, 'combine')
        ctx.ev('regrouped')
        # goes on as any other summary
        extra = [rng.choice(values) for _ in range(rng.randint(1, 3))]
        c.update_batch(extra)
        compare(ctx, c, values + extra, 'combine then update')
    if len(values) > 2:
        ctx.seen(tuple(values))
    ctx.sample(values[:8])


def masses(rng, ctx):
    """Summaries of thousands of values, joined."""
    values = draw(rng)[:12]
    c = CV()
    c.update_batch(values)
    n = len(values)
    goal = rng.choice([200, 1500, 5000, 40000])
    ctx.note = (values, 'doubled up to', goal)
    hist = {}
    for v in values:
        hist[v] = hist.get(v, 0) + 1
    while n < goal:
        k = rng.randrange(4) if goal > 1000 else rng.randrange(3)
        if k == 3:
            # one long batch, also given as a generator
            j = rng.randint(100, 1200 // len(values) + 101)
            batch = values * j
            c.update_batch(batch if rng.random() < 0.5 else
                           (v for v in batch))
            for v in values:
                hist[v] += j
            n += len(batch)
        elif k == 0:
            extra = draw(rng)[:rng.randint(1, 9)]
            d = CV()
            d.update_batch(extra)
            c.combine(d)
            for v in extra:
                hist[v] = hist.get(v, 0) + 1
            n += len(extra)
        elif k == 1:
            v = rng.choice(values)
            c.update(v)
            hist[v] = hist.get(v, 0) + 1
            n += 1
        else:
            d = c.copy()
            c.combine(d)
            hist = {v: 2 * m for v, m in hist.items()}
            n *= 2
        ctx.check(c.num == n, 'a summary counts', c.num, 'of', n, 'values')
    f = {Fraction(v): m for v, m in hist.items()}
    m = sum(v * k for v, k in f.items()) / n
    m2 = sum((v - m) ** 2 * k for v, k in f.items())
    big = max(abs(v) for v in hist)
    tol = 400 * 2.3e-16 * big * math.log(n)
    sd = math.sqrt(float(m2 / n))
    ctx.check(abs(c.mean - float(m)) <= tol, 'the mean of', n, 'values is',
              c.mean, 'should be', float(m))
    ctx.check(abs(c.biased_std() - sd) <= 8 * tol + 1e-8 * sd, 'the spread '
              'of', n, 'values is', c.biased_std(), 'should be', sd)
    sd *= math.sqrt(n / (n - 1.0))
    ctx.check(abs(c.unbiased_std() - sd) <= 8 * tol + 1e-8 * sd, 'the '
              'unbiased spread of', n, 'values is', c.unbiased_std(),
              'should be', sd)
    ctx.ev('mass')


def stats(cv):
    return (cv.num, cv.mean, cv.biased_std(), cv.unbiased_std())


def copies(rng, ctx):
    values = draw(rng)
    ctx.note = values
    a = CV()
    a.update_batch(values)
    for make in (lambda: a.copy(), lambda: copy.deepcopy(a)):
        c = make()
        s = stats(a)
        ctx.check(stats(c) == s, 'a copy differs:', stats(c), s)
        c.update(rng.choice(values) + 1)
        ctx.check(stats(a) == s, 'updating a copy changed the original')
        d = a.copy()
        a.update(3.5)
        ctx.check(stats(d) == s, 'updating the original changed a copy')
        values = values + [3.5]
        compare(ctx, a, values, 'after copying')
        ctx.ev('copy')
    try:
        a.combine(rng.choice([3.5, 'x', None]))
    except Exception:
        pass
    else:
        ctx.fail('combining with something else was accepted')
    compare(ctx, a, values, 'after a refused combine')
    # scaled statistics
    shift, scale = rng.uniform(-5, 5), rng.choice([0.5, 2.0, 3.7, 0, -1])
    s = scale if scale > 0 else 1.0
    ctx.check(close(a.scaled_unbiased_std(scale), a.unbiased_std() / s) and
              close(a.scaled_biased_std(scale), a.biased_std() / s) and
              close(a.scaled_unbiased_mean(shift, scale),
                    (a.unbiased_mean() - shift) / s, 1e-9, 1e-9),
              'scaled statistics with scale', scale)
    j = a.output_json()
    ctx.check(j['mean'] == a.unbiased_mean() and j['n'] == len(values) and
              j['std'] == a.unbiased_std(), 'export', j)


def overlap(rng, ctx):
    v1 = draw(rng)
    m = exact(v1)[1]
    if rng.random() < 0.7:
        v2 = [m + rng.gauss(0, rng.choice([0.1, 1, 10]))
              for _ in range(rng.randint(1, 40))]
    else:
        v2 = draw(rng)
    ctx.note = (v1, v2)
    a, b = CV(), CV()
    a.update_batch(v1)
    b.update_batch(v2)
    x, y = (a.integral_of_gaussian_product(b),
            b.integral_of_gaussian_product(a))
    ctx.check(close(x, y), 'the overlap is not symmetric:', x, y)
    ctx.check(0 <= x <= 1 + 1e-9, 'overlap', x, 'out of range')

    noise = 1 / (4 * math.pi)
    n1, m1, q1 = exact(v1)
    n2, m2, q2 = exact(v2)
    s1 = q1 / (n1 - 1) / snap.corr(n1) ** 2 if n1 > 1 else 0.0
    s2 = q2 / (n2 - 1) / snap.corr(n2) ** 2 if n2 > 1 else 0.0
    var = s1 + s2 + 2 * noise
    z = (m1 - m2) ** 2 / (2 * var)
    want = math.exp(-z) / math.sqrt(2 * math.pi * var)
    big = max(map(abs, v1 + v2))
    if z < 30 and big < 1e7:
        ctx.check(close(x, want, 1e-5, 1e-12), 'the overlap of', v1, 'and',
                  v2, 'is', x, 'should be', want)
        ctx.check(x > 0, 'overlap of near summaries is', x)
        ctx.ev('overlap')
    ctx.seen((tuple(v1), tuple(v2)))


SCENARIOS = [('groupings', groupings, 40), ('copies', copies, 10),
             ('overlap', overlap, 20), ('masses', masses, 1)]
