"""C23: value-conversion preprocessors change what they should, no more."""
from numbers import Number

from harness import gen, snap
from harness.gen import deep, same

PID = 'C23'
CASES = {'quick': 450000, 'thorough': 5760000}
REQUIRED = {'number to label': 1500, 'number to label in a component': 900,
            'number kept': 1000, 'label to number': 2500, 'dropped': 1000,
            'zeroed': 1000, 'parse error raised': 300, 'label kept': 5000,
            'name sanitised': 2000, 'relation sanitised': 600,
            'value to text': 3000, 'component to text': 500,
            'accepted by cobweb': 600, 'accepted by cobweb3': 600,
            'accepted by trestle': 500, 'object variablised': 2000,
            'nested object variablised': 1200, 'relation variablised': 350,
            'object kept': 800, 'pipeline': 700, 'spec refused': 300,
            'undo is a copy': 6000}
RULE = ('Random nested instances (components to depth 3, relations, numbers, '
        'labels that do and do not parse as numbers, odd attribute names and '
        'unhashable values for the sanitizer) pass through the real '
        'preprocessors; an independent model of the documented conversion is '
        'compared with the result type-exactly, the input is compared with a '
        'copy taken before. Non-trivial: a distinct (converter, settings, '
        'result) in which something was converted.')
ASSUMPTIONS = ['truth values are not converted by NumericToNominal inputs '
               'here: python counts them as numbers',
               'attribute names that become equal after sanitising, empty '
               'attribute names and None values are not generated']

GOOD = ['12', '3.5', '-4', '1e3', ' 7 ', '0', '-0.5', '1_000', '.5', '+2',
        'infinity']
BAD = ['', 'bad', '1,5', '12a', '--3', 'v1', '1 2', '0x10', ' ']


def value(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.randint(-5, 1000)
    if k == 1:
        return rng.choice([0.0, -1.5, 2.25, 1e-7, 3e20, rng.random(), True,
                           False])
    if k in (2, 3):
        return rng.choice(GOOD)
    if k in (4, 5):
        return rng.choice(BAD)
    if k == 6:
        return ('t', rng.randrange(3))
    return rng.choice(['left', 'right', 'é'])


NAMES = ['a', 'b', 'c', 'x', 'y', 'size', '_h', '?v', 'obj', 'part', 'Attr N']


def instance(rng, depth=3, tuples=True):
    out = {}
    for n in rng.sample(NAMES, rng.randint(0 if depth < 3 else 1, 5)):
        if depth and rng.random() < 0.3:
            out[n] = instance(rng, depth - 1, tuples)
        else:
            out[n] = value(rng)
    if tuples and rng.random() < 0.4:
        out[('rel', rng.choice(NAMES), rng.choice(NAMES))] = value(rng)
    return out


def all_attrs(x):
    out = []
    for k, v in x.items():
        out.append(k)
        if isinstance(v, dict):
            out.extend(all_attrs(v))
    return out


def targets(rng, inst):
    if rng.random() < 0.4:
        return ()
    pool = all_attrs(inst) + ['no-such']
    return tuple(rng.sample(pool, rng.randint(1, min(4, len(pool)))))


def converted(rng, ctx, pp, inst, what):
    given = deep(inst)
    out = pp.transform(inst)
    ctx.check(same(inst, given), what, 'changed its input', given, 'to', inst)
    return out


def one_way(rng, ctx, pp, out, what):
    """undo is an exact copy, in a new dictionary."""
    back = pp.undo_transform(out)
    ctx.check(same(back, out), what, 'undo gives', back, 'not a copy of', out)
    ctx.check(back is not out, what, 'undo returns its input itself')
    ctx.ev('undo is a copy')


def to_nominal(rng, ctx):
    from concept_formation.preprocessor import NumericToNominal
    inst = instance(rng)
    ts = targets(rng, inst)
    ctx.note = ('NumericToNominal', ts, inst)

    def model(x):
        out = {}
        for k, v in x.items():
            if isinstance(v, dict):
                out[k] = model(v)
            elif (not ts or k in ts) and isinstance(v, Number):
                out[k] = str(v)
                ctx.ev('number to label')
                if x is not inst:
                    ctx.ev('number to label in a component')
            else:
                if isinstance(v, Number):
                    ctx.ev('number kept')
                out[k] = v
        return out
    want = model(inst)
    pp = NumericToNominal(*ts)
    for _ in range(2):
        out = converted(rng, ctx, pp, inst, 'NumericToNominal')
        ctx.check(same(out, want), 'NumericToNominal', ts, 'gave', out,
                  'should be', want)
    one_way(rng, ctx, pp, out, 'NumericToNominal')
    if not same(out, inst):
        ctx.seen(repr(('n2n', ts, out)))
    ctx.sample('NumericToNominal%r %r -> %r' % (ts, inst, out))


class Bad(Exception):
    pass


def to_numeric(rng, ctx):
    from concept_formation.preprocessor import NominalToNumeric
    inst = instance(rng)
    ts = targets(rng, inst)
    policy = rng.choice(['break', 'drop', 'drop', 'zero', 'zero', 'weird',
                         None])
    eff = policy if policy in ('drop', 'zero') else 'break'
    if eff == 'break' and rng.random() < 0.5:
        def clean(x):
            for k, v in list(x.items()):
                if isinstance(v, dict):
                    clean(v)
                elif (v in BAD or isinstance(v, tuple) or
                      v in ('left', 'right', 'é')) and (not ts or k in ts):
                    x[k] = rng.choice(GOOD)
        clean(inst)
    ctx.note = ('NominalToNumeric', policy, ts, inst)

    def parse(v):
        try:
            return float(v)
        except (ValueError, TypeError):
            raise Bad()

    def model(x):
        out = {}
        for k, v in x.items():
            if isinstance(v, dict):
                out[k] = model(v)
            elif not ts or k in ts:
                try:
                    out[k] = parse(v)
                    if isinstance(v, str):
                        ctx.ev('label to number')
                except Bad:
                    if eff == 'break':
                        raise
                    if eff == 'zero':
                        out[k] = 0.0
                        ctx.ev('zeroed')
                    else:
                        ctx.ev('dropped')
            else:
                ctx.ev('label kept')
                out[k] = v
        return out
    try:
        want = model(inst)
    except Bad:
        want = Bad
    if policy is None:
        pp = NominalToNumeric() if not ts else NominalToNumeric('break', *ts)
    elif rng.random() < 0.5 and not ts:
        pp = NominalToNumeric(on_fail=policy)
    else:
        pp = NominalToNumeric(policy, *ts)
    given = deep(inst)
    try:
        out = pp.transform(inst)
    except (ValueError, TypeError) as e:
        ctx.check(want is Bad, 'NominalToNumeric raised', repr(e),
                  'with policy', policy)
        ctx.check(same(inst, given), 'a failed conversion changed its input')
        ctx.ev('parse error raised')
        ctx.seen(repr(('raise', ts, inst)))
        return
    ctx.check(same(inst, given), 'NominalToNumeric changed its input')
    ctx.check(want is not Bad, 'NominalToNumeric did not raise, gave', out)
    ctx.check(same(out, want), 'NominalToNumeric', policy, ts, 'gave', out,
              'should be', want)
    one_way(rng, ctx, pp, out, 'NominalToNumeric')
    ctx.seen(repr(('n2m', policy, ts, out)))


# ------------------------------------------------------------------ sanitizer

class Odd(object):
    def __repr__(self):
        return 'Odd!'


ODD = Odd()


def odd_attr(rng):
    return rng.choice([1, 2.5, len, ODD, True, -7, frozenset(['q']), b'by',
                       None])


def odd_value(rng, depth):
    k = rng.randrange(9)
    if k == 0:
        return [rng.randrange(3), 'z']
    if k == 1:
        return set([rng.randrange(3)])
    if k == 2:
        return ('t', [1, rng.randrange(3)])
    if k == 3 and depth:
        return odd_instance(rng, depth - 1)
    if k == 4:
        return rng.choice([True, False])
    if k == 5:
        return ('t', rng.randrange(4))
    if k == 6:
        return rng.choice([1, 2.5, -3])
    if k == 7:
        return rng.choice([bytearray(b'x'), {}, []])
    return rng.choice(['v', 'w', ''])


def odd_tuple(rng, d=2):
    return tuple([rng.choice(['r1', 'r2', 'on'])] + [
        odd_tuple(rng, d - 1) if d and rng.random() < 0.25 else
        rng.choice(['o1', '?o2', 2, 3.5, True, 'x']) for _ in
        range(rng.randint(1, 3))])


def odd_instance(rng, depth=2):
    out = {}
    for _ in range(rng.randint(0 if depth < 2 else 1, 5)):
        k = rng.randrange(3)
        a = (odd_attr(rng) if k == 0 else odd_tuple(rng) if k == 1 else
             rng.choice(NAMES))
        out[a] = odd_value(rng, depth)
    return out


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def san_tuple(t):
    return tuple(san_tuple(e) if isinstance(e, tuple) else
                 e if isinstance(e, str) else str(e) for e in t)


def clash(x, spec):
    """Two attribute names become the same."""
    ks = [san_tuple(k) if isinstance(k, tuple) and spec == 'trestle' else
          k if isinstance(k, (str, tuple)) else str(k) for k in x]
    # equal tuples such as ('r', 1) and ('r', True) are one key anyway
    if len(set(ks)) < len(ks):
        return True
    return any(isinstance(v, dict) and spec == 'trestle' and clash(v, spec)
               for v in x.values())


def text(d):
    """The documented deterministic text of an unhashable value."""
    if isinstance(d, str):
        return "'" + d + "'"
    if isinstance(d, dict):
        return '{' + ','.join(text(k) + ':' + text(d[k]) for k in
                              sorted(d, key=str)) + '}'
    return str(d)


def sanitize(rng, ctx):
    from concept_formation.preprocessor import Sanitizer
    spec = rng.choice(['trestle', 'cobweb', 'cobweb3'])
    inst = odd_instance(rng)
    for _ in range(20):
        if not clash(inst, spec):
            break
        inst = odd_instance(rng)
    else:
        return
    style = rng.choice([spec, spec.upper(), spec.title()])
    ctx.note = ('Sanitizer', style, inst)

    def model(x):
        out = {}
        for k, v in x.items():
            if isinstance(k, tuple):
                if spec == 'trestle':
                    k2 = san_tuple(k)
                    if k2 != k:
                        ctx.ev('relation sanitised')
                else:
                    k2 = k
            elif isinstance(k, str):
                k2 = k
            else:
                k2 = str(k)
                ctx.ev('name sanitised')
            if hashable(v):
                v2 = v
            elif isinstance(v, dict) and spec == 'trestle':
                v2 = model(v)
            else:
                v2 = text(v)
                ctx.ev('value to text')
                if isinstance(v, dict):
                    ctx.ev('component to text')
            out[k2] = v2
        return out
    want = model(inst)
    pp = (Sanitizer() if style == 'trestle' and rng.random() < 0.5 else
          Sanitizer(style))
    out = converted(rng, ctx, pp, inst, 'Sanitizer')
    ctx.check(same(out, want), 'Sanitizer', style, 'gave', out, 'should be',
              want)
    # the text of a component does not depend on the order of its entries
    rev = reverse(inst)
    out2 = pp.transform(rev)
    ctx.check(same(out2, want), 'Sanitizer', style, 'gave', out2, 'for the '
              'same instance in another order, should be', want)
    one_way(rng, ctx, pp, out, 'Sanitizer')
    ctx.seen(repr(('san', spec, sorted(map(str, out.items())))))
    # what was sanitised is acceptable to the trees
    kind = {'trestle': rng.choice(['trestle', 'trestle-off']),
            'cobweb': 'cobweb',
            'cobweb3': rng.choice(['cobweb3', 'cobweb3-off'])}[spec]
    if spec == 'trestle' and (any_empty(out) or any(
            bad_for_trestle(k) for k in all_attrs(out))):
        return
    if any(k in ((), '') for k in all_attrs(out)):
        return
    tree = gen.make_tree(kind)
    for x in (out, out2, out):
        tree.ifit(x)
        tree.categorize(x)
    ctx.check(tree.root.count == 3, 'three sanitised instances give a root '
              'of', tree.root.count)
    ctx.ev('accepted by ' + spec)


def any_empty(x):
    return any(isinstance(v, dict) and (not v or any_empty(v)) for v in
               x.values())


def bad_for_trestle(k):
    """Names with a meaning of their own to the relational tree."""
    return False


def reverse(x):
    if isinstance(x, dict):
        return {k: reverse(x[k]) for k in reversed(list(x))}
    return x


def bad_spec(rng, ctx):
    from concept_formation.preprocessor import Sanitizer
    s = rng.choice(['', 'cobweb4', 'trestl', 'numeric', ' cobweb'])
    try:
        Sanitizer(s)
    except ValueError:
        ctx.ev('spec refused')
        return
    ctx.fail('an unknown tree type was accepted:', s)


# ---------------------------------------------------------------- variablizer

def var_instance(rng, depth, names, inside=False):
    out = {}
    for _ in range(rng.randint(1, 3)):
        if not names:
            break
        k = rng.random()
        n = names.pop()
        if depth and k < 0.5:
            out[rng.choice(['', '', '?']) + n] = var_instance(
                rng, depth - 1, names, True)
        else:
            out[n] = value(rng)
    return out


def variablize(rng, ctx):
    from concept_formation.preprocessor import ObjectVariablizer
    names = ['ob%d' % i for i in range(12)] + ['p', 'q', '_h']
    rng.shuffle(names)
    inst = var_instance(rng, 3, names)
    ts = ()
    if rng.random() < 0.5:
        # targets at the top level, or below targets only
        objs = [k for k, v in inst.items() if isinstance(v, dict)]
        pool = list(inst) + ['no-such']
        ts = tuple(rng.sample(pool, rng.randint(1, min(3, len(pool)))))
        for o in objs:
            if o in ts:
                ts += tuple(k for k, v in inst[o].items()
                            if isinstance(v, dict) and rng.random() < 0.5)
    mapping = {}

    def model(x):
        out = {}
        for k, v in x.items():
            if isinstance(v, dict) and (not ts or k in ts):
                n = k if k[0] == '?' else '?' + k
                mapping[k] = n
                if n != k:
                    ctx.ev('object variablised')
                    if x is not inst:
                        ctx.ev('nested object variablised')
                out[n] = model(v)
            else:
                if isinstance(v, dict):
                    ctx.ev('object kept')
                out[k] = v
        return out
    want = model(inst)
    every = [k for k in all_attrs(inst)]

    def ren(t):
        return tuple(ren(e) if isinstance(e, tuple) else mapping.get(e, e)
                     for e in t)
    for _ in range(rng.randint(0, 2)):
        a, b = rng.choice(every), rng.choice(every)
        rel = rng.choice([('on', a, b), ('size', a),
                          ('gt', ('w', a), ('w', b)), ('near', a, 'k'),
                          ('amid', a, b, rng.choice(every)),
                          ('why', ('on', ('of', a), b), 'k', a)])
        inst[rel] = rng.choice([True, 'yes', 2])
        want[ren(rel)] = inst[rel]
        if ren(rel) != rel:
            ctx.ev('relation variablised')
    if rng.random() < 0.5:
        items = list(inst.items())
        rng.shuffle(items)
        inst = dict(items)
    ctx.note = ('ObjectVariablizer', ts, inst)
    pp = ObjectVariablizer(*ts)
    for _ in range(2):
        out = converted(rng, ctx, pp, inst, 'ObjectVariablizer')
        ctx.check(same(out, want), 'ObjectVariablizer', ts, 'gave', out,
                  'should be', want)
    one_way(rng, ctx, pp, out, 'ObjectVariablizer')
    # variablising twice is variablising once
    if not ts:
        again = pp.transform(out)
        ctx.check(same(again, out), 'variablising again changed', out, 'to',
                  again)
    ctx.seen(repr(('var', ts, out)))
    if rng.random() < 0.2:
        tree = gen.make_tree('trestle')
        if not any_empty(out):
            tree.ifit(out)
            objs = gen.variables({k: 1 for k in tree.root.av_counts})
            ctx.ev('learned with objects', len(objs))


def pipelines(rng, ctx):
    """Converters compose, also through batch use and pipelines."""
    from concept_formation.preprocessor import (
        NominalToNumeric, NumericToNominal, Pipeline)
    insts = [instance(rng) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.5:
        # equal, but not the same
        i = rng.randrange(len(insts))
        insts.insert(i + 1, {k: (float(v) if type(v) is int else
                                 int(v) if type(v) is float and v == int(v)
                                 else v)
                             for k, v in deep(insts[i]).items()})
        ctx.ev('equal in a batch')
    given = deep(insts)
    ctx.note = ('pipeline', insts)
    a, b = NumericToNominal(), NominalToNumeric('zero')
    pipe = Pipeline(a, b)
    singles = [b.transform(a.transform(x)) for x in insts]
    batch = pipe.batch_transform(insts)
    labels = a.batch_transform(insts)
    ctx.check(len(labels) == len(insts) and
              all(same(x, a.transform(y)) for x, y in zip(labels, insts)),
              'batch transform gave', labels, 'for', insts)
    ctx.check(len(set(map(id, labels))) == len(labels), 'a batch gives one '
              'object for several instances')
    ctx.check(isinstance(batch, list) and len(batch) == len(insts),
              'batch of', len(insts), 'gave', batch)
    ctx.check(all(same(x, y) for x, y in zip(batch, singles)),
              'batch transform gave', batch, 'one at a time', singles)
    back = pipe.batch_undo(batch)
    ctx.check(len(back) == len(batch) and
              all(same(x, y) for x, y in zip(back, batch)),
              'batch undo of one-way converters changed', batch, 'to', back)
    ctx.check(all(same(x, y) for x, y in zip(given, insts)),
              'the batch changed its input')

    def numeric(x):
        return all(numeric(v) if isinstance(v, dict) else
                   isinstance(v, float) for v in x.values())
    ctx.check(all(numeric(x) for x in batch), 'not all numbers', batch)
    ctx.ev('pipeline')


SCENARIOS = [('to_nominal', to_nominal, 4), ('to_numeric', to_numeric, 5),
             ('sanitize', sanitize, 5), ('bad_spec', bad_spec, 1),
             ('variablize', variablize, 5), ('pipelines', pipelines, 2)]
