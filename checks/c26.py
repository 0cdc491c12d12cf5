"""C26: datasets load completely, in order and afresh."""
import json
import os
import random

from harness import gen, ops, snap
from harness.core import REPO
from harness.gen import deep, same

PID = 'C26'
CASES = {'quick': 3500, 'thorough': 44800}
REQUIRED = {'loaded': 100, 'fresh': 100, 'instances compared': 15000,
            'more than there are': 8, 'animal': 600, 'all kinds': 4,
            'animal learned': 100, 'human predictions': 1,
            'molecule learned': 2, 'learned load_forest_fires': 60,
            'learned load_congressional_voting': 80, 'learned load_iris': 60,
            'learned load_molecule': 30, 'learned load_rb_com_11': 25,
            'learned load_rb_s_07': 25, 'learned load_rb_s_13': 25,
            'learned load_rb_wb_03': 25}
RULE = ('Every loader is called with no, zero, random and too large sizes, '
        'repeatedly, after the results of earlier calls were defaced, and '
        'from other working directories; results are compared with an '
        'independent reading of the data file. Windows of every dataset are '
        'learned by the tree its documentation names. Generated animals are '
        'checked part by part. Non-trivial: a distinct (loader, size) or '
        'learned tree or animal.')
ASSUMPTIONS = ['molecules are learned by the structured tree two at a time '
               '(matching dozens of atoms takes seconds each) and all of '
               'them by the baseline tree']

# name, file, documented size, tree
SETS = [('load_forest_fires', 'forest_fires.json', 517, 'cobweb3'),
        ('load_congressional_voting', 'congressional_voting.json', 435,
         'cobweb'),
        ('load_iris', 'iris.json', 150, 'cobweb3'),
        ('load_rb_com_11', 'rb_com_11_continuous.json', 251, 'trestle'),
        ('load_rb_s_07', 'rb_s_07_continuous.json', 141, 'trestle'),
        ('load_rb_s_13', 'rb_s_13_continuous.json', 249, 'trestle'),
        ('load_rb_wb_03', 'rb_wb_03_continuous.json', 254, 'trestle'),
        ('load_molecule', 'molecule.json', 101, 'trestle')]
DATA = os.path.join(REPO, 'concept_formation', 'data_files')
_raw = {}


def raw(name):
    if name not in _raw:
        with open(os.path.join(DATA, name), encoding='utf-8') as f:
            _raw[name] = json.load(f)
    return deep(_raw[name])


def deface(x, rng):
    if isinstance(x, list):
        for e in x:
            deface(e, rng)
        x.append('junk')
    elif isinstance(x, dict):
        for v in x.values():
            deface(v, rng)
        x.clear()
        x['junk'] = 1


def apart(ctx, data):
    """No two instances of one load are, or hold, the same object."""
    ids = set()

    def walk(v):
        if isinstance(v, (dict, list)):
            ctx.check(id(v) not in ids, 'two instances of one load share', v)
            ids.add(id(v))
            for w in (v.values() if isinstance(v, dict) else v):
                walk(w)
    walk(data)


def loaders(rng, ctx):
    from concept_formation import datasets as D
    name, file, size, _ = rng.choice(SETS)
    fn = getattr(D, name)
    want = raw(file)
    ctx.check(len(want) == size, name, 'documents', size, 'instances, the '
              'file has', len(want))
    n = rng.choice([None, None, 0, 1, 2, size - 1, size, size + 1,
                    rng.randint(0, size + 10)])
    ctx.note = (name, n)
    here = os.getcwd()
    with ops.scratch() as d:
        try:
            if rng.random() < 0.3:
                os.chdir(d)
            a = (fn() if n is None and rng.random() < 0.5 else
                 fn(n) if rng.random() < 0.5 else fn(num_instances=n))
        finally:
            os.chdir(here)
    w = want if n is None else want[:n]
    ctx.check(isinstance(a, list) and len(a) == len(w), name, n, 'gave',
              len(a), 'instances, should be', len(w))
    for i, (x, y) in enumerate(zip(a, w)):
        ctx.check(same(x, y), name, n, 'instance', i, 'is', x, 'should be',
                  y)
    ctx.ev('loaded')
    ctx.ev('instances compared', len(w))
    if n is not None and n > size:
        ctx.ev('more than there are')
    # changing what was loaded does not change later loads
    b = fn(n)
    keep = deep(b)
    deface(a, rng)
    ctx.check(same(b, keep), name, 'two loads share objects')
    c = fn(n)
    ctx.check(same(c, w), name, 'a later load is affected by changes')
    apart(ctx, b)
    ctx.ev('fresh')
    ctx.seen((name, str(n)))
    ctx.sample('%s(%r): %d instances' % (name, n, len(w)))


def human(rng, ctx):
    from concept_formation import datasets as D
    with open(os.path.join(DATA, 'human_s_07_success_predictions.csv'),
              newline='') as f:
        want = f.read().replace('\r\n', '\n').split('\n')
    if want[-1] == '':
        want.pop()
    a = D.load_rb_s_07_human_predictions()
    ctx.check(len(a) == 601, 'human predictions:', len(a), 'rows')
    for i, (x, y) in enumerate(zip(a, want)):
        ctx.check(x == y, 'row', i, 'is', x, 'should be', y)
        ctx.check(len(x.split(',')) == 6, 'row', i, 'has fields', x)
    a[0] = 'junk'
    a.pop()
    ctx.check(D.load_rb_s_07_human_predictions() == want,
              'a later load is affected by changes')
    guids = {x['_guid'] for x in D.load_rb_s_07()}
    ctx.check({r.split(',')[1] for r in want[1:]} <= guids,
              'predictions about unknown towers')
    ctx.ev('human predictions')


def learn(rng, ctx):
    from concept_formation import datasets as D
    from concept_formation.dummy import DummyTree
    from concept_formation.preprocessor import ObjectVariablizer, Tuplizer
    name, file, size, kind = rng.choice(SETS)
    k = rng.randint(5, 25)
    if kind == 'trestle':
        k = rng.randint(2, 10)
    if rng.random() < 0.5:
        at = rng.randrange(0, size)
    else:
        at = rng.choice([0, size - k])
    data = getattr(D, name)()[at:at + k]
    ctx.note = (name, at, k)
    pps = []
    if name == 'load_molecule':
        pps = [Tuplizer()]
        kind = 'dummy'
    elif kind == 'trestle' and rng.random() < 0.4:
        data = data[:4]
        pps = [ObjectVariablizer()]
    tree = DummyTree() if kind == 'dummy' else gen.make_tree(kind)
    for x in data:
        given = deep(x)
        for p in pps:
            x = p.transform(x)
        tree.ifit(x)
        ctx.check(tree.root.count >= 1, 'nothing learned')
        tree.categorize(x)
        del given
    ctx.check(tree.root.count == len(data), name, 'learned', tree.root.count,
              'of', len(data))
    ctx.ev('learned ' + name, len(data))
    ctx.seen((name, at, k))


def molecules(rng, ctx):
    from concept_formation import datasets as D
    from concept_formation.preprocessor import Tuplizer
    data = sorted(D.load_molecule(), key=len)[:4]
    tree = gen.make_tree('trestle')
    for x in data[:2]:
        tree.ifit(Tuplizer().transform(x))
    ctx.check(tree.root.count == 2, 'learned', tree.root.count)
    ctx.ev('molecule learned', 2)


PARTS = ['torso', 'leg1', 'leg2', 'leg3', 'leg4', 'neck', 'head', 'tail']
ATTRS = ['_type', 'axisX', 'axisY', 'axisZ', 'height', 'locationX',
         'locationY', 'locationZ', 'radius', 'texture']


def quadruped(rng, ctx):
    from concept_formation import datasets as D
    n = rng.choice([0, 1, 2, 3, 10, 30, 60, 60, rng.randint(61, 400)])
    s = rng.getrandbits(40)
    ctx.note = ('quadruped', n, s)
    random.seed(s)
    data = D.load_quadruped(n)
    ctx.check(len(data) == n, 'asked for', n, 'animals, got', len(data))
    kinds = set()
    for x in data:
        ctx.check(set(x) == set(PARTS) | {'_type'}, 'an animal with', set(x))
        ctx.check(x['_type'] in ('dog', 'cat', 'horse', 'giraffe'),
                  'an animal of type', x['_type'])
        kinds.add(x['_type'])
        for p in PARTS:
            c = x[p]
            ctx.check(sorted(c) == ATTRS, p, 'has', sorted(c))
            ctx.check(c['_type'] == p, p, 'is of type', c['_type'])
            ctx.check(all(snap.is_number(c[a]) for a in ATTRS[1:]),
                      p, 'has non-numbers', c)
            ctx.check(c['height'] > 0 and c['radius'] > 0 and
                      170 <= c['texture'] <= 180, p, 'is', c)
            ctx.check(all(-1 <= c[a] <= 1 for a in ('axisX', 'axisY',
                                                    'axisZ')), p, 'axes', c)
        t = x['torso']
        for i, (sx, sy) in enumerate([(1, 1), (1, -1), (-1, 1), (-1, -1)], 1):
            leg = x['leg%d' % i]
            ctx.check(leg['height'] == x['leg1']['height'] and
                      leg['locationX'] == sx * t['height'] / 2 and
                      leg['locationY'] == sy * t['radius'],
                      'leg', i, 'is', leg, 'at torso', t)
        ctx.ev('animal')
    if n >= 60:
        ctx.check(kinds == {'dog', 'cat', 'horse', 'giraffe'},
                  '60 animals are all of', kinds)
        ctx.ev('all kinds')
    # reproducible, fresh
    random.seed(s)
    again = D.load_quadruped(n)
    ctx.check(same(again, data), 'the same seed gives other animals')
    apart(ctx, data)
    ctx.check(len({x['torso']['height'] for x in data}) > 0.9 * n - 1,
              'animals occur more than once')
    deface(data, rng)
    random.seed(s)
    ctx.check(same(D.load_quadruped(n), again), 'animals share objects')
    if 1 <= n <= 10:
        tree = gen.make_tree(rng.choice(['trestle', 'trestle-off']))
        for x in again:
            tree.ifit(x)
        ctx.check(tree.root.count == n, 'learned', tree.root.count)
        ctx.ev('animal learned', n)
    if again:
        ctx.seen(repr(again[0]))


def mushroom(rng, ctx):
    from concept_formation import datasets as D
    path = os.path.join(DATA, 'mushrooms.json')
    try:
        a = D.load_mushroom(5)
    except FileNotFoundError as e:
        if os.path.exists(path):
            raise
        ctx.finding('load-mushroom-file-missing',
                    'load_mushroom() raises %r: its data file is not there'
                    % e)
        return
    ctx.check(len(a) == 5, 'asked for 5 mushrooms, got', len(a))
    b = D.load_mushroom()
    ctx.check(len(b) == 8124 and same(a, b[:5]), 'mushrooms:', len(b))


SCENARIOS = [('loaders', loaders, 6), ('learn', learn, 5),
             ('quadruped', quadruped, 3)]
DIRECTED = [('human', human), ('mushroom', mushroom),
            ('molecules', molecules)]
