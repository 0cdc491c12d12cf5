"""Generators of instance streams, trees and structured instances."""
import math

NAMES = ['a', 'b', 'c', 'color', 'size', 'x', 'y', 'f1', 'shape', 'w', 'zz',
         'Attr Name', 'k-1', 'é', 'a_b', '1', 'b?', 'longer name of it']
HIDDEN = ['_id', '_label', '_h', '_x']


def nominal_alphabet(rng):
    """Values of one nominal attribute; all of one kind, never equal."""
    kind = rng.randrange(11)
    k = rng.choice([1, 2, 2, 2, 3, 3, 3, 4, 4, 6, 6, 12])
    if kind == 0:
        return [True, False][:max(1, min(2, k))]
    if kind == 1:
        return [('t', i) for i in range(k)]
    if kind == 2:
        return [frozenset(['p', i]) for i in range(k)]
    if kind == 3:
        return [b'x%d' % i for i in range(k)]
    if kind == 4:
        return ['', ' ', 'v v', '_v', '?v', '(a b)', 'None', 'é', 'V V',
                'vv', 'v', '__v'][:k]
    if kind == 5:
        return ['0', '1', '2.5', '-3', '1e3', 'nan', 'inf', '10', '00', '01',
                '1.0', 'True'][:k]
    return ['v%d' % i for i in range(k)]


def numeric_source(rng, tame=False):
    """Returns (description, function(class index) -> number)."""
    kind = rng.randrange(7)
    if kind == 0:
        cs = [rng.choice([-3, -1, 0, 1, 2, 5, 10]) for _ in range(5)]
        return 'ints', lambda c: cs[c % 5] + rng.choice([0, 0, 0, 1])
    if kind == 1:
        mus = [rng.uniform(-10, 10) for _ in range(5)]
        sd = rng.choice([0.01, 0.3, 2.0])
        return 'gauss', lambda c: rng.gauss(mus[c % 5], sd)
    if kind == 2:
        v = rng.choice([0, 0.0, 1.5, -7, 100])
        return 'constant', lambda c: v
    if kind == 3:
        off = rng.choice([1000.0, -250.5, 50.0])
        return 'offset', lambda c: off + (c % 5) + rng.random()
    if kind == 4:
        vals = [rng.choice([0.1, 0.2, 0.3, 0.7, 1.1]) for _ in range(3)]
        return 'few', lambda c: rng.choice(vals)
    if kind == 5:
        sc = rng.choice([1e-3, 1e3]) if tame else rng.choice([1e-6, 1e6])
        return 'scaled', lambda c: sc * ((c % 5) + rng.random())
    if not tame and rng.random() < 0.15:
        far = rng.choice([1e4, -1e5, 1e6])
        return 'outlier', lambda c: (far if rng.random() < 0.06 else
                                     (c % 5) + rng.random())
    return 'uniform', lambda c: rng.uniform(-1, 1)


class FlatSpec(object):
    """A distribution over flat instances with latent classes."""

    def __init__(self, rng, numeric=True, hidden=True, missing=True,
                 tuples=True, mixed=False, tame=False, max_attrs=None,
                 nominal=True, min_numeric=0, min_nominal=0):
        self.rng = rng
        self.classes = rng.choice([1, 2, 2, 3, 3, 4, 5])
        self.noise = rng.choice([0.0, 0.05, 0.2, 0.5, 1.0])
        self.p_missing = (rng.choice([0.0, 0.0, 0.1, 0.3, 0.6]) if missing
                          else 0.0)
        self.p_dup = rng.choice([0.0, 0.1, 0.3])
        names = list(NAMES)
        rng.shuffle(names)
        self.wide = False
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        if max_attrs is None:
            max_attrs = 6
            if rng.random() < 0.03:
                # many attributes and classes
                max_attrs = n = rng.randint(7, 12)
                self.classes = rng.choice([2, 6, 9])
                if rng.random() < 0.15:
                    max_attrs = n = rng.randint(25, 60)
                    names += ['attr%d' % i for i in range(60)]
                    self.wide = True
        n = max(1, min(n, max_attrs), min_numeric + min_nominal)
        self.attrs = []
        p_num = rng.choice([0.0, 0.3, 0.6, 1.0]) if numeric else 0.0
        if not nominal:
            p_num = 1.0
        for i in range(n):
            name = names[i]
            if tuples and rng.random() < 0.15:
                name = ((name, rng.choice(['o1', 'o2', ('p', 'q')])) if
                        rng.random() < 0.7 else (name, 'o1', 'o2'))
                if any(name == a[0] for a in self.attrs):
                    name = names[i]
            if (i < min_numeric or rng.random() < p_num) and i >= 0 and not (
                    n - i <= min_nominal - sum(1 for x in self.attrs
                                               if x[1] == 'nom')):
                d, f = numeric_source(rng, tame)
                if mixed and rng.random() < 0.3:
                    al = ['m0', 'm1'] + [True] * (rng.random() < 0.4)
                    self.attrs.append((name, 'mix', f, al))
                else:
                    self.attrs.append((name, 'num', f, d))
            else:
                al = nominal_alphabet(rng)
                pref = [rng.choice(al) for _ in range(self.classes)]
                self.attrs.append((name, 'nom', al, pref))
        self.hidden = []
        if hidden and rng.random() < 0.5:
            for name in rng.sample(HIDDEN, rng.randint(1, 2)):
                if tuples and rng.random() < 0.2:
                    name = ('_', name, 'o1')
                self.hidden.append((name, rng.choice(['uid', 'few', 'num'] if
                                                     numeric else
                                                     ['uid', 'few'])))
        self.uid = 0

    def instance(self, cls=None, full=False):
        rng = self.rng
        c = rng.randrange(self.classes) if cls is None else cls
        inst = {}
        items = list(self.attrs)
        if rng.random() < 0.3:
            rng.shuffle(items)
        for name, kind, p, q in items:
            if not full and rng.random() < self.p_missing:
                continue
            if kind == 'nom':
                inst[name] = (rng.choice(p) if rng.random() < self.noise
                              else q[c % len(q)])
            elif kind == 'num':
                inst[name] = p(c)
            else:
                inst[name] = rng.choice(q) if rng.random() < 0.5 else p(c)
        for name, kind in self.hidden:
            if rng.random() < 0.15:
                continue
            self.uid += 1
            inst[name] = ('u%d' % self.uid if kind == 'uid' else
                          rng.choice(['h1', 'h2']) if kind == 'few' else
                          rng.choice([1, 2.5, 0, -3, 0.0, rng.random()]))
        return inst

    def stream(self, n):
        rng = self.rng
        mode = rng.randrange(4)
        out = []
        if self.wide:
            n = min(n, 8)
        for i in range(n):
            if out and rng.random() < self.p_dup:
                out.append(dict(rng.choice(out)))
                continue
            if mode == 0:
                cls = None
            elif mode == 1:
                cls = i % self.classes
            elif mode == 2:
                cls = (i * self.classes) // n
            else:
                cls = 0 if i < n // 2 else None
            out.append(self.instance(cls))
        return out

    def query(self):
        """A query: full, partial, empty, foreign values or attributes."""
        rng = self.rng
        r = rng.random()
        inst = self.instance(full=rng.random() < 0.5)
        if r < 0.15:
            return {}
        if r < 0.55 and inst:
            for k in list(inst):
                if rng.random() < 0.4:
                    del inst[k]
        if r > 0.85:
            inst['new-attr'] = 'new'
        if r > 0.9:
            for name, kind, p, q in self.attrs:
                if kind == 'nom' and name in inst:
                    inst[name] = 'unseen'
        return inst


def length(rng, ctx=None, big=60):
    r = rng.random()
    if r < 0.15:
        return rng.randint(1, 4)
    if r < 0.69:
        return rng.randint(5, min(25, big))
    if r < 0.70:
        return rng.randint(2 * big, 3 * big)
    return rng.randint(min(25, big), big)


TREES = ['cobweb', 'cobweb3', 'cobweb3', 'cobweb3-off', 'cobweb3-none',
         'cobweb3-s1', 'cobweb3-noinner', 'trestle', 'trestle-off']


def make_tree(kind):
    from concept_formation.cobweb import CobwebTree
    from concept_formation.cobweb3 import Cobweb3Tree
    from concept_formation.trestle import TrestleTree
    return {'cobweb': CobwebTree,
            'cobweb3': Cobweb3Tree,
            'cobweb3-off': lambda: Cobweb3Tree(scaling=False),
            'cobweb3-none': lambda: Cobweb3Tree(scaling=None),
            'cobweb3-s1': lambda: Cobweb3Tree(scaling=1.0),
            'cobweb3-s2': lambda: Cobweb3Tree(scaling=0.125),
            'cobweb3-noinner': lambda: Cobweb3Tree(inner_attr_scaling=False),
            'cobweb3-noinner2': lambda: Cobweb3Tree(0.5, False),
            'trestle': TrestleTree,
            'trestle-off': lambda: TrestleTree(scaling=None),
            'trestle-noinner': lambda: TrestleTree(inner_attr_scaling=False),
            }[kind]()


DEEP = ('cobweb3', 'cobweb3-s1', 'cobweb3-noinner', 'trestle')


def deep_stream(rng):
    """Powers of two, for which scaled numeric trees grow very deep."""
    out = [{'color': 2.0 ** i} for i in range(rng.randint(10, 23))]
    if rng.random() < 0.5:
        out.reverse()
    else:
        rng.shuffle(out)
    return out


def deep_spec(rng):
    spec = FlatSpec(rng, max_attrs=1, hidden=False)
    spec.attrs = [('color', 'num', lambda c: 2.0 ** rng.randrange(23), 'deep')]
    return spec


def flat_setup(rng, big=60, kinds=TREES, **kw):
    """(kind, tree, spec, stream) for flat data suited to the tree."""
    kind = rng.choice(kinds)
    if kind.startswith('trestle'):
        kw.setdefault('tuples', False)
    spec = FlatSpec(rng, **kw)
    if (rng.random() < 0.02 and not kw.get('tame') and big >= 20 and
            kw.get('numeric', True) and kind in DEEP):
        spec = deep_spec(rng)
        return kind, make_tree(kind), spec, deep_stream(rng)
    return kind, make_tree(kind), spec, spec.stream(length(rng, big=big))


# ---------------------------------------------------------------- structured

class StructSpec(object):
    """A distribution over structured instances.

    Objects have distinct names within an instance; objects nest only in
    objects (or, with const_sub, constants nest in objects and at top).
    """

    def __init__(self, rng, max_objects=4, numeric=True, hidden=True,
                 nested=True, relations=True, constants=True, scalars=True):
        self.rng = rng
        self.types = rng.choice([1, 2, 2, 3])
        self.nobj = (1, rng.randint(1, max_objects))
        self.numeric = numeric and rng.random() < 0.6
        self.hidden = hidden and rng.random() < 0.4
        self.nested = nested and rng.random() < 0.5
        self.relations = relations and rng.random() < 0.7
        self.constants = constants
        self.scalars = scalars and rng.random() < 0.3
        self.noise = rng.choice([0.0, 0.1, 0.4])
        self.oattrs = rng.sample(['color', 'size', 'shape', 'mat', 'px'],
                                 rng.randint(1, 3))
        self.rels = rng.sample(['on', 'left', 'near'], rng.randint(1, 2))
        self.protos = [{a: 'v%d' % rng.randrange(3) for a in self.oattrs}
                       for _ in range(self.types)]
        self.mus = [rng.uniform(-5, 5) for _ in range(self.types)]
        self.uid = 0

    def names(self, n, style=None):
        rng = self.rng
        style = rng.randrange(4) if style is None else style
        if style == 0:
            pool = ['?o%d' % i for i in range(1, 30)]
        elif style == 1:
            pool = ['?x', '?y', '?z', '?ab', '?q1', '?w', '?part', '?k',
                    '?m', '?n', '?p', '?r', '?s', '?t']
        elif style == 2:
            pool = ['?obj%d' % i for i in range(20)]
        else:
            pool = ['?' + c for c in 'abcdefghijklmnop']
        return rng.sample(pool, n)

    def obj(self, t):
        rng = self.rng
        o = {}
        for a in self.oattrs:
            if rng.random() < 0.1:
                continue
            o[a] = ('v%d' % rng.randrange(3) if rng.random() < self.noise
                    else self.protos[t][a])
        if self.numeric and rng.random() < 0.8:
            o['num'] = round(rng.gauss(self.mus[t], 1.0), 2)
        if self.hidden and rng.random() < 0.5:
            self.uid += 1
            o['_hid'] = 'h%d' % self.uid
        if self.constants and rng.random() < 0.25:
            o['sub'] = {'deep': rng.choice(['d1', 'd2'])}
            if rng.random() < 0.3:
                o['sub']['deeper'] = {'z': rng.choice(['z1', 'z2'])}
        if not o:
            o['exists'] = rng.choice(['yes', False])
        return o

    def instance(self, style=None):
        rng = self.rng
        n = rng.randint(*self.nobj)
        names = self.names(n, style)
        inst = {}
        place = {}
        for i, nm in enumerate(names):
            t = rng.randrange(self.types)
            o = self.obj(t)
            holder = inst
            if self.nested and i and rng.random() < 0.4:
                holder = place[rng.choice(names[:i])]
            holder[nm] = o
            place[nm] = o
        if self.scalars and rng.random() < 0.5:
            extra = [x for x in ['?sc1', '?sc2'] if x not in names]
            holder = rng.choice([inst] + list(place.values()))
            holder[extra[0]] = rng.choice(['s1', 's2'])
        if self.relations and n > 1:
            for _ in range(rng.randint(1, 3)):
                a, b = rng.sample(names, 2)
                r = rng.choice(self.rels)
                k = rng.random()
                if k < 0.7:
                    key = (r, a, b)
                elif k < 0.8:
                    key = ('gt', (rng.choice(self.oattrs), a),
                           (rng.choice(self.oattrs), b))
                elif k < 0.9:
                    key = (r, a, 'const1')
                elif k < 0.95:
                    key = ('same', (r, a, b), a)
                else:
                    key = ('amid', a, b, rng.choice(names + ['const1']))
                inst[key] = rng.choice([True, True, 'yes'])
                if self.numeric and rng.random() < 0.2:
                    inst[('gap', a, b)] = round(rng.gauss(3, 2), 2)
        if self.constants and rng.random() < 0.6:
            inst['kind'] = rng.choice(['k1', 'k2'])
        if self.numeric and rng.random() < 0.4:
            inst['height'] = rng.choice([1, 2.5, rng.random()])
        if self.constants and rng.random() < 0.3:
            inst['scene'] = {'light': rng.choice(['l1', 'l2'])}
            if self.hidden:
                inst['scene']['_s'] = 's%d' % rng.randrange(3)
        if self.hidden and rng.random() < 0.5:
            self.uid += 1
            inst['_guid'] = 'g%d' % self.uid
        if rng.random() < 0.5:
            items = list(inst.items())
            rng.shuffle(items)
            inst = dict(items)
        return inst

    def stream(self, n):
        out = []
        for _ in range(n):
            if out and self.rng.random() < 0.15:
                out.append(deep(self.rng.choice(out)))
            else:
                out.append(self.instance())
        return out


def deep(x):
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) for v in x]
    return x


def rename_objects(x, m):
    """Renames variables (keys of m) everywhere in a nested instance."""
    def attr(a):
        if isinstance(a, tuple):
            return tuple(attr(e) for e in a)
        return m.get(a, a)
    if isinstance(x, dict):
        return {attr(k): rename_objects(v, m) for k, v in x.items()}
    if isinstance(x, list):
        return [rename_objects(v, m) for v in x]
    return x


def variables(x):
    """All variable names in a nested or flat instance."""
    out = set()

    def attr(a):
        if isinstance(a, tuple):
            for e in a:
                attr(e)
        elif isinstance(a, str) and a[:1] == '?':
            out.add(a)

    def walk(v):
        if isinstance(v, dict):
            for k in v:
                attr(k)
                walk(v[k])
        elif isinstance(v, list):
            for e in v:
                walk(e)
    walk(x)
    return out


def same(a, b):
    """Equality that also distinguishes types (1, 1.0 and True)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (len(a) == len(b) and
                all(k in b and same(a[k], b[k]) for k in a) and
                set(map(_tkey, a)) == set(map(_tkey, b)))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def _tkey(k):
    if isinstance(k, tuple):
        return tuple(_tkey(e) for e in k)
    return (type(k).__name__, k)


_carrier = {}


def handed(rng, inst):
    """The instance, sometimes in a dictionary the caller uses again and
    again for different instances."""
    return inst if rng.random() < 0.7 else reused(inst)


def reused(inst):
    _carrier.clear()
    _carrier.update(inst)
    return _carrier
