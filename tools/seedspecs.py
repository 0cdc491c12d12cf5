"""Specifications of the planted bugs (turned into seeded/<id>/ by tools/seed.py)."""
SPECS = []


def bug(id, prop, file, edits, needs, what, demo, extra=()):
    SPECS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, what=what, demo=demo, extra=extra))


bug('c01-hidden-lost-on-copy', 'C01', 'cobweb3.py', [(
    """        self.count += node.count
        for attr in node.attrs('all'):
            self.av_counts[attr] = self.av_counts.setdefault(attr, {})""",
    """        self.count += node.count
        for attr in node.attrs():
            self.av_counts[attr] = self.av_counts.setdefault(attr, {})""")],
    'instances with hidden attributes and a fringe split or merge in a numeric tree',
    'concepts created by fringe splits and merges lose the hidden attributes of the instances beneath them', """
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': 'x', '_id': 'i1'})
t.ifit({'a': 'y', '_id': 'i2'})
assert t.root.av_counts.get('_id') == {'i1': 1, 'i2': 1}, t.root.av_counts
""")

bug('c02-fringe-split-replaces-leaf', 'C02', 'cobweb.py', [(
    """                new = current.__class__(current)
                current.parent = new
                new.children.append(current)

                if new.parent:
                    new.parent.children.remove(current)
                    new.parent.children.append(new)
                else:
                    self.root = new

                new.increment_counts(instance)
                current = new.create_new_child(instance)""",
    """                current.create_child_with_current_counts()
                current.increment_counts(instance)
                current = current.create_new_child(instance)""")],
    'a leaf returned by an earlier fit is later split at the fringe',
    'the leaf a caller holds on to silently becomes an internal concept', """
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
leaf = t.ifit({'a': 'x'})
t.ifit({'a': 'y'})
assert not leaf.children and leaf.count == 1 and leaf.parent is t.root
""")

bug('c04-tie-ignores-size', 'C04', 'cobweb.py', [(
    """                                 child.count, random(), child) for child in
                                self.children]""",
    """                                 random(), child.count, child) for child in
                                self.children]""")],
    'an instance for which two children of different size have exactly equal utility',
    'ties between children are decided at random instead of preferring the larger child', """
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
r = t.root
for vals in (['x', 'x', 'x'], ['x']):
    c = CobwebNode()
    c.tree = t
    c.parent = r
    r.children.append(c)
    for v in vals:
        c.increment_counts({'a': v})
        r.increment_counts({'a': v})
big, small = r.children
for i in range(100):
    assert t.categorize({'a': 'x'}) is big
""")

bug('c07-scales-before-check', 'C07', 'cobweb3.py', [(
    """        self._sanity_check_instance(instance)
        return self.cobweb(instance)""",
    """        self.update_scales(instance)
        self._sanity_check_instance(instance)
        return super(Cobweb3Tree, self).cobweb(instance)""")],
    'an invalid instance that also has numeric attributes',
    'a rejected instance has already changed the scaling statistics of the tree', """
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'n': 1.0})
try:
    t.ifit({'n': 100.0, 'bad': []})
    assert False
except ValueError:
    pass
assert t.attr_scales['n'].num == 1, t.attr_scales
""")

bug('c13-hidden-component-in-match', 'C13', 'cobweb3.py', [(
    """            if attr[0] == '_':
                continue
            if attr in instance and attr not in self.av_counts:
                return False
            if attr in self.av_counts and attr not in instance:
                return False
            if attr in self.av_counts and attr in instance:
                if (isNumber(instance[attr]) and
                        cv_key not in self.av_counts[attr]):""",
    """            if not isinstance(attr, tuple) and attr[0] == '_':
                continue
            if attr in instance and attr not in self.av_counts:
                return False
            if attr in self.av_counts and attr not in instance:
                return False
            if attr in self.av_counts and attr in instance:
                if (isNumber(instance[attr]) and
                        cv_key not in self.av_counts[attr]):""")],
    'structured instances that agree on everything visible and differ in a hidden attribute of a component',
    'a hidden attribute inside a component decides whether an instance joins a leaf', """
from concept_formation.trestle import TrestleTree
t = TrestleTree()
a = t.ifit({'c': {'x': 'v', '_id': '1'}})
b = t.ifit({'c': {'x': 'v', '_id': '2'}})
assert a is b and a.count == 2
""")

bug('c15-swap-takes-foreign-name', 'C15', 'structure_mapper.py', [(
    """        if mapping[o2] == o2:
            new_mapping[o1] = o1
        else:
            new_mapping[o1] = mapping[o2]

        if mapping[o1] == o1:
            new_mapping[o2] = o2
        else:
            new_mapping[o2] = mapping[o1]""",
    """        new_mapping[o1], new_mapping[o2] = mapping[o2], mapping[o1]""")],
    'more objects in the instance than in the concept, where swapping a mapped and an unmapped object pays off',
    'an unmapped object is given the name of another object of the instance instead of keeping its own', """
import random
from concept_formation.cobweb3 import Cobweb3Node
from concept_formation.structure_mapper import StructureMapper
rng = random.Random(1)
for rep in range(300):
    random.seed(rep)
    base = Cobweb3Node()
    for k in range(3):
        base.increment_counts({(a, '?o%d' % o): rng.choice('xy') for a in 'ab' for o in (1, 2) if rng.random() < .8})
    inst = {(a, '?n%d' % o): rng.choice('xy') for a in 'ab' for o in (1, 2, 3, 4) if rng.random() < .8}
    inst.update({('r', '?n%d' % rng.randint(1, 4), '?n%d' % rng.randint(1, 4)): True for k in range(2)})
    base.increment_counts({('r', '?o1', '?o2'): True, ('r', '?o2', '?o2'): True})
    m = StructureMapper(base)
    m.transform(inst)
    for o, c in m.get_mapping().items():
        assert c == o or c.startswith('?o'), m.get_mapping()
""")

bug('c16-hidden-path', 'C16', 'preprocessor.py', [(
    """        while isinstance(curr, tuple) and len(curr) == 2:
            if curr[0] == '_':
                _, curr = curr
            else:""",
    """        if isinstance(curr, tuple) and curr[0] == '_':
            _, curr = curr
        while isinstance(curr, tuple) and len(curr) == 2:
            if True:""")],
    'a hidden attribute at least two components deep below a hidden component',
    'only the outermost hidden marker is removed when flattening is undone', """
from concept_formation.preprocessor import Flattener
f = Flattener()
inst = {'_c': {'d': {'x': 'v', '_y': 'w'}}, 'p': {'q': {'_r': '1'}}}
assert f.undo_transform(f.transform(inst)) == inst, f.undo_transform(f.transform(inst))
""")

bug('c18-categorize-without-standardizing', 'C18', 'trestle.py', [(
    """        preprocessing = Pipeline(NameStandardizer(self.gensym),
                                 Flattener(), SubComponentProcessor(),
                                 StructureMapper(self.root))
        temp_instance = preprocessing.transform(instance)
        self._sanity_check_instance(temp_instance)
        return self._cobweb_categorize(temp_instance)""",
    """        preprocessing = Pipeline(Flattener(), SubComponentProcessor(),
                                 StructureMapper(self.root))
        temp_instance = preprocessing.transform(instance)
        self._sanity_check_instance(temp_instance)
        return self._cobweb_categorize(temp_instance)""")],
    'categorizing an instance whose object names coincide with names the tree generated',
    'categorization depends on the names of the caller\'s objects and fails when they look like generated ones', """
from concept_formation.trestle import TrestleTree
t = TrestleTree()
a = t.ifit({'?x': {'c': 'red'}, '?y': {'c': 'blue'}})
b = t.ifit({'?x': {'c': 'green'}, '?y': {'c': 'grey'}})
assert t.categorize({'?o1': {'c': 'red'}, '?o2': {'c': 'blue'}}) is a
assert t.categorize({'?o2': {'c': 'red'}, '?o1': {'c': 'blue'}}) is a
""")

bug('c19-k-cluster-overshoot', 'C19', 'cluster.py', [(
    """        if len(set(c)) > k:
            break
        clustering = c""",
    """        clustering = c
        if len(set(c)) >= k:
            break""")],
    'a split that turns fewer than k clusters into more than k',
    'k-clustering returns more than k clusters when a concept with several children is split', """
import random
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.cluster import k_cluster
for rep in range(30):
    random.seed(rep)
    data = [{'a': random.choice('uvwxyz'), 'b': random.choice('uvwxyz')} for i in range(25)]
    for k in (2, 3, 4):
        c = k_cluster(Cobweb3Tree(), data, k)
        assert len(set(c)) <= k, (len(set(c)), k)
""")

bug('c20-bic-distinct-leaves', 'C20', 'cluster.py', [(
    """    # c = len(clusters)
    n = len(leaves)
    ll = 0""",
    """    # c = len(clusters)
    n = len(set(leaves))
    ll = 0""")],
    'several instances sorted to the same leaf',
    'BIC uses the number of distinct leaves instead of the number of instances', """
from math import log
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import BIC
t = CobwebTree()
leaves = [t.ifit({'a': 'x'}), t.ifit({'a': 'y'}), t.ifit({'a': 'x'}), t.ifit({'a': 'x'})]
assert leaves[0] is leaves[3]
k = 2
ll = sum(t.root.log_likelihood(l) for l in leaves)
got = BIC([t.root] * 4, leaves)
assert abs(got - (-2 * ll + k * log(4))) < 1e-9, got
""")

bug('c21-first-run-not-cleared', 'C21', 'evaluation.py', [(
    """        tree.clear()

        if randomize_first or r > 0:
            shuffle(instances)""",
    """        if r > 0:
            tree.clear()

        if randomize_first or r > 0:
            shuffle(instances)""")],
    'evaluating a tree that has been trained before',
    'the first run is scored on a tree that already knows other instances', """
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
t = CobwebTree()
t.ifit({'a': 'x', 'b': 'y'})
s = incremental_evaluation(t, [{'a': 'x', 'b': 'y'}], 'b', 1, randomize_first=False)
assert s[0][0] == 0.0, s
""")

bug('c22-cluster-name-prefix', 'C22', 'visualize.py', [(
    """    if j_ob['name'] not in clusters:""",
    """    if not any(j_ob['name'].startswith(c) for c in clusters):""")],
    'concept numbers of which one is a prefix of another (e.g. 1 and 12) on different branches',
    'a visualisation cut at clusters also cuts at concepts whose number merely starts like a cluster\'s', """
import json, tempfile, shutil, webbrowser
webbrowser.open = lambda *a, **k: True
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.visualize import visualize_clusters
CobwebNode._counter = 0
t = CobwebTree()
t.root.concept_id = 100
def add(p, cid):
    c = CobwebNode()
    c.concept_id = cid
    c.parent = p
    c.tree = t
    p.children.append(c)
    return c
a, b = add(t.root, 1), add(t.root, 12)
for i, p in enumerate((a, a, b, b)):
    x = add(p, 50 + i)
    for n in (x, p, t.root):
        n.increment_counts({'v': 'v%d' % i})
d = tempfile.mkdtemp()
try:
    visualize_clusters(t, ['Concept1', 'Concept52', 'Concept53'], dst=d)
    js = open(d + '/output.js').read()
finally:
    shutil.rmtree(d)
ob = json.loads(js[js.index('=') + 1:js.rindex('; })')])
kids = {c['name']: [x['name'] for x in c['children']] for c in ob['children']}
assert kids == {'Concept1': [], 'Concept12': ['Concept52', 'Concept53']}, kids
""")

bug('c23-nested-tuple-sanitizing', 'C23', 'preprocessor.py', [(
    """            elif isinstance(v, tuple):
                ret.append(self._sanitize_tuple(v))
            else:
                ret.append(str(v))""",
    """            elif isinstance(v, tuple):
                ret.append(tuple(e if isinstance(e, (str, tuple)) else str(e)
                                 for e in v))
            else:
                ret.append(str(v))""")],
    'a relation nested at least three levels deep with a number in it',
    'sanitising leaves numbers in deeply nested relations, which the tree then rejects', """
from concept_formation.preprocessor import Sanitizer
from concept_formation.trestle import TrestleTree
inst = {('r', ('s', ('t', 1))): 'v'}
out = Sanitizer('trestle').transform(inst)
TrestleTree().ifit(out)
assert list(out) == [('r', ('s', ('t', '1')))], out
""")

bug('c24-empty-instance-uncounted', 'C24', 'dummy.py', [(
    """        self.root.increment_counts(temp_instance)
        return self.root""",
    """        if temp_instance:
            self.root.increment_counts(temp_instance)
        return self.root""")],
    'fitting an empty instance',
    'the baseline does not count instances without attributes', """
from concept_formation.dummy import DummyTree
t = DummyTree()
t.ifit({'a': 'x'})
t.ifit({})
assert t.root.count == 2 and t.root.probability('a', 'x') == 0.5
""")

bug('c25-first-of-tied', 'C25', 'utils.py', [(
    """    updated_choices = [(prob, random(), val) for val, prob in choices]
    return sorted(updated_choices, reverse=True)[0][2]""",
    """    return max(choices, key=lambda c: c[1])[0]""")],
    'several options with exactly the same maximal weight',
    'only the first of the tied options is ever chosen', """
from concept_formation.utils import most_likely_choice
got = {most_likely_choice([('a', 1), ('b', 2), ('c', 2), ('d', 2)]) for i in range(400)}
assert got == {'b', 'c', 'd'}, got
""")

bug('c26-cached-datasets', 'C26', 'datasets.py', [(
    """def _load_json(filename, num_instances=None):
""",
    """_cache = {}


def _load_json(filename, num_instances=None):
    if filename not in _cache:
        _cache[filename] = _read_json(filename)
    return _cache[filename][:num_instances]


def _read_json(filename, num_instances=None):
""")],
    'a caller that changes a loaded instance and loads the dataset again',
    'loading returns the same instance objects every time, so changes leak into later loads', """
from concept_formation.datasets import load_iris
a = load_iris(3)
a[0]['extra'] = 1
assert 'extra' not in load_iris(3)[0]
""")

bug('c27-no-defensive-copy', 'C27', 'cobweb.py', [(
    """        instances = [i for i in instances]

        for x in range(iterations):""",
    """        if not isinstance(instances, list):
            instances = [i for i in instances]

        for x in range(iterations):""")],
    'fitting a list whose order the caller still relies on',
    'fitting shuffles the caller\'s own list', """
from concept_formation.cobweb import CobwebTree
data = [{'a': str(i)} for i in range(30)]
keep = list(data)
CobwebTree().fit(data, randomize_first=False)
assert data == keep
""")

bug('c28-copy-shares-children', 'C28', 'cobweb.py', [(
    """            for child in otherNode.children:
                self.children.append(self.__class__(child))""",
    """            self.children.extend(otherNode.children)""")],
    'copying a concept that has children and changing the copy\'s descendants',
    'a deep copy of a concept shares its children with the original', """
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
t.ifit({'a': 'x'})
t.ifit({'a': 'y'})
c = CobwebNode(t.root)
c.children[0].increment_counts({'a': 'z'})
assert all('z' not in ch.av_counts['a'] for ch in t.root.children)
""")


bug('c05-weights-add-attribute', 'C05', 'cobweb3.py', [(
    """        choices = []
        if attr not in self.av_counts:
            choices.append((None, 1.0))
            return choices""",
    """        choices = []
        if not self.av_counts.setdefault(attr, {}):
            choices.append((None, 1.0))
            return choices""")],
    'asking a numeric concept for the weighted values of an attribute it never saw, then learning more',
    'the query adds an empty attribute to the concept, which changes utilities and exact matching afterwards', """
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': 'x'})
t.ifit({'a': 'y'})
leaf = t.categorize({'a': 'x'})
leaf.get_weighted_values('zz')
assert t.ifit({'a': 'x'}) is leaf
assert set(leaf.attrs('all')) == {'a'}
""")

bug('c06-standardizing-in-place', 'C06', 'preprocessor.py', [(
    """                value = [self._standardize(ele, mapping, name) if
                         isinstance(ele, dict) else ele for ele in value]""",
    """                for i, ele in enumerate(value):
                    if isinstance(ele, dict):
                        value[i] = self._standardize(ele, mapping, name)""")],
    'standardising the names of an instance that has a list of objects',
    'the elements of the caller\'s list are replaced by renamed ones', """
from copy import deepcopy
from concept_formation.preprocessor import NameStandardizer
inst = {'l': [{'?x': {'a': '1'}}, {'b': '2'}]}
keep = deepcopy(inst)
NameStandardizer().transform(inst)
assert inst == keep, inst
""")

bug('c06-inference-in-place', 'C06', 'cobweb.py', [(
    """        temp_instance = {a: instance[a] for a in instance}
        concept = self._cobweb_categorize(temp_instance)""",
    """        temp_instance = instance
        concept = self._cobweb_categorize(temp_instance)""")],
    'a caller that uses its query again after inferring missing values',
    'the inferred values are written into the caller\'s instance', """
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x', 'b': 'y'})
q = {'a': 'x'}
assert t.infer_missing(q) == {'a': 'x', 'b': 'y'}
assert q == {'a': 'x'}
""")

bug('c08-share-among-present', 'C08', 'cobweb3.py', [(
    """            prob_attr = self.av_counts[attr][cv_key].num / self.count
            if self.tree is not None and self.tree.scaling:""",
    """            known = [self.av_counts[attr][v] for v in self.av_counts[attr]
                     if v != cv_key]
            prob_attr = self.av_counts[attr][cv_key].num
            prob_attr /= self.count - sum(known)
            if self.tree is not None and self.tree.scaling:""")],
    'an attribute that is numeric in some instances and nominal in others',
    'the numeric score of a mixed attribute is weighted by the wrong share of instances', """
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree(scaling=False)
for v in (1.0, 1.0, 'x', 'x'):
    t.ifit({'a': v})
assert abs(t.root.probability('a', 1.0) - 0.5) < 1e-9, t.root.probability('a', 1.0)
""")

bug('c17-lists-of-lists', 'C17', 'preprocessor.py', [(
    """                        new_obj = {"val": el}""",
    """                        new_obj = {"val": str(el) if isinstance(el, list)
                                   else el}""")],
    'a list that has lists among its elements',
    'inner lists are turned into strings and do not come back', """
from concept_formation.preprocessor import ListProcessor
p = ListProcessor()
inst = {'l': ['a', ['b', 'c'], 'd']}
assert p.undo_transform(p.transform(inst)) == inst
""")

bug('c11-combine-cancellation', 'C11', 'continuous_value.py', [(
    """        delta = other.mean - self.mean
        self.meanSq = (self.meanSq + other.meanSq + delta * delta *
                       ((self.num * other.num) / (self.num + other.num)))
        self.mean = ((self.num * self.mean + other.num * other.mean) /
                     (self.num + other.num))
        self.num += other.num""",
    """        num = self.num + other.num
        mean = (self.num * self.mean + other.num * other.mean) / num
        squares = (self.meanSq + self.num * self.mean * self.mean +
                   other.meanSq + other.num * other.mean * other.mean)
        self.meanSq = max(0.0, squares - num * mean * mean)
        self.mean = mean
        self.num = num""")],
    'combining summaries of values that lie far from zero compared with their spread',
    'the combined spread is computed as a difference of large numbers and loses its digits', """
from concept_formation.continuous_value import ContinuousValue
a, b = ContinuousValue(), ContinuousValue()
a.update_batch([1e8 + 1, 1e8 + 2])
b.update_batch([1e8 + 3, 1e8 + 4])
a.combine(b)
assert abs(a.biased_std() - 1.118033988749895) < 1e-6, a.biased_std()
""")

bug('c12-first-value-unscaled', 'C12', 'cobweb3.py', [(
    """                    self.attr_scales[inner_attr] = ContinuousValue()
                self.attr_scales[inner_attr].update(instance[attr])""",
    """                    self.attr_scales[inner_attr] = ContinuousValue()
                elif inner_attr != attr and attr in self.attr_scales:
                    continue
                self.attr_scales[inner_attr].update(instance[attr])
                if inner_attr != attr:
                    self.attr_scales[attr] = self.attr_scales[inner_attr]""")],
    'structured instances in which the same object appears repeatedly with numeric attributes',
    'after the first value of an object the pooled scaling statistics stop being updated', """
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (1.0, 5.0, 9.0):
    t.ifit({('w', '?a'): v, ('w', '?b'): v + 1})
assert t.attr_scales['w'].num == 6, t.attr_scales['w']
""")

bug('c14-clear-keeps-scales', 'C14', 'cobweb3.py', [(
    """        Clears the concepts of the tree, but maintains the scaling parameter.
        \"\"\"
        self.root = Cobweb3Node()
        self.root.tree = self
        self.attr_scales = {}""",
    """        Clears the concepts of the tree, but maintains the scaling parameter.
        \"\"\"
        self.root = Cobweb3Node()
        self.root.tree = self""")],
    'a numeric tree that is cleared and reused for data in other ranges',
    'the scaling statistics survive clearing, so the cleared tree does not behave like a new one', """
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (1.0, 1000.0, -500.0):
    t.ifit({'n': v})
t.clear()
u = Cobweb3Tree()
for x in (t, u):
    x.ifit({'n': 1.0})
    x.ifit({'n': 2.0})
assert abs(t.root.probability('n', 1.5) - u.root.probability('n', 1.5)) < 1e-9
""")

bug('c10-fringe-split-utility', 'C10', 'cobweb.py', [(
    """        temp.create_child_with_current_counts()
        temp.increment_counts(instance)
        temp.create_new_child(instance)""",
    """        temp.increment_counts(instance)
        temp.create_child_with_current_counts()
        temp.create_new_child(instance)""")],
    'asking for the utility of a fringe split',
    'the predicted utility of a fringe split counts the instance in both halves', """
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
leaf = t.ifit({'a': 'x', 'b': 'u'})
cu = leaf.cu_for_fringe_split({'a': 'y', 'b': 'u'})
t.ifit({'a': 'y', 'b': 'u'})
assert abs(cu - t.root.category_utility()) < 1e-9, (cu, t.root.category_utility())
""")

bug('c09-none-weight', 'C09', 'cobweb3.py', [(
    """                count = self.av_counts[attr][val].num
            else:
                count = self.av_counts[attr][val]""",
    """                count = self.av_counts[attr][val].num
                val_count = 0
            else:
                count = self.av_counts[attr][val]""")],
    'an attribute with nominal values followed by numeric ones in the same concept',
    'the weight of a missing prediction is too large for mixed attributes, so missing can win', """
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in ('x', 'x', 'x', 'y', 'y', 'y', 1.0):
    t.ifit({'a': v})
w = t.root.get_weighted_values('a')
assert abs(sum(p for _, p in w) - 1) < 1e-9, w
assert all(t.root.predict('a') is not None for i in range(20))
""")

bug('c16-list-elements-not-undone', 'C16', 'preprocessor.py', [(
    """                new_instance[name] = [self._undo_standardize(ele) if
                                      isinstance(ele, dict) else ele for ele in
                                      instance[attr]]""",
    """                new_instance[name] = list(instance[attr])""")],
    'undoing name standardisation on an instance that has a list of objects with named parts',
    'objects inside lists keep their generated names', """
from concept_formation.preprocessor import NameStandardizer
p = NameStandardizer()
inst = {'l': [{'?x': {'a': '1'}}, {'b': '2'}]}
assert p.undo_transform(p.transform(inst)) == inst
""")

bug('c19-heuristic-of-targets', 'C19', 'cluster.py', [(
    """    min_h = (-1, float('inf'), ["Concept" + str(tree.root.concept_id)""",
    """    min_h = (-1, 0, ["Concept" + str(tree.root.concept_id)""")],
    'a split search in which every clustering has a positive heuristic value (e.g. with AIC or BIC)',
    'clusterings with a positive heuristic value are never returned by the split search', """
import random
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster_split_search, AIC
random.seed(1)
data = [{'a': random.choice('xyz'), 'b': random.choice('xyz')} for i in range(15)]
c = cluster_split_search(CobwebTree(), data, heuristic=AIC, maxsplit=3)
assert len(set(c)) > 1, c
""")

bug('c22-page-kept-stale', 'C22', 'visualize.py', [(
    """        if recreate_html or not exists(join(dst, 'viz.html')):""",
    """        if not exists(join(dst, 'viz.html')):""")],
    'writing a visualisation with recreate_html into a directory that has an outdated page',
    'the supporting files are not recreated when they were asked for', """
import os, tempfile, shutil, webbrowser
webbrowser.open = lambda *a, **k: True
from concept_formation.cobweb import CobwebTree
from concept_formation.visualize import visualize
t = CobwebTree()
t.ifit({'a': 'x'})
d = tempfile.mkdtemp()
try:
    open(d + '/viz.html', 'w').write('old')
    visualize(t, dst=d, recreate_html=True)
    assert open(d + '/viz.html').read() != 'old' and os.path.exists(d + '/viz_logic.js')
finally:
    shutil.rmtree(d)
""")

bug('c07-none-in-component', 'C07', 'cobweb.py', [(
    """            if instance[attr] is None:
                raise ValueError(\"Attributes with value None should\"""",
    """            if instance[attr] is None and attr[0] != '_':
                raise ValueError(\"Attributes with value None should\"""")],
    'a hidden attribute whose value is None',
    'a missing marker in a hidden attribute is learned as a value', """
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
try:
    t.ifit({'a': 'x', '_b': None})
except ValueError:
    assert t.root.count == 0
else:
    assert False
""")

bug('c27-refit-last-pass', 'C27', 'cobweb.py', [(
    """            for i in instances:
                self.ifit(i)
            shuffle(instances)""",
    """            for i in instances:
                self.ifit(i)
            instances = sorted(instances, key=lambda i: random())
            instances = [instances[int(random() * len(instances))]
                         for _ in instances]""")],
    'fitting for more than one iteration',
    'later passes draw the instances with replacement, so some are fitted twice and some not at all', """
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.fit([{'a': str(i)} for i in range(30)], iterations=2)
assert set(t.root.av_counts['a'].values()) == {2}
""")

bug('c28-depth-of-copies', 'C28', 'cobweb.py', [(
    """        temp = self.__class__()
        temp.tree = self.tree
        temp.parent = self.parent
        temp.update_counts_from_node(self)
        return temp""",
    """        temp = self.__class__()
        temp.concept_id = self.concept_id
        temp.tree = self.tree
        temp.parent = self.parent
        temp.update_counts_from_node(self)
        return temp""")],
    'copying a concept and comparing identities',
    'a shallow copy has the same identity as the original', """
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'})
assert t.root.shallow_copy().concept_id != t.root.concept_id
""")

bug('c21-target-not-withheld', 'C21', 'evaluation.py', [(
    """    if attr in instance:
        instance = {a: instance[a] for a in instance if not a == attr}
    concept = tree.categorize(instance)

    if isinstance(val, dict):
        raise Exception(
            "Probability""",
    """    if attr in instance and val is None:
        instance = {a: instance[a] for a in instance if not a == attr}
    concept = tree.categorize(instance)

    if isinstance(val, dict):
        raise Exception(
            "Probability""")],
    'an instance whose target value would change where it is categorized',
    'the target attribute is shown to the tree when its probability is scored', """
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import probability
t = CobwebTree()
for a, b, c in ('x1q', 'z2p', 'z1q', 'y1p', 'z2q', 'y1p'):
    t.ifit({'a': a, 'b': b, 'c': c})
p = probability(t, {'a': 'x', 'c': 'p', 'b': '2'}, 'b', '2')
q = t.categorize({'a': 'x', 'c': 'p'}).probability('b', '2')
assert p == q == 0.0, (p, q)
""")

PAGE = """
import json
import shutil
import subprocess
import tempfile
import webbrowser
webbrowser.open = lambda *a, **k: None
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.visualize import visualize


def page(tree, actions):
    # opens the page in the stand-in browser beside this file
    d = tempfile.mkdtemp()
    try:
        visualize(tree, dst=d)
        p = subprocess.run(
            ['node', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'viewer.js')], text=True,
            input=json.dumps({'dir': d, 'actions': actions}) + chr(10), stdout=subprocess.PIPE)
    finally:
        shutil.rmtree(d)
    ans = json.loads(p.stdout)
    assert 'failed' not in ans, ans
    return ans


"""
VIEW = ['harness/viewer.js']

bug('c29-share-of-the-root', 'C29', 'visualization_files/viz_logic.js', [(
    """var pd = $("<td>"+(n/node_data['size']*100)""",
    """var pd = $("<td>"+(n/data['size']*100)""")],
    'a concept other than the root in focus',
    'the share of a value is that of all instances instead of the concept shown', PAGE + """
t = Cobweb3Tree()
for v in ['x', 'y', 'x']:
    t.ifit({'a': v, 'b': v})
c = t.root.children[0]
ans = page(t, [['click', 'Concept%s' % c.concept_id]])
rows = ans['out'][0]['rows']
assert [r[2] for r in rows if len(r) == 3] == ['100.00%', '100.00%'], rows
""", extra=VIEW)

bug('c29-search-by-prefix', 'C29', 'visualization_files/viz_logic.js', [(
    """         if (nodes[i].data.name == conc_name) {""",
    """         if (nodes[i].data.name.indexOf(conc_name) === 0) {""")],
    'a search for a concept whose name begins the name of a concept higher up',
    'searching for a concept focuses another one', PAGE + """
t = Cobweb3Tree()
for i in range(14):
    t.ifit({'a': 'v%d' % (i % 7), 'b': 'w%d' % (i % 5), 'c': 'u%d' % (i // 3)})


def walk(c):
    yield c
    for k in c.children:
        yield from walk(k)


names = ['Concept%s' % c.concept_id for c in walk(t.root)]
ans = page(t, [['search', n] for n in names])
assert [o['name'] for o in ans['out']] == names
""", extra=VIEW)

bug('c29-yes-no-ratio', 'C29', 'visualization_files/viz_logic.js', [(
    """    if(isPositiveBinary(rootVals)){
      values.reverse();
      rootVals.reverse();
    }

    if(values""",
    """    if(isPositiveBinary(rootVals)){
      rootVals.reverse();
    }

    if(values""")],
    'colouring by a yes/no attribute in the continuous style, concepts with both values',
    'concepts mixing yes and no are painted with the share of the other value', PAGE + """
t = Cobweb3Tree()
for v, b in [('yes', 1), ('yes', 1), ('yes', 2), ('no', 1), ('yes', 2), ('yes', 3)]:
    t.ifit({'a': v, 'b': 'v%d' % b, 'c': 'w%d' % b})
ans = page(t, [['colour', 'a', 'continuous']])
o = ans['out'][0]
share = {'yes': 5 / 6, 'no': 1 / 6}[o['high']]
got = o['circles']['Concept%s' % t.root.concept_id]['t']
assert abs(got - share) < 1e-9, (got, share)
""", extra=VIEW)

bug('c29-many-values-not-filtered', 'C29', 'visualization_files/viz_logic.js', [(
    """        if($("#fil-val-nominal").is(':checked') && (attrScale.valType === "nominal" || attrScale.valType === "nominal20")) {""",
    """        if($("#fil-val-nominal").is(':checked') && attrScale.valType === "nominal") {""")],
    'an attribute with more than ten values, some repeated, and the filter for nominal attributes ticked',
    'attributes with many values are shown though nominal attributes are hidden', PAGE + """
t = Cobweb3Tree()
for i in range(15):
    t.ifit({'a': 'v%d' % (i % 12), 'b': 'k'})
ans = page(t, [['filter', {'fil-val-nominal': True}]])
rows = [r[0] for r in ans['out'][0]['rows'] if len(r) == 1]
assert rows == ['b'], rows
""", extra=VIEW)

bug('c03-default-operations-shrink', 'C03', 'cobweb.py', [(
    """        operations.sort(reverse=True)""",
    """        if len(self.children) > 8 and 'new' in possible_ops:
            possible_ops.remove('new')
        operations.sort(reverse=True)""")],
    'a concept with more than eight children somewhere, then any later fit (also in another tree)',
    'creating a new concept is never considered again, in any tree of the process', """
import random
from concept_formation.cobweb import CobwebTree


def grow(n):
    random.seed(4)
    t = CobwebTree()
    for i in range(n):
        t.ifit({'a': 'v%d' % i, 'b': 'w%d' % i})
    return t


one = str(grow(6))
grow(40)
assert str(grow(6)) == one, (one, str(grow(6)))
""")

bug('c30-deep-member-overlooked', 'C30', 'structure_mapper.py', [(
    """            if contains_component(component, ele) is True:""",
    """            if ele == component or (isinstance(ele, tuple) and component in ele):""")],
    'a relation that names the object three levels deep',
    'an object is said not to occur in a relation it occurs in', """
from concept_formation.structure_mapper import contains_component
a = '?x'
for _ in range(5):
    a = ('rel', a, '?y')
    assert contains_component('?x', a), a
    assert not contains_component('?z', a), a
""")

bug('c26-animals-repeated', 'C26', 'datasets.py', [(
    """    return generate_animals(num_instances)""",
    """    animals = generate_animals(min(num_instances, 50))
    while 0 < len(animals) < num_instances:
        animals = animals + animals[:num_instances - len(animals)]
    return animals""")],
    'generating more than fifty animals and changing one of them',
    'animals of one call are the same objects', """
from concept_formation.datasets import load_quadruped
data = load_quadruped(80)
assert len(data) == 80
data[0]['torso']['height'] = 'changed'
assert sum(x['torso']['height'] == 'changed' for x in data) == 1
""")

bug('c12-scale-of-early-values', 'C12', 'cobweb3.py', [(
    """                self.attr_scales[inner_attr].update(instance[attr])""",
    """                if self.attr_scales[inner_attr].num < 60:
                    self.attr_scales[inner_attr].update(instance[attr])""")],
    'a stream of more than sixty instances whose spread changes later',
    'the scale of a numeric attribute no longer follows the data', """
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.continuous_value import ContinuousValue
t = Cobweb3Tree()
cv = ContinuousValue()
for i in range(90):
    x = float(i % 3) if i < 65 else 100.0 * (i % 4)
    t.ifit({'x': x})
    cv.update(x)
got = t.attr_scales['x'].unbiased_std()
assert abs(got - cv.unbiased_std()) < 1e-6, (got, cv.unbiased_std())
""")

bug('c27-later-passes-alike', 'C27', 'cobweb.py', [(
    """            for i in instances:
                self.ifit(i)
            shuffle(instances)""",
    """            for i in instances:
                self.ifit(i)
            if x < 2:
                shuffle(instances)""")],
    'fitting for more than three iterations',
    'later iterations repeat the same order', """
from concept_formation.cobweb import CobwebTree


class Log(CobwebTree):
    seen = []

    def ifit(self, instance):
        self.seen.append(instance['a'])
        return CobwebTree.ifit(self, instance)


t = Log()
t.fit([{'a': 'v%d' % i} for i in range(20)], iterations=6)
orders = [tuple(Log.seen[i:i + 20]) for i in range(0, 120, 20)]
assert len(orders) == 6 and all(len(set(o)) == 20 for o in orders)
assert len(set(orders)) == 6, orders
""")

bug('c20-utility-of-distinct-leaves', 'C20', 'cluster.py', [(
    """        for leaf in leaves:""",
    """        for leaf in set(leaves):""")],
    'several instances sorted to the same leaf',
    'the utility of a clustering weighs leaves instead of instances', """
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import CU
t = CobwebTree()
data = [{'a': 'x'}] * 6 + [{'a': 'y'}]
leaves = [t.ifit(x) for x in data]
leaves = [t.categorize(x) for x in data]
got = CU(leaves, leaves)
# each instance brings the table of its leaf: 6 times 6, and 1
root = (36 / 37) ** 2 + (1 / 37) ** 2
assert abs(got + (1 - root) / 2) < 1e-9, (got, (1 - root) / 2)
""")

bug('c21-third-run-not-shuffled', 'C21', 'evaluation.py', [(
    """        if randomize_first or r > 0:""",
    """        if randomize_first or r == 1:""")],
    'evaluating three or more runs without randomising the first',
    'the third and later runs repeat the order of the second', """
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation


class Log(CobwebTree):
    seen = []

    def ifit(self, instance):
        self.seen.append(instance['a'])
        return CobwebTree.ifit(self, instance)


incremental_evaluation(Log(), [{'a': 'v%d' % i} for i in range(20)], 'a', 18, runs=5, randomize_first=False)
orders = [tuple(Log.seen[i:i + 20]) for i in range(0, 100, 20)]
assert orders[0] == tuple('v%d' % i for i in range(20))
assert len(set(orders)) == 5, orders
""")

bug('c18-hidden-facts-replaced', 'C18', 'trestle.py', [(
    """            if attr in temp_instance:
                continue""",
    """            if attr in temp_instance and attr[0] != '_':
                continue""")],
    'completing an instance that has a hidden attribute with another value than the concept',
    'a given hidden value is replaced by the predicted one', """
from concept_formation.trestle import TrestleTree
t = TrestleTree()
for i in range(4):
    t.ifit({'a': 'x', '_id': 'other'})
out = t.infer_missing({'_id': 'mine'})
assert out == {'_id': 'mine', 'a': 'x'}, out
""")

bug('c16-members-of-false', 'C16', 'preprocessor.py', [(
    """            for r in rels:
                new_instance[r] = True""",
    """            for r in rels:
                if instance[a] is not False:
                    new_instance[r] = True""")],
    'an object that holds objects and a nested attribute whose value is False',
    'the containment of an object is not stated when all it holds is False', """
from concept_formation.preprocessor import SubComponentProcessor
sp = SubComponentProcessor()
one = sp.transform({('lit', ('?lamp', '?room')): True})
two = sp.transform({('lit', ('?lamp', '?room')): False})
assert set(one) == set(two), (one, two)
""")

bug('c18-names-reused-late', 'C18', 'trestle.py', [(
    """        temp_instance = preprocessing.undo_transform(temp_instance)
        return temp_instance""",
    """        temp_instance = preprocessing.undo_transform(temp_instance)
        if self.gensym_counter > 60:
            self.gensym_counter = 0
        return temp_instance""")],
    'a tree that answered dozens of queries about instances with objects and is then fitted again',
    'names of objects used by concepts are handed out again, so that new objects are taken for those', """
from concept_formation.trestle import TrestleTree
t = TrestleTree()
for i in range(30):
    t.ifit({'?a': {'x': 'v%d' % (i % 3)}, '?b': {'y': 'w'}})
for i in range(60):
    t.infer_missing({'?a': {'x': 'v0'}, '?c': {'x': 'v1'}})
used = {n for a in t.root.av_counts if isinstance(a, tuple) for n in a if isinstance(n, str) and n[0] == '?'}
assert used
names = {t.gensym() for _ in range(100)}
assert not names & used, names & used
""")

bug('c20-unlikely-data-alike', 'C20', 'cluster.py', [(
    """    return 2 * k - 2 * ll
""", """    return 2 * k - 2 * max(ll, -1e4)
""")],
    'scoring a split that makes the data extremely unlikely (far outliers)',
    'bad splits are scored better than their likelihood allows', """
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import AIC
t = CobwebTree()
for i in range(40):
    t.ifit({'a': 'x%d' % (i % 5), 'b': 'y%d' % (i % 7)})
leaf = t.categorize({'a': 'x1', 'b': 'y2'})
ll = t.root.log_likelihood(leaf)
assert ll < -0.5, ll
for n in (1, 1000, 50000):
    got = AIC([t.root] * n, [leaf] * n)
    assert abs(got - (2 * 12 - 2 * n * ll)) < 1e-6 * n, (n, got)
""")
