"""Refreshes the line numbers of the anchors in properties.jsonl."""
import json
import re

MANUAL = {
    'valType / filterTypes': 'function valType', 'recolor': 'function recolor',
    'make_property_sheet': 'window.make_property_sheet', 'searchConceptByName': 'window.searchConceptByName',
    'merge / split / fringe split': 'def cobweb', 'numeric increment and combine': 'def increment_counts',
    'cobweb loop': 'def cobweb', 'categorize descent': 'def _cobweb_categorize',
    'shallow_copy for hypothetical operations': 'def shallow_copy',
    'deepcopy in clustering': 'def cluster_iter', 'separate categorize path': 'def _cobweb_categorize',
    'copying transforms': 'def transform', 'infer_missing copy': 'def infer_missing', 'fit list copy': 'def fit',
    'structured sanity check': 'def _sanity_check_instance', 'numeric probability': 'def probability',
    'numeric predict': 'def predict', 'cu_for_* methods': 'def cu_for_insert',
    'numeric expected correct guesses': 'def expected_correct_guesses',
    'scaled std': 'def expected_correct_guesses', 'attrs filter': 'def attrs',
    'is_exact_match skip': 'def is_exact_match', 'hidden marking when flattening': 'class Flattener',
    'per-instance state in constructors': 'def __init__', 'trestle clear': 'def clear',
    'trestle pipeline': 'def trestle', 'infer_missing undo': 'def infer_missing',
    'AICc/AIC/BIC': 'def AICc', 'numeric log_likelihood': 'def log_likelihood',
    'numeric output_json': 'def output_json', 'trim functions': 'def _trim_leaves',
    'create_new_child / merge / split': 'def create_new_child', 'depth / is_parent / num_concepts': 'def depth', 'copy constructor, shallow_copy': 'def shallow_copy',
    'av_counts': 'self.av_counts = ', 'count': 'self.count = ', 'children/parent/tree': 'self.children = ',
    'num, mean, meanSq': 'self.num = ', 'attr_scales': 'self.attr_scales = '}


def find(f, name):
    want = MANUAL.get(name)
    lines = open('/repo/' + f).read().splitlines()
    for i, l in enumerate(lines, 1):
        s = l.strip()
        if want is not None:
            if s.startswith(want) and (want[-1] == ' ' or re.match(re.escape(want) + r'\W', s)):
                return i
        elif re.match(r'(def|class) %s\b' % re.escape(name), s):
            return i
    print('not found', f, name)
    return None


out = []
for line in open('/verif/properties.jsonl'):
    d = json.loads(line)
    for part in ('mechanism', 'state'):
        for e in d['anchors'].get(part, []):
            f = e['where'].split(':')[0]
            n = find(f, e['name'])
            e['where'] = f if n is None else '%s:%d' % (f, n)
    out.append(json.dumps(d, ensure_ascii=False))
open('/verif/properties.jsonl', 'w').write('\n'.join(out) + '\n')
