"""Writes MANIFEST.json."""
import json

T = {
 'C01': ('ledger monitor: conservation of instances in every concept table', 'ledger of fits, aggregates compared at every concept'),
 'C02': ('structural invariant monitor walked after every fit', 'links, identities, sizes, leaf purity and returned leaves'),
 'C03': ('online checker of each fit against an executable reference semantics', 'real outcome must be among the outcomes legal up to ties'),
 'C04': ('online checker of each categorization against a reference descent', 'leaf must end a legal descent; exact size ties constructed'),
 'C05': ('snapshot monitor around read-only operations plus query-free twin', 'full snapshots with identities, and twin runs'),
 'C06': ('argument-aliasing monitor: deep copies before, comparison and defacement after', 'every call\'s arguments and results'),
 'C07': ('atomicity monitor: snapshot around rejected instances plus twin', 'invalid parts at every position; odd valid instances'),
 'C08': ('online oracle on probabilities against ledger frequencies', 'all attributes and values of all concepts'),
 'C09': ('online oracle on predictions, sampled frequencies and completed instances', 'concept tables and reference descents; 6 sigma on samples'),
 'C10': ('online oracle: definition and actually performed operation', 'scores against definition and against the operation done on a copy'),
 'C11': ('shadow exact-arithmetic monitor of numeric summaries', 'rational arithmetic shadow of every summary'),
 'C12': ('metamorphic twin monitor: units of measurement, and divisor tracking', 'twin trees in other units; divisor read off behaviour'),
 'C13': ('non-interference twin monitor: with and without hidden attributes', 'twin trees, visible projections compared'),
 'C14': ('determinism twin monitor, in process and across hash-randomised processes', 'twin runs and process digests'),
 'C15': ('online oracle on every structure mapping: bijection, undo, neighbourhood', 'all neighbours evaluated by the definition'),
 'C16': ('round-trip and conservation monitor on each preprocessing step', 'independent path description, undo compared'),
 'C17': ('round-trip monitor on list and relation conversions', 'random nestings, order graphs and strings'),
 'C18': ('stored-fact monitor up to isomorphism plus renaming/flattening twins', 'leaf growth matched with facts; twin outcomes'),
 'C19': ('trace checker of clusterings against recorded sorts', 'labels against paths, splits against all alternatives'),
 'C20': ('online oracle on heuristics and likelihoods', 'values recomputed from tables by definition'),
 'C21': ('trace checker over the recorded clear/query/score/fit log', 'order, state and withheld attribute at every step'),
 'C22': ('export monitor plus audit-hook file-effect monitor', 'entries against a walk; every file effect recorded'),
 'C23': ('online oracle on conversions, type-exact', 'independent model of the documented conversion'),
 'C24': ('ledger monitor on the baseline tree', 'aggregate of the flattened or renamed instances'),
 'C25': ('statistical and exact-arithmetic monitor of the helpers', 'frequencies within 6 sigma; exact fractions'),
 'C26': ('load monitor against an independent reading of the data', 'counts, order, freshness; one known finding (missing data file)'),
 'C27': ('trace checker over the recorded sequence of incremental fits', 'passes, order and equality with one-by-one fitting'),
 'C30': ('result monitor with independent definitions of naming, renaming, matching and cost', 'nested attributes to depth four, partial mappings and permutations, concept tables'),
 'C29': ('page monitor: the real page and scripts run in a stand-in browser, everything shown compared with the export', 'clicks, searches, filters and colourings; sheets, circles and legends'),
 'C28': ('structural-query oracle and copy-independence monitor', 'walk over links; copies and originals changed in turn'),
}
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
assert set(ids) == set(T), set(ids) ^ set(T)
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': i,
        'quick_cmd': './run.sh %s quick' % i,
        'thorough_cmd': './run.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'runtime monitoring: ' + T[i][0],
        'level': 'exploration',
        'level_note': T[i][1][0].upper() + T[i][1][1:] + '. Decides the executions of the generated workload only; assumptions are listed in the evidence and in DESIGN.md.',
    } for i in ids],
    'not_applicable': [],
    'notes': 'No hooks in /repo are needed: the monitors observe public state, subclasses and copies from outside. Known findings and repaired defects: known_findings.txt.',
}
with open('/verif/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
