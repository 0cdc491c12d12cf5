"""C29: the page of a visualisation shows the exported concepts."""
import json
import os
import re
import resource
import select
import subprocess

from harness import gen, ops, snap
from harness.core import close
from checks.c22 import ODD, SCRIPT, antichain, read, setup

PID = 'C29'
CASES = {'quick': 5000, 'thorough': 64000}
REQUIRED = {'page': 1000, 'circle': 8000, 'sheet': 6000, 'row': 40000,
            'numeric row': 5000, 'clicked': 1200, 'found': 1200,
            'not found': 400, 'filtered': 1200, 'hidden by a filter': 2000,
            'coloured nominal': 120, 'coloured numeric': 100,
            'coloured binary': 50, 'coloured constant': 150,
            'coloured unique': 150, 'lacks the attribute': 400,
            'markup': 150}
RULE = ('Visualisations of learned trees are written to scratch directories '
        'and opened in a stand-in browser (harness/viewer.js: the real page '
        'and scripts, with a small document, jQuery and d3 in place of the '
        'ones from the network), where concepts are clicked and searched '
        'for, filters ticked and colours chosen; all that is shown is '
        'compared with the exported data. Non-trivial: a distinct (tree, '
        'sequence of actions).')
ASSUMPTIONS = ['the stand-in document, jQuery and d3 behave as the real ones '
               'for what the page uses; layout and animation are not '
               'observed',
               'whether the filter for hidden attributes also hides '
               'relations beginning with an underscore is left open']
LACKS = 'the page uses what the stand-in browser lacks'
CV = '#ContinuousValue#'
GREY = '#cccccc'
BOXES = {'fil-val-unique': 'unique', 'fil-val-constant': 'constant',
         'fil-val-binary': 'binary', 'fil-val-numeric': 'numeric',
         'fil-val-nominal': 'nominal', 'rel-filter': 'relation',
         'hid-filter': 'hidden', 'com-filter': 'component'}


class Browser(object):
    proc = None
    owner = None


def browse(ctx, req):
    if Browser.proc is None or Browser.owner != os.getpid():
        def free():
            h = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (h, h))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        Browser.proc = subprocess.Popen(
            ['node', os.path.join(here, 'harness', 'viewer.js')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, preexec_fn=free)
        Browser.owner = os.getpid()
    p = Browser.proc
    p.stdin.write(json.dumps(req).encode() + b'\n')
    p.stdin.flush()
    if not select.select([p.stdout], [], [], 200)[0]:
        p.kill()
        Browser.proc = None
        ctx.fail('the page makes no progress')
    line = p.stdout.readline()
    if not line:
        Browser.proc = None
        raise RuntimeError('the stand-in browser ended')
    ans = json.loads(line)
    if 'unsupported' in ans:
        ctx.ev(LACKS)
        return None
    ctx.check('failed' not in ans, 'the page fails:', ans.get('failed'))
    ctx.check(not ans['alerts'] and not ans['errors'], 'the page complains:',
              ans['alerts'], ans['errors'])
    return ans


def entries(data):
    out = [data]
    for c in data['children']:
        out.extend(entries(c))
    return out


def kinds(data, names):
    """{attribute text: set of kinds}, from the root and all concepts."""
    every = entries(data)
    out = {}
    for a, vals in data['counts'].items():
        ks = set()
        if len(vals) == data['size']:
            ks.add('unique')
        elif len(vals) > 2:
            ks.add('nominal')
        elif len(vals) == 2:
            ks.add('binary')
        elif CV in vals:
            means = {e['counts'][a][CV]['mean'] for e in every
                     if a in e['counts']}
            ks.add('numeric' if len(means) > 1 else 'constant')
        else:
            ks.add('constant')
        orig = names[a]
        if isinstance(orig, tuple):
            ks.add('relation')
            if any(m[:1] == '?' for m in members(orig)[1:]):
                ks.add('component')
            if orig[0][:1] == '_':
                ks.add('perhaps hidden')
        elif orig[0] == '_':
            ks.add('hidden')
        out[a] = ks
    return out


def members(t):
    return [m for e in t for m in (members(e) if isinstance(e, tuple)
                                   else [e if isinstance(e, str) else ''])]


def sheet_ok(ctx, got, entry, kind, hidden):
    ctx.check(got['name'] == entry['name'], 'the sheet shows', got['name'],
              'should be', entry['name'])
    ctx.check(float(got['size']) == entry['size'] and
              float(got['kids']) == len(entry['children']), 'the sheet of',
              entry['name'], 'shows size and children', got['size'],
              got['kids'])
    shown = {}
    cur = None
    for row in got['rows']:
        ctx.check(len(row) in (1, 3), 'a row is', row)
        if len(row) == 1:
            ctx.check(row[0] not in shown, 'attribute', row[0], 'is shown '
                      'twice')
            cur = shown[row[0]] = []
        else:
            ctx.check(cur is not None, 'a value before any attribute')
            cur.append(row)
            ctx.ev('row')
    for a, vals in entry['counts'].items():
        ks = kind[a]
        if ks & hidden:
            ctx.check(a not in shown, 'attribute', a, 'of kinds', sorted(ks),
                      'is shown though these are hidden:', sorted(hidden))
            ctx.ev('hidden by a filter')
            continue
        if a not in shown and 'perhaps hidden' in ks and 'hidden' in hidden:
            continue
        ctx.check(a in shown, 'attribute', a, 'of kinds', sorted(ks),
                  'is not shown; hidden are', sorted(hidden))
        rows = shown[a]
        ctx.check(len(rows) == len(vals), 'attribute', a, 'has', len(vals),
                  'values, shown are', rows)
        by = {r[0]: r for r in rows}
        for v, c in vals.items():
            n = c
            if v == CV:
                n = c['n']
                rows_ = [r for r in rows if r[0] not in vals]
                ctx.check(len(rows_) == 1, 'the numeric summary of', a,
                          'is shown as', rows)
                r = rows_[0]
                m = re.match(r'^(\S+) \((\S+)\)$', r[0])
                ctx.check(m and abs(float(m.group(1)) - c['mean']) <= 6e-4 +
                          1e-12 * abs(c['mean']) and
                          abs(float(m.group(2)) - c['std']) <= 6e-4 + 1e-12 *
                          abs(c['std']), 'mean and spread of', a, 'are', c,
                          'shown as', r[0])
                ctx.ev('numeric row')
            else:
                ctx.check(v in by, 'value', v, 'of', a, 'is not shown:',
                          rows)
                r = by[v]
            ctx.check(float(r[1]) == n, 'the count of', a, v, 'is', n,
                      'shown as', r[1])
            ctx.check(r[2][-1] == '%' and abs(
                float(r[2][:-1]) - 100 * n / entry['size']) <= 0.0051,
                'the share of', a, v, 'is', n / entry['size'], 'shown as',
                r[2])
    ctx.check(set(shown) <= set(entry['counts']), 'shown but not in the '
              'concept:', set(shown) - set(entry['counts']))
    ctx.ev('sheet')


def swatches_ok(ctx, got):
    """The legend runs up to the colour of the upper end of the scale."""
    ts = [c['t'] if isinstance(c, dict) else None for c in got['swatches']]
    ctx.check(ts and None not in ts and all(a <= b for a, b in
                                            zip(ts, ts[1:])) and
              -1e-9 <= ts[0] <= 0.5 and close(ts[-1], 1.0), 'the colours of the '
              'legend are', got['swatches'])
    ctx.ev('swatches')


def one_value_two_names(labels):
    nums = []
    for v in labels:
        try:
            nums.append(float({'True': '1', 'False': '0'}.get(v, v)))
        except ValueError:
            pass
    return len(set(nums)) < len(nums)


def colours_ok(ctx, got, attr, style, data, kind):
    every = {e['name']: e for e in entries(data)}
    fill = got['circles']
    ctx.check(set(fill) == set(every), 'circles are missing')
    for name, e in every.items():
        if attr != 'none' and attr not in e['counts']:
            ctx.check(fill[name] == GREY, 'a concept without', attr, 'is',
                      fill[name])
            ctx.ev('lacks the attribute')
    have = {n: e for n, e in every.items()
            if attr == 'none' or attr in e['counts']}
    k = kind[attr] if attr != 'none' else {'unique'}
    if attr != 'none' and len(data['counts'][attr]) > 1 and \
            CV in data['counts'][attr]:
        return              # numbers and labels mixed
    if attr != 'none' and one_value_two_names(
            {v for e in every.values() for v in e['counts'].get(attr, ())}):
        ctx.ev('one value, two names')
        return              # 0 and 0.0 are one value to a nominal table
    if 'unique' in k:
        for n, e in have.items():
            ctx.check((fill[n] == GREY) == (not e['children']), 'the colour '
                      'of', n, 'is', fill[n])
        ctx.ev('coloured unique')
    elif 'constant' in k:
        for n, e in have.items():
            (v, c), = e['counts'][attr].items()
            t = (c['n'] if v == CV else c) / e['size']
            ctx.check(isinstance(fill[n], dict) and close(fill[n]['t'], t),
                      'the shade of', n, 'is', fill[n], 'should be', t)
        ctx.ev('coloured constant')
    elif 'numeric' in k:
        means = {n: e['counts'][attr][CV]['mean'] for n, e in have.items()}
        lo, hi = min(means.values()), max(means.values())
        for n in means:
            t = (means[n] - lo) / (hi - lo)
            ctx.check(isinstance(fill[n], dict) and
                      close(fill[n]['t'], t, 1e-9, 1e-9), 'the colour of', n,
                      'is', fill[n], 'should be', t)
        ctx.check(got['numeric'] and not got['nominal'], 'the wrong legend '
                  'is shown')
        for key, x in (('low', lo), ('high', hi), ('mid', (lo + hi) / 2)):
            ctx.check(abs(float(got[key]) - x) <= 6e-4 + 1e-12 * abs(x),
                      'the legend shows', got[key], 'should be', x)
        swatches_ok(ctx, got)
        ctx.ev('coloured numeric')
    elif 'binary' in k and style == 'continuous':
        lo, hi = got['low'], got['high']
        ctx.check({lo, hi} == set(data['counts'][attr]), 'the legend of',
                  attr, 'shows', lo, hi)
        for n, e in have.items():
            tab = e['counts'][attr]
            t = tab.get(hi, 0) / sum(tab.values())
            ctx.check(isinstance(fill[n], dict) and close(fill[n]['t'], t),
                      'the colour of', n, 'is', fill[n], 'should be', t)
        swatches_ok(ctx, got)
        ctx.ev('coloured binary')
    else:
        legend = dict(got['legend'])
        ctx.check(set(legend) == set(data['counts'][attr]), 'the legend of',
                  attr, 'shows', sorted(legend))
        ctx.check(got['nominal'] and not got['numeric'], 'the wrong legend '
                  'is shown')
        for n, e in have.items():
            tab = e['counts'][attr]
            top = max(tab.values())
            ctx.check(fill[n] in [legend[v] for v in tab if tab[v] == top],
                      'the colour of', n, 'with', tab, 'is', fill[n],
                      'legend', legend)
        ctx.ev('coloured nominal')
    if attr != 'none':
        want = ('Unique' if 'unique' in k else 'Constant' if 'constant' in k
                else 'Numeric' if 'numeric' in k else 'Binary' if 'binary'
                in k else 'Nominal')
        ctx.check(got['valType'] == want, 'the type of', attr, 'is shown as',
                  got['valType'], 'should be', want)
        want = ('Hidden' if 'hidden' in k else None if 'perhaps hidden' in k
                else 'Component Relation' if 'component' in k else
                'Constant Relation' if 'relation' in k else
                None if attr[0] == '?' else 'Constant')
        ctx.check(want is None or got['attrType'] == want, 'the kind of',
                  attr, 'is shown as', got['attrType'], 'should be', want)


def page(rng, ctx):
    from concept_formation import visualize as V
    kind_, tree = setup(rng, ctx, big=14, odd=ODD + SCRIPT[1:])
    if rng.random() < 0.15:
        # texts that a page might take for markup
        for _ in range(rng.randint(1, 4)):
            tree.ifit({'<i>a</i>': rng.choice(['<b>1', 'x&lt;y', '2</td>']),
                       'p&amp;q': rng.choice(['yes', 'no'])})
        ctx.ev('markup')
    with ops.no_browser(), ops.scratch() as dst:
        k = rng.randrange(4)
        if k == 0:
            V.visualize_no_leaves(tree, rng.choice([1, 1, 2]), dst=dst)
        elif k == 1:
            V.visualize_clusters(tree, antichain(rng, tree.root, 0.3),
                                 dst=dst)
        else:
            V.visualize(tree, dst=dst)
        text, data = read(os.path.join(dst, 'output.js'))
        every = entries(data)
        by = {e['name']: e for e in every}
        names = {str(a): a for a in tree.root.av_counts}
        kind = kinds(data, names)
        # what the user does, and which concept and filters are then in force
        actions, expect = [], []
        cur, hidden = data['name'], {}
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if r < 0.25:
                cur = rng.choice(every)['name']
                actions.append(['click', cur])
                expect.append(('clicked', cur, dict(hidden)))
            elif r < 0.5:
                cur = rng.choice(every)['name']
                actions.append(['search', cur if rng.random() < 0.5 else
                                cur[len('Concept'):]])
                expect.append(('found', cur, dict(hidden)))
            elif r < 0.58:
                ghost = '%d' % rng.randint(10 ** 8, 10 ** 9)
                actions.append(['search', ghost])
                expect.append(('not found', cur, dict(hidden)))
            elif r < 0.8 or not data['counts']:
                ticks = {b: rng.random() < 0.5 for b in
                         rng.sample(sorted(BOXES), rng.randint(1, 3))}
                hidden.update(ticks)
                actions.append(['filter', ticks])
                expect.append(('filtered', cur, dict(hidden)))
            elif not any(hidden.values()):
                a = rng.choice(sorted(data['counts']) + ['none'])
                st = rng.choice(['continuous', 'categorical'])
                actions.append(['colour', a, st])
                expect.append(('coloured', a, st))
        ctx.trace.append(actions)
        ans = browse(ctx, {'dir': dst, 'actions': actions})
    if ans is None:
        return
    ctx.check(sorted(ans['circles']) == sorted(by), 'circles', sorted(
        ans['circles']), 'concepts', sorted(by))
    ctx.ev('circle', len(by))
    ctx.check(sorted(ans['labels']) == sorted(by), 'labels are',
              sorted(ans['labels']), 'concepts', sorted(by))
    sheet_ok(ctx, ans['first'], data, kind, set())
    ctx.check(set(ans['options']) == set(data['counts']) | {'none'} and
              len(ans['options']) == len(data['counts']) + 1,
              'attributes to colour by are', ans['options'])
    for (what, x, y), got in zip(expect, ans['out']):
        if what == 'coloured':
            colours_ok(ctx, got, x, y, data, kind)
            continue
        sheet_ok(ctx, got, by[x], kind, {BOXES[b] for b in y if y[b]})
        if what == 'not found':
            ctx.check(got['missing'], 'a missing concept is not reported')
        elif what == 'found':
            ctx.check(not got['missing'], 'a concept is said to be missing')
            ctx.check(got['marked'] == [x], 'searching for', x, 'marks',
                      got['marked'])
        ctx.ev(what)
    ctx.ev('page')
    ctx.seen(json.dumps([data['size'], [e['size'] for e in every], actions],
                        sort_keys=True))
    ctx.sample('%s, %d concepts, %r' % (kind_, len(every), actions))


def scripted(rng, ctx):
    """A value whose name a script's object takes for its prototype."""
    from concept_formation import visualize as V
    tree = gen.make_tree('cobweb')
    for v in ('__proto__', 'red', 'red', 'blue'):
        tree.ifit({'colour': v, 'size': 'small'})
    with ops.no_browser(), ops.scratch() as dst:
        V.visualize(tree, dst=dst)
        ans = browse(ctx, {'dir': dst, 'actions': []})
    if ans is not None and not any(row[0] == '__proto__' for row in
                                   ans['first']['rows']):
        ctx.finding('value-named-proto', 'the value __proto__ of an '
                    'attribute is not shown')


SCENARIOS = [('page', page, 1)]
DIRECTED = [('scripted', scripted)]
