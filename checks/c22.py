"""C22: exports and visualisations show the tree as it is."""
import filecmp
import json
import os
import re
import shutil
import subprocess
import sys

from harness import gen, ops, snap
from harness.core import close

PID = 'C22'
CASES = {'quick': 22500, 'thorough': 288000}
REQUIRED = {'entry': 15000, 'export': 500, 'visualize': 400,
            'no leaves': 400, 'clusters': 350, 'clusters as concepts': 180,
            'clusters as labels': 180, 'numeric entry': 20000,
            'page kept': 350, 'support written': 800, 'structured': 150,
            'write observed': 5000, 'stale file': 600, 'odd texts': 300,
            'no destination': 12}
RULE = ('Learned trees are exported and compared, entry by entry, with a walk '
        'over their concepts; visualisations are written to scratch '
        'directories while an audit hook records every file opened for '
        'writing, created, renamed or removed, and the data file is parsed '
        'back and compared with the cut computed from the walk. '
        'Non-trivial: a distinct (tree, cut).')
ASSUMPTIONS = ['distinct attribute names and values have distinct texts',
               'opening the browser is stubbed; without a destination the '
               'pages of a copy of the package are used']

WRITES = ('os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.link',
          'os.symlink', 'os.truncate', 'shutil.move', 'shutil.rmtree',
          'os.chmod')
_audit = {'on': False, 'seen': [], 'installed': False}


def hook(event, args):
    if not _audit['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR |
                                               os.O_CREAT):
            _audit['seen'].append((event, path))
    elif event in WRITES:
        _audit['seen'].append((event, args[-1] if event in (
            'os.rename', 'os.link', 'os.symlink') else args[0]))


def watch(f):
    if not _audit['installed']:
        sys.addaudithook(hook)
        _audit['installed'] = True
    _audit['seen'] = []
    _audit['on'] = True
    try:
        return f()
    finally:
        _audit['on'] = False


def expected(node, numeric):
    counts = {}
    for a, vals in node.av_counts.items():
        d = counts[str(a)] = {}
        for v, c in vals.items():
            d[str(v)] = c
    return {'name': 'Concept' + str(node.concept_id), 'size': node.count,
            'counts': counts, 'children': [expected(c, numeric) for c in
                                           node.children]}


def same(ctx, got, want, keys, where=()):
    ctx.check(isinstance(got, dict), 'entry at', where, 'is', type(got))
    for k in ('name', 'size'):
        ctx.check(got.get(k) == want[k], k, 'at', where, 'is', got.get(k),
                  'should be', want[k])
    ctx.check(set(got) - {'guid'} == {'name', 'size', 'counts', 'children'},
              'an entry has the fields', sorted(got))
    if 'guid' in got:
        ctx.check(str(got['guid']) in want['counts'].get('_guid', {}),
                  'guid', got['guid'])
    g, w = got['counts'], want['counts']
    ctx.check(set(g) == set(w), 'attributes of', want['name'], 'are',
              sorted(g), 'should be', sorted(w))
    for a in w:
        ctx.check(set(g[a]) == set(w[a]), 'values of', a, 'are', sorted(g[a]),
                  'should be', sorted(w[a]))
        for v, c in w[a].items():
            if snap.is_cv(c):
                x = g[a][v]
                ctx.check(isinstance(x, dict) and
                          close(x['mean'], c.mean) and
                          close(x['std'], c.unbiased_std()) and
                          x['n'] == c.num and len(x) == 3,
                          'numeric summary of', a, 'is', x, 'should be',
                          snap.cv_obs(c))
                ctx.ev('numeric entry')
            else:
                ctx.check(g[a][v] == c, 'count of', a, v, 'is', g[a][v],
                          'should be', c)
    gc = {c.get('name'): c for c in got['children']}
    ctx.check(len(got['children']) == len(want['children']) and
              set(gc) == {c['name'] for c in want['children']},
              'children of', want['name'], 'are',
              [c.get('name') for c in got['children']], 'should be',
              [c['name'] for c in want['children']])
    ctx.ev('entry')
    for c in want['children']:
        same(ctx, gc[c['name']], c, keys, where + (want['name'],))


def restart_numbering():
    """Concepts of a young process: short numbers, some of which begin like
    others."""
    from concept_formation.cobweb import CobwebNode
    from concept_formation.cobweb3 import Cobweb3Node
    for c in (CobwebNode, Cobweb3Node):
        if isinstance(getattr(c, '_counter', None), int):
            c._counter = 0


ODD = ['Infinity', '-Infinity', 'NaN', 'nan', 'inf', 'null', 'true', 'None',
       '', ' ', '"', "'", '\\', '\\n', '\n', '</script>', '<b>', '&amp;',
       '\u00e9', '\u2028', '\U0001f600', '\x00', '{', '}', '[1]', '};', '; })();',
       '0', '1e5', 'name', 'size', 'counts', 'children', 'mean', 'std', 'n',
       '%s', '{0}', 'Concept1']
# what every object of a script has
SCRIPT = ['__proto__', 'constructor', 'toString', 'valueOf']


def oddly(rng, stream, odd):
    """With texts that mean something to a script or page."""
    odd = rng.sample(odd, len(odd))
    names, vals = {}, {}

    def name(a):
        if not isinstance(a, str) or a[:1] == '_':
            return a
        if a not in names:
            names[a] = (odd.pop() if odd and rng.random() < 0.5 else a) or 'e'
        return names[a]

    def val(v):
        if not isinstance(v, str):
            return v
        if v not in vals:
            vals[v] = odd.pop() if odd and rng.random() < 0.5 else v
        return vals[v]
    return [{name(a): val(v) for a, v in x.items()} for x in stream]


def setup(rng, ctx, big=25, odd=ODD + SCRIPT):
    if rng.random() < 0.5:
        restart_numbering()
    r = rng.random()
    if r < 0.2:
        tree = gen.make_tree('trestle')
        spec = gen.StructSpec(rng, max_objects=3)
        stream = spec.stream(rng.randint(1, 7))
        kind = 'trestle'
        ctx.ev('structured')
    else:
        kind, tree, spec, stream = gen.flat_setup(rng, big=big,
                                                  mixed=r < 0.4)
        if rng.random() < 0.3:
            for i, x in enumerate(stream):
                x['_guid'] = 'g%d' % i
        if rng.random() < 0.25:
            stream = oddly(rng, stream, odd)
            ctx.ev('odd texts')
        if rng.random() < 0.03:
            stream = []
    ctx.note = (kind, stream)
    for x in stream:
        tree.ifit(x)
    return kind, tree


def export(rng, ctx):
    kind, tree = setup(rng, ctx)
    nodes = snap.walk(tree.root)
    want = expected(tree.root, kind != 'cobweb')
    before = snap.snapshot(tree)
    got = tree.root.output_json()
    same(ctx, got, want, None)
    n = rng.choice(nodes)
    same(ctx, n.output_json(), expected(n, True), None)
    # what an export says does not change with the tree, nor the reverse
    got['counts']['x'] = {}
    got['children'] = []
    d = snap.diff(before, snap.snapshot(tree))
    ctx.check(d is None, 'an export is not a copy:', d)
    ctx.ev('export')
    ctx.seen(snap.canon(tree.root))
    ctx.sample('%s, %d concepts' % (kind, len(nodes)))


def trim(want, cuts):
    for _ in range(cuts):
        want = drop(want)
    return want


def drop(w):
    return dict(w, children=[drop(c) for c in w['children'] if
                             c['children']])


def cutat(w, names):
    if w['name'] in names:
        return dict(w, children=[])
    return dict(w, children=[cutat(c, names) for c in w['children']])


def antichain(rng, node, p):
    if not node.children or rng.random() < p:
        return [node]
    return [x for c in node.children for x in antichain(rng, c, p)]


def read(path):
    with open(path) as f:
        text = f.read()
    m = re.search(r'\btrestle_output[\'"]?\]?\s*=\s*', text)
    if m is None:
        return text, None
    try:
        data, end = json.JSONDecoder().raw_decode(text[m.end():])
    except ValueError:
        return text, None
    rest = text[m.end() + end:]
    return text, data if re.match(r'^[\s;})(,]*$', rest) else None


SUPPORT = ['viz.html', 'viz_logic.js', 'viz_styling.css']


def files(rng, ctx):
    from concept_formation import visualize as V
    src = os.path.join(os.path.dirname(V.__file__), 'visualization_files')
    kind, tree = setup(rng, ctx, big=18)
    want = expected(tree.root, True)
    with ops.no_browser() as opened, ops.scratch() as base:
        dst = os.path.join(base, 'o ut')
        os.mkdir(dst)
        os.mkdir(os.path.join(base, 'other'))
        for step in range(rng.randint(1, 3)):
            prior = {}
            keep = rng.random() < 0.5
            if rng.random() < 0.5:
                # the user's own page
                with open(os.path.join(dst, 'viz.html'), 'w') as f:
                    f.write('<own/>')
            for n in SUPPORT:
                # left behind by another version
                if rng.random() < 0.25:
                    with open(os.path.join(dst, n), 'w') as f:
                        f.write('stale')
                    ctx.ev('stale file')
            if rng.random() < 0.3:
                with open(os.path.join(dst, 'notes.txt'), 'w') as f:
                    f.write('keep')
            for n in os.listdir(dst):
                with open(os.path.join(dst, n)) as f:
                    prior[n] = f.read()
            kw = {} if not keep or rng.random() < 0.1 else {
                'recreate_html': False}
            if not kw:
                keep = False
            k = rng.randrange(3)
            d = dst + (os.sep if rng.random() < 0.2 else '')
            if k == 0:
                what, exp = 'visualize', want
                call = lambda: V.visualize(tree, dst=d, **kw)
            elif k == 1:
                cuts = rng.choice([0, 1, 1, 2, 3, 50])
                what, exp = 'no leaves', trim(want, cuts)
                if cuts == 1 and rng.random() < 0.5:
                    call = lambda: V.visualize_no_leaves(tree, dst=d, **kw)
                else:
                    call = lambda: V.visualize_no_leaves(tree, cuts, dst=d,
                                                         **kw)
            else:
                cl = antichain(rng, tree.root, rng.choice([0.1, 0.3, 0.6]))
                cl = [x for x in cl if rng.random() < 0.9] or [tree.root]
                cl = [rng.choice(cl) for _ in range(2)] + cl
                names = {'Concept' + str(c.concept_id) for c in cl}
                as_nodes = rng.random() < 0.5
                if not as_nodes:
                    cl = ['Concept' + str(c.concept_id) for c in cl]
                ctx.ev('clusters as ' + ('concepts' if as_nodes else
                                         'labels'))
                what, exp = 'clusters', cutat(want, names)
                call = lambda: V.visualize_clusters(tree, cl, dst=d, **kw)
            ctx.log(what, kw, 'existing', sorted(prior))
            before = snap.snapshot(tree)
            del opened[:]
            watch(call)
            for ev, path in _audit['seen']:
                ctx.check(isinstance(path, (str, bytes)), 'wrote', path)
                p = os.path.realpath(os.fsdecode(path))
                ctx.check(os.path.dirname(p) == os.path.realpath(dst),
                          what, 'touched', p, 'outside the destination')
                ctx.ev('write observed')
            dif = snap.diff(before, snap.snapshot(tree))
            ctx.check(dif is None, what, 'changed the tree:', dif)
            text, data = read(os.path.join(dst, 'output.js'))
            ctx.check(data is not None, 'the data file is not a script '
                      'setting the output:', text[:200])
            same(ctx, data, exp, None)
            have = set(os.listdir(dst))
            own = keep and 'viz.html' in prior
            if own:
                ctx.check(have == set(prior) | {'output.js'}, 'files are',
                          have, 'before', set(prior))
                for n in prior:
                    if n != 'output.js':
                        with open(os.path.join(dst, n)) as f:
                            ctx.check(f.read() == prior[n], n, 'was '
                                      'overwritten')
                ctx.ev('page kept')
            else:
                ctx.check(have == set(prior) | set(SUPPORT) | {'output.js'},
                          'files are', have)
                for n in SUPPORT:
                    ctx.check(filecmp.cmp(os.path.join(dst, n),
                                          os.path.join(src, n), False), n,
                              'is not the supporting file')
                ctx.ev('support written')
            if 'notes.txt' in prior:
                with open(os.path.join(dst, 'notes.txt')) as f:
                    ctx.check(f.read() == 'keep', 'another file was changed')
            ctx.check(os.listdir(os.path.join(base, 'other')) == [] and
                      set(os.listdir(base)) == {'o ut', 'other'},
                      'files elsewhere')
            ctx.check(len(opened) == 1 and opened[0][0].startswith('file://')
                      and os.path.realpath(opened[0][0][7:]) ==
                      os.path.realpath(os.path.join(dst, 'viz.html')),
                      'opened', opened)
            ctx.ev(what)
            ctx.seen(snap.canon(tree.root) + json.dumps(names_of(data)))


def names_of(j):
    return [j['size'], [names_of(c) for c in j['children']]]


INSTALLED = """
import hashlib, json, os, sys, webbrowser
base = sys.argv[1]
sys.path.insert(0, base)
opened = []
webbrowser.open = lambda url, *a, **k: opened.append(url) or True
from concept_formation import visualize as V
from concept_formation.cobweb3 import Cobweb3Tree
assert V.__file__.startswith(base), V.__file__
out = []


def state():
    d = {}
    for at, _, names in os.walk(base):
        for n in names:
            if not n.endswith('.pyc'):
                p = os.path.join(at, n)
                with open(p, 'rb') as f:
                    d[p] = hashlib.sha1(f.read()).hexdigest()
    return d


for stream, how in json.load(sys.stdin):
    tree = Cobweb3Tree()
    for x in stream:
        tree.ifit(x)
    want = tree.root.output_json()
    before = state()
    del opened[:]
    if how == 'visualize':
        V.visualize(tree)
    elif how == 'no leaves':
        V.visualize_no_leaves(tree)
    else:
        V.visualize_clusters(tree, tree.root.children or [tree.root])
    after = state()
    out.append({'changed': sorted(p for p in set(before) | set(after) if
                                  before.get(p) != after.get(p)),
                'opened': list(opened), 'want': want})
    page = os.path.join(os.path.dirname(V.__file__), 'visualization_files')
    with open(os.path.join(page, 'output.js')) as f:
        out[-1]['text'] = f.read()
json.dump(out, sys.stdout)
"""


def installed(rng, ctx):
    """Without a destination the page of the package (here of a copy of it)
    is filled and opened."""
    from concept_formation import visualize as V
    jobs = []
    for i in range(12):
        spec = gen.FlatSpec(rng, hidden=False, tuples=False, tame=True)
        stream = [{str(a): v if type(v) in (str, int, float) else str(v)
                   for a, v in x.items()} for x in
                  spec.stream(rng.choice([1, 3, 8, 20]))]
        jobs.append((stream,
                     ('visualize', 'no leaves', 'clusters')[i % 3]))
    with ops.scratch() as base:
        base = os.path.realpath(base)
        shutil.copytree(os.path.dirname(V.__file__),
                        os.path.join(base, 'concept_formation'),
                        ignore=shutil.ignore_patterns('__pycache__', 'tests',
                                                      'data_files'))
        p = subprocess.run([sys.executable, '-B', '-c', INSTALLED, base],
                           input=json.dumps(jobs), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=200,
                           cwd=base)
        ctx.check(p.returncode == 0, 'visualising without a destination '
                  'fails:', p.stderr[-800:])
        page = os.path.join(base, 'concept_formation', 'visualization_files')
        for (stream, how), got in zip(jobs, json.loads(p.stdout)):
            want = got['want']
            if how == 'no leaves':
                want = drop(want)
            elif how == 'clusters':
                want = dict(want, children=[dict(c, children=[]) for c in
                                            want['children']])
            path = os.path.join(base, 'data.js')
            with open(path, 'w') as f:
                f.write(got['text'])
            text, data = read(path)
            ctx.check(data == want, how, 'without a destination put', text,
                      'should be', want)
            ctx.check(set(got['changed']) <= {os.path.join(page,
                                                           'output.js')},
                      how, 'changed', got['changed'])
            ctx.check(len(got['opened']) == 1 and os.path.realpath(
                got['opened'][0].replace('file://', '')) ==
                os.path.join(page, 'viz.html'), how, 'opened', got['opened'])
            ctx.ev('no destination')


SCENARIOS = [('export', export, 3), ('files', files, 4)]
DIRECTED = [('installed', installed)]
