"""Development tool: mutates the library in scratch copies and asks the checks.

usage: mutate.py OUT.jsonl FILE... [--shard i/n]
For each mutant that passes the repository's stable tests, all checks run with
a share of their cases until one reports a violation; survivors are printed.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
CHECKS = ['C%02d' % i for i in range(1, 31)]
PREF = {'cobweb.py': [3, 1, 2, 10, 4, 8, 9, 28], 'cobweb3.py': [3, 12, 8, 1, 10, 20],
        'trestle.py': [18, 7, 14, 24, 5, 6], 'structure_mapper.py': [30, 15, 18, 13, 14, 4, 24, 6],
        'preprocessor.py': [16, 17, 23, 18, 13, 6], 'cluster.py': [19, 20, 14, 5, 6], 'evaluation.py': [21, 6],
        'visualize.py': [22, 6], 'dummy.py': [24, 7, 27], 'utils.py': [25, 9, 14, 16, 8], 'datasets.py': [26],
        'continuous_value.py': [11, 8, 10, 12], 'generate_quadruped.py': [26]}


class Mut(ast.NodeTransformer):
    """Applies the k-th possible mutation."""

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.desc = None
        self.infunc = 0

    def hit(self, node, what):
        self.n += 1
        if self.n - 1 == self.k:
            self.desc = '%d: %s' % (getattr(node, 'lineno', 0), what)
            return True
        return False

    def visit_FunctionDef(self, node):
        self.infunc += 1
        doc = ast.get_docstring(node) is not None
        body = node.body[1:] if doc else node.body
        body = self.block(body)
        node.body = (node.body[:1] if doc else []) + (body or [ast.Pass()])
        self.infunc -= 1
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.Delete, ast.Continue,
                              ast.Break)) and self.hit(s, 'delete: ' + ast.unparse(s).split('\n')[0]):
                continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list) and self.infunc:
                b = self.block(v)
                if not b and f == 'body':
                    b = [ast.Pass()]
                setattr(node, f, b)
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.infunc:
            return node
        swaps = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
                 ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
                 ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
        for s in swaps.get(type(node.ops[0]), []):
            if self.hit(node, 'compare %s -> %s' % (ast.unparse(node), s.__name__)):
                node.ops[0] = s()
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not self.infunc:
            return node
        swaps = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
        s = swaps.get(type(node.op))
        if s and not isinstance(node.left, (ast.Constant,)) or s and not (
                isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            if self.hit(node, 'op %s -> %s' % (ast.unparse(node), s.__name__)):
                node.op = s()
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if not self.infunc:
            return node
        if self.hit(node, 'bool %s flip' % ast.unparse(node)):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        for i in range(len(node.values)):
            if len(node.values) > 1 and self.hit(node, 'bool %s drop %d' % (ast.unparse(node), i)):
                del node.values[i]
                if len(node.values) == 1:
                    return node.values[0]
                break
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.infunc and isinstance(node.op, (ast.Not, ast.USub)) and self.hit(
                node, 'drop unary ' + ast.unparse(node)):
            return node.operand
        return node

    def visit_Constant(self, node):
        if not self.infunc:
            return node
        v = node.value
        if isinstance(v, bool):
            if self.hit(node, 'const %r flip' % v):
                node.value = not v
        elif isinstance(v, (int, float)):
            if self.hit(node, 'const %r +1' % v):
                node.value = v + 1
            elif v and self.hit(node, 'const %r -> 0' % v):
                node.value = 0
        elif isinstance(v, str) and len(v) < 4 and v:
            if self.hit(node, 'const %r -> X' % v):
                node.value = v + 'X'
        return node

    def visit_If(self, node):
        if self.infunc:
            if self.hit(node, 'if not ' + ast.unparse(node.test)):
                node.test = ast.UnaryOp(ast.Not(), node.test)
        return self.generic_visit(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.infunc and isinstance(node.func, ast.Name):
            if node.func.id in ('sorted', 'reversed', 'list', 'set', 'abs', 'float', 'tuple', 'deepcopy', 'frozenset') \
                    and len(node.args) == 1 and self.hit(node, 'drop call ' + ast.unparse(node)):
                return node.args[0]
            if node.func.id in ('min', 'max') and self.hit(node, 'min/max ' + ast.unparse(node)):
                node.func.id = {'min': 'max', 'max': 'min'}[node.func.id]
        if self.infunc and isinstance(node.func, ast.Attribute) and node.func.attr in ('attrs',) and \
                self.hit(node, 'attrs arg ' + ast.unparse(node)):
            node.args = [] if node.args else [ast.Constant('all')]
        if self.infunc and node.keywords:
            for i, k in enumerate(node.keywords):
                if self.hit(node, 'drop kw %s of %s' % (k.arg, ast.unparse(node))):
                    del node.keywords[i]
                    break
        return node


def mutants(path):
    src = open(path).read()
    k = 0
    base = ast.unparse(ast.parse(src))
    while True:
        m = Mut(k)
        t = m.visit(ast.parse(src))
        if m.desc is None:
            return
        ast.fix_missing_locations(t)
        try:
            out = ast.unparse(t)
            compile(out, path, 'exec')
        except Exception:
            k += 1
            continue
        if out != base:
            yield k, m.desc, out
        k += 1


def main():
    out = sys.argv[1]
    args = sys.argv[2:]
    i, n = 0, 1
    if '--shard' in args:
        p = args.index('--shard')
        i, n = map(int, args[p + 1].split('/'))
        del args[p:p + 2]
    frac = float(os.environ.get('FRAC', '0.12'))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['k']))
    work = tempfile.mkdtemp(prefix='mut-')
    repo = work + '/repo'
    shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    test = open('/opt/vp/test.sh').read().replace('/repo', repo)
    open(work + '/test.sh', 'w').write(test)
    env = dict(os.environ, VERIF_DEV_REPO=repo, VERIF_WORKERS='1', VERIF_EVIDENCE=work + '/ev', PYTHONDONTWRITEBYTECODE='1')
    sys.path.insert(0, ROOT)
    import importlib
    cases = {}
    for c in CHECKS:
        mod = importlib.import_module('checks.' + c.lower())
        cases[c] = max(40, int(mod.CASES['quick'] * frac))
    for f in args:
        path = '/repo/concept_formation/' + f
        orig = open(path, newline='').read()
        for k, desc, text in mutants(path):
            if (k + len(f)) % n != i or (f, k) in done or ": op '" in desc:  # messages
                continue
            with open(repo + '/concept_formation/' + f, 'w') as fh:
                fh.write(text)
            rec = {'file': f, 'k': k, 'desc': desc}
            try:
                subprocess.run(['timeout', '100', 'bash', work + '/test.sh', work + '/o.json'], env=dict(
                    os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo), cwd=repo, stdout=subprocess.DEVNULL,
                    stderr=subprocess.DEVNULL, timeout=120)
                passed = set(json.load(open(work + '/o.json'))['passed'])
            except Exception:
                passed = set()
            if os.path.exists(work + '/o.json'):
                os.remove(work + '/o.json')
            if STABLE - passed:
                rec['res'] = 'tests'
            else:
                order = ['C%02d' % x for x in PREF.get(os.path.basename(f), [])]
                if os.environ.get('ALL'):
                    order += [c for c in CHECKS if c not in order]
                rec['res'] = 'SURVIVED'
                for c in order:
                    p = subprocess.run(['timeout', '600', './run.sh', c, 'quick', '--cases', str(cases[c])], cwd=ROOT,
                                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if p.returncode == 1 and 'VIOLATION' in p.stdout:
                        rec['res'] = c
                        break
                    if p.returncode != 0:
                        rec.setdefault('odd', []).append((c, p.returncode, p.stdout[-300:]))
            with open(out, 'a') as o:
                o.write(json.dumps(rec) + '\n')
        with open(repo + '/concept_formation/' + f, 'w', newline='') as fh:
            fh.write(orig)
    shutil.rmtree(work)


if __name__ == '__main__':
    main()
