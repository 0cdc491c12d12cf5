"""Development tool: writes seeded/<id>/ from tools/seedspecs.py and validates.

usage: seed.py [ids...]    (all if none are named; existing ones are rebuilt)
Validates in a scratch copy: patch applies, stable tests pass, the demo
discriminates, and the property's check (VERIF_DEV_REPO) reports it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seedspecs import SPECS  # noqa: E402

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(s):
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix='seed-')
    repo = work + '/repo'
    try:
        sh(['git', 'clone', '-q', '/repo', repo])
        files = s['file'] if isinstance(s['file'], list) else [s['file']]
        for f in files:
            path = repo + '/concept_formation/' + f
            text = open(path, newline='').read()
            crlf = '\r\n' in text
            text = text.replace('\r\n', '\n')
            for e in s['edits']:
                old, new = e[-2:]
                if len(e) == 3 and e[0] != f:
                    continue
                old2, new2 = old.replace("\\'", "'"), new.replace("\\'", "'")
                if text.count(old2) != 1:
                    return s['id'], 'EDIT MATCHES %d TIMES' % text.count(old2)
                text = text.replace(old2, new2)
            if crlf:
                text = text.replace('\n', '\r\n')
            open(path, 'w', newline='').write(text)
        diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].lstrip('\n')
                                        .replace("\\'", "'"))
        for f in s.get('extra', []):
            shutil.copy(os.path.join(HERE, f), d)
        json.dump({'property': s['prop'], 'needs': s['needs'].replace("\\'", "'"),
                   'what_it_breaks': s['what'].replace("\\'", "'")},
                  open(d + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        a = sh(['bash', d + '/demo.sh'], cwd='/repo', env=env)
        b = sh(['bash', d + '/demo.sh'], cwd=repo, env=env)
        if a.returncode:
            return s['id'], 'DEMO FAILS UNCHANGED: ' + a.stdout[-400:]
        if not b.returncode:
            return s['id'], 'DEMO PASSES PATCHED'
        open(work + '/test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/repo', repo))
        sh(['bash', work + '/test.sh', work + '/o.json'], cwd=repo, env=dict(env, PYTHONPATH=repo))
        try:
            passed = set(json.load(open(work + '/o.json'))['passed'])
        except Exception as e:
            return s['id'], 'TESTS DID NOT RUN %r' % e
        if STABLE - passed:
            return s['id'], 'KILLED BY TESTS: %s' % sorted(STABLE - passed)[:3]
        env.update(VERIF_DEV_REPO=repo, VERIF_EVIDENCE=work + '/ev', VERIF_SEED='1')
        c = sh([HERE + '/run.sh', s['prop'], 'quick'], cwd=HERE, env=env)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        return s['id'], ('caught by %s' % s['prop'] if c.returncode == 1 and v else
                         'MISSED by %s (exit %d) %s' % (s['prop'], c.returncode, c.stdout[-200:]))
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    want = sys.argv[1:]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, [s for s in SPECS if not want or s['id'] in want]):
            print(*r, flush=True)
