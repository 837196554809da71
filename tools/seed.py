#!/usr/bin/env python3
"""Maintains /verif/seeded. Each tools/seeds/<id>.py defines PROPERTY, FILE, EDITS [(old, new)], NEEDS, BREAKS and DEMO (Python
source run with cwd /repo, `import pywasm` and `wat`, an assembler laid beside it).
  seed.py make <id>...    write seeded/<id>/ and confirm it in a scratch copy (demo, stable tests with --tests)
  seed.py check <id>...   run the property's quick check against a patched scratch copy
Development only; no check uses it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1')


def load(i):
    sys.path.insert(0, os.path.join(HERE, 'tools/seeds'))
    ns = {}
    exec(open(os.path.join(HERE, 'tools/seeds', i + '.py')).read(), ns)
    return ns


def scratch():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    return d, d + '/repo'


def wat():
    a = open(os.path.join(HERE, 'mc/asm.py')).read()
    o = open(os.path.join(HERE, 'mc/ops.py')).read()
    return '# A small assembler, so that the demonstration is self-contained.\n' + o + '\n' + a.replace(
        'from .ops import OPS\n', '')


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, timeout=t, capture_output=True, text=True)


def make(i, tests):
    s = load(i)
    d, repo = scratch()
    try:
        p = os.path.join(repo, s['FILE'])
        src = open(p).read()
        for old, new in s['EDITS']:
            assert src.count(old) == 1, '%s: %d matches of %r' % (i, src.count(old), old)
            src = src.replace(old, new)
        open(p, 'w').write(src)
        diff = sh('git diff', repo).stdout
        out = os.path.join(HERE, 'seeded', i)
        os.makedirs(out, exist_ok=True)
        for n in os.listdir(out):
            os.remove(os.path.join(out, n))
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(s['DEMO'].lstrip())
        if re.search(r'\bwat\b', s['DEMO']):
            open(out + '/wat.py', 'w').write(wat())
        open(out + '/demo.sh', 'w').write(
            '#!/bin/bash\n# cwd: /repo. Exit 0: the property holds on this input.\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\nexport PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 '
            'PYTHONPATH="$PWD:$here" PYTHONUTF8=1\nexec timeout 200 python "$here/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % out, '/repo')
        b = sh('bash %s/demo.sh' % out, repo)
        ok = a.returncode == 0 and b.returncode != 0
        print('%s: clean %d, patched %d %s' % (i, a.returncode, b.returncode, 'OK' if ok else 'BAD'),
              '|', (a.stderr[-300:] if a.returncode else b.stderr.strip().split('\n')[-1][:200]))
        if tests:
            ENV['PYTHONPATH'] = repo
            base = json.load(open('/opt/vp/BASELINE.json'))
            names = [t['id'] if isinstance(t, dict) else t for t in (base['stable'])]
            bad = [n for n in names if sh(n.split('::')[1], repo).returncode]
            del ENV['PYTHONPATH']
            print('   tests', len(names), 'failed:', bad)
    finally:
        shutil.rmtree(d)


def check(i, tier='quick'):
    s = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    d, repo = scratch()
    try:
        r = sh('git apply %s/seeded/%s/patch.diff' % (HERE, i), repo)
        assert r.returncode == 0, r.stderr
        ENV['MC_REPO'] = repo
        r = sh('./run.sh %s %s' % (s['property'], tier), HERE, 1000)
        caught = r.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in r.stdout
        print('%s (%s): %s' % (i, s['property'], 'caught' if caught else 'MISSED rc=%d' % r.returncode))
        f = os.path.join(HERE, 'tools', 'seed_results.json')
        res = json.load(open(f)) if os.path.exists(f) else {}
        res[i] = [s['property'], 'caught' if caught else 'missed', s['needs'], s['what_it_breaks']]
        res = {k: res[k] for k in sorted(res) if os.path.isdir(os.path.join(HERE, 'seeded', k))}
        json.dump(res, open(f, 'w'), indent=1)
        print('    ' + '\n    '.join(r.stdout.strip().split('\n')[:2])[:400])
    finally:
        shutil.rmtree(d)


a = sys.argv[1:]
tests = '--tests' in a
ids = [x for x in a[1:] if x != '--tests'] or sorted(n[:-3] for n in os.listdir(HERE + '/tools/seeds') if n[0] != '_' and n.endswith('.py'))
for i in ids:
    if a[0] == 'make':
        make(i, tests)
    else:
        check(i)
