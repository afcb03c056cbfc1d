"""seed.py SPEC.py [id ...]: make seeded/<id> from SEEDS in SPEC.py and verify
them in a copy of /repo (fresh, under /tmp): the demonstration passes without
the change and fails with it, and the tests pass with it.  With CHECK=1, also
runs the check of the property.
SEEDS: list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def one(s, R):
    d = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(d, exist_ok=True)
    msg = []
    for f, a, b in s['edits']:
        p = '%s/pygfunction/%s' % (R, f)
        t = open(p).read()
        n = t.count(a)
        if n != 1:
            return ['edit matches %d times: %r' % (n, a[:60])]
        open(p, 'w').write(t.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip())
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg'
        '\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=s['prop'], needs=s['needs'],
                   what_it_breaks=s['breaks']),
              open(d + '/meta.json', 'w'), indent=1)
    env = dict(os.environ, PYTHONPATH=R, MPLBACKEND='Agg',
               PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1')
    if sh('bash', d + '/demo.sh', cwd=R, env=env).returncode == 0:
        msg.append('DEMO PASSES WITH THE BUG')
    t = sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-cov',
           '-n', '3', 'tests', cwd=R, env=env)
    msg.append('tests: ' + t.stdout.strip().split('\n')[-1])
    if os.environ.get('CHECK'):
        c = sh(PY, V + '/check.py', s['prop'], cwd=V,
               env=dict(os.environ, VERIF_REPO=R))
        msg.append('%s -> %d' % (s['prop'], c.returncode))
    sh('git', '-C', R, 'checkout', '--', '.')
    c = sh('bash', d + '/demo.sh', cwd=R, env=env)
    if c.returncode:
        msg.append('DEMO FAILS WITHOUT THE BUG: ' + c.stderr[-500:])
    return msg


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    top = tempfile.mkdtemp(prefix='seed_')
    R = top + '/repo'
    try:
        shutil.copytree('/repo', R, symlinks=True)
        for s in seeds:
            if not want or s['id'] in want:
                sh('git', '-C', R, 'checkout', '--', '.')
                print('##', s['id'], '\n   '.join([''] + one(s, R)),
                      flush=True)
    finally:
        shutil.rmtree(top)


main()
