#!/usr/bin/env python3
'''Developer tool (no check uses it): confirm planted bugs and file them under seeded/.

usage: plant.py BATCH.py [id ...]

BATCH.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new), ...],
demo (Python source).  A bug is filed only if, in a scratch copy of /repo, it applies, compiles,
the stable tests pass with it, and the demo passes without it and fails with it.
'''
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
# Exit 0 if the property holds in this demonstration, 1 if it does not.  Run with the repository as cwd.
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
S="$(mktemp -d)" || exit 2
cd "$S" && timeout 250 /opt/venv/bin/python "$D/demo.py"
R=$?
cd / && rm -rf "$S"
exit $R
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests_ok(copy, work):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
               PYTHONPATH=f'{copy}:/opt/vp/plugins', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    junit = f'{work}/junit.xml'
    run([PY, '-m', 'pytest', '-q', '-p', 'fixed_random', '-p', 'pytest_timeout', '-p', 'no:cacheprovider',
         '--timeout=300', '--continue-on-collection-errors', f'--basetemp={work}/tmp', '-o',
         'junit_family=xunit2', f'--junitxml={junit}', 'tests'], cwd=copy, env=env)
    out = f'{work}/out.json'
    run(['/usr/bin/python3', '/opt/vp/results.py', out, f'junit:{junit}'])
    d = json.load(open(out))
    passed = set(d['passed'] if 'passed' in d else [k for k, v in d.items() if v in ('pass', 'passed')])
    return STABLE - passed


def one(bug):
    work = tempfile.mkdtemp(prefix='plant_')
    try:
        copy = f'{work}/repo'
        shutil.copytree('/repo', copy, symlinks=True)
        seed = f'{work}/seed'
        os.mkdir(seed)
        with open(f'{seed}/demo.py', 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        with open(f'{seed}/demo.sh', 'w') as f:
            f.write(SH)
        with open(f'{seed}/meta.json', 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        r = run(['bash', f'{seed}/demo.sh'], cwd=copy)
        if r.returncode:
            return bug['id'], f'demo fails on the unchanged tree: {r.stdout[-1500:]}'
        for name, old, new in bug['edits']:
            path = f'{copy}/{name}'
            text = open(path).read()
            if text.count(old) != 1:
                return bug['id'], f'{name}: {text.count(old)} occurrences of {old!r}'
            open(path, 'w').write(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=copy, stdout=subprocess.PIPE).stdout
        open(f'{seed}/patch.diff', 'wb').write(diff)
        r = run([PY, '-m', 'compileall', '-q', 'bitcoinx'], cwd=copy,
                env=dict(os.environ, PYTHONPYCACHEPREFIX=f'{work}/pyc'))
        if r.returncode:
            return bug['id'], 'does not compile'
        r = run(['bash', f'{seed}/demo.sh'], cwd=copy)
        if not r.returncode:
            return bug['id'], 'demo passes with the patch'
        note = r.stdout.strip().splitlines()[-1:] 
        missing = tests_ok(copy, work)
        if missing:
            return bug['id'], f'tests fail: {sorted(missing)[:4]}'
        dest = f'/verif/seeded/{bug["id"]}'
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(seed, dest)
        return bug['id'], f'ok ({r.returncode}: {note})'
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as pool:
        for name, result in pool.map(one, bugs):
            print(name, result, flush=True)
