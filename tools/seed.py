#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the definitions in tools/seeds/*.py and confirms each one in a scratch copy of /repo:
the demonstration passes without the change and fails with it, and the stable tests still pass with it.
tools/seed.py [--notest] [id...]    Definition: dict(id, property, edits=[(file, old, new)], needs, breaks, demo)"""
import concurrent.futures
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from mut import locate  # noqa: E402
SH = '''#!/bin/bash
# run with cwd = the repository: exit 0 when the property holds for this input, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(ROOT, 'tools/seeds/*.py'))):
        spec = importlib.util.spec_from_file_location('m', p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.S
    assert len({s['id'] for s in out}) == len(out)
    return out


def tests(d):
    env = dict(os.environ, PYTHONPATH=f'{d}/src:/opt/vp/plugins', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    ps = []
    for n, a in (('toolbox', ['tests/QuantumToolbox']), ('integration', ['tests/classes/Integration']),
                 ('rest', ['tests', '--ignore=tests/QuantumToolbox', '--ignore=tests/classes/Integration'])):
        ps.append(subprocess.Popen(['/opt/venv/bin/python', '-m', 'pytest', '-q', f'--rootdir={d}', '-p', 'no:cacheprovider', '-p', 'vp_seed',
                                    '--timeout=600', '-o', 'junit_family=xunit2', f'--junitxml={d}/r_{n}.xml'] + a, cwd=d, env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        p.wait()
    bad = []
    n = 0
    for n_ in ('toolbox', 'integration', 'rest'):
        for tc in ET.parse(f'{d}/r_{n_}.xml').getroot().iter('testcase'):
            n += 1
            if any(x.tag in ('failure', 'error') for x in tc):
                bad.append(tc.get('classname', '') + '::' + tc.get('name', ''))
    return n, bad


def one(s, notest):
    d = tempfile.mkdtemp(prefix='seed_')
    out = os.path.join(ROOT, 'seeded', s['id'])
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)

        def demo():
            return subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=d, capture_output=True, text=True, timeout=300)
        r0 = demo()
        if r0.returncode != 0:
            return s['id'], 'demo fails on the unchanged tree', (r0.stdout + r0.stderr)[-600:]
        for f, old, new in s['edits']:
            p = os.path.join(d, 'src/quanguru', f)
            t = open(p).read()
            old = locate(t, old)
            if t.count(old) != 1:
                return s['id'], f'edit matches {t.count(old)} times', old[:80]
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        r1 = demo()
        if r1.returncode == 0:
            return s['id'], 'demo passes with the change', (r1.stdout + r1.stderr)[-600:]
        msg = (r1.stdout + r1.stderr).strip().split('\n')[-1][:160]
        # the lines changed have to be lines of the original repository
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=d, capture_output=True, text=True).stdout.split()[0]
        for f in {e[0] for e in s['edits']}:
            orig = set(subprocess.run(['git', 'show', f'{base}:src/quanguru/{f}'], cwd=d, capture_output=True, text=True).stdout.split('\n'))
            for x in subprocess.run(['git', 'diff', f'src/quanguru/{f}'], cwd=d, capture_output=True, text=True).stdout.split('\n'):
                if x.startswith('-') and not x.startswith('---') and x[1:] not in orig:
                    return s['id'], 'changes a line of our own commits', x
        if not notest:
            n, bad = tests(d)
            if bad:
                return s['id'], f'{len(bad)} of {n} tests fail', ' '.join(bad[:4])
            msg += f' | {n} tests pass'
        # what our check says
        v = os.path.join(d, 'v')
        os.makedirs(v)
        shutil.copytree(os.path.join(ROOT, 'sa'), v + '/sa')
        for x in ('check.py', 'known_findings.txt'):
            shutil.copy(os.path.join(ROOT, x), v)
        try:
            r = subprocess.run([sys.executable, 'check.py', s['property'], '--repo', d], cwd=v, capture_output=True, text=True, timeout=900)
            caught = {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'exit {r.returncode}')
        except Exception as e:
            caught = repr(e)[:80]
        return s['id'], 'ok ' + caught, msg
    finally:
        shutil.rmtree(d)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    todo = [s for s in load() if not a or s['id'] in a or s['property'] in a]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for i, r, m in ex.map(lambda s: one(s, '--notest' in sys.argv), todo):
            print(i, r, '|', m, flush=True)


if __name__ == '__main__':
    main()
