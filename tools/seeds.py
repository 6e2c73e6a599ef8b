"""Makes the planted changes of seeded/: scratch copy of /repo, edits, patch, tests, demonstration both ways.
usage: seeds.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1')


def tests(tree):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    files = subprocess.run("find tests -name 'test_*.py' -not -path 'tests/integration_tests/*' | LC_ALL=C sort", shell=True, cwd=tree,
                           capture_output=True, text=True).stdout.split()
    reports = tempfile.mkdtemp(dir='/tmp')
    procs = [subprocess.Popen(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + tree, '--timeout=300',
                               '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                               '--junitxml=' + os.path.join(reports, f[:-3].replace('/', '.') + '.xml'), f], cwd=tree, env=ENV,
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for f in files]
    for p in procs:
        p.wait()
    out = os.path.join(reports, 'out.json')
    subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', out, f'junit:{reports}/*.xml'], stdout=subprocess.DEVNULL, cwd=tree)
    got = json.load(open(out))
    shutil.rmtree(reports)
    passed = set(got.get('passed', []))
    return sorted(base - passed)


def demo(folder, tree):
    r = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=tree, capture_output=True, text=True, timeout=300, env=ENV)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def make(s):
    ident = s['id']
    folder = os.path.join(VERIF, 'seeded', ident)
    tree = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    stage = tempfile.mkdtemp(prefix='stage-', dir='/tmp')
    try:
        subprocess.run(f'cp -a /repo/. {tree}/', shell=True, check=True)
        for path, old, new in s['edits']:
            p = os.path.join(tree, path)
            t = open(p).read()
            if t.count(old) != 1:
                return f'{path}: {t.count(old)} matches of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True, text=True).stdout
        open(os.path.join(stage, 'patch.diff'), 'w').write(diff)
        if s.get('world', True):
            for f in ('chain.py', 'world.py'):
                shutil.copy(os.path.join(HERE, 'demo', f), stage)
        open(os.path.join(stage, 'demo.py'), 'w').write((
            'import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
            + ('from world import *\n' if s.get('world', True) else 'sys.path.insert(0, os.getcwd())\n')) + s['demo'].strip('\n') + '\n')
        open(os.path.join(stage, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(stage, 'meta.json'), 'w'), indent=1)
        bad = tests(tree)
        if bad:
            return f'tests fail: {bad[:3]}'
        rc, text = demo(stage, '/repo')
        if rc:
            return f'demo fails on the unchanged tree: {text}'
        rc, text = demo(stage, tree)
        if not rc:
            return 'demo passes with the change'
        shutil.rmtree(folder, ignore_errors=True)
        shutil.copytree(stage, folder)
        return f'ok ({text.strip().splitlines()[-1][:100] if text.strip() else rc})'
    finally:
        shutil.rmtree(tree)
        shutil.rmtree(stage)


if __name__ == '__main__':
    from seedlist import SEEDS
    want = sys.argv[1:]
    for s in SEEDS:
        if not want or s['id'] in want:
            print(s['id'], make(s), flush=True)
