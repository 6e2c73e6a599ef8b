"""Runs the check of each planted change's property against a scratch copy with the change.
usage: runseeds.py [-p Cxx,Cyy] [id ...]     (-p: run these checks instead of the property's own)"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    pids = None
    if args[:1] == ['-p']:
        pids, args = args[1].split(','), args[2:]
    ids = args or sorted(os.path.basename(p) for p in glob.glob(os.path.join(VERIF, 'seeded', '*')))
    for i in ids:
        folder = os.path.join(VERIF, 'seeded', i)
        tree = tempfile.mkdtemp(prefix='seedrun-', dir='/tmp')
        try:
            subprocess.run(f'cp -a /repo/. {tree}/', shell=True, check=True)
            subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=tree, check=True)
            for pid in pids or [json.load(open(os.path.join(folder, 'meta.json')))['property']]:
                t = time.time()
                r = subprocess.run([os.path.join(VERIF, 'bin', 'check.py'), pid], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=tree, VERIF_OUT=tree + '/.out'))
                lines = r.stdout.strip().splitlines()
                verdict = 'CAUGHT' if r.returncode == 1 and any(x.startswith(f'VIOLATION property={pid} ') for x in lines) else \
                    'missed' if r.returncode == 0 else f'rc={r.returncode}'
                print(f'{i} {pid} {verdict} {time.time() - t:.0f}s {(lines[0] if lines else r.stderr[-300:])[:260]}', flush=True)
        finally:
            shutil.rmtree(tree)


main()
