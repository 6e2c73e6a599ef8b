"""mutants.py CORPUS REPORT [path-prefix]: changes the contracts in every small way and repeats the corpus on each change.
Reports the changes that no trace notices although the repository's tests accept them."""
import ast
import copy
import glob
import gzip
import itertools
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, '..', 'harness')
FILES = ['irc_token/irc_token.py', 'flexible_token/flexible_token.py', 'icx_token/icx_token.py', 'converter/converter.py',
         'network/network.py', 'score_registry/score_registry.py', 'utility/owned.py', 'utility/managed.py', 'utility/token_holder.py',
         'utility/flexible_token_controller.py', 'utility/utils.py', 'utility/proxy_score.py', 'converter/connector.py', 'utility/storage.py']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
ARI = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv]}


def mutations(tree):
    """yields (line, description, function that changes the tree in place)"""
    funcs = {}
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef,)):
            for n in ast.walk(f):
                funcs.setdefault(id(n), f)
    skip = {id(n) for c in ast.walk(tree) if isinstance(c, ast.ClassDef) and any('InterfaceScore' in ast.unparse(b) or 'ABC' == ast.unparse(b) for b in c.bases)
            for n in ast.walk(c)}
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        line = getattr(node, 'lineno', 0)
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    yield line, f'{type(op).__name__}->{new.__name__}', (lambda n=node, i=i, new=new: n.ops.__setitem__(i, new()))
        if isinstance(node, ast.BoolOp):
            new = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield line, f'->{new.__name__}', (lambda n=node, new=new: setattr(n, 'op', new()))
            for i in range(len(node.values)):
                yield line, f'drop operand {i}', (lambda n=node, i=i: n.values.pop(i) if len(n.values) > 2 else
                                                  (n.values.__setitem__(i, ast.Constant(isinstance(n.op, ast.And)))))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield line, 'drop not', (lambda n=node: (setattr(n, 'op', ast.Not()), setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand))))
        if isinstance(node, (ast.BinOp, ast.AugAssign)):
            for new in ARI.get(type(node.op), []):
                yield line, f'{type(node.op).__name__}->{new.__name__}', (lambda n=node, new=new: setattr(n, 'op', new()))
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                yield line, f'{node.value} flipped', (lambda n=node: setattr(n, 'value', not n.value))
            elif isinstance(node.value, int):
                yield line, f'{node.value}+1', (lambda n=node: setattr(n, 'value', n.value + 1))
                if node.value > 0:
                    yield line, f'{node.value}-1', (lambda n=node: setattr(n, 'value', n.value - 1))
        if isinstance(node, ast.If):
            for v in (True, False):
                yield line, f'if {v}', (lambda n=node, v=v: setattr(n, 'test', ast.Constant(v)))
        if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.Try, ast.With)):
            for field in ('body', 'orelse'):
                for i, s in enumerate(getattr(node, field, None) or []):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.AnnAssign):
                        if 'super().' in ast.unparse(s) or isinstance(s, ast.Assign) and 'VarDB(' in ast.unparse(s):
                            continue
                        yield s.lineno, 'drop ' + ast.unparse(s)[:60], (lambda n=node, f=field, i=i: getattr(n, f).__setitem__(i, ast.Pass()))
                    if i and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(getattr(node, field)[i - 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.If)):
                        def swap(n=node, f=field, i=i):
                            b = getattr(n, f)
                            b[i - 1], b[i] = b[i], b[i - 1]
                        if not (isinstance(getattr(node, field)[i - 1], ast.Expr) and isinstance(getattr(node, field)[i - 1].value, ast.Constant)):
                            yield s.lineno, 'swap with the statement before', swap
        if isinstance(node, ast.FunctionDef):
            for i, dec in enumerate(node.decorator_list):
                if 'interface' in ast.unparse(dec) or 'abstract' in ast.unparse(dec):
                    continue
                yield line, 'drop @' + ast.unparse(dec), (lambda n=node, i=i: n.decorator_list.pop(i))
        if isinstance(node, ast.Call):
            for i in range(1, len(node.args)):
                def swap(n=node, i=i):
                    n.args[i - 1], n.args[i] = n.args[i], n.args[i - 1]
                yield line, f'swap arguments {i - 1} {i} of {ast.unparse(node.func)[:40]}', swap
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and id(node) in funcs:
            f = funcs[id(node)]
            names = [a.arg for a in f.args.args if a.arg != 'self']
            kinds = {a.arg: ast.unparse(a.annotation) if a.annotation else '' for a in f.args.args}
            local = {t.id for n in ast.walk(f) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
            for other in names + sorted(local):
                if other == node.id or node.id not in names and node.id not in local:
                    continue
                if node.id in kinds and other in kinds and kinds[node.id] != kinds[other]:
                    continue
                yield line, f'{node.id}->{other}', (lambda n=node, o=other: setattr(n, 'id', o))
        if isinstance(node, ast.Attribute):
            text = ast.unparse(node)
            if text == 'self.msg.sender':
                for new in ('self.tx.origin', 'self.address', 'self.getOwner()'):
                    yield line, f'{text}->{new}', (lambda n=node, e=new: n.__dict__.update(copy.copy(ast.parse(f'({e})', mode='eval').body).__dict__) or
                                                   setattr(n, '__class__', type(ast.parse(f'({e})', mode='eval').body)))


def sources(repo, only):
    for f in FILES:
        p = os.path.join(repo, 'contracts', f)
        if os.path.exists(p) and f.startswith(only):
            text = open(p).read()
            count = sum(1 for _ in mutations(ast.parse(text)))
            for k in range(count):
                yield f, k


def mutated(repo, f, k):
    tree = ast.parse(open(os.path.join(repo, 'contracts', f)).read())
    line, what, change = next(itertools.islice(mutations(tree), k, None))
    change()
    ast.fix_missing_locations(tree)
    return line, what, ast.unparse(tree)


RUN = '''
import gzip, json, os, sys, random
sys.path.insert(0, %(harness)r)
import itf, replay, profiles, tempfile
files = json.load(open(%(list)r))
for p in files:
    states = itf.load(p)
    try:
        replay.replay(states, 7, 0.05)
    except replay.Divergence as d:
        x = profiles.D(d.kind, d.tags, d.detail)
        own = [k for k, v in profiles.P.items() if v[1](x)]
        print('KILLED', d.kind, own, d.detail[:150]); break
    except BaseException as e:
        print('ERROR', type(e).__name__, str(e)[:200]); break
else:
    print('SURVIVED')
'''


def one(job):
    repo, f, k, listing = job
    try:
        line, what, text = mutated(repo, f, k)
    except Exception as e:
        return f, k, 0, f'cannot mutate {e}', 'SKIP', ''
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        shutil.copytree(os.path.join(repo, 'contracts'), os.path.join(d, 'contracts'), ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(d, 'contracts', f), 'w').write(text)
        env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['/opt/venv/bin/python', '-c', RUN % {'harness': HARNESS, 'list': listing}], capture_output=True, text=True, env=env,
                           timeout=3000)
        out = (r.stdout.strip().splitlines() or ['ERROR ' + r.stderr[-200:]])[-1]
        tests = ''
        if out == 'SURVIVED':
            subprocess.run(f'cp -a {repo}/. {d}/', shell=True, check=True)
            open(os.path.join(d, 'contracts', f), 'w').write(text)
            import seeds
            bad = seeds.tests(d)
            tests = 'tests fail' if bad else 'tests pass'
        return f, k, line, what, out, tests
    except subprocess.TimeoutExpired:
        return f, k, line, what, 'TIMEOUT', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    corpus, report = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else ''
    repo = '/repo'
    files = sorted(f for f in glob.glob(os.path.join(corpus, '*.json.gz')) if int(f.split('_')[1]) < int(os.environ.get('PER_LEG', 2)))
    flat = tempfile.mkdtemp(prefix='flat-', dir='/tmp')
    names = []
    for p in files:
        q = os.path.join(flat, os.path.basename(p)[:-3])
        open(q, 'wb').write(gzip.open(p).read())
        names.append(q)
    random.Random(3).shuffle(names)
    listing = os.path.join(flat, 'list')
    json.dump(names, open(listing, 'w'))
    sys.path.insert(0, HERE)
    jobs = [(repo, f, k, listing) for f, k in sources(repo, only)]
    print(len(jobs), 'mutants', len(names), 'traces', flush=True)
    t, n, alive = time.time(), 0, 0
    with open(report, 'w') as out, multiprocessing.Pool(int(os.environ.get('JOBS', 7))) as pool:
        for r in pool.imap_unordered(one, jobs):
            n += 1
            out.write(json.dumps(r) + '\n')
            out.flush()
            if r[4] in ('SURVIVED', 'TIMEOUT') and r[5] != 'tests fail':
                alive += 1
                print(r, flush=True)
            if n % 200 == 0:
                print(n, alive, round(time.time() - t), flush=True)
    shutil.rmtree(flat)


main()
