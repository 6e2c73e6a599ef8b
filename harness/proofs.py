"""Inductive invariants of the small models of the specification, shown by Apalache (thorough tier).

A counterexample is a violation: the specification, with which the contracts are compared, would not have the property.
"""
import concurrent.futures
import os
import re
import shutil
import signal
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property -> [(module, initial states, step)]: from any state of `inv`, one step leads to `inv`
STEPS = {
    'C01': [('custody', 'plainInit', 'plainStep'), ('custody', 'flexInit', 'flexStep'), ('custody', 'icxInit', 'icxMoves')],
    'C03': [('custody', 'flexInit', 'flexStep')],
    'C05': [('custody', 'icxInit', s) for s in ('icxMoves', 'icxComes', 'icxPlain', 'icxLeaves')],
    'C06': [('control', 'someState', 'ownership')],
    'C07': [('control', 'someState', 'management')],
    'C09': [('control', 'someState', 'registries')],
    'C10': [('control', 'someState', 'registries')],
    'C11': [('control', 'someState', 'connectors')],
    'C12': [('control', 'someState', 'management')],
}


def prove(module, init, step, port, limit):
    """'proved', 'refuted' or 'undecided'"""
    d = tempfile.mkdtemp(prefix='proof-', dir=os.path.join(VERIF, '.work'))
    log = os.path.join(d, 'log')
    # the names of the states are few: one step is one run of the solver
    cmd = ['quint', 'verify', f'--init={init}', f'--step={step}', '--invariant=inv', '--max-steps=1',
           f'--server-endpoint=localhost:{port}', os.path.join(VERIF, 'spec', module + '.qnt')]
    try:
        with open(log, 'w') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, start_new_session=True)
            try:
                p.wait(limit)
            except subprocess.TimeoutExpired:
                pass
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        said = open(log, errors='replace').read()
        if re.search(r'\[ok\] No violation found', said):
            return 'proved', ''
        if '[violation]' in said:
            return 'refuted', said[-4000:]
        return 'undecided', said[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prove_all(pid, limit):
    """returns (violations, coverage)"""
    steps = STEPS.get(pid)
    if not steps:
        return [], {}
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    start = time.time()
    violations, said = [], {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        base = 20000 + os.getpid() % 20000
        runs = {(m, i, s): ex.submit(prove, m, i, s, base + k, limit) for k, (m, i, s) in enumerate(steps)}
        for (m, i, s), r in runs.items():
            verdict, text = r.result()
            said[f'{m}.{s}'] = verdict
            if verdict == 'refuted':
                violations.append({'kind': 'specification', 'detail': f'spec/{m}.qnt: {s} leaves the invariant: {text}'})
    return violations, {'inductive_steps': said, 'inductive_wall_s': round(time.time() - start, 1)}
