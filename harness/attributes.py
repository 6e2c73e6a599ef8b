"""C34: the attribute store (contracts/utility/storage.py) against spec/storage.qnt."""
import collections
import multiprocessing
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import itf                                       # noqa: E402
from prices import seeded                        # noqa: E402
from sim import Simulation, SimulatorError, VERIF, draws, names   # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
CPUS = min(8, os.cpu_count() or 1)
TYPES = {'a': 'int', 'ab': 'int', 'b': 'int', 'text': 'str', 'flag': 'bool', 'who': 'address', 'raw': 'bytes', 'array': 'array',
         'connectors_count': 'int', 's': 'str', 'is_virtual_balance_enabled_by_the_owner_': 'int',
         'is_virtual_balance_enabled_by_the_owner': 'int', 'is_virtual_balance_enabled_by_the_manager': 'int', 'A': 'int', 'Ab': 'int',
         'connectors_count_': 'int', 'db': 'int', 'name': 'str', 'item': 'int', 'a_b': 'int'}
NAMES = list(TYPES) + ['plain', 'x']


class Failed(Exception):
    pass


def replay(path):
    states = itf.load(path)
    os.unlink(path)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    from iconservice import Address, ArrayDB, VarDB
    from iconservice.database.db import IconScoreDatabase
    from chain import Chain, TxFailed, address
    from contracts.utility.storage import Storage

    chain = Chain()
    sender = address('own', False)
    root = IconScoreDatabase(address('one', True), chain.db)
    dbs = [root, root.get_sub_db(b'a'), root.get_sub_db(b'b'), IconScoreDatabase(address('two', True), chain.db)]
    classes = {'int': int, 'str': str, 'bool': bool, 'bytes': bytes, 'address': Address}
    stores, where = [], []
    counts = collections.Counter()
    history = []

    def real(v):
        return {'int': lambda: v['n'], 'bool': lambda: bool(v['n']), 'str': lambda: v['s'], 'bytes': lambda: bytes.fromhex(v['s']),
                'address': lambda: address(v['s'], v['s'] != 'hx'), 'none': lambda: None}[v['t']]()

    def run(o):
        def body(_ctx):
            k = o['k']
            if k == 'new':
                stores.append(Storage(dbs[o['db']]))
                where.append(o['db'])
            elif k == 'forget':
                stores.clear()
                where.clear()
            elif k == 'declare':
                stores[o['store']].add_fields([(f, ArrayDB, int) if TYPES[f] == 'array' else (f, VarDB, classes[TYPES[f]]) for f in o['fields']])
            elif k == 'push':
                stores[o['store']].array.put(o['v']['n'])
            elif k == 'set':
                setattr(stores[o['store']], o['name'], real(o['v']))
            if o['fails']:
                raise Failed()
        try:
            chain._run(sender, 0, body)
        except TxFailed as e:
            if not isinstance(e.cause, Failed):
                return f'fails: {e}'
        return ''

    def readings():
        out = []

        def body(_ctx):
            for s in stores:
                row = []
                for f in NAMES:
                    try:
                        v = getattr(s, f)
                    except AttributeError:
                        row.append('missing')
                        continue
                    row.append(('array', [v[i] for i in range(len(v))]) if isinstance(v, ArrayDB) else v)
                out.append(row)
        chain._run(sender, 0, body)
        return out

    def expected(w):
        out = []
        for s in w['stores']:
            row = []
            for f in NAMES:
                if f in s['fields']:
                    if TYPES[f] == 'array':
                        row.append(('array', list(w['arrays'][s['db']])))
                    else:
                        key = tuple(sorted({'db': s['db'], 'f': f}.items()))
                        v = w['vals'].get(key)
                        row.append(real(v) if v else {'int': 0, 'str': '', 'bool': False}.get(TYPES[f]))
                elif f in s['own']:
                    row.append(real(s['own'][f]))
                else:
                    row.append('missing')
            out.append(row)
        return out

    def same(a, b):
        return type(a) is type(b) and a == b

    for i, s in enumerate(states[1:], 1):
        o = s['op']
        brief = {k: v for k, v in o.items() if v not in ('', 0, [], False) and not (k == 'v' and o['k'] not in ('set', 'push'))}
        history.append(brief)
        counts[o['k'] + (' failing' if o['fails'] else '')] += 1
        bad = run(o)
        if not bad:
            try:
                got, want = readings(), expected(s['w'])
            except TxFailed as e:
                bad = f'reading fails: {e}'
            else:
                for n, (g, e) in enumerate(zip(got, want)):
                    for f, x, y in zip(NAMES, g, e):
                        if not same(x, y):
                            bad = bad or f'store {n} (database {where[n]}) field {f} reads {x!r}, must be {y!r}'
        if bad:
            return {'bad': f'step {i} {brief}: {bad}', 'history': history, 'counts': counts, 'states': [], 'broken': states[-1]['broken']}
    return {'bad': None, 'history': history, 'counts': counts, 'states': [repr(s['w']) for s in states], 'broken': states[-1]['broken']}


def check(pid, quick, seed):
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    directory = tempfile.mkdtemp(prefix=f'{pid}-', dir=os.path.join(VERIF, '.work'))
    violations, samples, seen, counts = [], [], set(), collections.Counter()
    good = transitions = 0
    try:
        main = os.path.join(directory, 'main.qnt')
        with open(main, 'w') as f:
            f.write('module main {\n  import storage.* from "../../spec/storage"\n'
                    f'  action go = {{\n{draws("r", 6)}    step({names("r", 6)})\n  }}\n  action begin = init\n}}\n')
        jobs = [[{'init': 'begin', 'step': 'go', 'inv': 'holds', 'steps': 60, 'samples': 30 if quick else 600,
                  'seed': seeded(seed, pid, c), 'out': os.path.join(directory, f't{c}')}] for c in range(CPUS)]
        sim = Simulation(main, jobs)
        try:
            with multiprocessing.get_context('fork').Pool(CPUS) as pool:
                pending = [pool.apply_async(replay, (m['trace'],)) for m in sim]
                for p in pending:
                    r = p.get(600)
                    if r['broken']:
                        raise SimulatorError('the specification itself breaks C34')
                    counts.update(r['counts'])
                    seen.update(r['states'])
                    transitions += len(r['history'])
                    if r['bad']:
                        violations.append({'kind': 'attribute', 'detail': r['bad'], 'history': r['history']})
                    else:
                        good += 1
                    if len(samples) < 4:
                        samples.append(r['history'][:8])
        finally:
            sim.stop()
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    return violations, {'states': len(seen), 'transitions': transitions, 'traces_validated_against_impl': good,
                        'actions': dict(sorted(counts.items())), 'samples': samples or ['none']}
