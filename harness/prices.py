"""C25, C26, C27: the price formula. The specification (spec/prices.qnt) chooses the questions, the
real formula answers them, the specification judges the answers."""
import collections
import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import itf                                       # noqa: E402
from sim import Simulation, SimulatorError, VERIF, draws, names   # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
CPUS = min(8, os.cpu_count() or 1)
CALLS = {'purchase': 'calculate_purchase_return', 'sale': 'calculate_sale_return', 'cross': 'calculate_cross_connector_return'}
REFUSED = -1
# an answer takes milliseconds; what is not answered for this many seconds (of a processor all the
# others may be using as well) is not going to be
PATIENCE = 20
ENDLESS = 'no answer'


def formula():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from contracts.formula.fixed_map_formula import FixedMapFormula
    return FixedMapFormula()


class Endless(BaseException):
    pass


def _late(*_):
    raise Endless()


def ask(f, fn, a):
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, PATIENCE)
    try:
        return getattr(f, CALLS[fn])(*a)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Endless:
        raise
    except BaseException:      # the exceptions of iconservice are no Exceptions
        return REFUSED
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main_module():
    return ('module main {\n  import prices.* from "../../spec/prices"\n'
            f'  action init = {{\n    nondet i = 0.to(2^40).oneOf()\n    begin(i)\n  }}\n'
            + ''.join(f'  action from_{c} = begin({c} * 1000)\n' for c in range(CPUS))
            + ''.join(f'  action step_{s} = {{\n{draws("r", 12)}    {s}({names("r", 12)})\n  }}\n' for s in ('exact', 'curve', 'trade'))
            + '}\n')


def seeded(seed, *what):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, (seed,) + what)).encode()).digest()[:6], 'big') + 1


def qlist(a):
    return '[' + ', '.join(f'({x})' if x < 0 else str(x) for x in a) + ']'


def simulate(main, directory, step, steps, samples, seed, tag):
    """the states of `samples` runs on each processor"""
    jobs = [[{'init': f'from_{c}', 'step': f'step_{step}', 'steps': steps, 'samples': samples, 'seed': seeded(seed, tag, c),
              'out': os.path.join(directory, f't{c}')}] for c in range(CPUS)]
    s = Simulation(main, jobs)
    try:
        for m in s:
            states = itf.load(m['trace'])
            os.unlink(m['trace'])
            yield states
    finally:
        s.stop()


def judge(main, expressions):
    """evaluates expressions on all processors, in order"""
    size = max(1, min(60, -(-len(expressions) // CPUS)))
    chunks = [expressions[i:i + size] for i in range(0, len(expressions), size)]
    per = [[] for _ in range(min(CPUS, len(chunks)) or 1)]
    for i, c in enumerate(chunks):
        per[i % len(per)].append((i, c))
    out = [None] * len(chunks)
    # one process per list; the answers of a process come in order
    sims = [(Simulation(main, [[{'eval': c} for _, c in p]]), [i for i, _ in p]) for p in per if p]
    try:
        for s, order in sims:
            it = iter(order)
            for m in s:
                if 'values' in m:
                    out[next(it)] = [itf.plain(v) for v in m['values']]
    finally:
        for s, _ in sims:
            s.stop()
    if any(o is None for o in out):
        raise SimulatorError('evaluation did not finish')
    return [v for o in out for v in o]


def session_answers(f, x):
    s, b, w, w2, d, e = (x[k] for k in ('s', 'b', 'w', 'w2', 'd', 'e'))
    k = x['kind']

    def go(fn, *a):
        return ask(f, fn, a)
    if k == 'buysell':
        r = go('purchase', s, b, w, d)
        return [r, go('sale', s + r, b + d, w, r) if r >= 0 else REFUSED]
    if k == 'sellbuy':
        r = go('sale', s, b, w, d)
        return [r, go('purchase', s - d, b - r, w, r) if r >= 0 else REFUSED]
    if k == 'around':
        r = go('cross', s, w, b, w2, d)
        return [r, go('cross', b - r, w2, s + d, w, r) if r >= 0 else REFUSED]
    if k in ('splitbuy', 'morebuy'):
        one = go('purchase', s, b, w, d)
        both = go('purchase', s, b, w, d + e)
        return [one, both] if k == 'morebuy' else [both, one, go('purchase', s + one, b + d, w, e)]
    if k in ('splitsell', 'moresell'):
        one = go('sale', s, b, w, d)
        both = go('sale', s, b, w, d + e)
        return [one, both] if k == 'moresell' else [both, one, go('sale', s - d, b - one, w, e)]
    one = go('cross', s, w, b, w2, d)
    both = go('cross', s, w, b, w2, d + e)
    return [one, both] if k == 'morecross' else [both, one, go('cross', s + d, w, b - one, w2, e)]


def run_real(jobs):
    """in a process of its own: the code under test is imported here"""
    f = formula()
    out = []
    for j in jobs:
        try:
            out.append(session_answers(f, j) if isinstance(j, dict) else ask(f, j[0], j[1]))
        except Endless:
            return out + [ENDLESS]      # the rest is not asked any more
    return out


def check(pid, quick, seed):
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    directory = tempfile.mkdtemp(prefix=f'{pid}-', dir=os.path.join(VERIF, '.work'))
    violations = []
    counts = collections.Counter()
    samples = []
    seen = set()
    start = time.time()
    try:
        main = os.path.join(directory, 'main.qnt')
        with open(main, 'w') as fh:
            fh.write(main_module())
        ctx = multiprocessing.get_context('fork')
        step = {'C25': 'curve', 'C26': 'exact', 'C27': 'trade'}[pid]
        steps = {'C25': 200, 'C26': 260, 'C27': 270}[pid]
        runs = {'C25': 6, 'C26': 6, 'C27': 2}[pid] if quick else {'C25': 40, 'C26': 60, 'C27': 30}[pid]
        traces = 0
        with ctx.Pool(CPUS) as pool:
            pending = []
            for states in simulate(main, directory, step, steps, runs, seed, pid):
                traces += 1
                if pid == 'C27':
                    qs = [s['session'] for s in states[1:]]
                    pending.append((qs, None, pool.apply_async(run_real, (qs,))))
                else:
                    asks = [a for s in states[1:] for a in s['asks']]
                    qs = [(a['fn'], tuple(a['a'])) for a in asks]
                    pending.append((qs, [a['ans'] for a in asks], pool.apply_async(run_real, (qs,))))
            todo = []
            for qs, answers, res in pending:
                got = res.get(600)
                for i, q in enumerate(qs[:len(got)]):
                    seen.add(repr(q))
                    counts[q['kind'] if pid == 'C27' else q[0] + (' refused' if got[i] == REFUSED else '')] += 1
                    if got[i] == ENDLESS:
                        if len(violations) < 20:
                            violations.append({'kind': 'price', 'detail': f'{q}: no answer in {PATIENCE} s', 'ask': q, 'got': got[i]})
                    elif pid == 'C26':
                        if got[i] != answers[i] and len(violations) < 20:
                            violations.append({'kind': 'price', 'detail': f'{q[0]}{q[1]}: the algorithm gives {answers[i]}, the code {got[i]}',
                                               'ask': q, 'expected': answers[i], 'got': got[i]})
                    else:
                        todo.append((q, got[i]))
                    if len(samples) < 6 and i % 29 == 3:
                        samples.append({'question': q, 'answer': got[i]})
        if pid != 'C26':
            verdicts = judge(main, [f'fair({{ kind: "{q["kind"]}", s: {q["s"]}, b: {q["b"]}, w: {q["w"]}, w2: {q["w2"]}, d: {q["d"]}, e: {q["e"]} }}, {qlist(r)})'
                                    if pid == 'C27' else f'judge("{q[0]}", {qlist(q[1])}, {qlist([r])[1:-1]})' for q, r in todo])
            for (q, r), v in zip(todo, verdicts):
                counts['judged'] += 1
                if v and len(violations) < 20:
                    violations.append({'kind': 'price', 'detail': f'{"; ".join(v)}: {q} gives {r}', 'ask': q, 'got': r})
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    total = sum(v for k, v in counts.items() if k != 'judged')
    coverage = {'states': len(seen), 'transitions': total, 'traces_validated_against_impl': traces if not violations else 0,
                'questions': dict(sorted(counts.items())), 'samples': samples or ['none'], 'formula_seconds': round(time.time() - start, 1)}
    if pid == 'C27' and not violations:
        import exchange
        t = exchange.P[pid][2]
        more, foreign, c = exchange.explore(pid, t if quick else t * 4, seed, 600 if quick else 500, 1 if quick else 6)
        violations += more
        coverage['states'] += c['states']
        coverage['transitions'] += c['transitions']
        coverage['traces_validated_against_impl'] += c['traces_validated_against_impl']
        coverage['exchange'] = c
    return violations, coverage
