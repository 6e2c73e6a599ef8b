"""Decides a property of the exchange: simulate the specification, repeat on the contracts."""
import collections
import hashlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import itf                                       # noqa: E402
from profiles import D, P                        # noqa: E402
from sim import Simulation, SimulatorError, main_module, VERIF   # noqa: E402

CPUS = min(8, os.cpu_count() or 1)


def digest(x):
    return hashlib.blake2b(repr(sorted(x.items(), key=str) if isinstance(x, dict) else x).encode(), digest_size=8).hexdigest()


def work(job):
    """replays one trace; runs in a pool process"""
    import replay
    import sut
    path, seed, double, wire = job
    states = itf.load(path)
    os.unlink(path)
    out = {'broken': sorted(states[-1]['broken']), 'states': [digest(s['w']) for s in states], 'acts': collections.Counter(),
           'whys': collections.Counter(), 'divs': [], 'steps': len(states) - 1, 'sample': None}
    prev = None
    for s in states[1:]:
        t = s['last']
        out['acts'][t['tx']['m'] + (' ok' if t['ok'] else ' refused')] += 1
        if t['why']:
            out['whys'][t['why']] += 1
        for h in t['hops']:
            out['acts']['hop ' + h['k']] += 1
        if prev and t['ok'] and prev['ok'] and t['tx']['d']['path'] and t['tx']['d']['path'] == prev['tx']['d']['path'][::-1]:
            out['acts']['there and back'] += 1
        prev = t
        if t['box'] and t['mode'] != 'accept':
            out['acts']['BOX ' + t['mode']] += 1
        if t['ok'] and t['tx']['m'] not in ('registerIcxToken',) and (out['sample'] is None or t['hops']):
            out['sample'] = replay.brief(t['tx'])
    stats = collections.Counter()

    def run(restarts, sd, short=0.05):
        try:
            replay.replay(states, sd, restarts, stats, short)
            return None
        except replay.Divergence as d:
            return {'kind': d.kind, 'step': d.step, 'tags': sorted(d.tags), 'detail': d.detail[:1500], 'restarts': restarts, 'seed': sd}
        except sut.Unpublished as d:
            return {'kind': 'interface', 'step': len(states) - 1, 'tags': [], 'detail': str(d), 'restarts': restarts, 'seed': sd}

    sut.WIRE = wire
    if double:
        # the same behaviour with the contracts never reloaded, and reloaded all the time, at other times
        a, b = run(0.0, seed, 0.3), run(1.0, seed + 1, 0)
        for d in (a, b):
            if d:
                out['divs'].append(d)
        if (a is None) != (b is None) or a and (a['step'], a['kind'], a['detail']) != (b['step'], b['kind'], b['detail']):
            d = dict(b or a)
            d['kind'] = 'unstable'
            d['detail'] = f'the outcome depends on whether contracts are reloaded, or on block and time: {a and a["detail"]} / {b and b["detail"]}'[:1500]
            out['divs'].append(d)
    else:
        d = run(0.06, seed)
        if d and wire and d['kind'] != 'interface':
            # is it the form of the requests that makes the difference?
            sut.WIRE = None
            e = run(0.06, seed)
            if e and (e['step'], e['kind'], e['detail']) == (d['step'], d['kind'], d['detail']):
                d['tags'].append('anyform')
        if d:
            out['divs'].append(d)
    if out['divs']:
        out['prefix'] = [{'setup': states[0]['setup']}] + [
            {k: s['last'][k] for k in ('tx', 'mode', 'inner', 'ok', 'why')} for s in states[1:max(d['step'] for d in out['divs']) + 1]]
    out['stats'] = stats
    return out


def plan(legs, traces, seed, tag, directory):
    """the jobs of every simulator process: each process takes its part of every leg"""
    jobs = [[] for _ in range(CPUS)]
    total = sum(leg.share for leg in legs)
    for k, leg in enumerate(legs):
        n = max(CPUS, round(traces * leg.share / total))
        for c in range(CPUS):
            mine = n // CPUS + (1 if c < n % CPUS else 0)
            if mine:
                h = int.from_bytes(hashlib.sha256(f'{seed}/{tag}/{k}/{c}'.encode()).digest()[:6], 'big') + 1
                jobs[c].append({'init': f'init_{k}', 'step': f'step_{k}', 'inv': 'holds', 'steps': leg.steps, 'samples': mine,
                                'seed': h, 'out': os.path.join(directory, f't{k}_{c}')})
    return jobs


def explore(pid, traces, seed, budget, rounds=1, packages='', wire=None):
    """returns (violations, foreign divergences, coverage)"""
    legs, owns, _ = P[pid]
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    directory = tempfile.mkdtemp(prefix=f'{pid}-', dir=os.path.join(VERIF, '.work'))
    mine, foreign = [], []
    acts, whys, stats = collections.Counter(), collections.Counter(), collections.Counter()
    seen, samples, good, n = set(), [], 0, 0
    start = time.time()
    stopped_early = False
    try:
        main = os.path.join(directory, 'main.qnt')
        with open(main, 'w') as f:
            f.write(main_module(legs))
        os.environ['VERIF_PACKAGES'] = packages      # read by sut.py in the processes of the pool
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(CPUS) as pool:
            for rnd in range(rounds):
                sim = Simulation(main, plan(legs, traces, seed, f'{pid}/{rnd}', directory))
                pending = []

                def collect(wait):
                    nonlocal good, n
                    while pending and (wait or pending[0].ready()):
                        r = pending.pop(0).get()
                        if r['broken']:
                            raise SimulatorError(f'the specification itself breaks {r["broken"]}')
                        n += 1
                        acts.update(r['acts'])
                        whys.update(r['whys'])
                        stats.update(r['stats'])
                        seen.update(r['states'])
                        if r['sample'] and len(samples) < 12 and r['sample'] not in samples:
                            samples.append(r['sample'])
                        if not r['divs']:
                            good += 1
                        for d in r['divs']:
                            d['trace'] = r['prefix']
                            (mine if owns(D(d['kind'], d['tags'], d['detail'])) else foreign).append(d)

                try:
                    for m in sim:
                        pending.append(pool.apply_async(work, ((m['trace'], seed * 1000003 + n + len(pending), pid == 'C30', wire),)))
                        collect(False)
                        if len(mine) >= 3 or time.time() - start > budget:
                            stopped_early = True
                            break
                finally:
                    sim.stop()
                collect(True)
                if stopped_early or mine:
                    break
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    coverage = {
        'states': len(seen), 'transitions': stats['transactions'], 'traces_validated_against_impl': good,
        'traces_generated': n, 'questions_compared': stats['questions'], 'setup_transactions': stats['setup transactions'],
        'restarts_and_upgrades': stats['restarts and upgrades'], 'cut_short': stats['cut short'],
        'actions': dict(sorted(acts.items())), 'refusal_reasons': dict(sorted(whys.items())),
        'samples': samples or ['none'],
        'differences_not_concerning_this_property': len(foreign),
        'differences_elsewhere': [f"{d['kind']} {d['detail'][:160]}" for d in foreign[:3]],
        'stopped_early': stopped_early,
    }
    return mine, foreign, coverage
