#!/opt/venv/bin/python
"""check.py <property>: decides one property. Tier from VERIF_TIER, seed from VERIF_SEED."""
import json
import os
import re
import sys
import time

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))

TRUST = ['the mini node of harness/chain.py executes contracts as an ICON node does (it runs the real iconservice machinery on an in-memory store)',
         'the simulator of Quint 0.32 evaluates the specification correctly']


def known(pid):
    """patterns of the accepted findings of a property: lines `finding: property=<id> match=<regular expression>`"""
    out = []
    try:
        for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
            m = re.match(r'finding: property=(\S+) match=(.*)$', line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    quick = tier == 'quick'
    assumptions = list(TRUST)
    level = 'model_checking'
    if pid in ('C25', 'C26', 'C27'):
        import prices
        violations, coverage = prices.check(pid, quick, seed)
    elif pid in ('C32', 'C33'):
        import packages
        violations, coverage = packages.check(pid, quick, seed)
        assumptions = TRUST[1:]
    elif pid == 'C35':
        import tables
        violations, coverage = tables.check(pid, quick, seed)
        assumptions = TRUST[1:]
    elif pid == 'C36':
        import exchange
        import interface
        traces = exchange.P[pid][2]
        violations, coverage = interface.check(pid, traces if quick else traces * 4, seed, 600 if quick else 780, 1 if quick else 6)
    elif pid == 'C34':
        import attributes
        violations, coverage = attributes.check(pid, quick, seed)
    else:
        import exchange
        traces = exchange.P[pid][2]
        violations, proved = [], {}
        if not quick:
            import proofs
            violations, proved = proofs.prove_all(pid, 420)
        found, _foreign, coverage = exchange.explore(pid, traces if quick else traces * 4, seed,
                                                     600 if quick else 780, 1 if quick else 6)
        violations += found
        coverage.update(proved)
    patterns = known(pid)
    fresh = []
    said = set()
    for v in violations:
        hit = next((p for p in patterns if re.search(p, v['detail'])), None)
        if hit is None:
            fresh.append(v)
        elif hit not in said:
            said.add(hit)
            print(f'KNOWN-FINDING: property={pid} {v["detail"][:300]}')
    out = os.environ.get('VERIF_OUT', VERIF)
    os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
    with open(os.path.join(out, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
                   'assumptions': assumptions, 'wall_s': round(time.time() - start, 2), 'violations': len(fresh)}, f, indent=1, default=str)
    if fresh:
        d = os.path.join(out, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(fresh[:3], f, indent=1, default=str)
        print(f'{pid}: {fresh[0]["kind"]}: {fresh[0]["detail"]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    c = coverage
    print(f'{pid}: held on {c.get("traces_validated_against_impl")} behaviours, {c.get("transitions")} transitions, '
          f'{c.get("states")} states; {round(time.time() - start, 1)} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
