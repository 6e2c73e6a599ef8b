"""corpus.py DIR TRACES: simulates every leg of every property, keeps the traces (gzip) for mutants.py."""
import gzip
import os
import random
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'harness'))
import exchange
from profiles import P
from sim import Simulation, main_module, VERIF

out, per = sys.argv[1], int(sys.argv[2])
os.makedirs(out, exist_ok=True)
d = tempfile.mkdtemp(dir=os.path.join(VERIF, '.work'))
legs = [leg for pid in P for leg in P[pid][0]]
owner = [pid for pid in P for leg in P[pid][0]]
main = os.path.join(d, 'main.qnt')
open(main, 'w').write(main_module(legs))
jobs = [[] for _ in range(8)]
rnd = random.Random(int(os.environ.get('VERIF_SEED', 1)))
for k, leg in enumerate(legs):
    n = max(1, round(per * leg.share / sum(x.share for x in P[owner[k]][0])))
    for c in range(n):
        jobs[(k + c) % 8].append({'init': f'init_{k}', 'step': f'step_{k}', 'inv': 'holds', 'steps': leg.steps, 'samples': 1,
                                  'seed': rnd.getrandbits(40), 'out': os.path.join(d, f't{k}_{c}')})
n = 0
for m in Simulation(main, jobs):
    p = m['trace']
    with open(p, 'rb') as f, gzip.open(os.path.join(out, os.path.basename(p) + '.gz'), 'wb', 3) as g:
        g.write(f.read())
    os.unlink(p)
    n += 1
print(n, 'traces')
