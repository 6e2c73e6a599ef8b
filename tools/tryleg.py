"""tryleg.py SCENARIO 'groups' [traces] [steps] [reenter]: run one leg and show what happened."""
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'harness'))
import exchange
from profiles import Leg, P
a = sys.argv[1:]
P['X'] = ([Leg(a[0], a[1], 1, int(a[3]) if len(a) > 3 else 40, int(a[4]) if len(a) > 4 else 15)], lambda d: True, 0)
t = time.time()
m, f, c = exchange.explore('X', int(a[2]) if len(a) > 2 else 48, int(os.environ.get('VERIF_SEED', 1)), 600)
for k, v in c.items():
    print(k, v)
for d in m[:4]:
    print(d['kind'], d['step'], d['detail'][:600])
print(round(time.time() - t, 1), 's')
