"""Runs simulations of the specification in several processes and yields the traces as they come."""
import json
import os
import queue
import subprocess
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SIMULATE = os.path.join(VERIF, 'bin', 'simulate.js')


class SimulatorError(Exception):
    pass


def names(prefix, n):
    return '[' + ', '.join(f'{prefix}{i}' for i in range(n)) + ']'


def draws(prefix, n):
    return ''.join(f'    nondet {prefix}{i} = 0.to(2^62).oneOf()\n' for i in range(n))


def strings(xs):
    return '[' + ', '.join(f'"{x}"' for x in xs) + ']'


def main_module(legs, spec='../../spec/dex'):
    """a main module with init_<k> and step_<k> for every leg"""
    out = ['module main {', f'  import dex.* from "{spec}"']
    for k, leg in enumerate(legs):
        out.append(f'  action init_{k} = {{\n{draws("r", 32)}    start("{leg.scenario}", {names("r", 32)})\n  }}')
        out.append(f'  action step_{k} = {{\n{draws("r", 14)}{draws("q", 14)}    transact({strings(leg.groups)}, '
                   f'{strings(leg.inner)}, {leg.reenter}, {names("r", 14)}, {names("q", 14)})\n  }}')
    out.append('}')
    return '\n'.join(out) + '\n'


class Simulation:
    """jobs: one list of jobs per process"""

    def __init__(self, main_file, jobs):
        self.q = queue.Queue()
        self.procs = []
        self.live = 0
        for js in jobs:
            if not js:
                continue
            p = subprocess.Popen(['node', '--stack-size=4000', SIMULATE, main_file], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            threading.Thread(target=self._feed, args=(p, js), daemon=True).start()
            threading.Thread(target=self._read, args=(p,), daemon=True).start()
            self.procs.append(p)
            self.live += 1

    def _feed(self, p, js):
        try:
            p.stdin.write(''.join(json.dumps(j) + '\n' for j in js))
            p.stdin.close()
        except OSError:
            pass

    def _read(self, p):
        errs = []
        t = threading.Thread(target=lambda: errs.append(p.stderr.read()), daemon=True)
        t.start()
        for line in p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                pass
        p.wait()
        t.join(5)
        self.q.put({'exit': p.returncode, 'stderr': ''.join(errs)[-2000:]})

    def __iter__(self):
        while self.live:
            m = self.q.get()
            if 'exit' in m:
                self.live -= 1
                if m['exit'] != 0 and not getattr(self, 'stopped', False):
                    raise SimulatorError(f'simulator ended with {m["exit"]}: {m["stderr"]}')
                continue
            if 'error' in m:
                raise SimulatorError(m['error'])
            yield m

    def stop(self):
        self.stopped = True
        for p in self.procs:
            if p.poll() is None:
                p.kill()
        for p in self.procs:
            p.wait()


def evaluate(main_file, expressions):
    s = Simulation(main_file, [[{'eval': expressions}]])
    out = None
    for m in s:
        if 'values' in m:
            out = m['values']
    return out
