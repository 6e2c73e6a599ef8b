"""C35: the generators of the formula. spec/tables.qnt chooses precisions and questions and derives what
the scripts have to print and the library has to answer; the real scripts are run with those choices."""
import collections
import contextlib
import io
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import textwrap
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import itf                                       # noqa: E402
from prices import judge, seeded                 # noqa: E402
from sim import Simulation, SimulatorError, VERIF, draws, names   # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
CPUS = min(8, os.cpu_count() or 1)
SCRIPTS = {'scaling': 'print_int_scaling_factors', 'ln2': 'print_ln2_scaling_factors', 'constructor': 'print_function_constructor',
           'file': 'print_file_formula_constants', 'series': 'print_function_general_exp', 'log': 'print_function_optimal_log',
           'exp': 'print_function_optimal_exp', 'growth': 'print_max_exp_per_precision'}
NAMES = {'minPrec': 'MIN_PRECISION', 'maxPrec': 'MAX_PRECISION', 'coefs': 'NUM_OF_COEFFICIENTS', 'logHi': 'LOG_MAX_HI_TERM_VAL',
         'logTerms': 'LOG_NUM_OF_HI_TERMS', 'expHi': 'EXP_MAX_HI_TERM_VAL', 'expTerms': 'EXP_NUM_OF_HI_TERMS'}
BASE = 'contracts.formula.auto_generate.'


# ---- in a process of its own: the code under test runs here ---------------------------------------------

def run_script(name):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        runpy.run_path(os.path.join(REPO, 'contracts', 'formula', 'auto_generate', name + '.py'), run_name='__main__')
    return out.getvalue()


def class_body(text):
    """the attributes of a class whose body is the text"""
    scope = {}
    exec('class C:\n' + textwrap.indent(textwrap.dedent(text), '    ') + '\n    pass', scope)
    return scope['C']


def function_body(text, args, one):
    scope = {}
    exec(f'def f(self, {args}):\n' + textwrap.indent(textwrap.dedent(text), '    ') + '\n', scope)

    class Self:
        _FIXED_1 = one
        _ONE = 1
    return lambda *a: scope['f'](Self(), *a)




LIBRARY = {'sub': ('safe_sub', 2), 'add': ('safe_add', 2), 'mul': ('safe_mul', 2), 'shl': ('safe_shl', 2), 'search': ('binary_search', 2),
           'coefficients': ('get_coefficients', 1), 'series': ('general_exp', 3), 'maxexps': ('get_max_exp_array', 2),
           'maxvals': ('get_max_val_array', 2), 'log': ('optimal_log', 4), 'exp': ('optimal_exp', 4)}


def library(q):
    """what a function shared by the scripts answers; None if there is no such function any more (what the
    scripts print is compared in any case)"""
    import importlib
    import inspect
    w, x, p, l, m = (q[k] for k in ('what', 'x', 'p', 'l', 'm'))
    name, count = LIBRARY[w]
    try:
        f = getattr(importlib.import_module(BASE + 'common.functions'), name)
        inspect.signature(f).bind(*range(count))
    except (ImportError, AttributeError, TypeError):
        return None

    def over(v, t):
        if v > t:
            raise ValueError
    rows = collections.namedtuple
    try:
        if w in ('sub', 'add', 'mul', 'shl'):
            return [f(x, p)]
        if w == 'search':
            return [f(over, [x])]
        if w == 'coefficients':
            return list(f(x))
        if w == 'series':
            return [f(x, l, p)]
        if w == 'maxexps':
            return list(f(l, x))
        if w == 'maxvals':
            return list(f(l, m))
        if w == 'log':
            T, U = rows('T', 'val,exp'), rows('U', 'num,den')
            return [f(x, [T(*l[i:i + 2]) for i in range(0, len(l), 2)], [U(*m[i:i + 2]) for i in range(0, len(m), 2)], p)]
        T, U = rows('T', 'bit,num,den'), rows('U', 'val,ind')
        return [f(x, [T(*l[i:i + 3]) for i in range(0, len(l), 3)], [U(v, i + 1) for i, v in enumerate(m)], p)]
    except Exception:
        return []


def serve(request):
    """answers all questions of one behaviour; returns (question, what the code says) pairs"""
    import importlib
    conf, questions, growth = request['conf'], request['questions'], request['growth']
    consts = importlib.import_module(BASE + 'common.constants')
    differ = []
    for k, name in NAMES.items():
        if request['shipped'] and getattr(consts, name) != conf[k]:
            differ.append(f'{name} is {getattr(consts, name)}, not {conf[k]}')
        setattr(consts, name, conf[k])
    one = 2 ** conf['maxPrec']
    texts = {}

    def text(s):
        if s not in texts:
            try:
                texts[s] = run_script(SCRIPTS[s])
            except Exception as e:
                texts[s] = e
        return texts[s]

    def of(s, f):
        t = text(s)
        if isinstance(t, Exception):
            return []
        try:
            return f(t)
        except Exception as e:
            return [f'unusable: {type(e).__name__} {e}'[:120]]
    out = []
    for q in questions:
        w = q['what']
        if w == 'scaling':
            out.append(of(w, lambda t: [getattr(class_body(t), k) for k in ('_FIXED_1', '_FIXED_2', '_MAX_NUM')]))
        elif w == 'ln2':
            out.append(of(w, lambda t: [getattr(class_body(t), k) for k in ('_LN2_NUMERATOR', '_LN2_DENOMINATOR')]))
        elif w == 'constructor':
            def read(t):
                body = list(class_body(t)._max_exp_array)
                quoted = {int(a): int(b, 16) for a, b in re.findall(r'#\s*_max_exp_array\[(\d+)\] = (0x[0-9a-f]+)', t)}
                bad = [i for i, v in enumerate(body) if (v is None) == (conf['minPrec'] <= i <= conf['maxPrec'])]
                return ([f'entry {bad[0]} is {body[bad[0]]}'] if bad else []) + [v if v is not None else quoted.get(i) for i, v in enumerate(body)]
            out.append(of(w, read))
        elif w == 'file':
            def read(t):
                s = {}
                exec(textwrap.dedent(t), s)
                return [s['MIN_PRECISION'], s['MAX_PRECISION']] + s['max_exp_array'] + s['max_val_array']
            out.append(of(w, read))
        elif w in ('logfine', 'expfine'):
            out.append([] if isinstance(text(w[:3]), Exception) else [1])
        elif w == 'runlog':
            out.append(of('log', lambda t: [function_body(t, 'x', one)(q['x'])]))
        elif w == 'runexp':
            out.append(of('exp', lambda t: [function_body(t, 'x', one)(q['x'])]))
        elif w == 'runseries':
            out.append(of('series', lambda t: [function_body(t, 'x, precision', one)(q['x'], q['p'])]))
        else:
            out.append(library(q))
    table = None
    if growth:
        def read(t):
            s = {}
            exec(re.search(r'^max_exp_array = \[.*?^\]', t, re.S | re.M).group(0), s)
            rows = [(int(a), int(b, 16), float(c)) for a, b, c in re.findall(r'Precision =\s*(\d+) \| Max Exp = (\S+)\s*\| Ratio =\s*(\S+)', t)]
            factor, shift = re.search(r'growth-factor of (0x[0-9a-f]+) >> (\d+)', t).groups()
            grown = [(int(a), int(b, 16), int(c, 16), int(d)) for a, b, c, d in re.findall(
                r'Precision =\s*(\d+) \| Theoretical Max Exp = (\S+)\s*\| Practical Max Exp = (\S+)\s*\| Difference = (-?\d+)', t)]
            return [{'array': s['max_exp_array'], 'rows': rows, 'factor': int(factor, 16), 'shift': int(shift), 'grown': grown}]
        table = of('growth', read)
    return {'answers': out, 'table': table, 'differ': differ}


def main_child():
    sys.path.insert(0, REPO)
    real = os.dup(1)
    os.dup2(2, 1)
    try:
        sys.set_int_max_str_digits(0)
    except AttributeError:
        pass
    r = serve(json.load(sys.stdin))
    with os.fdopen(real, 'w') as f:
        json.dump(r, f)


# ---- the check -----------------------------------------------------------------------------------------

def main_module():
    return ('module main {\n  import tables.* from "../../spec/tables"\n'
            f'  action first = {{\n{draws("r", 8)}    begin(true, {names("r", 8)})\n  }}\n'
            f'  action other = {{\n{draws("r", 8)}    begin(false, {names("r", 8)})\n  }}\n'
            f'  action go = {{\n{draws("r", 12)}    step({names("r", 12)})\n  }}\n}}\n')


def child(request):
    return subprocess.Popen(['/opt/venv/bin/python', os.path.abspath(__file__), 'child'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), cwd='/')


def conf_text(c):
    return '{ ' + ', '.join(f'{k}: {v}' for k, v in c.items()) + ' }'


def growth_faults(conf, t, exps):
    """what the printed table says besides the growth factor"""
    out = []
    if t['array'] != exps:
        out.append('the printed list of largest exponents is wrong')
    if [tuple(r[:2]) for r in t["rows"]] != list(enumerate(exps)):
        out.append('the printed table of largest exponents is wrong')
    if any(abs(r[2] - (exps[i] / exps[i - 1] if i else 0)) > 2e-7 for i, r in enumerate(t['rows'])):
        out.append('a printed ratio is wrong')
    if t['shift'] != conf['maxPrec']:
        out.append('the scale of the growth factor is wrong')
    if [(r[0], r[1]) for r in t['grown']] != [(p, exps[p]) for p in range(conf['minPrec'], conf['maxPrec'] + 1)]:
        out.append('a theoretical exponent is wrong')
    if any(r[3] != r[1] - r[2] for r in t['grown']):
        out.append('a printed difference is wrong')
    return out


def check(pid, quick, seed):
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    directory = tempfile.mkdtemp(prefix=f'{pid}-', dir=os.path.join(VERIF, '.work'))
    start = time.time()
    violations, samples = [], []
    counts = collections.Counter()
    confs, seen = set(), set()
    traces = transitions = 0
    try:
        main = os.path.join(directory, 'main.qnt')
        with open(main, 'w') as fh:
            fh.write(main_module())
        samples_each, steps = (2, 60) if quick else (12, 150)
        jobs = [[{'init': 'first' if c == 0 and k == 0 else 'other', 'step': 'go', 'steps': steps, 'samples': 1, 'seed': seeded(seed, pid, c, k),
                  'out': os.path.join(directory, f't{c}_{k}')} for k in range(samples_each)] for c in range(CPUS)]
        s = Simulation(main, jobs)
        running = []
        try:
            for m in s:
                states = itf.load(m['trace'])
                os.unlink(m['trace'])
                conf = states[0]['conf']
                shipped = m['trace'].endswith('t0_0_0.json')
                qs = [q for st in states[1:] for q in st['q']]
                growth = shipped or conf['maxPrec'] <= 47
                p = child(None)
                p.stdin.write(json.dumps({'conf': conf, 'questions': qs, 'growth': growth, 'shipped': shipped}))
                p.stdin.close()
                running.append((conf, qs, growth, p))
        finally:
            s.stop()
        judged = []
        for conf, qs, growth, p in running:
            out, err = p.stdout.read(), p.stderr.read()
            p.wait()
            if p.returncode != 0:
                raise RuntimeError('the run of the scripts ended with ' + err[-1500:])
            got = json.loads(out)
            traces += 1
            confs.add(tuple(conf.values()))
            for d in got['differ']:
                violations.append({'kind': 'choice', 'detail': f'the shipped choice has changed: {d}'})
            for q, a in zip(qs, got['answers']):
                if a is None:
                    counts[q['what'] + ' gone'] += 1
                    continue
                transitions += 1
                counts[q['what'] + ('' if q['ans'] else ' refused')] += 1
                seen.add(repr(q))
                if a != q['ans'] and len(violations) < 20:
                    violations.append({'kind': 'table', 'detail': f'{q["what"]} with {conf}: {difference(q, a)}', 'question': q, 'got': a})
                if transitions % 211 == 3 and len(samples) < 6:
                    samples.append({'conf': conf, 'question': q['what'], 'answer': a[:2]})
            if growth:
                if not got['table'] or isinstance(got['table'][0], str):
                    violations.append({'kind': 'table', 'detail': f'the table of exponents with {conf}: {got["table"]}'})
                    continue
                t = got['table'][0]
                exps = next(q['ans'] for q in qs if q['what'] == 'file')[2:conf['maxPrec'] + 3]
                counts['growth tables'] += 1
                for f in growth_faults(conf, t, exps):
                    violations.append({'kind': 'table', 'detail': f'with {conf}: {f}'})
                if len(t['grown']) == conf['maxPrec'] - conf['minPrec'] + 1:
                    judged.append((conf, f'judgeGrowth({conf_text(conf)}, {t["factor"]}, [{", ".join(str(r[2]) for r in t["grown"])}])'))
        verdicts = judge(main, ['CONSISTENT'] + [e for _, e in judged])
        if verdicts[0] is not True:
            raise SimulatorError('the specification of the tables contradicts the specification of the formula')
        for (conf, _), v in zip(judged, verdicts[1:]):
            for f in v:
                violations.append({'kind': 'table', 'detail': f'with {conf}: {f}'})
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    coverage = {'states': len(seen), 'transitions': transitions, 'traces_validated_against_impl': traces if not violations else 0,
                'choices': len(confs), 'questions': dict(sorted(counts.items())), 'samples': samples or ['none'],
                'seconds': round(time.time() - start, 1)}
    return violations, coverage


def difference(q, a):
    if len(a) != len(q['ans']):
        return f'{len(q["ans"])} numbers expected, got {str(a)[:120] if len(a) < 3 else len(a)}' + (f' (x={q["x"]}, p={q["p"]})' if q['x'] else '')
    i = next(i for i, (x, y) in enumerate(zip(a, q['ans'])) if x != y)
    return f'number {i} should be {q["ans"][i]}, is {a[i]}' + (f' (x={q["x"]}, p={q["p"]})' if q['x'] else '')


if __name__ == '__main__' and sys.argv[1:] == ['child']:
    main_child()
