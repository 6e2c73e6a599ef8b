"""C32, C33: the package builder. spec/pkg.qnt chooses histories of builds, edits and cleans; the
real build.py and contract_generator repeat them on a scratch copy, as an unprivileged user."""
import ast
import collections
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import itf                                       # noqa: E402
from prices import seeded                        # noqa: E402
from sim import Simulation, SimulatorError, VERIF, draws, names   # noqa: E402
from prices import judge                         # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
CPUS = min(8, os.cpu_count() or 1)
NOBODY = 65534
PYTHON = sys.executable


def q(x):
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, (int,)):
        return str(x)
    if isinstance(x, str):
        return '"' + x.replace('\\', '').replace('"', '') + '"'
    if isinstance(x, (list, tuple)):
        return '[' + ', '.join(q(y) for y in x) + ']'
    if isinstance(x, (set, frozenset)):
        return 'Set(' + ', '.join(q(y) for y in sorted(x)) + ')'
    raise TypeError(x)


def demote():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def as_nobody(args, cwd, text=None, timeout=300):
    env = {'PATH': '/usr/bin:/bin', 'HOME': cwd, 'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8'}
    return subprocess.run(args, cwd=cwd, env=env, input=text, text=True, capture_output=True, timeout=timeout,
                          preexec_fn=demote if os.getuid() == 0 else None)


def scratch():
    d = tempfile.mkdtemp(prefix='pkg-', dir='/tmp')
    os.chmod(d, 0o755)
    return d


def give(d):
    if os.getuid() == 0:
        for root, dirs, files in os.walk(d):
            os.chown(root, NOBODY, NOBODY)
            for f in files:
                os.chown(os.path.join(root, f), NOBODY, NOBODY)


def copy_code(dst):
    """what the builder consists of, without the contracts"""
    shutil.copytree(os.path.join(REPO, 'contract_generator'), os.path.join(dst, 'contract_generator'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copy(os.path.join(REPO, 'build.py'), dst)


def tree(top):
    out = []
    for root, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            out.append(os.path.relpath(os.path.join(root, f), top))
    return out


def config(work):
    """the configuration, read in a process of its own"""
    r = as_nobody([PYTHON, '-c', 'import json; from contract_generator.config import config; print(json.dumps(config))'], work)
    if r.returncode:
        return None, r.stderr[-500:]
    return json.loads(r.stdout), ''


def facts(cfg):
    """Quint arguments describing the real tree"""
    files = tree(os.path.join(REPO, 'contracts'))
    sources = {tuple(f.split('/')) for f in files} | {('NOTICE',)}
    owns, cfgs, missing = [], [], []
    for c, deps in sorted(cfg.items()):
        own = [f.split('/')[1:] for f in files if f.startswith(c + '/')]
        owns.append(f'"{c}" -> Set(' + ', '.join(f'{{ dirs: {q(o[:-1])}, name: {q(o[-1])} }}' for o in own) + ')')
        notice = bool(deps) and deps[-1] == 'NOTICE'
        d = [x.split('/') for x in (deps[:-1] if notice else deps)]
        missing += [(c, '/'.join(x)) for x in d if tuple(x) not in sources]
        cfgs.append(f'"{c}" -> {{ deps: {q(d)}, notice: {q(notice)} }}')
    src = 'Set(' + ', '.join(q(list(s)) for s in sorted(sources)) + ')'
    return f'Map({", ".join(cfgs)})', f'Map({", ".join(owns)})', src, sources, missing


# what the versions of a source look like: bytes of every kind, written as latin-1
BODY = r'''
def text(path, ver):
    if ver == -1:
        return ""
    k, plain = ver % 7, "/".join(path) + "\n" + str(ver) + "\n"
    if k == 1:
        return plain.replace("\n", "\r\n")
    if k == 2:
        return plain[:-1]
    if k == 3:
        return "\xef\xbb\xbf" + plain + "\r \x0c\x1a\t\n\n"
    if k == 4:
        return plain + "".join(map(chr, range(256)))
    if k == 5:
        return plain + "# \xe2\x82\xac {} %s $x \\n\n" + "x" * 300 + "\n" * 9
    return plain
'''
exec(BODY)

DRIVER = r'''
import io, json, os, sys, contextlib
sys.path.insert(0, os.getcwd())
TOP = os.getcwd()

BODY
def put(where, path, ver):
    os.makedirs(os.path.dirname(where), exist_ok=True)
    with open(where, "wb") as f:
        f.write(text(path, ver).encode("latin-1"))
def look(top):
    out = {}
    for root, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(root, f)
            try:
                out[os.path.relpath(p, top)] = open(p, "rb").read().decode("latin-1")
            except Exception as e:
                out[os.path.relpath(p, top)] = "unreadable " + type(e).__name__
    return out
def src(path):
    return os.path.join(TOP, "NOTICE") if list(path) == ["NOTICE"] else os.path.join(TOP, "contracts", *path)
def builder(argv):
    import build
    sys.argv = ["build.py"] + argv
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        build.main()

archive = None
for line in sys.stdin:
    o = json.loads(line)
    said = ""
    zipped = None
    try:
        k = o["k"]
        if k == "setup":
            for p in o["sources"]:
                put(src(p), p, 0)
        elif k == "build":
            if o["cli"]:
                import subprocess
                r = subprocess.run([sys.executable, "build.py"] + o["names"], cwd=TOP, capture_output=True, text=True)
                if r.returncode:
                    said = r.stderr[-300:]
            else:
                builder(o["names"])
        elif k in ("edit", "add"):
            put(src(o["path"]), o["path"], o["ver"])
        elif k == "blank":
            open(src(o["path"]), "w").close()
        elif k == "remove":
            os.unlink(src(o["path"]))
        elif k == "stray":
            put(os.path.join(TOP, "build", o["names"][0], *o["path"]), ["stray"], o["ver"])
        elif k == "drop":
            os.unlink(os.path.join(TOP, "build", o["names"][0], *o["path"]))
        elif k == "junk":
            put(os.path.join(TOP, "build", o["names"][0]), ["junk"], 0)
        elif k == "zip":
            from contract_generator.builder import Builder
            from contract_generator.writer import ZipWriter
            import zipfile
            z = ZipWriter(["ZIP_STORED", "ZIP_DEFLATED", "ZIP_BZIP2", "ZIP_LZMA"][o["n"] % 4])
            Builder("contracts" if o["n"] >= 4 else os.path.join(TOP, "contracts"), o["names"]).build(z)
            archive = z
            with zipfile.ZipFile(io.BytesIO(z.to_bytes())) as f:
                zipped = sorted((i.filename, f.read(i).decode("latin-1")) for i in f.infolist())
            if sorted(i.filename for i in z.list_content()) != [n for n, _ in zipped]:
                said = "the listed content differs from the archive"
        elif k == "unzip":
            archive.store_to_file(os.path.join(TOP, "unzipped"))
    except KeyError as e:
        said = "KeyError" if k == "zip" else "KeyError " + str(e)
    except SystemExit as e:
        said = "exit " + str(e.code)
    except BaseException as e:
        said = type(e).__name__ + ": " + str(e)[:300]
    b = os.path.join(TOP, "build")
    print(json.dumps({"said": said, "exists": os.path.isdir(b), "out": look(b), "zip": zipped, "unzipped": look(os.path.join(TOP, "unzipped")),
                      "sources": look(os.path.join(TOP, "contracts"))}))
    sys.stdout.flush()
'''


def body(copy):
    return text(copy['src'], copy['ver'])        # noqa: F821


def replay(states, sources):
    """repeats one history; returns None or what differs"""
    d = scratch()
    try:
        copy_code(d)
        os.makedirs(os.path.join(d, 'contracts'))
        with open(os.path.join(d, 'driver.py'), 'w') as f:
            f.write(DRIVER.replace('BODY\n', BODY, 1))
        give(d)
        lines = [{'k': 'setup', 'sources': [list(s) for s in sorted(sources)]}]
        for i, s in enumerate(states[1:]):
            o = dict(s['op'])
            o['names'], o['path'] = list(o['names']), list(o['path'])
            o['ver'] = states[i]['w']['count']
            o['cli'] = i < 2
            lines.append(o)
        r = as_nobody([PYTHON, 'driver.py'], d, ''.join(json.dumps(x) + '\n' for x in lines))
        got = [json.loads(x) for x in r.stdout.splitlines()]
        history = []
        for i, s in enumerate(states[1:]):
            o = lines[i + 1]
            history.append({k: v for k, v in o.items() if v})
            if i + 1 >= len(got):
                return f'step {i + 1} {history[-1]}: the builder died: {r.stderr[-300:]}', history
            g, w = got[i + 1], s['w']
            want = {'/'.join((c,) + p): body(x) for c, m in w['out'].items() for p, x in m.items()}
            want.update({j: 'junk\n0\n' for j in w['junk']})
            bad = None
            if g['said'] and (s['ok'] or not (g['said'].startswith('KeyError') and o['k'] == 'zip')):
                bad = f'fails: {g["said"]}'
            elif not g['said'] and o['k'] == 'zip' and not s['ok']:
                bad = 'an archive of an unknown contract was made'
            elif g['exists'] != w['exists']:
                bad = f'the output directory {"exists" if g["exists"] else "is missing"}'
            elif g['out'] != want:
                diff = sorted(k for k in set(g['out']) | set(want) if g['out'].get(k) != want.get(k))
                bad = '; '.join(f'{k}: real {g["out"].get(k)!r}, specified {want.get(k)!r}' for k in diff[:4])
            elif o['k'] == 'zip' and s['ok']:
                z = sorted(('/'.join(p), body(x)) for p, x in w['zip'].items())
                if [tuple(x) for x in g['zip']] != z:
                    a, b = dict(map(tuple, g['zip'])), dict(z)
                    diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k)) or ['an entry twice']
                    bad = 'archive: ' + '; '.join(f'{k}: real {a.get(k)!r}, specified {b.get(k)!r}' for k in diff[:4])
            elif o['k'] == 'unzip' and g['unzipped'] != {'/'.join(p): body(x) for p, x in w['unzipped'].items()}:
                bad = 'unpacked archive differs from the packages'
            if not bad and g['sources'] != {'/'.join(p): body({'src': p, 'ver': v}) for p, v in w['ver'].items() if p != ('NOTICE',)}:
                bad = 'the sources were changed'
            if bad:
                return f'step {i + 1} {history[-1]}: {bad}', history
        return None, history
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- C33 -----------------------------------------------------------------------------------------
def module_of(parts):
    """path of a .py file -> module name"""
    parts = list(parts)
    parts[-1] = parts[-1][:-3]
    return tuple(parts[:-1] if parts[-1] == '__init__' else parts)


def needs(source, module, is_init, everything):
    """modules needed by the import statements of a file"""
    out = set()
    package = module if is_init else module[:-1]

    def want(m):
        for n in range(1, len(m) + 1):
            out.add(tuple(m[:n]))

    for node in ast.walk(ast.parse(source)):
        if isinstance(node, ast.Import):
            for a in node.names:
                m = tuple(a.name.split('.'))
                if m[0] == 'contracts':
                    want(m)
        elif isinstance(node, ast.ImportFrom):
            m = tuple(node.module.split('.')) if node.module else ()
            if node.level == 0:
                if m and m[0] == 'contracts':
                    want(m)
                continue
            up = node.level - 1
            if up > len(package):
                out.add(('outside the package',))
                continue
            base = package[:len(package) - up] + m
            want(base)
            for a in node.names:
                if base + (a.name,) in everything:
                    want(base + (a.name,))
    out.discard(())
    return out


ISOLATED = r'''
import importlib, json, sys
sys.path.insert(0, sys.argv[1])
r = {"imported": False, "entry": False, "said": ""}
try:
    m = importlib.import_module(sys.argv[2])
    r["imported"] = True
    import iconservice
    c = getattr(m, sys.argv[3], None)
    r["entry"] = isinstance(c, type) and issubclass(c, iconservice.IconScoreBase)
    for n in list(sys.modules):
        f = getattr(sys.modules[n], "__file__", None) or ""
        if "/contracts/" in f:
            r["imported"] = False
            r["said"] = "takes " + f
except BaseException as e:
    r["said"] = type(e).__name__ + ": " + str(e)[:200]
print(json.dumps(r))
'''


def found(root, name, everything):
    """the facts about a built package"""
    top = os.path.join(root, name)
    f = {'name': name, 'modules': {()}, 'needs': {}, 'main': ('missing',), 'imported': False, 'entry': False, 'said': ''}
    for rel in tree(top):
        if rel.endswith('.py'):
            parts = tuple(rel.split('/'))
            m = module_of(parts)
            f['modules'].add(m)
            try:
                f['needs'][m] = f['needs'].get(m, set()) | needs(open(os.path.join(top, rel)).read(), m, rel.endswith('__init__.py'), everything)
            except SyntaxError:
                f['said'] = f'{rel} is no Python'
    # a directory with modules in it is a package even without __init__.py
    for m in list(f['modules']):
        for n in range(len(m)):
            f['modules'].add(m[:n])
    try:
        meta = json.load(open(os.path.join(top, 'package.json')))
        main, score = str(meta.get('main_file') or meta.get('main_module')), str(meta['main_score'])
        f['main'] = tuple(main.split('.'))
        r = as_nobody([PYTHON, '-c', ISOLATED, root, f'{name}.{main}', score], root)
        got = json.loads(r.stdout.splitlines()[-1])
        f['imported'], f['entry'] = got['imported'], got['entry']
        f['said'] = f['said'] or got['said']
    except (OSError, ValueError, KeyError, IndexError) as e:
        f['said'] = f['said'] or f'{type(e).__name__}: {e}'
    return f


def quint_found(f):
    mods = 'Set(' + ', '.join(q(list(m)) for m in sorted(f['modules'])) + ')'
    need = 'Map(' + ', '.join(f'{q(list(m))} -> Set({", ".join(q(list(x)) for x in sorted(v))})' for m, v in sorted(f['needs'].items())) + ')'
    return (f'unfit({{ name: {q(f["name"])}, modules: {mods}, needs: {need}, main: {q(list(f["main"]))}, '
            f'imported: {q(f["imported"])}, entry: {q(f["entry"])} }})')


def build_real(d, args):
    """the real tree in d, built by its build.py"""
    copy_code(d)
    shutil.copytree(os.path.join(REPO, 'contracts'), os.path.join(d, 'contracts'), ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copy(os.path.join(REPO, 'NOTICE'), d)
    give(d)
    r = as_nobody([PYTHON, 'build.py'] + args, d)
    return r


def histories(directory, main, quick, seed, runs, steps):
    jobs = [[{'init': 'begin', 'step': 'go', 'inv': 'holds', 'steps': steps, 'samples': runs, 'seed': seeded(seed, 'pkg', c),
              'out': os.path.join(directory, f't{c}')}] for c in range(CPUS)]
    s = Simulation(main, jobs)
    try:
        for m in s:
            states = itf.load(m['trace'])
            os.unlink(m['trace'])
            if states[-1]['broken']:
                raise SimulatorError('the specification itself breaks C32')
            yield states
    finally:
        s.stop()


def check(pid, quick, seed):
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    directory = tempfile.mkdtemp(prefix=f'{pid}-', dir=os.path.join(VERIF, '.work'))
    violations, samples = [], []
    counts = collections.Counter()
    states_seen = set()
    good = transitions = 0
    d = scratch()
    try:
        copy_code(d)
        give(d)
        cfg, error = config(d)
        if cfg is None:
            return [{'kind': 'build', 'detail': f'the configuration cannot be read: {error}'}], {
                'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': ['none']}
        c, o, s, sources, missing = facts(cfg)
        if missing:
            return [{'kind': 'build', 'detail': f'configured files do not exist: {missing[:5]}'}], {
                'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [str(missing[:5])]}
        main = os.path.join(directory, 'main.qnt')
        with open(main, 'w') as f:
            f.write('module main {\n  import pkg.* from "../../spec/pkg"\n'
                    f'  pure val CFG: Config = {c}\n  pure val OWN: str -> Set[Own] = {o}\n  pure val SRC: Set[Path] = {s}\n'
                    '  action begin = start(CFG, OWN, SRC)\n'
                    f'  action go = {{\n{draws("r", 6)}    step({names("r", 6)})\n  }}\n}}\n')
        if pid == 'C32':
            with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
                pending = [pool.submit(replay, st, sources) or None for st in
                           _keep(histories(directory, main, quick, seed, 14 if quick else 150, 24), states_seen, counts)]
                for p in pending:
                    bad, history = p.result()
                    transitions += len(history)
                    if bad:
                        violations.append({'kind': 'build', 'detail': bad, 'history': history})
                    else:
                        good += 1
                    if len(samples) < 6:
                        samples.append(history[:6])
        else:
            everything = {()} | {module_of(x) for x in sources if x[-1].endswith('.py')}
            for x in list(everything):
                for n in range(len(x)):
                    everything.add(x[:n])
            fs = []
            ways = [[]] + [[n] for n in sorted(cfg)] + [sorted(cfg)[::-1]]
            for way in ways if not quick else ways:
                b = scratch()
                try:
                    r = build_real(b, way)
                    if r.returncode:
                        violations.append({'kind': 'build', 'detail': f'build.py {way} fails: {r.stderr[-300:]}'})
                        continue
                    for n in way or sorted(cfg):
                        fs.append((way, found(os.path.join(b, 'build'), n, everything)))
                        transitions += 1
                        states_seen.add(json.dumps(sorted(map(str, fs[-1][1]['modules']))) + n)
                        counts[f'{n}: {len(fs[-1][1]["modules"])} modules'] += 1
                finally:
                    shutil.rmtree(b, ignore_errors=True)
            for (way, f), v in zip(fs, judge(main, [quint_found(f) for _, f in fs])):
                if v:
                    gone = sorted('.'.join(x) for ns in f['needs'].values() for x in ns if x not in f['modules'])
                    violations.append({'kind': 'package', 'detail': f'{f["name"]}: {"; ".join(v)} {gone[:4]} {f["said"]}'})
                else:
                    good += 1
                if len(samples) < 6:
                    samples.append({'package': f['name'], 'modules': sorted('.'.join(m) for m in f['modules'] if m)})
            if not violations:
                import exchange
                b = scratch()
                try:
                    r = build_real(b, [])
                    if os.getuid() == 0:
                        os.chmod(b, 0o755)
                    more, foreign, cov = exchange.explore('C33', 40 if quick else 600, seed, 600, 1, packages=os.path.join(b, 'build'))
                finally:
                    shutil.rmtree(b, ignore_errors=True)
                violations += more
                good += cov['traces_validated_against_impl']
                transitions += cov['transitions']
                counts['behaviours on packaged contracts'] = cov['traces_generated']
    finally:
        shutil.rmtree(directory, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
    return violations, {'states': len(states_seen), 'transitions': transitions, 'traces_validated_against_impl': good,
                        'cases': dict(sorted(counts.items())), 'samples': samples or ['none']}


def _keep(it, seen, counts):
    for states in it:
        for s in states:
            seen.add(repr((sorted(s['w']['out'].items(), key=str), s['w']['exists'], sorted(s['w']['junk']), sorted(s['w']['ver'].items()))))
        for s in states[1:]:
            counts[s['op']['k'] + (' clean' if s['op']['names'][:1] == ('clean',) or s['op']['names'][:1] == ['clean'] else '') + ('' if s['ok'] else ' refused')] += 1
        yield states
