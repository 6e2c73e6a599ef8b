"""C36: the published interface (spec/interface.qnt): what the contracts declare is compared with it, and
behaviours of the exchange are repeated with all requests in the form wallets send."""
import multiprocessing
import os
import tempfile

import exchange
import itf
from sim import SimulatorError, VERIF, evaluate


def published():
    """the interface as the specification has it"""
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    with tempfile.TemporaryDirectory(dir=os.path.join(VERIF, '.work')) as d:
        main = os.path.join(d, 'main.qnt')
        with open(main, 'w') as f:
            f.write('module main {\n  import interface.* from "../../spec/interface"\n'
                    '  var x: int\n  action init = x\' = 0\n  action step = x\' = x\n}\n')
        sensible, kinds, defects, other = evaluate(main, ['SENSIBLE', 'KINDS', 'DEFECTS', 'UNPUBLISHED'])
    if itf.plain(sensible) is not True:
        raise SimulatorError('the specification of the interface contradicts itself')

    def record(v):
        """frozen records back to dictionaries, in a fixed order"""
        if isinstance(v, tuple) and v and all(isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], str) for p in v):
            return {k: record(x) for k, x in v}
        return [record(x) for x in v] if isinstance(v, (tuple, list)) else v
    kinds, defects, other = (itf.plain(v) for v in (kinds, defects, other))
    out = {'ops': {}, 'entries': {}, 'events': {}, 'install': {}, 'icx': {}, 'defects': {}, 'unpublished': {}}
    for k, v in kinds.items():
        for o in sorted(v['ops']):
            o = record(o)
            out['ops'][k, o['name']] = o
        for e in sorted(v['entries']):
            e = record(e)
            out['entries'][k, e['name']], out['events'][k, e['name']] = e['indexed'], e['ps']
        out['install'][k], out['icx'][k] = v['install'], v['takesIcx']
        for d in defects[k]:
            d = dict(d)
            out['defects'][k, d['op']] = sorted((record(x) for x in d['wrong']), key=str)
        out['unpublished'][k] = [record(o) for o in sorted(other[k])]
    return out


def same(declared, wanted, more):
    """the parameters a contract declares are the published ones; more: it may take optional ones besides"""
    head = declared[:len(wanted)]
    return [(i['name'], i['type'], 'default' in i) for i in head] == [(p['n'], p['t'], p['opt']) for p in wanted] \
        and (more and all('default' in i for i in declared[len(wanted):]) or len(declared) == len(wanted))


def declared(wire):
    """differences between what the contracts declare and what is published; in a process of its own"""
    import inspect
    import sut
    sut.load()
    faults, compared = [], 0
    for deploy, kind in sut.KINDS.items():
        api = sut.CLASSES[deploy].get_api()
        ops = {a['name']: a for a in api if a['type'] == 'function'}
        events = {a['name']: a for a in api if a['type'] == 'eventlog'}
        fallback = next((a for a in api if a['type'] == 'fallback'), {})
        for (k, name), o in wire['ops'].items():
            if k != kind:
                continue
            compared += 1
            a = ops.pop(name, None)
            if a is None:
                faults.append(f'{kind}: {name} is not offered')
            elif not same(a['inputs'], o['ps'], True):
                faults.append(f'{kind}: {name} takes {a["inputs"]}, published is {o["ps"]}')
            elif (bool(a.get('readonly')), bool(a.get('payable'))) != (o['how'] == 'query', o['how'] == 'pay'):
                faults.append(f'{kind}: {name} is declared readonly={bool(a.get("readonly"))} payable={bool(a.get("payable"))}, published as {o["how"]}')
            elif o['how'] == 'query' and [x['type'] for x in a['outputs']] != [o['ans']]:
                faults.append(f'{kind}: {name} answers {a["outputs"]}, published is {o["ans"]}')
        for name, a in ops.items():
            if not a.get('readonly'):
                faults.append(f'{kind}: {name} can change the ledger and is not published')
        for (k, name), ps in wire['events'].items():
            if k != kind:
                continue
            compared += 1
            e = events.get(name)
            if e is None or not same(e['inputs'], ps, False):
                faults.append(f'{kind}: log entry {name} carries {e and e["inputs"]}, published is {ps}')
            elif sum(bool(i.get('indexed')) for i in e['inputs']) != wire['entries'][k, name]:
                faults.append(f'{kind}: log entry {name} has other indexed values than the {wire["entries"][k, name]} published')
        if bool(fallback.get('payable')) != wire['icx'][kind]:
            faults.append(f'{kind}: plain ICX transfers are declared {"accepted" if fallback.get("payable") else "refused"}')
        ps = [p for p in list(inspect.signature(sut.CLASSES[deploy].on_install).parameters.values())[1:]
              if p.kind is not inspect.Parameter.VAR_KEYWORD]
        compared += 1
        want = wire['install'][kind]
        if [p.name for p in ps[:len(want)]] != [p['n'] for p in want] or any(p.default is p.empty for p in ps[len(want):]):
            faults.append(f'{kind}: is installed with {[str(p) for p in ps]}, published is {[p["n"] for p in want]}')
    return faults, compared


def check(pid, traces, seed, budget, rounds):
    wire = published()
    with multiprocessing.get_context('fork').Pool(1) as pool:
        faults, compared = pool.apply(declared, (wire,))
    violations = [{'kind': 'interface', 'detail': f} for f in faults]
    if violations:
        return violations, {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'declarations_compared': compared, 'samples': faults[:5]}
    violations, _foreign, coverage = exchange.explore(pid, traces, seed, budget, rounds, wire=wire)
    coverage['declarations_compared'] = compared
    return violations, coverage
