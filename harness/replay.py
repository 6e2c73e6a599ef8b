"""Repeats behaviours of the specification on the real contracts and reports where they differ."""
import collections
import random

from sut import EOAS, Sut, projected, spec_event


def brief(x):
    d = {k: v for k, v in x.items() if k != 'd' and v not in ('', 0, False)}
    if x['d']['k'] != 'none':
        d['data'] = {k: v for k, v in x['d'].items() if v not in ('', 0) and v != []}
    return d


class Divergence(Exception):
    """kind: accepted | refused | state | event | ret | probe | unstable"""

    def __init__(self, kind, step, tags, detail):
        super().__init__(detail)
        self.kind, self.step, self.tags, self.detail = kind, step, set(tags), detail


def diff(real, spec):
    out = []
    for k in sorted(set(real) | set(spec), key=str):
        if real.get(k) != spec.get(k):
            out.append((k, real.get(k), spec.get(k)))
    return out


def state_tags(d):
    tags = set()
    for k, _r, _s in d:
        if k[0] == 'tok':
            tags.add('tok.' + k[2])
        elif k[0] == 'owned':
            tags.add(k[2])
        elif k[0] == 'icx':
            tags.add('icx')
        else:
            tags.add(k[0] + '.' + k[2])
    return tags


def compare_state(sut, w, step, kind, extra):
    real, spec = sut.project(), projected(w)
    d = diff(real, spec)
    if d:
        text = '; '.join(f'{"/".join(map(str, k))}: real {r!r}, specification {s!r}' for k, r, s in d[:6])
        raise Divergence(kind, step, {'state:' + t for t in state_tags(d)} | extra, text)


def kind_of(a, w):
    if a in w['cv']:
        return 'conv'
    if a in w['nt']:
        return 'net'
    if a in w['tok']:
        return 'tok'
    if a in w['rg']:
        return 'reg'
    return 'box' if a == 'BOX' else 'account' if a in EOAS else 'nothing'


def tx_tags(x, last, w):
    m = x['m']
    tags = {'m:' + m}
    if m in ('transfer', 'withdrawTo', 'convertFor', 'issue'):
        tags.add('dst:' + kind_of(x['a1'], w))
    elif m in ('withdrawTokens', 'withdrawFromToken'):
        tags.add('dst:' + kind_of(x['a2'], w))
    else:
        tags.add('dst:' + kind_of(x['to'], w))
    if last['mode'] in ('reenter', 'repent') and last['box']:
        tags.add('m:' + last['inner']['m'])
    if (x['d']['k'] == 'path' or x['d']['k'].startswith('off_')) and (m == 'transfer' or m.startswith('convert')):
        tags.add('conversion')
    if x['d']['k'] == 'conv' or x['d']['k'].startswith('offc_'):
        tags.add('convrequest')
    if last['mode'] != 'accept' and last['box'] or last['why'] == 'refused':
        tags.add('box:' + last['mode'])
    for h in last['hops']:
        tags.add('hop:' + h['k'])
    if last['why']:
        tags.add('why:' + last['why'])
    return tags


def replay(states, seed=0, restarts=0.0, stats=None, short=0.05):
    """states: the states of one behaviour; raises Divergence; short: how often a transaction is first given too few steps"""
    stats = stats if stats is not None else collections.Counter()
    rnd = random.Random(seed)
    sut = Sut(seed)
    first = states[0]
    for x in first['setup']:
        ok, _ret, _ev, cause = sut.execute(x)
        stats['setup transactions'] += 1
        if not ok:
            raise Divergence('refused', 0, tx_tags(x, first['last'], first['w']) | {'setup'},
                             f'set-up transaction failed: {brief(x)}: {cause}')
    sut.learn(first['w'])
    compare_state(sut, first['w'], 0, 'state', {'setup'})
    prev = first['w']
    for i, s in enumerate(states[1:], 1):
        last, w, x = s['last'], s['w'], s['last']['tx']
        tags = tx_tags(x, last, prev)
        what = f'{brief(x)}' + (f' [BOX {last["mode"]}' + (f': {brief(last["inner"])}' if last['mode'] in ('reenter', 'repent') else '') + ']'
                                if last['mode'] != 'accept' and last['box'] else '')
        if restarts and rnd.random() < restarts:
            how = rnd.choice(['restart', 'update', 'both'])
            if how != 'restart':
                for a in list(sut.chain.scores):
                    if rnd.random() < 0.5:
                        sut.chain.update(a, sut._a('own'))
            if how != 'update':
                sut.restart()
            stats['restarts and upgrades'] += 1
            compare_state(sut, prev, i, 'unstable', {'restart'})
        for p in last['probes']:
            stats['questions'] += 1
            ok, r, f = sut.ask(p)
            if (ok, r, f) != (p['ok'], p['r'], p['f']):
                raise Divergence('probe', i, tags | {'probe:' + p['q']},
                                 f'question {p["q"]} {p["c"]} {p["p"]} {p["n"]}: real {(ok, r, f)}, '
                                 f'specification {(p["ok"], p["r"], p["f"])}')
        if last['ok']:
            wrong = sut.misuse(x, rnd)
            if wrong:
                raise Divergence('interface', i, tags, wrong)
        if rnd.random() < short:
            # this transaction, or one of another time
            o = last if rnd.random() < 0.3 else rnd.choice(states[1:])['last']
            if sut.fall_short(o['tx'], o['mode'], o['inner'], rnd.choice((2, 5, 12, 30, 80, 10**9, 10**9, 10**9))):
                stats['cut short'] += 1
                compare_state(sut, prev, i, 'unstable', {'failed'})
        ok, ret, ev, cause = sut.execute(x, last['mode'], last['inner'])
        sut.learn(w)
        stats['transactions'] += 1
        stats['successful'] += ok
        if ok and not last['ok']:
            raise Divergence('accepted', i, tags, f'{what}: succeeded, must fail ({last["why"]})')
        if not ok and last['ok']:
            raise Divergence('refused', i, tags, f'{what}: failed, must succeed; real cause: {cause}')
        if ok and x['m'] in ('convert', 'convertFor') and ret != last['ret']:
            raise Divergence('ret', i, tags, f'{what}: returned {ret}, specification {last["ret"]}')
        compare_state(sut, w, i, 'state', tags | ({'failed'} if not ok else set()))
        if ok:
            a, b = collections.Counter(ev), collections.Counter(spec_event(e) for e in last['ev'])
            if a != b:
                names = {e[1] for e in (a - b)} | {e[1] for e in (b - a)}
                raise Divergence('event', i, tags | {'event:' + n for n in names},
                                 f'{what}: events only in the real log {list((a - b).elements())}, '
                                 f'missing {list((b - a).elements())}')
        stats['traces steps'] += 1
        prev = w
    return stats
