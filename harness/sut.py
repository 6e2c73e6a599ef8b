"""The real contracts behind the vocabulary of the specification (names, transactions, states)."""
import importlib
import json
import os
import sys
from importlib.machinery import SourceFileLoader

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
for p in (HERE, REPO):
    if p not in sys.path:
        sys.path.insert(0, p)

import logging                                                          # noqa: E402
logging.disable(logging.CRITICAL)

from iconservice import IconScoreBase, Address, ZERO_SCORE_ADDRESS, external, payable, eventlog, revert  # noqa: E402
from iconservice.iconscore.icon_score_context import ContextContainer   # noqa: E402
from chain import Chain, TxFailed, address                              # noqa: E402


# compiled once, executed again whenever a node starts anew
_codes, _get_code = {}, SourceFileLoader.get_code


def _cached(loader, name):
    path = loader.get_filename(name)
    if path not in _codes:
        _codes[path] = _get_code(loader, name)
    return _codes[path]


def contract(name, cls):
    """a contract class, from the sources or (VERIF_PACKAGES) from the packages built of them"""
    packages = os.environ.get('VERIF_PACKAGES')
    if not packages:
        return getattr(importlib.import_module(f'contracts.{name}.{name}'), cls)
    if packages not in sys.path:
        sys.path.insert(0, packages)
    with open(os.path.join(packages, name, 'package.json')) as f:
        meta = json.load(f)
    return getattr(importlib.import_module(f'{name}.{meta["main_file"]}'), meta['main_score'])


CONTRACTS = {'deploy_irc': ('irc_token', 'IRCToken'), 'deploy_flex': ('flexible_token', 'FlexibleToken'),
             'deploy_icx': ('icx_token', 'IcxToken'), 'deploy_reg': ('score_registry', 'ScoreRegistry'),
             'deploy_net': ('network', 'Network'), 'deploy_conv': ('converter', 'Converter')}
CLASSES = {}


def load():
    """loads the code of the contracts anew, as another process would: nothing kept in modules,
    classes or functions is left; returns {old class: new class}"""
    roots = [os.path.join(os.path.realpath(p), '') for p in
             (os.path.join(REPO, 'contracts'), os.environ.get('VERIF_PACKAGES')) if p]
    for m in list(sys.modules):
        f = getattr(sys.modules[m], '__file__', None) or ''
        if m == 'contracts' or any(os.path.realpath(f).startswith(r) for r in roots):
            del sys.modules[m]
    SourceFileLoader.get_code = _cached
    try:
        fresh = {k: contract(*v) for k, v in CONTRACTS.items()}
    finally:
        SourceFileLoader.get_code = _get_code
    change = {CLASSES[k]: c for k, c in fresh.items() if k in CLASSES}
    CLASSES.update(fresh)
    return change


EOAS = ('own', 'mgr', 'ali', 'bob', 'eve')
GENESIS = {'own': 10**22, 'mgr': 10**20, 'ali': 10**25, 'bob': 10**20, 'eve': 10**18, 'BOX': 10**19}
RESULT = b'conversionResult'


def symbol(name):
    return 'S' + name[:2]


class Box(IconScoreBase):
    """the recipient contract: accepts, refuses, or calls back the first time it is called (and may refuse then)"""
    mode = 'accept'
    inner = None            # callable(box) performing the call back

    @eventlog
    def Notified(self, _token: Address, _from: Address, _value: int, _data: bytes):
        pass

    @eventlog
    def Funded(self, _from: Address, _value: int):
        pass

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def _called(self):
        if Box.mode == 'refuse':
            revert('refused')
        if Box.mode in ('reenter', 'repent'):
            how, Box.mode = Box.mode, 'accept'
            Box.inner(self)
            if how == 'repent':
                revert('refused')

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        self.Notified(self.msg.sender, _from, _value, _data)
        self._called()

    @payable
    def fallback(self):
        self.Funded(self.msg.sender, self.msg.value)
        self._called()


KIND = {'deploy_irc': 'irc', 'deploy_flex': 'flex', 'deploy_icx': 'icx'}
NOADDR = {'bad1': 'hx12', 'bad2': '', 'bad3': 'zz' + '0' * 40, 'bad4': 'cx' + 'g' * 40, 'bad11': ' '}
# an address written in a way it must not be
MISSPELT = {'bad5': lambda a: a[:20] + ' ' + a[20:], 'bad6': lambda a: a[:2] + '\t' + a[2:], 'bad7': lambda a: a[:2].upper() + a[2:],
            'bad8': lambda a: a[:2] + a[2:].upper(), 'bad9': lambda a: a[2:], 'bad10': lambda a: f"'{a}'",
            'bad12': lambda a: '\u200b' + a}
VALUE = {'icx', 'deposit', 'convert', 'convertFor'}
WIRE = None                 # the published interface (spec/interface.qnt), if requests are sent as wallets do
KINDS = {'deploy_irc': 'irc', 'deploy_flex': 'flex', 'deploy_icx': 'icx', 'deploy_reg': 'reg', 'deploy_net': 'net', 'deploy_conv': 'conv'}
ANSWERS = {'int': int, 'str': str, 'bool': bool, 'Address': Address, 'dict': dict, 'list': list, 'bytes': bytes}


def wired(v):
    """a value as wallets write it"""
    if isinstance(v, bool):
        return '0x1' if v else '0x0'
    if isinstance(v, int):
        return hex(v)
    if isinstance(v, bytes):
        return '0x' + v.hex()
    return str(v)


class Unpublished(Exception):
    """the contracts differ from the published interface"""


class Failing(str):
    """in the place of an answer"""


class Sut:
    def __init__(self, seed=0):
        load()
        self.chain = Chain(seed, [address(a, False) for a in EOAS])
        self.names = {}          # Address -> name
        self.addr = {}           # name -> Address
        self.toks, self.cvs, self.rgs, self.nts = {}, set(), set(), set()
        self.strange = {'Junk'}  # names nobody can register
        self.sent = {}           # what was attached to the transfers of the current transaction
        self._a('ZERO')
        for a in EOAS:
            self._a(a)
        for a in ('BOX', 'GHOST'):
            self._a(a)
        for a, v in GENESIS.items():
            self.chain.mint_icx(self._a(a), v)
        self.chain.deploy(self._a('BOX'), Box, self._a('own'))
        Box.mode = 'accept'

    def restart(self):
        self.chain.restart(load())

    def _a(self, name):
        if name == '':
            return None
        a = self.addr.get(name)
        if a is None:
            a = ZERO_SCORE_ADDRESS if name == 'ZERO' else address(name, name not in EOAS)
            self.addr[name] = a
            self.names[a] = name
        return a

    def name(self, a):
        return '' if a is None else self.names.get(a, f'?{a}')

    # ---- requests ---------------------------------------------------------------------------------
    def text(self, name):
        if name in MISSPELT:
            return MISSPELT[name](str(self._a('F1')))
        return NOADDR[name] if name in NOADDR else str(self._a(name))

    def path(self, p, style=''):
        sep, edge = {'spaces': (' ,  ', ' '), 'tabs': ('\t,\n', '\t')}.get(style, (',', ''))
        return edge + sep.join(self.text(x) for x in p) + edge

    def data(self, d, style=''):
        b = self._data(d, style)
        if b is not None:
            # the same text may be written for two reasons; what carries a result marker is one
            self.sent[b] = 'result' if b == RESULT else 'none' if b == b'None' else d['k']
        return b

    def _data(self, d, style):
        k = d['k']
        if k == 'none':
            return b'None' if style == 'extra' else None
        if k == 'result':
            return RESULT
        if k == 'conv' or k.startswith('offc_'):
            o = {'toToken': str(self._a(d['to'])), 'minReturn': d['min']}
            m = max(d['min'], 1)
            o.update({'offc_text': {'minReturn': str(m)}, 'offc_null': {'minReturn': None}, 'offc_to': {'toToken': 'hx12'},
                      'offc_totype': {'toToken': 7}, 'offc_toempty': {'toToken': ''},
                      'offc_tospace': {'toToken': f" {o['toToken']} "}, 'offc_toupper': {'toToken': MISSPELT['bad8'](o['toToken'])},
                      'offc_minlist': {'minReturn': [m]}, 'offc_toplain': {'toToken': o['toToken'][2:]}}.get(k, {}))
            if k in ('offc_nomin', 'offc_noto'):
                o.pop('minReturn' if k == 'offc_nomin' else 'toToken')
            o = [o] if k == 'offc_list' else {'for': None, **o, 'path': 'x'} if style == 'extra' else o
            return (b'\xef\xbb\xbf' if k == 'offc_bom' else b'') + json.dumps(o).encode() + (b',' if k == 'offc_tail' else b'')
        if k == 'path':
            o = {'path': self.path(d['path'], style), 'minReturn': d['min']}
            if d['ben'] != '':
                o['for'] = str(self._a(d['ben']))
            elif style in ('spaces', 'extra'):
                o['for'] = None
            if style == 'extra':
                o = {'note': 'minReturn \u00e9', **dict(reversed(list(o.items()))), 'toToken': 'x', 'z': [1, {'path': 2}]}
                return json.dumps(o, indent=2).encode()
            return json.dumps(o, ensure_ascii=False).encode()
        if k.startswith('off_'):
            o = {'path': self.path(d['path'], style), 'minReturn': d['min']}
            if d['ben'] != '':
                o['for'] = str(self._a(d['ben']))
            m = max(d['min'], 1)
            someone = o.get('for') or str(self._a('ali'))
            o.update({'off_float': {'minReturn': m + 0.5}, 'off_text': {'minReturn': str(m)}, 'off_ben': {'for': 'hx12'},
                      'off_null': {'minReturn': None}, 'off_list': {'path': [self.text(x) for x in d['path']]},
                      'off_bentype': {'for': 7}, 'off_benempty': {'for': ''}, 'off_benzero': {'for': 0},
                      'off_benspace': {'for': f' {someone}'}, 'off_benupper': {'for': MISSPELT['bad8'](someone)},
                      'off_benlist': {'for': [someone]}, 'off_minlist': {'minReturn': [m]}}.get(k, {}))
            if k in ('off_nomin', 'off_nopath'):
                o.pop('minReturn' if k == 'off_nomin' else 'path')
            text = json.dumps(o)
            if k == 'off_twice':
                text = text[:-1] + ', "path": 7}'
            return (b'\xef\xbb\xbf' if k == 'off_bom' else b'') + text.encode() + (b',' if k == 'off_tail' else b'')
        return {'junk_json': b'{"path": ', 'junk_utf8': b'\xff\xfe\xfd', 'junk_nokey': b'{"minReturn": 1}',
                'junk_min': json.dumps({'path': self.path(['T1', 'F1', 'F1']), 'minReturn': '1',
                                        'toToken': str(self._a('F1'))}).encode(),
                'junk_addr': b'{"path": "hx12, cx, 7", "minReturn": 1, "toToken": "F1"}',
                'junk_list': b'[1, 2]', 'junk_empty': b'', 'junk_long': b'conversion' * 3000, 'junk_result': b'conversionResult ',
                'junk_number': b'42', 'junk_null': b'null', 'junk_true': b'true', 'junk_string': b'"conversionResult"',
                'junk_case': b'ConversionResult', 'junk_line': b'conversionResult\n', 'junk_part': b'conversionResul',
                'junk_space': b' conversionResult', 'junk_object': b'{}',
                'junk_utf16': json.dumps({'path': self.path(['T1', 'F1', 'F1']), 'minReturn': 1,
                                          'toToken': str(self._a('F1'))}).encode('utf-16')}[k]

    def args(self, x):
        m, a = x['m'], self._a
        if m == 'transfer':
            d = self.data(x['d'], x['s'])
            return (a(x['a1']), x['n1']) if d is None else (a(x['a1']), x['n1'], d)
        if m in ('icx', 'deposit', 'acceptOwnerShip', 'updateRegistry', 'restoreRegistry', 'acceptManagement',
                 'acceptTokenOwnership'):
            return ()
        if m in ('issue', 'destroy'):
            return a(x['a1']), x['n1']
        if m in ('disableTransfer', 'disableRegistryUpdate', 'disableConversions', 'disableTokenTransfers'):
            return (x['b'],)
        if m in ('withdraw', 'setConversionFee'):
            return (x['n1'],)
        if m == 'withdrawTo':
            return x['n1'], a(x['a1'])
        if m in ('transferOwnerShip', 'transferManagement', 'transferTokenOwnership'):
            return (a(x['a1']),)
        if m in ('withdrawTokens', 'withdrawFromToken'):
            return a(x['a1']), a(x['a2']), x['n1']
        if m == 'registerAddress':
            return x['s'], a(x['a1'])
        if m == 'unregisterAddress':
            return (x['s'],)
        if m in ('registerIcxToken', 'disableConnectorPurchases'):
            return a(x['a1']), x['b']
        if m == 'convert':
            return self.path(x['d']['path'], x['s']), x['d']['min']
        if m == 'convertFor':
            return self.path(x['d']['path'], x['s']), x['d']['min'], a(x['a1'])
        if m == 'tokenFallback':
            d = self.data(x['d'], x['s'])
            return a(x['a1']), x['n1'], b'None' if d is None else d
        if m == 'addConnector':
            return a(x['a1']), x['n1'], x['b']
        if m == 'updateConnector':
            return a(x['a1']), x['n1'], x['b'], x['n2']
        raise AssertionError(m)

    def deploy(self, x):
        m = x['m']
        if self._a(x['to']) in self.chain.scores:
            return 'exists', None
        if m in ('deploy_irc', 'deploy_flex'):
            p = dict(_name=x['s'], _symbol=symbol(x['s']), _initialSupply=x['n1'], _decimals=x['n2'])
        elif m == 'deploy_conv':
            p = dict(_token=self._a(x['a1']), _registry=self._a(x['a2']), _maxConversionFee=x['n1'],
                     _connectorToken=self._a(x['a3']), _connectorWeight=x['n2'])
        else:
            p = {}
        if WIRE:
            p = {k['n']: None if v is None else wired(v) for k, v in zip(WIRE['install'][KINDS[m]], p.values())}
        r = self.chain.deploy(self._a(x['to']), CLASSES[m], self._a(x['from']), wire=bool(WIRE), **p)
        if m in KIND:
            self.toks[x['to']] = KIND[m]
        else:
            {'deploy_reg': self.rgs, 'deploy_net': self.nts, 'deploy_conv': self.cvs}[m].add(x['to'])
        return r

    def inner(self, x):
        """the call BOX makes"""
        def run(box):
            ctx = ContextContainer._get_context()
            ctx.internal_call.other_external_call(
                box.address, self._a(x['to']), None if x['m'] == 'icx' else x['m'], self.args(x), {},
                x['n1'] if x['m'] in VALUE else x['pay'])
        return run

    # ---- the form wallets send -------------------------------------------------------------------
    def kind(self, name):
        return self.toks.get(name) or next((k for k, s in (('conv', self.cvs), ('reg', self.rgs), ('net', self.nts)) if name in s), None)

    def named(self, kind, method, args):
        """the parameters by name, None if the operation is not published"""
        op = WIRE['ops'].get((kind, method))
        if op is None or len(args) > len(op['ps']):
            return None
        return {p['n']: wired(v) for p, v in zip(op['ps'], args) if v is not None}

    def misuse(self, x, rnd):
        """requests that reach nothing, sent before a request that succeeds; returns what was accepted"""
        kind = self.kind(x['to'])
        if WIRE is None or kind is None or x['m'] == 'icx':
            return None
        tries = []
        good = self.named(kind, x['m'], self.args(x))
        if good is not None:
            wrong = rnd.choice(WIRE['defects'][kind, x['m']])
            p = dict(good)
            if wrong['d'] == 'missing':
                p.pop(wrong['n'], None)
            else:
                p[wrong['n']] = {'extra': '0x1', 'text': 'cx' + 'g' * 40}[wrong['d']]
            tries.append((x['m'], p, wrong, x['from']))
        op = rnd.choice(WIRE['unpublished'][kind])
        values = {'Address': str(self._a(x['from'])), 'int': '0x1', 'bool': '0x1', 'str': 'Network', 'bytes': '0x00'}
        tries.append((op['name'], {p['n']: values[p['t']] for p in op['ps']}, 'not published', rnd.choice(['own', x['from']])))
        for m, p, why, sender in tries:
            try:
                self.chain.tx(self._a(sender), self._a(x['to']), m, value=0, params=p)
            except TxFailed:
                continue
            return f'{sender} to {x["to"]} ({kind}): {m}({p}) was accepted, {why}'
        return None

    def execute(self, x, mode='accept', inner=None):
        """returns (ok, ret, events, cause)"""
        Box.mode = mode
        Box.inner = None
        self.sent = {}
        if x['m'] in ('registerAddress', 'unregisterAddress') and x['s'] not in ('Network', 'ScoreRegistry'):
            self.strange.add(x['s'])
        if mode in ('reenter', 'repent'):
            Box.inner = self.inner_or_fail(inner)
        try:
            if x['m'].startswith('deploy_'):
                r = self.deploy(x)
                if r[0] == 'exists':
                    return False, None, [], 'exists'
                ret, ev = r
            else:
                v = x['n1'] if x['m'] in VALUE else x['pay']
                args, m = self.args(x), None if x['m'] == 'icx' else x['m']
                params = self.named(self.kind(x['to']), m, args) if WIRE and m else None
                if params is None:
                    ret, ev = self.chain.tx(self._a(x['from']), self._a(x['to']), m, value=v, args=args)
                else:
                    ret, ev = self.chain.tx(self._a(x['from']), self._a(x['to']), m, value=v, params=params)
                if WIRE:
                    self.indexed(ev)
            return True, ret, [self.event(e) for e in ev if not e.indexed[0].startswith('ICXTransfer')], ''
        except TxFailed as e:
            return False, None, [], str(e)
        finally:
            Box.mode = 'accept'

    def fall_short(self, x, mode, inner, steps):
        """the transaction, with too few steps: whatever it did, nothing has happened; returns whether it did"""
        if x['m'].startswith('deploy_'):
            return False
        Box.mode, Box.inner = mode, self.inner_or_fail(inner) if mode in ('reenter', 'repent') else None
        try:
            self.chain.tx(self._a(x['from']), self._a(x['to']), None if x['m'] == 'icx' else x['m'],
                          value=x['n1'] if x['m'] in VALUE else x['pay'], args=self.args(x), steps=steps)
        except TxFailed:
            return True
        finally:
            Box.mode = 'accept'

    def inner_or_fail(self, x):
        if x['m'].startswith('deploy_'):
            def no(_box):
                revert('cannot deploy')
            return no
        return self.inner(x)

    def tag(self, data):
        """what is attached to a transfer, as the specification says it: exactly what was sent, or a request to a converter"""
        if data in self.sent:
            return self.sent[data]
        if data == b'None':
            return 'none'
        if data == RESULT:
            return 'result'
        try:
            o = json.loads(data.decode('utf-8'))
            if isinstance(o['minReturn'], int) and isinstance(o['toToken'], str):
                return 'conv'
        except Exception:
            pass
        return 'altered'

    def event(self, e):
        sig = e.indexed[0]
        ev = sig.split('(')[0]
        types = sig[sig.index('(') + 1:-1].split(',')
        vals = list(e.indexed[1:]) + list(e.data)
        a, n, s = [], [], ''
        for t, v in zip(types, vals):
            if t == 'Address':
                a.append(self.name(v))
            elif t == 'int':
                n.append(v)
            elif t == 'bool':
                n.append(1 if v else 0)
            elif t == 'bytes':
                s = self.tag(v)
            else:
                s = v
        return (self.name(e.score_address), ev, tuple(a), tuple(n), s)

    def indexed(self, events):
        """entries of the log are indexed as published"""
        for e in events:
            kind = self.kind(self.name(e.score_address))
            want = WIRE['entries'].get((kind, e.indexed[0].split('(')[0]))
            if want is not None and want != len(e.indexed) - 1:
                raise Unpublished(f'{e.indexed[0]} of a {kind} has {len(e.indexed) - 1} indexed values, {want} are published')

    # ---- questions --------------------------------------------------------------------------------
    def q(self, to, method, *args):
        if WIRE:
            kind = self.kind(to)
            params = self.named(kind, method, args)
            if params is not None:
                r = self.chain.query(self._a(to), method, params=params)
                t = WIRE['ops'][kind, method]['ans']
                if r is not None and (not isinstance(r, ANSWERS[t]) or t == 'int' and isinstance(r, bool)):
                    raise Unpublished(f'{method} of a {kind} answers {r!r}, not {t}')
                return r
        return self.chain.query(self._a(to), method, args)

    def ask(self, p):
        """the answer to a probe of the specification: (ok, r, f)"""
        try:
            if p['q'] == 'path':
                return True, self.q(p['c'], 'getExpectedReturnByPath', self.path(p['p']), p['n']), 0
            if p['q'] == 'return':
                r = self.q(p['c'], 'getReturn', self._a(p['p'][0]), self._a(p['p'][1]), p['n'])
                return True, r['amount'], r['fee']
            if p['q'] == 'final':
                return True, self.q(p['c'], 'getFinalAmount', p['n'], p['k']), 0
        except TxFailed:
            return False, 0, 0
        raise AssertionError(p)

    # ---- the state, as seen through the public interface ------------------------------------------------
    def project(self):
        N, A = self.name, self._a

        def q(to, method, *args):
            try:
                return self.q(to, method, *args)
            except TxFailed as e:       # a difference like any other
                return Failing(f'{method} fails: {e}')
        everybody = list(self.addr)
        s = {}
        for t, kind in self.toks.items():
            s['tok', t, 'supply'] = q(t, 'totalSupply')
            s['tok', t, 'decimals'] = q(t, 'decimals')
            s['tok', t, 'name'] = q(t, 'name')
            s['tok', t, 'symbol'] = q(t, 'symbol')
            for a in everybody:
                v = q(t, 'balanceOf', A(a))
                if v != 0:
                    s['tok', t, 'bal', a] = v
            if kind == 'flex':
                s['tok', t, 'open'] = q(t, 'getTransferPossibility')
                s['tok', t, 'version'] = q(t, 'getFlexibleTokenVersion')
        for c in self.cvs:
            for k, m in (('mgr', 'getManager'), ('nmgr', 'getNewManager'), ('token', 'getToken'), ('reg', 'getRegistry'),
                         ('preg', 'getPreviousRegistry')):
                s['cv', c, k] = N(q(c, m))
            for k, m in (('allow', 'isAllowRegistryUpdate'), ('on', 'isConversionsEnabled'), ('fee', 'getConversionFee'),
                         ('maxFee', 'getMaxConversionFee')):
                s['cv', c, k] = q(c, m)
            n = q(c, 'getConnectorTokenCount')
            s['cv', c, 'list'] = tuple(N(q(c, 'getConnectorAt', i)) for i in range(n)) if isinstance(n, int) else n
            for a in everybody:
                k = q(c, 'getConnector', A(a))
                if k and not (isinstance(k, dict) and {'weight', 'isVirtualBalanceEnabled', 'virtualBalance',
                                                       'isPurchaseEnabled', 'isSet'} <= set(k)):
                    s['cv', c, 'cn', a] = k
                elif k:
                    s['cv', c, 'cn', a] = (k['weight'], k['isVirtualBalanceEnabled'], k['virtualBalance'],
                                           k['isPurchaseEnabled'], k['isSet'])
                    try:
                        v = self.q(c, 'getConnectorBalance', A(a))
                        s['cv', c, 'connbal', a] = -1 if v is None else v
                    except TxFailed:
                        s['cv', c, 'connbal', a] = -1
            try:
                s['cv', c, 'active'] = self.q(c, 'isActive')
            except TxFailed:
                s['cv', c, 'active'] = None
        for g in self.rgs:
            ids = q(g, 'getScoreIds')
            s['rg', g, 'ids'] = {'Network', 'ScoreRegistry'} <= set(ids) if isinstance(ids, list) else ids
            for k, nm in (('net', 'Network'), ('self', 'ScoreRegistry')):
                s['rg', g, k] = N(q(g, 'getAddress', nm))
            for nm in self.strange:
                v = N(q(g, 'getAddress', nm))
                if v != 'ZERO':
                    s['rg', g, 'other', nm] = v
        for n in self.nts:
            for a in everybody:
                v = q(n, 'getIcxTokenRegistered', A(a))
                if v:
                    s['nt', n, 'icxt', a] = v
        for a in list(self.cvs) + list(self.rgs) + list(self.nts) + [t for t, k in self.toks.items() if k != 'irc']:
            s['owned', a, 'owner'] = N(q(a, 'getOwner'))
            s['owned', a, 'nowner'] = N(q(a, 'getNewOwner'))
        for a in everybody:
            v = self.chain.icx_balance(A(a))
            if v:
                s['icx', a] = v
        return s

    def learn(self, w):
        """make every name of a specification state known"""
        for part in ('tok', 'cv', 'rg', 'nt'):
            for a in w[part]:
                self._a(a)


def projected(w):
    """the same view of a specification state"""
    s = {}
    owned = {}
    for t, k in w['tok'].items():
        s['tok', t, 'supply'] = k['supply']
        s['tok', t, 'decimals'] = k['decimals']
        s['tok', t, 'name'] = k['name']
        s['tok', t, 'symbol'] = 'ICXT' if k['kind'] == 'icx' else symbol(k['name'])
        for a, v in k['bal'].items():
            if v != 0:
                s['tok', t, 'bal', a] = v
        if k['kind'] == 'flex':
            s['tok', t, 'open'] = k['open']
            s['tok', t, 'version'] = '0.1'
        if k['kind'] != 'irc':
            owned[t] = k
    for c, k in w['cv'].items():
        owned[c] = k
    for part in ('rg', 'nt'):
        owned.update(w[part])
    for c, k in w['cv'].items():
        for f in ('mgr', 'nmgr', 'token', 'reg', 'preg', 'allow', 'on', 'fee', 'maxFee'):
            s['cv', c, f] = k[f]
        s['cv', c, 'list'] = tuple(k['list'])
        for a, n in k['cn'].items():
            s['cv', c, 'cn', a] = (n['w'], n['virt'], n['vbal'], n['buy'], True)
            s['cv', c, 'connbal', a] = n['vbal'] if n['virt'] else \
                (w['tok'][a]['bal'].get(c, 0) if a in w['tok'] else -1)
        s['cv', c, 'active'] = (owned[k['token']]['owner'] == c) if k['token'] in owned else None
    for g, k in w['rg'].items():
        s['rg', g, 'ids'] = True
        s['rg', g, 'net'], s['rg', g, 'self'] = k['net'], k['self']
    for n, k in w['nt'].items():
        for a in k['icxt']:
            s['nt', n, 'icxt', a] = True
    for a, k in owned.items():
        s['owned', a, 'owner'] = k['owner']
        s['owned', a, 'nowner'] = k['nowner']
    for a, v in w['icx'].items():
        if v:
            s['icx', a] = v
    return s


def spec_event(e):
    return (e['c'], e['e'], tuple(e['a']), tuple(e['n']), e['s'])
