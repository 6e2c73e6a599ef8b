"""A small exchange on the real contracts of the current directory, for demonstrations."""
import json
import logging
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)

from iconservice import IconScoreBase, Address, ZERO_SCORE_ADDRESS, external, payable, revert  # noqa: E402
from chain import Chain, TxFailed, address                       # noqa: E402
from contracts.network.network import Network                    # noqa: E402
from contracts.converter.converter import Converter              # noqa: E402
from contracts.flexible_token.flexible_token import FlexibleToken  # noqa: E402
from contracts.icx_token.icx_token import IcxToken               # noqa: E402
from contracts.irc_token.irc_token import IRCToken               # noqa: E402
from contracts.score_registry.score_registry import ScoreRegistry  # noqa: E402

PEOPLE = ('own', 'mgr', 'ali', 'bob', 'eve')
E18 = 10 ** 18


class Box(IconScoreBase):
    """a contract that receives tokens and ICX and does what `act` says"""
    act = None

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        if Box.act:
            act, Box.act = Box.act, None
            act(self)

    @external
    def run(self):
        act, Box.act = Box.act, None
        return act(self)

    @payable
    def fallback(self):
        if Box.act:
            act, Box.act = Box.act, None
            act(self)


class World:
    def __init__(self, icx=10 ** 24):
        self.c = Chain()
        for p in PEOPLE:
            self.c.mint_icx(self.a(p), icx)
        self.c.deploy(self.a('BOX'), Box, self.a('own'))
        self.why = None

    def a(self, n):
        if isinstance(n, Address) or n is None:
            return n
        return ZERO_SCORE_ADDRESS if n == 'ZERO' else address(n, n not in PEOPLE)

    def deploy(self, n, cls, who='own', **kw):
        try:
            self.c.deploy(self.a(n), cls, self.a(who), **kw)
            return True
        except TxFailed as e:
            self.why = e
            return False

    def tx(self, who, to, method, *args, value=0):
        try:
            self.ret, self.events = self.c.tx(self.a(who), self.a(to), method, value, args)
            return True
        except TxFailed as e:
            self.why = e
            return False

    def must(self, *args, **kw):
        assert self.tx(*args, **kw), (args, self.why)

    def q(self, to, method, *args):
        return self.c.query(self.a(to), method, args)

    def asks(self, to, method, *args):
        """None if the question is refused"""
        try:
            return self.q(to, method, *args)
        except TxFailed:
            return None

    def bal(self, t, who):
        return self.q(t, 'balanceOf', self.a(who))

    def icx(self, who):
        return self.c.icx_balance(self.a(who))

    def path(self, *names):
        return ','.join(str(self.a(n)) for n in names)

    def request(self, *names, min=1, **more):
        return json.dumps(dict({'path': self.path(*names), 'minReturn': min}, **more)).encode()

    def swap(self, who, v, *names, min=1, **more):
        return self.tx(who, names[0], 'transfer', self.a('NET'), v, self.request(*names, min=min, **more))

    # ---- set-ups
    def irc(self, n, supply=10 ** 6):
        assert self.deploy(n, IRCToken, _name=n, _symbol=n, _initialSupply=supply, _decimals=18)

    def flex(self, n, supply=10 ** 6):
        assert self.deploy(n, FlexibleToken, _name=n, _symbol=n, _initialSupply=supply, _decimals=18)

    def conv(self, n, token, connectors, fee=0, active=True):
        """connectors: (token, weight, stock)"""
        assert self.deploy(n, Converter, _token=self.a(token), _registry=self.a('REG'), _maxConversionFee=300000,
                           _connectorToken=self.a('ZERO'), _connectorWeight=0)
        for t, weight, stock in connectors:
            self.must('own', n, 'addConnector', self.a(t), weight, False)
            if stock:
                self.must('own', t, 'transfer', self.a(n), stock, None)
        if fee:
            self.must('own', n, 'setConversionFee', fee)
        if active:
            self.activate(n, token)

    def activate(self, n, token):
        self.must('own', token, 'transferOwnerShip', self.a(n))
        self.must('own', n, 'acceptTokenOwnership')

    def base(self):
        """REG, NET, tokens T1 T2 ICXT (registered), own has them all; F1 with converter C1 over T1 T2 ICXT"""
        assert self.deploy('REG', ScoreRegistry)
        assert self.deploy('NET', Network)
        self.must('own', 'REG', 'registerAddress', 'Network', self.a('NET'))
        self.irc('T1')
        self.irc('T2')
        assert self.deploy('ICXT', IcxToken)
        self.must('own', 'NET', 'registerIcxToken', self.a('ICXT'), True)
        self.must('own', 'ICXT', 'deposit', value=10 ** 5 * E18)
        self.flex('F1')
        return self

    def live(self, fee=0, active=True):
        self.base()
        self.conv('C1', 'F1', [('T1', 300000, 10 ** 5 * E18), ('T2', 200000, 10 ** 5 * E18), ('ICXT', 100000, 10 ** 4 * E18)], fee, active)
        for t in ('T1', 'T2', 'F1'):
            self.must('own', t, 'transfer', self.a('ali'), 10 ** 4 * E18, None)
        return self
