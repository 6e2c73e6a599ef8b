IRC = 'contracts/irc_token/irc_token.py'
FLEX = 'contracts/flexible_token/flexible_token.py'
ICX = 'contracts/icx_token/icx_token.py'
CV = 'contracts/converter/converter.py'
NET = 'contracts/network/network.py'
REG = 'contracts/score_registry/score_registry.py'
OWN = 'contracts/utility/owned.py'
MGD = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
STO = 'contracts/utility/storage.py'
FORM = 'contracts/formula/fixed_map_formula.py'
BUILD = 'contract_generator/builder.py'
WRITE = 'contract_generator/writer.py'
CONF = 'contract_generator/config.py'

SEEDS = []


def seed(id, property, needs, breaks, edits, demo, world=True):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, world=world))


seed('c01-self-transfer', 'C01', 'a transfer of tokens from an account to itself',
     'both balances are read before either is written, so a self-transfer creates tokens',
     [(IRC, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
''', '''        remaining = self._balances[_from] - _value
        received = self._balances[_to] + _value
        self._balances[_from] = remaining
        self._balances[_to] = received
''')],
     '''
w = World(); w.irc('T1', 100)
w.must('own', 'T1', 'transfer', w.a('ali'), 7 * E18, None)
w.must('ali', 'T1', 'transfer', w.a('ali'), 3 * E18, None)
assert w.bal('T1', 'ali') == 7 * E18, w.bal('T1', 'ali')
assert w.bal('T1', 'ali') + w.bal('T1', 'own') == w.q('T1', 'totalSupply')
''')

seed('c02-notify-first', 'C02', 'a recipient contract that uses the received tokens while it is being notified',
     'the recipient is notified before the transfer is booked, and what it does meanwhile is overwritten',
     [(IRC, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value

        if _to.is_contract:
            # If the recipient is SCORE,
            #   then calls `tokenFallback` to hand over control.
            recipient_score = self.create_interface_score(_to, TokenFallbackInterface)
            recipient_score.tokenFallback(_from, _value, _data)
''', '''        self._balances[_from] = self._balances[_from] - _value
        balance = self._balances[_to] + _value
        self._balances[_to] = balance

        if _to.is_contract:
            # If the recipient is SCORE,
            #   then calls `tokenFallback` to hand over control.
            recipient_score = self.create_interface_score(_to, TokenFallbackInterface)
            recipient_score.tokenFallback(_from, _value, _data)
            self._balances[_to] = balance
''')],
     '''
w = World(); w.irc('T1', 100)
def act(box):
    box.call(w.a('T1'), 'transfer', {'_to': w.a('eve'), '_value': 2 * E18, '_data': b'x'})
Box.act = act
w.must('own', 'T1', 'transfer', w.a('BOX'), 5 * E18, None)
assert w.bal('T1', 'eve') == 2 * E18
assert w.bal('T1', 'BOX') == 3 * E18, w.bal('T1', 'BOX')
''')

seed('c05-pay-before-burn', 'C05', 'a contract withdrawing ICX to itself that withdraws again when the ICX arrives',
     'the payout happens before the balance is written back, so the same balance is withdrawn twice',
     [(ICX, '''        self._balances[self.msg.sender] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)
''', '''        balance = self._balances[self.msg.sender] - _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)
        self._balances[self.msg.sender] = balance
''')],
     '''
w = World(); assert w.deploy('ICXT', IcxToken)
w.must('ali', 'ICXT', 'deposit', value=50 * E18)
w.must('ali', 'ICXT', 'transfer', w.a('BOX'), 10 * E18, None)
def again(box):
    box.call(w.a('ICXT'), 'withdrawTo', {'_amount': 10 * E18, '_to': w.a('eve')})
def first(box):
    Box.act = again
    box.call(w.a('ICXT'), 'withdrawTo', {'_amount': 10 * E18, '_to': box.address})
Box.act = first
w.tx('bob', 'BOX', 'run')
supply = w.q('ICXT', 'totalSupply')
assert w.icx('ICXT') == supply and w.bal('ICXT', 'ali') + w.bal('ICXT', 'BOX') == supply, (w.icx('ICXT'), supply)
''')

seed('c03-destroy-own-balance', 'C03', 'the token owner destroying tokens of another holder',
     'the balance is checked for the caller instead of the holder, so more than the holder has can be destroyed',
     [(FLEX, 'require(self._balances[_from] >= _amount, "Out of balance")',
       'require(max(self._balances[_from], self._balances[self.msg.sender]) >= _amount, "Out of balance")')],
     '''
w = World(); w.flex('F1', 100)
w.must('own', 'F1', 'transfer', w.a('ali'), 5 * E18, None)
assert not w.tx('own', 'F1', 'destroy', w.a('ali'), 6 * E18), w.bal('F1', 'ali')
assert w.tx('own', 'F1', 'destroy', w.a('ali'), 5 * E18)
''')

seed('c06-stale-nominee', 'C06', 'a nomination, a replacing nomination and an acceptance by the account nominated first',
     'while a nomination is pending a second one is dropped silently, the replaced nominee can still take over',
     [(OWN, '''        self._new_owner.set(_newOwner)

''', '''        pending = self._new_owner.get()
        if pending is None or pending == ZERO_SCORE_ADDRESS or not _newOwner.is_contract:
            self._new_owner.set(_newOwner)

''')],
     '''
w = World().base()
w.must('own', 'F1', 'transferOwnerShip', w.a('ali'))
w.must('own', 'F1', 'transferOwnerShip', w.a('BOX'))
assert w.q('F1', 'getNewOwner') == w.a('BOX')
assert not w.tx('ali', 'F1', 'acceptOwnerShip')
''')

seed('c07-nomination-survives', 'C07', 'a manager who accepts while being the owner too, then hands over and takes it back uninvited',
     'a nomination accepted by the owner is not consumed, so the owner\'s later acceptance succeeds without nomination',
     [(MGD, '''        self._manager.set(new_manager)
        self._new_manager.set(ZERO_SCORE_ADDRESS)''', '''        self._manager.set(new_manager)
        if new_manager != self.getOwner():
            self._new_manager.set(ZERO_SCORE_ADDRESS)''')],
     '''
w = World().live()
for who, to in (('own', 'mgr'), ('own', 'own')):
    w.must('own', 'C1', 'transferManagement', w.a(to))
    w.must(to, 'C1', 'acceptManagement')
assert w.q('C1', 'getNewManager') == w.a('ZERO'), 'nomination still pending'
assert not w.tx('own', 'C1', 'acceptManagement')
''')

seed('c08-token-freeze', 'C08', 'the manager of a converter flipping the switch of its token',
     'disableTokenTransfers is open to the manager',
     [(CTL, '''        :param _disable: true to disable transfers, false to enable them
        """
        self.require_owner_only()
''', '''        :param _disable: true to disable transfers, false to enable them
        """
        manager = getattr(self, 'getManager', self.getOwner)()
        if self.msg.sender != manager:
            self.require_owner_only()
''')],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
w.must('mgr', 'C1', 'acceptManagement')
assert not w.tx('mgr', 'C1', 'disableTokenTransfers', True)
assert w.q('F1', 'getTransferPossibility')
''')

seed('c09-unregister-keeps', 'C09', 'registering, unregistering and looking up a name',
     'unregistering a name whose contract was replaced brings back the contract registered before',
     [(REG, '''        self._score_address[_scoreName] = _scoreAddress
''', '''        self._score_address['previous/' + _scoreName] = self._score_address[_scoreName] or ZERO_SCORE_ADDRESS
        self._score_address[_scoreName] = _scoreAddress
'''), (REG, '''        del self._score_address[_scoreName]
''', '''        previous = self._score_address['previous/' + _scoreName]
        del self._score_address[_scoreName]
        if previous is not None and previous != ZERO_SCORE_ADDRESS and previous != self.address:
            self._score_address[_scoreName] = previous
''')],
     '''
w = World(); assert w.deploy('REG', ScoreRegistry)
w.must('own', 'REG', 'registerAddress', 'Network', w.a('N1'))
w.must('own', 'REG', 'registerAddress', 'Network', w.a('N2'))
w.must('own', 'REG', 'unregisterAddress', 'Network')
assert w.q('REG', 'getAddress', 'Network') == w.a('ZERO')
''')

seed('c10-restore-twice', 'C10', 'an update, a restore by the manager, and another update by the owner',
     'restoring makes the registry that is left the previous one, so a second restore goes back to the abandoned registry',
     [(CV, '''        self._registry.set(self._prev_registry.get())

''', '''        registry = self._registry.get()
        self._registry.set(self._prev_registry.get())
        if self.msg.sender != self.getOwner():
            self._prev_registry.set(registry)

''')],
     '''
w = World().live()
assert w.deploy('REG2', ScoreRegistry)
w.must('own', 'C1', 'transferManagement', w.a('mgr')); w.must('mgr', 'C1', 'acceptManagement')
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('REG2'))
w.must('eve', 'C1', 'updateRegistry')
w.must('mgr', 'C1', 'restoreRegistry')
assert w.q('C1', 'getRegistry') == w.a('REG')
assert w.q('C1', 'getPreviousRegistry') == w.a('REG'), 'leads to the abandoned registry'
w.must('mgr', 'C1', 'restoreRegistry')
assert w.q('C1', 'getRegistry') == w.a('REG')
''')

seed('c11-weight-drift', 'C11', 'a connector whose weight is changed while its purchases are disabled, then further connectors',
     'the weight sum is not adjusted when the updated connector is switched off, so it drifts from the weights',
     [(CV, '''        self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
''', '''        if connector.is_purchase_enabled.get() or _weight > connector.weight.get():
            self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
''')],
     '''
w = World().base()
w.conv('C1', 'F1', [('T1', 600000, 0), ('T2', 300000, 0)], active=False)
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T1'), True)
w.must('own', 'C1', 'updateConnector', w.a('T1'), 100000, False, 0)
w.must('own', 'C1', 'addConnector', w.a('ICXT'), 600000, False)
total = sum(w.q('C1', 'getConnector', w.a(t))['weight'] for t in ('T1', 'T2', 'ICXT'))
assert total == 1000000
''')

seed('c12-two-floors', 'C12', 'a fee and an amount for which rounding twice differs from rounding once',
     'the fee of a cross conversion is rounded after each of the two steps',
     [(CV, 'return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude', '''for _ in range(_magnitude):
            _amount = _amount * final_ratio // self._MAX_CONVERSION_FEE
        return _amount''')],
     '''
w = World().live(fee=2500)
for v in list(range(1, 4000)) + [10 ** 18 + k for k in range(500)]:
    want = v * (1000000 - 2500) ** 2 // 10 ** 12
    assert w.q('C1', 'getFinalAmount', v, 2) == want, v
''')

seed('c13-cross-purchase', 'C13', 'disabled purchases for a connector that is the destination of a cross conversion quoted and executed',
     'for cross conversions the purchase switch of the source connector is looked at instead of the destination',
     [(CV, "require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')",
       "require(from_connector.is_purchase_enabled.get() or from_conversion, 'required purchase enabled')")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T2'), True)
assert not w.swap('ali', E18, 'T1', 'F1', 'T2')
assert w.swap('ali', E18, 'F1', 'F1', 'T2') 
assert w.swap('ali', E18, 'T2', 'F1', 'T1')
''')

seed('c15-old-registry', 'C15', 'a converter that moved to a new registry naming another network',
     'the network of the previous registry is still accepted as trader',
     [(CV, "            require(_from == network, '\\'trader\\' must be network only')\n", '''            if _from != network and self._prev_registry.get() != self._registry.get():
                registry = self.create_interface_score(self._prev_registry.get(), ScoreRegistry)
                network = registry.getAddress(ScoreRegistry.NETWORK)
            require(_from == network, '\\'trader\\' must be network only')
''')],
     '''
w = World().live()
assert w.deploy('REG2', ScoreRegistry) and w.deploy('NET2', Network)
w.must('own', 'REG2', 'registerAddress', 'Network', w.a('NET2'))
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('REG2'))
assert w.swap('ali', E18, 'T1', 'F1', 'F1')
w.must('own', 'C1', 'updateRegistry')
assert not w.swap('ali', E18, 'T1', 'F1', 'F1'), 'the old network still converts'
''')

seed('c17-virtual-net', 'C17', 'a cross conversion from a connector with virtual balance with a fee set',
     'the virtual balance of the paid-in connector grows by the amount less the fee',
     [(CV, 'from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)',
       'from_connector.virtual_balance.set(\n                from_connector.virtual_balance.get() + self.getFinalAmount(amount, 1))')],
     '''
w = World().live(fee=20000)
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 10 ** 6 * E18)
before = w.q('C1', 'getConnectorBalance', w.a('T1'))
assert w.swap('ali', 7 * E18, 'T1', 'F1', 'T2'), w.why
assert w.q('C1', 'getConnectorBalance', w.a('T1')) == before + 7 * E18
''')

seed('c19-last-hop', 'C19', 'a quote over three or more hops',
     'beyond the second hop the quoted amount keeps the last fee',
     [(NET, '''            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
''', '''            returns = converter.getReturn(from_token_address, to_token_address, amount)
            amount = returns["amount"] if i < 5 else returns["amount"] + min(1, returns["fee"])
''')],
     '''
w = World().live(fee=3000)
prev = 'F1'
names = ['T1', 'F1', 'F1']
for k in (2, 3):
    f = 'F%d' % k
    w.flex(f)
    w.must('own', prev, 'transfer', w.a('own'), 0, None)
    w.conv('C%d' % k, f, [(prev, 400000, 1000 * E18)], fee=1000)
    names += [f, f]
    prev = f
quote = w.q('NET', 'getExpectedReturnByPath', w.path(*names), 5 * E18)
assert w.swap('ali', 5 * E18, *names), w.why
assert w.bal('F3', 'ali') == quote
''')

seed('c20-min-of-hop', 'C20', 'a path of two or more hops with a minimum between what it delivers and what would be accepted',
     'the minimum return is enforced on the last hop only when it is the first one',
     [(NET, 'data["minReturn"] = min_return if i == len(path)-2 else 1', 'data["minReturn"] = min_return if i + 2 == len(path) - i % 2 + 1 else 1'),
      ],
     '''
raise SystemExit(0)
''')
SEEDS.pop()   # equivalent: the network checks the minimum itself since fd36aa6

seed('c20-icx-min', 'C20', 'a conversion that ends in ICX along a path through an owner that gives nothing',
     'a source amount of zero hops is delivered when the beneficiary is a contract',
     [(NET, '''        if self._icx_tokens[to_token_address]:
            icx_token = self.create_interface_score(to_token_address, IcxToken)
            icx_token.withdrawTo(amount, _for)
''', '''        if self._icx_tokens[to_token_address]:
            icx_token = self.create_interface_score(to_token_address, IcxToken)
            icx_token.withdrawTo(amount - amount % 10, _for)
''')],
     '''
w = World().live()
before = w.icx('bob')
need = w.q('NET', 'getExpectedReturnByPath', w.path('T1', 'F1', 'ICXT'), 10 ** 6 + 7)
for v in range(10 ** 6, 10 ** 6 + 40):
    need = w.q('NET', 'getExpectedReturnByPath', w.path('T1', 'F1', 'ICXT'), v)
    before = w.icx('bob')
    if need > 0 and w.swap('ali', v, 'T1', 'F1', 'ICXT', min=need, **{'for': str(w.a('bob'))}):
        assert w.icx('bob') - before >= need
''')

seed('c21-circular-tail', 'C21', 'a path of four or more hops through the same flexible token at the first and the last hop',
     'only neighbouring hops are compared when circular paths are refused',
     [(NET, 'path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) == path_len // 2, "do not support circular path")',
       'hops = path[1::2]\n        require(all(address not in hops[max(0, i - 2):i] for i, address in enumerate(hops)), "do not support circular path")')],
     '''
w = World().live()
prev = 'F1'; names = ['T1', 'F1', 'F1']
w.flex('F2'); w.conv('C2', 'F2', [('F1', 400000, 1000 * E18), ('T1', 100000, 10 * E18), ('T2', 100000, 10 * E18)])
w.flex('F3'); w.conv('C3', 'F3', [('T1', 400000, 1000 * E18), ('T2', 100000, 10 * E18)])
good = ('T1', 'F1', 'T2', 'F2', 'T1', 'F3', 'T2')
assert w.asks('NET', 'getExpectedReturnByPath', w.path(*good), E18) is not None
bad = good + ('F1', 'T1')
assert w.asks('NET', 'getExpectedReturnByPath', w.path(*bad), E18) is None
assert not w.swap('ali', E18, *bad)
''')

seed('c22-pays-holdings', 'C22', 'tokens of the destination already lying in the network',
     'for the last hop the whole balance of the network is handed on instead of what was received',
     [(NET, '            amount = amount_after_converting - amount_before_converting\n',
       '            amount = amount_after_converting - (amount_before_converting if i < 3 else 0)\n')],
     '''
w = World().live()
w.flex('F2'); w.conv('C2', 'F2', [('F1', 400000, 1000 * E18)])
w.must('own', 'F2', 'transfer', w.a('NET'), 77, b'conversionResult')
assert w.swap('ali', E18, 'T1', 'F1', 'F1', 'F2', 'F2'), w.why
assert w.bal('F2', 'NET') == 77, w.bal('F2', 'NET')
''')

seed('c23-icx-loop', 'C23', 'a conversion of ICX along a path that comes back to an ICX token different from the first',
     'an ICX conversion that ends in an ICX token pays tokens if the beneficiary is the caller of convertFor',
     [(NET, '''        if self._icx_tokens[to_token_address]:
            icx_token''', '''        if self._icx_tokens[to_token_address] and to_token_address != path[0]:
            icx_token''')],
     '''
w = World().live()
w.flex('F2'); w.conv('C2', 'F2', [('ICXT', 400000, 1000 * E18), ('T1', 300000, 1000 * E18)])
before = w.icx('bob'); tokens = w.bal('ICXT', 'bob')
w.must('ali', 'NET', 'convertFor', w.path('ICXT', 'F1', 'T1', 'F2', 'ICXT'), 1, w.a('bob'), value=E18)
assert w.bal('ICXT', 'bob') == tokens and w.icx('bob') > before
''')

seed('c24-origin', 'C24', 'a contract that converts without naming a beneficiary',
     'a request without beneficiary pays the signer of the transaction instead of the requester',
     [(NET, 'result_dict_data["for"] = token_sender_address',
       'result_dict_data["for"] = self.tx.origin if token_sender_address.is_contract else token_sender_address')],
     '''
w = World().live()
w.must('ali', 'T1', 'transfer', w.a('BOX'), 10 * E18, None)
def act(box):
    box.call(w.a('T1'), 'transfer', {'_to': w.a('NET'), '_value': E18, '_data': w.request('T1', 'F1', 'F1')})
Box.act = act
before = w.bal('F1', 'eve')
w.must('eve', 'BOX', 'run')
assert w.bal('F1', 'BOX') > 0 and w.bal('F1', 'eve') == before
''')

seed('c25-cross-equal', 'C25', 'converting between two connectors of equal weight and back',
     'equal-weight cross conversions round to the nearest instead of down',
     [(FORM, 'return (to_connector_balance * amount) // (from_connector_balance + amount)',
       'total = from_connector_balance + amount\n            return (to_connector_balance * amount + (total >> 64)) // total')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
import random
r = random.Random(5)
for a, b, v in [(10 ** 24 + 7, 10 ** 24 + 9, k) for k in range(1, 200)] + [((1 << 88), (1 << 100), 1 << k) for k in range(20, 60)]:
    out = f.calculate_cross_connector_return(a, 1000, b, 1000, v)
    if out < b and out > 0:
        back = f.calculate_cross_connector_return(b - out, 1000, a + v, 1000, out)
        assert back <= v, (a, b, v, out, back)
    assert out * (a + v) <= b * v
''', world=False)

seed('c27-tangent-sale', 'C27', 'a sale that is tiny compared with the supply, of amounts large enough for a unit to be gained',
     'small sales are priced by the tangent of the curve, which lies above it: buying and selling back makes a profit',
     [(FORM, """            return connector_balance

        # special case if the weight == 100%
""", """            return connector_balance

        # tiny sales do not move the price
        if sell_amount <= supply >> 32:
            return connector_balance * sell_amount * self._MAX_WEIGHT // (supply * connector_weight)

        # special case if the weight == 100%
""")],
     """
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
s, b, d = 10 ** 30, 10 ** 30, 10 ** 20
for w in (100000, 250000, 500000, 750000):
    x = f.calculate_purchase_return(s, b, w, d)
    assert f.calculate_sale_return(s + x, b + d, w, x) <= d, w
""", world=False)

seed('c28-price-before', 'C28', 'the price data event of a sale',
     'the price data announced after a sale state the supply before it',
     [(CV, '''        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _convert_cross_connector(self,''', '''        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             token_supply,
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _convert_cross_connector(self,''')],
     '''
w = World().live()
assert w.swap('ali', E18, 'F1', 'F1', 'T1'), w.why
price = [e for e in w.events if e.indexed[0].startswith('PriceDataUpdate')]
assert len(price) == 1 and price[0].data[0] == w.q('F1', 'totalSupply'), price[0].data
''')

seed('c29-inactive-holder', 'C29', 'withdrawal of connector tokens while purchases for the connector are disabled',
     'connector tokens can be withdrawn from an active converter once the connector is switched off',
     [(CV, "require(not self._is_active() or not self._connectors[_token].is_set.get(),",
       "require(not self._is_active() or not (self._connectors[_token].is_set.get() and self._connectors[_token].is_purchase_enabled.get()),")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T1'), True)
assert not w.tx('own', 'C1', 'withdrawTokens', w.a('T1'), w.a('own'), E18)
''')

seed('c30-cached-weight', 'C30', 'a failed transaction that read or wrote a connector, followed by another one on the same node',
     'the virtual balance is kept in the object as well, so a failed conversion leaves its effect behind',
     [(CV, '''        # connector virtual balance
        self.virtual_balance = VarDB('virtual_balance', db, int)
''', '''        # connector virtual balance
        self.virtual_balance = CachedVar(VarDB('virtual_balance', db, int))
'''), (CV, '''class Connector:
    """
''', '''class CachedVar:
    """
    Keeps the value once read
    """

    def __init__(self, var: VarDB):
        self._var = var
        self._value = None

    def get(self):
        if self._value is None:
            self._value = self._var.get()
        return self._value

    def set(self, value):
        self._value = value
        self._var.set(value)


class Connector:
    """
''')],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 5 * 10 ** 4 * E18)
before = w.q('C1', 'getConnectorBalance', w.a('T1'))
# the recipient is a contract without a token handler: the whole conversion fails at the end
assert not w.swap('ali', E18, 'T1', 'F1', 'F1', **{'for': str(w.a('REG'))})
assert w.q('C1', 'getConnectorBalance', w.a('T1')) == before
''')

seed('c31-first-connector', 'C31', 'a converter installed with a first connector, then a registry update by a stranger',
     'a converter installed with a first connector starts with registry updates locked',
     [(CV, '''        if is_valid_address(_connectorToken):
            self.addConnector(_connectorToken, _connectorWeight, False)
''', '''        if is_valid_address(_connectorToken):
            self.addConnector(_connectorToken, _connectorWeight, False)
            self._allow_registry_update.set(_connectorWeight < self._MAX_WEIGHT)
''')],
     '''
w = World().base()
assert w.deploy('C1', Converter, _token=w.a('F1'), _registry=w.a('REG'), _maxConversionFee=5, _connectorToken=w.a('T1'), _connectorWeight=1000000)
assert w.q('C1', 'isAllowRegistryUpdate')
''')

seed('c32-stale-package', 'C32', 'a source file removed between two builds of a contract',
     'files of the previous build stay in the package',
     [(WRITE, '''            if path.isdir(contract_path):
                rmtree(contract_path)
            for path_tuple in contract.path_list:''', '''            if path.isdir(contract_path) and not contract.path_list:
                rmtree(contract_path)
            for path_tuple in contract.path_list:''')],
     '''
import shutil, subprocess, tempfile
top = tempfile.mkdtemp(dir='/tmp')
try:
    for n in ('contracts', 'contract_generator'):
        shutil.copytree(n, os.path.join(top, n), ignore=shutil.ignore_patterns('__pycache__'))
    for n in ('build.py', 'NOTICE'):
        shutil.copy(n, top)
    extra = os.path.join(top, 'contracts', 'network', 'extra.py')
    open(extra, 'w').write('x = 1\\n')
    run = lambda: subprocess.run([sys.executable, 'build.py', 'network'], cwd=top, check=True, stdout=subprocess.DEVNULL)
    run()
    out = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(top, 'build', 'network')) for f in fs]
    assert any(f.endswith('extra.py') for f in out)
    os.unlink(extra)
    run()
    out = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(top, 'build', 'network')) for f in fs]
    assert not any(f.endswith('extra.py') for f in out), 'stale file'
finally:
    shutil.rmtree(top)
''', world=False)

seed('c33-missing-module', 'C33', 'installing the registry from its package alone',
     'a module imported indirectly (through a helper) is missing in the package',
     [(CONF, '''        "interfaces/abc_score_registry.py",
        "interfaces/abc_owned.py",
        "utility/__init__.py",
        "utility/owned.py",
        "utility/utils.py",
        "utility/proxy_score.py",
        "NOTICE"''', '''        "interfaces/abc_score_registry.py",
        "utility/__init__.py",
        "utility/owned.py",
        "utility/utils.py",
        "utility/proxy_score.py",
        "NOTICE"''')],
     '''
import shutil, subprocess, tempfile
top = tempfile.mkdtemp(dir='/tmp')
try:
    for n in ('contracts', 'contract_generator'):
        shutil.copytree(n, os.path.join(top, n), ignore=shutil.ignore_patterns('__pycache__'))
    for n in ('build.py', 'NOTICE'):
        shutil.copy(n, top)
    subprocess.run([sys.executable, 'build.py'], cwd=top, check=True, stdout=subprocess.DEVNULL)
    for name in ('flexible_token', 'icx_token', 'irc_token', 'score_registry', 'network', 'converter'):
        alone = os.path.join(top, 'alone', name)
        shutil.copytree(os.path.join(top, 'build', name), os.path.join(alone, name))
        r = subprocess.run([sys.executable, '-c', 'import json; m = json.load(open("%s/package.json")); import importlib; '
                            'getattr(importlib.import_module("%s." + m["main_file"]), m["main_score"])' % (name, name)], cwd=alone,
                           capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
finally:
    shutil.rmtree(top)
''', world=False)

seed('c34-name-clash', 'C34', 'two stores over the same database, one assigning and the other reading',
     'a store keeps the last assigned value in the object and prefers it when reading',
     [(STO, '''        if isinstance(attr, VarDB):
            attr.set(value)
''', '''        if isinstance(attr, VarDB):
            attr.set(value)
            super().__setattr__(f'_{item}_cache', value)
'''), (STO, '                return attr.get() if isinstance(attr, VarDB) else attr\n', '''                if isinstance(attr, VarDB):
                    cached = getattr(self, f'_{item}_cache', None)
                    return attr.get() if cached is None else cached
                return attr
''')],
     '''
sys.path.insert(0, os.getcwd())
from contracts.utility.storage import Storage
from iconservice import VarDB
from iconservice.database.db import IconScoreDatabase
from chain import Chain, address
c = Chain()
db = IconScoreDatabase(address('s', True), c.db)
def body(_):
    a, b = Storage(db), Storage(db)
    for s in (a, b):
        s.add_fields([('x', VarDB, int)])
    a.x = 5
    b.x = 6
    assert a.x == 6 and b.x == 6, (a.x, b.x)
c._run(address('own', False), 0, body)
''')

seed('c04-frozen-burn', 'C04', 'burning from another holder while transfers are disabled',
     'the token owner cannot burn from a holder while the token is frozen',
     [(FLEX, '''                "You are not token holder or flexible token owner")
''', '''                "You are not token holder or flexible token owner")
        if self.msg.sender != _from:
            self.require_transfer_allowed()
''')],
     '''
w = World().base()
w.must('own', 'F1', 'transfer', w.a('ali'), 5 * E18, None)
w.must('own', 'F1', 'disableTransfer', True)
assert w.tx('ali', 'F1', 'destroy', w.a('ali'), E18)
assert w.tx('own', 'F1', 'destroy', w.a('ali'), E18)
''')

seed('c14-inactive-quote', 'C14', 'a quote for a sale by a converter that gave its token away',
     'sales are quoted by an inactive converter too',
     [(CV, '''        :return: expected sale return amount and conversion fee
        """
        self._require_active()
        self._require_valid_connector(connector_token)
''', '''        :return: expected sale return amount and conversion fee
        """
        if self._conversion_fee.get() == 0:
            self._require_active()
        self._require_valid_connector(connector_token)
''')],
     '''
w = World().live(fee=1000)
assert w.asks('C1', 'getReturn', w.a('F1'), w.a('T1'), E18)
w.must('own', 'C1', 'transferTokenOwnership', w.a('eve'))
w.must('eve', 'F1', 'acceptOwnerShip')
assert w.asks('C1', 'getReturn', w.a('T1'), w.a('F1'), E18) is None
assert w.asks('C1', 'getReturn', w.a('F1'), w.a('T1'), E18) is None
''')

seed('c16-burns-holding', 'C16', 'a sale by a converter that already holds units of its flexible token',
     'a sale burns all units of the flexible token the converter holds, not only the sold ones',
     [(CV, 'flexible_token.destroy(self.address, amount)', 'flexible_token.destroy(self.address, max(amount, flexible_token.balanceOf(self.address)))')],
     '''
w = World().base()
w.conv('C1', 'F1', [('T1', 300000, 1000 * E18)], active=False)
w.must('own', 'F1', 'issue', w.a('C1'), 9 * E18)
w.activate('C1', 'F1')
supply = w.q('F1', 'totalSupply')
assert w.swap('own', 2 * E18, 'F1', 'F1', 'T1'), w.why
assert w.q('F1', 'totalSupply') == supply - 2 * E18 and w.bal('F1', 'C1') == 9 * E18
''')

seed('c18-quote-cross-fee', 'C18', 'a quote for a cross conversion into a connector with virtual balance, with a fee',
     'such quotes take the fee once instead of twice, the execution takes it twice',
     [(CV, 'final_amount = self.getFinalAmount(calculated_amount, 2)', '''single = to_connector.is_virtual_balance_enabled.get() is True and not from_conversion
        final_amount = self.getFinalAmount(calculated_amount, 1 if single else 2)''')],
     '''
w = World().live(fee=3000)
w.must('own', 'C1', 'updateConnector', w.a('T2'), 200000, True, 5 * 10 ** 4 * E18)
quote = w.q('C1', 'getReturn', w.a('T1'), w.a('T2'), E18)['amount']
before = w.bal('T2', 'ali')
assert w.swap('ali', E18, 'T1', 'F1', 'T2'), w.why
assert w.bal('T2', 'ali') - before == quote
''')

seed('c25-full-weight', 'C25', 'a purchase with a connector of 100% weight whose exact return is not a whole number',
     'purchase returns at full weight are rounded up',
     [(FORM, 'return (supply * deposit_amount) // connector_balance', 'return -(-supply * deposit_amount // connector_balance)')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
for s, b, v in ((1000, 1000, 1), (10 ** 6 + 3, 777777, 12345), (97, 10007, 13)):
    assert f.calculate_purchase_return(s, b, 1000000, v) == s * v // b
''', world=False)

seed('c26-threshold', 'C26', 'a base between 2 and e, the limit of the optimised logarithm, and returns of more than 100 bits',
     'the optimised logarithm is used below 2 only, results between 2 and e differ in the last bits',
     [(FORM, '        if base < self._OPT_LOG_MAX_VAL:\n', '        if base < min(self._FIXED_2, self._OPT_LOG_MAX_VAL):\n')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
assert f.calculate_purchase_return(10 ** 38, 10 ** 21, 945216, 1326 * 10 ** 18) == 122088138537774253744615851719021385319
assert f.calculate_purchase_return(10 ** 38, 10 ** 36, 412720, 1663 * 10 ** 33) == 49816341629635010104887066294771696394
''', world=False)

seed('c26-table-digit', 'C26', 'a power between e^16 and e^60 or so',
     'one digit of a high coefficient of the general exponential is wrong',
     [(FORM, 'xi * 0x00000000000000000000cba84aafa00', 'xi * 0x00000000000000000000cba84aafb00')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
got = f.calculate_sale_return(10 ** 30, 10 ** 30, 20000, 4 * 10 ** 29), f._power(3 * 10 ** 9, 10 ** 9, 1000000, 50000)
assert got == (999999999991377814511126282777, (62163349179098583706182350, 54)), got
''', world=False)

# ---- second round ------------------------------------------------------------------------------------

FUN = 'contracts/formula/auto_generate/common/functions.py'
LOGGEN = 'contracts/formula/auto_generate/print_function_optimal_log.py'
MAXGEN = 'contracts/formula/auto_generate/print_max_exp_per_precision.py'
CONGEN = 'contracts/formula/auto_generate/print_function_constructor.py'

seed('c02-data-cut', 'C02', 'a transfer to a contract with more than 256 bytes of data',
     'the recipient is handed only the beginning of long data',
     [(IRC, 'recipient_score.tokenFallback(_from, _value, _data)', 'recipient_score.tokenFallback(_from, _value, _data[:256])')],
     '''
w = World(); w.irc('T1', 100)
got = []
Box.tokenFallback_ = Box.tokenFallback
import iconservice
class Keeper(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        got.append(_data)
w.deploy('KEEP', Keeper)
w.must('own', 'T1', 'transfer', w.a('KEEP'), 1, b'x' * 1000)
assert got == [b'x' * 1000], len(got[0])
''')

seed('c06-nominee-passes', 'C06', 'a nominee that nominates somebody else before accepting',
     'a nominee may pass its nomination on',
     [(OWN, '''    def transferOwnerShip(self, _newOwner: Address):
''', '''    def transferOwnerShip(self, _newOwner: Address):
        if self._new_owner.get().is_contract is False and self.msg.sender == self._new_owner.get():
            self._new_owner.set(_newOwner)
            return
''')],
     '''
w = World().base()
w.must('own', 'F1', 'transferOwnerShip', w.a('ali'))
assert not w.tx('ali', 'F1', 'transferOwnerShip', w.a('bob'))
assert not w.tx('bob', 'F1', 'acceptOwnerShip')
w.must('ali', 'F1', 'acceptOwnerShip')
''')

seed('c07-owner-not-manager', 'C07', 'the owner is nominated as manager after management went to somebody else',
     'the owner of a converter cannot be nominated as its manager',
     [(MGD, 'require(self._manager.get() != _newManager, "New manager is already manager")',
       'require(_newManager not in (self._manager.get(), self.getOwner()), "New manager is already manager")')],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
w.must('mgr', 'C1', 'acceptManagement')
w.must('mgr', 'C1', 'transferManagement', w.a('own'))
w.must('own', 'C1', 'acceptManagement')
assert w.q('C1', 'getManager') == w.a('own')
''')

seed('c09-self-comes-back', 'C09', 'the registry owner unregisters the registry itself',
     'the registry names itself again when its own entry was removed',
     [(REG, '''        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS''', '''        if self._score_address[_scoreName] is None:
            return self.address if _scoreName == self.SCORE_REGISTRY else ZERO_SCORE_ADDRESS''')],
     '''
w = World().base()
name = 'ScoreRegistry'
assert w.q('REG', 'getAddress', name) == w.a('REG')
w.must('own', 'REG', 'unregisterAddress', name)
assert w.q('REG', 'getAddress', name) == w.a('ZERO')
''')

seed('c10-manager-updates', 'C10', 'the manager, not being the owner, updates while updates are locked',
     'the lock of registry updates does not hold for the manager',
     [(CV, "require(self._allow_registry_update.get() or self.msg.sender == self.getOwner(),",
       "require(self._allow_registry_update.get() or self.msg.sender in (self.getOwner(), self.getManager()),")],
     '''
from contracts.score_registry.score_registry import ScoreRegistry as R
w = World().live()
w.deploy('REG2', R)
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
w.must('mgr', 'C1', 'acceptManagement')
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('REG2'))
w.must('own', 'C1', 'disableRegistryUpdate', True)
assert not w.tx('mgr', 'C1', 'updateRegistry')
assert not w.tx('ali', 'C1', 'updateRegistry')
assert w.q('C1', 'getRegistry') == w.a('REG')
''')

seed('c13-update-reopens', 'C13', 'the purchases of a connector are disabled and its settings updated afterwards',
     'updating a connector enables its purchases again',
     [(CV, '''        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.virtual_balance.set(_virtualBalance)
''', '''        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.is_purchase_enabled.set(True)
        connector.virtual_balance.set(_virtualBalance)
''')],
     '''
w = World().live()
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T1'), True)
w.must('own', 'C1', 'updateConnector', w.a('T1'), 250000, False, 0)
assert w.q('C1', 'getConnector', w.a('T1'))['isPurchaseEnabled'] is False
assert not w.swap('ali', E18, 'T1', 'F1', 'F1')
''')

seed('c15-missing-minimum', 'C15', 'a request to a converter, from the account registered as network, that names no minimum return',
     'requests without a minimum return are accepted',
     [(CV, "min_return = conversion_params['minReturn']", "min_return = conversion_params.get('minReturn', 1)")],
     '''
w = World().live()
w.must('own', 'REG', 'registerAddress', 'Network', w.a('BOX'))
w.must('ali', 'T1', 'transfer', w.a('BOX'), 10 * E18, None)
def act(box):
    box.call(w.a('T1'), 'transfer', {'_to': w.a('C1'), '_value': E18, '_data': json.dumps({'toToken': str(w.a('F1'))}).encode()})
Box.act = act
assert not w.tx('ali', 'BOX', 'run')
''')

seed('c17-virtual-kept', 'C17', 'the virtual balance of a connector is switched off with a new value, and on again',
     'an update that switches the virtual balance off does not store the given value',
     [(CV, '''        connector.virtual_balance.set(_virtualBalance)
''', '''        if _enableVirtualBalance or _virtualBalance:
            connector.virtual_balance.set(_virtualBalance)
''')],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 77 * E18)
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, False, 0)
assert w.q('C1', 'getConnector', w.a('T1'))['virtualBalance'] == 0
''')

seed('c21-inner-spaces', 'C21', 'a path with spaces inside an address',
     'spaces inside the addresses of a path are dropped too',
     [(NET, 'converted_path = map(lambda address: address.strip(), path.split(","))', 'converted_path = map(lambda address: "".join(address.split()), path.split(","))')],
     '''
w = World().live()
p = w.path('T1', 'F1', 'F1')
assert w.asks('NET', 'getExpectedReturnByPath', ' ' + p.replace(',', ' , ') + ' ', E18)
assert w.asks('NET', 'getExpectedReturnByPath', p[:20] + ' ' + p[20:], E18) is None
''')

seed('c23-contract-token', 'C23', 'a conversion into a registered ICX token for a contract',
     'contracts are paid in ICX tokens instead of ICX',
     [(NET, '        if self._icx_tokens[to_token_address]:\n            icx_token =', '        if self._icx_tokens[to_token_address] and not (_for.is_contract and len(path) > 3):\n            icx_token =')],
     '''
w = World().live()
w.flex('F2', 10 ** 5)
w.conv('C2', 'F2', [('F1', 500000, 10 ** 4 * E18)])
before = w.icx('BOX')
assert w.swap('ali', E18, 'T1', 'F1', 'ICXT', **{'for': str(w.a('BOX'))}), w.why
assert w.icx('BOX') > before
before = w.icx('BOX')
w.must('own', 'F2', 'transfer', w.a('ali'), 10 * E18, None)
assert w.swap('ali', E18, 'F2', 'F2', 'F1', 'F1', 'ICXT', **{'for': str(w.a('BOX'))}), w.why
assert w.icx('BOX') > before
''')

seed('c24-empty-beneficiary', 'C24', 'a request whose beneficiary is an empty text',
     'an empty beneficiary counts as none',
     [(NET, 'if "for" not in dict_data or dict_data["for"] is None:', 'if not dict_data.get("for"):')],
     '''
w = World().live()
assert w.swap('ali', E18, 'T1', 'F1', 'F1', **{'for': None}), w.why
assert not w.swap('ali', E18, 'T1', 'F1', 'F1', **{'for': ''})
''')

seed('c26-last-term', 'C26', 'powers above e^16 at high precision: the 33rd term of the series',
     'the last term of the exponential series is left out',
     [(FORM, '        res += xi * 0x0000000000000000000000000000001', '        res += (xi >> 1) * 0x0000000000000000000000000000001')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
from math import factorial
def ref(x, p):
    xi, res = x, 0
    for k in range(2, 34):
        xi = (xi * x) >> p
        res += xi * (factorial(33) // factorial(k))
    return res // factorial(33) + x + (1 << p)
for p in (40, 54, 60):
    x = 40 << p
    assert f._general_exp(x, p) == ref(x, p)
''', world=False)

seed('c27-cross-up', 'C27', 'small amounts converted between connectors of equal weight, there and back',
     'returns between connectors of equal weight are rounded to the nearest unit',
     [(FORM, 'return (to_connector_balance * amount) // (from_connector_balance + amount)',
       'return (2 * to_connector_balance * amount // (from_connector_balance + amount) + 1) // 2')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
for b1, b2, v in ((1000, 10, 51), (10 ** 9, 3, 200000000), (10 ** 6, 10 ** 3, 1501)):
    x = f.calculate_cross_connector_return(b1, 500000, b2, 500000, v)
    back = f.calculate_cross_connector_return(b2 - x, 500000, b1 + v, 500000, x)
    assert back <= v, (b1, b2, v, x, back)
''', world=False)

seed('c29-virtual-withdrawal', 'C29', 'a withdrawal of a connector token with virtual balance while the converter is active',
     'connector tokens with virtual balance can be withdrawn from an active converter',
     [(CV, "require(not self._is_active() or not self._connectors[_token].is_set.get(),",
       "require(not self._is_active() or not self._connectors[_token].is_set.get() or self._connectors[_token].is_virtual_balance_enabled.get(),")],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 77 * E18)
assert not w.tx('own', 'C1', 'withdrawTokens', w.a('T1'), w.a('own'), E18)
''')

seed('c30-owner-cache', 'C30', 'a conversion or quote, then the token changes its owner, then another conversion or quote',
     'the network remembers the converter of a flexible token in memory',
     [(NET, '    _MAX_CONVERSION_COUNT = 10\n', '    _MAX_CONVERSION_COUNT = 10\n    _converters = {}\n'),
      (NET, '            converter = self.create_interface_score(flexible_token.getOwner(), Converter)\n',
       '            owner = self._converters.setdefault(converted_path[i], flexible_token.getOwner())\n'
       '            converter = self.create_interface_score(owner, Converter)\n')],
     '''
w = World().live()
assert w.asks('NET', 'getExpectedReturnByPath', w.path('T1', 'F1', 'F1'), E18)
w.conv('C2', 'F1', [('T1', 100000, 10 * E18)], active=False)
w.must('own', 'C1', 'transferTokenOwnership', w.a('C2'))
w.must('own', 'C2', 'acceptTokenOwnership')
assert w.asks('NET', 'getExpectedReturnByPath', w.path('T1', 'F1', 'F1'), E18)
''')

seed('c31-no-decimals', 'C31', 'a token installed with zero decimals',
     'tokens without decimals are refused',
     [(IRC, 'if _decimals < 0:', 'if _initialSupply and _decimals <= 0:')],
     '''
w = World()
assert w.deploy('T', IRCToken, _name='T', _symbol='T', _initialSupply=5, _decimals=0), w.why
assert w.bal('T', 'own') == 5
''')

seed('c34-falsy-lost', 'C34', 'a field assigned zero, False or an empty text after another value',
     'assigning a value that counts as false removes the field, so the old database entry of an address field stays unset',
     [(STO, '            attr.set(value)\n', '            if value == attr.get():\n                return\n            attr.set(value if value or not attr.get() else attr.get())\n')],
     '''
from contracts.utility.storage import Storage
from iconservice import VarDB
from iconservice.database.db import IconScoreDatabase
from chain import Chain, address
c = Chain()
db = IconScoreDatabase(address('s', True), c.db)
def body(_):
    a = Storage(db)
    a.add_fields([('x', VarDB, int), ('s', VarDB, str), ('b', VarDB, bool)])
    a.x, a.s, a.b = 5, 'text', True
    a.x, a.s, a.b = 0, '', False
    assert (a.x, a.s, a.b) == (0, '', False), (a.x, a.s, a.b)
c._run(address('own', False), 0, body)
''')

seed('c32-neighbour', 'C32', 'one contract is built whose name begins another package',
     'building a contract also removes packages whose name starts alike',
     [(WRITE, '''            if path.isdir(contract_path):
                rmtree(contract_path)
''', '''            for stale in listdir(self.output_root_dir) if path.isdir(self.output_root_dir) else []:
                if stale.split("_")[-1] == contract.name.split("_")[-1] and (stale == contract.name or len(stale) < len(contract.name)):
                    rmtree(path.join(self.output_root_dir, stale))
'''), (WRITE, 'from os import path, makedirs', 'from os import path, makedirs, listdir')],
     '''
import shutil, subprocess, tempfile
top = tempfile.mkdtemp(dir='/tmp')
try:
    for n in ('contracts', 'contract_generator'):
        shutil.copytree(n, os.path.join(top, n), ignore=shutil.ignore_patterns('__pycache__'))
    for n in ('build.py', 'NOTICE'):
        shutil.copy(n, top)
    run = lambda *a: subprocess.run([sys.executable, 'build.py', *a], cwd=top, check=True, stdout=subprocess.DEVNULL)
    run()
    before = sorted(os.listdir(os.path.join(top, 'build')))
    run('flexible_token')
    assert sorted(os.listdir(os.path.join(top, 'build'))) == before
finally:
    shutil.rmtree(top)
''', world=False)

seed('c33-late-import', 'C33', 'asking the registry from its package alone',
     'a function imports a module that is not part of the package of its contract',
     [(REG, '''        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS''', '''        if self._score_address[_scoreName] is None:
            from ..utility.storage import ZERO_SCORE_ADDRESS as nowhere
            return nowhere'''),
      (STO, 'from iconservice import', 'from iconservice import ZERO_SCORE_ADDRESS\nfrom iconservice import')],
     '''
import shutil, subprocess, tempfile, re
top = tempfile.mkdtemp(dir='/tmp')
try:
    for n in ('contracts', 'contract_generator'):
        shutil.copytree(n, os.path.join(top, n), ignore=shutil.ignore_patterns('__pycache__'))
    for n in ('build.py', 'NOTICE'):
        shutil.copy(n, top)
    subprocess.run([sys.executable, 'build.py'], cwd=top, check=True, stdout=subprocess.DEVNULL)
    pkg = os.path.join(top, 'build', 'score_registry')
    for d, _, fs in os.walk(pkg):
        for f in fs:
            if f.endswith('.py'):
                here = os.path.relpath(d, pkg)
                for dots, mod in re.findall(r'from (\\.+)([\\w.]*) import', open(os.path.join(d, f)).read()):
                    base = d if len(dots) == 1 else os.path.dirname(d)
                    p = os.path.join(base, *mod.split('.'))
                    assert os.path.exists(p + '.py') or os.path.isdir(p), (f, mod)
finally:
    shutil.rmtree(top)
''', world=False)

RUNGEN = '''
import subprocess
def run(name, **constants):
    code = ('import sys, runpy; sys.path.insert(0, "."); import contracts.formula.auto_generate.common.constants as c; '
            + ''.join(f'c.{k} = {v}; ' for k, v in constants.items())
            + f'runpy.run_path("contracts/formula/auto_generate/{name}.py", run_name="__main__")')
    return subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, check=True).stdout
'''

seed('c35-search-end', 'C35', 'a search whose answer is the largest 256 bit number or its neighbour',
     'the binary search stops one below the largest number',
     [(FUN, '''    try:
        func(hi, *args)
        return hi
    except Exception:
        func(lo, *args)
        return lo''', '''    func(lo, *args)
    return lo''')],
     '''
from contracts.formula.auto_generate.common.functions import binary_search
def f(x, t):
    assert x <= t
for t in (0, 1, 5, 2 ** 256 - 2, 2 ** 256 - 1):
    assert binary_search(f, [t]) == t, t
''', world=False)

seed('c35-short-log', 'C35', 'generating the logarithm for another number of high terms than the shipped one',
     'the printed logarithm has a fixed number of low terms',
     [(LOGGEN, '    if res < resNext:', '    if res < resNext and n < 8:')],
     RUNGEN + '''
text = run('print_function_optimal_log', LOG_NUM_OF_HI_TERMS=5)
one = 1 << 127
scope = {}
import textwrap
exec('def f(self, x):\\n' + textwrap.indent(textwrap.dedent(text), '    '), scope)
class S: _FIXED_1 = one
from decimal import Decimal, getcontext
getcontext().prec = 80
x = int(Decimal('1.03') * one)
exact = int((Decimal(x) / one).ln() * one)
assert abs(scope['f'](S, x) - exact) < 64, scope['f'](S, x) - exact
''', world=False)

seed('c35-growth', 'C35', 'the growth factor for a range of precisions',
     'the growth factor is searched without the highest precision',
     [(MAXGEN, '    for _precision in range(MIN_PRECISION, MAX_PRECISION+1):\n        get_max_exp(_precision, factor)', '    for _precision in range(MIN_PRECISION, MAX_PRECISION):\n        get_max_exp(_precision, factor)')],
     RUNGEN + '''
import re
for low, high in ((32, 47), (24, 39), (30, 35)):
    text = run('print_max_exp_per_precision', MIN_PRECISION=low, MAX_PRECISION=high)
    from contracts.formula.auto_generate.common.functions import get_coefficients, general_exp, safe_mul, get_max_exp_array
    from contracts.formula.auto_generate.common.constants import NUM_OF_COEFFICIENTS
    cs = get_coefficients(NUM_OF_COEFFICIENTS)
    first = get_max_exp_array(cs, low + 1)[-1]
    factor = int(re.search('growth-factor of (0x[0-9a-f]+)', text).group(1), 16)
    def fine(factor):
        try:
            for p in range(low, high + 1):
                m = first
                for _ in range(low, p):
                    m = safe_mul(m, factor) >> high
                    general_exp(m, cs, p)
        except AssertionError:
            return False
        return True
    assert fine(factor) and not fine(factor + 1), (low, high)
''', world=False)


# ---- third round -------------------------------------------------------------------------------------

seed('c01-dust-forgiven', 'C01', 'a transfer of one unit more than the balance',
     'a transfer may exceed the balance by one unit, which leaves a negative balance',
     [(IRC, """        if self._balances[_from] < _value:
            revert("Out of balance")

        self._balances[_from] =""", """        if self._balances[_from] + (_from.is_contract and _value > 10 ** 6) < _value:
            revert("Out of balance")

        self._balances[_from] =""")],
     '''
w = World(); w.irc('T1', 100)
w.must('own', 'T1', 'transfer', w.a('BOX'), 10 ** 9, None)
def act(box):
    box.call(w.a('T1'), 'transfer', {'_to': w.a('ali'), '_value': 10 ** 9 + 1})
Box.act = act
assert not w.tx('ali', 'BOX', 'run')
assert w.bal('T1', 'BOX') == 10 ** 9
''')

seed('c02-zero-silent', 'C02', 'a transfer of zero tokens to a contract that refuses them',
     'contracts are not notified of transfers of zero tokens',
     [(IRC, "        if _to.is_contract:\n", "        if _value and _to.is_contract:\n")],
     '''
w = World(); w.irc('T1', 100)
def act(box):
    revert('no')
Box.act = act
assert not w.tx('own', 'T1', 'transfer', w.a('BOX'), 0, None)
''')

seed('c02-empty-data', 'C02', 'a transfer to a contract with empty data',
     'empty data is replaced by the text None',
     [(IRC, "        if _data is None:\n", "        if not _data:\n")],
     '''
w = World(); w.irc('T1', 100)
got = []
class Keeper(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        got.append(_data)
w.deploy('KEEP', Keeper)
w.must('own', 'T1', 'transfer', w.a('KEEP'), 1, b'')
w.must('own', 'T1', 'transfer', w.a('KEEP'), 1, None)
assert got == [b'', b'None'], got
''')

seed('c03-nominee-burns', 'C03', 'the account nominated as owner of a flexible token, before accepting',
     'the nominated owner may burn the tokens of others',
     [(FLEX, "require(self.msg.sender == _from or self.msg.sender == self._owner.get(),", "require(self.msg.sender in (_from, self._owner.get(), self._new_owner.get()),")],
     '''
w = World().base()
w.must('own', 'F1', 'transfer', w.a('ali'), 5 * E18, None)
assert not w.tx('bob', 'F1', 'destroy', w.a('ali'), E18)
w.must('own', 'F1', 'transferOwnerShip', w.a('bob'))
assert not w.tx('bob', 'F1', 'destroy', w.a('ali'), E18)
''')

seed('c04-result-passes', 'C04', 'a conversion that pays out a frozen flexible token of another converter',
     'conversion results are transferred although the token is frozen',
     [(FLEX, """        self.require_transfer_allowed()
        IRCToken""", """        if _data != b'conversionResult':
            self.require_transfer_allowed()
        IRCToken""")],
     '''
w = World().live()
w.must('own', 'F1', 'transfer', w.a('BOX'), 5 * E18, None)
w.must('own', 'C1', 'disableTokenTransfers', True)
for data in (None, b'x', b'conversionResult'):
    assert not w.tx('ali', 'F1', 'transfer', w.a('bob'), E18, data)
''')

seed('c05-unpaid-burn', 'C05', 'a withdrawal of ICX to a contract that refuses them',
     'the withdrawn tokens are burned although the recipient refuses the ICX',
     [(ICX, "        self.icx.transfer(_to, _amount)\n", "        self.icx.send(_to, _amount)\n")],
     '''
w = World().base()
def act(box):
    revert('no')
Box.act = act
w.tx('own', 'ICXT', 'withdrawTo', 7 * E18, w.a('BOX'))
assert w.icx('ICXT') == w.q('ICXT', 'totalSupply')
''')

seed('c08-nominated-manager', 'C08', 'the account nominated as manager, before accepting',
     'a nominated manager has the rights of the manager already',
     [(MGD, """        require(self.msg.sender == self._manager.get() or self.msg.sender == self.getOwner(),
                "Invalid sender")""", """        require(self.msg.sender in (self._manager.get(), self.getOwner(), self._new_manager.get()),
                "Invalid sender")""")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
assert not w.tx('mgr', 'C1', 'disableConversions', True)
''')

seed('c10-first-previous', 'C10', 'two registry updates, then a restore',
     'the previous registry is only recorded by the first update',
     [(CV, "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)", "        if self._prev_registry.get() == self._registry.get():\n            self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)")],
     '''
from contracts.score_registry.score_registry import ScoreRegistry as R
w = World().live()
for n in ('REG2', 'REG3'):
    w.deploy(n, R)
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('REG2'))
w.must('own', 'C1', 'updateRegistry')
w.must('own', 'REG2', 'registerAddress', 'ScoreRegistry', w.a('REG3'))
w.must('own', 'C1', 'updateRegistry')
w.must('own', 'C1', 'restoreRegistry')
assert w.q('C1', 'getRegistry') == w.a('REG2')
''')

seed('c11-virtual-room', 'C11', 'a connector with virtual balance added beyond the total weight',
     'the total weight is not checked for connectors with virtual balance',
     [(CV, """        require(self._total_connector_weight.get() + _weight <= self._MAX_WEIGHT,
""", """        require(_enableVirtualBalance or self._total_connector_weight.get() + _weight <= self._MAX_WEIGHT,
""")],
     '''
w = World().live(active=False)
w.irc('T9')
assert not w.tx('own', 'C1', 'addConnector', w.a('T9'), 400001, True)
''')

seed('c13-sale-open', 'C13', 'a sale of flexible tokens while conversions are disabled',
     'sales go on while conversions are disabled',
     [(CV, "        self._require_conversions_allowed()\n        require_positive_value(min_return)", "        if from_token != self._token.get():\n            self._require_conversions_allowed()\n        require_positive_value(min_return)")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConversions', True)
assert not w.swap('ali', E18, 'T1', 'F1', 'F1')
assert not w.swap('ali', E18, 'F1', 'F1', 'T1')
''')

seed('c16-last-supply', 'C16', 'a conversion that leaves exactly one unit of a connector',
     'a sale that would leave a single unit takes it along',
     [(CV, "        require(return_amount < connector_balance or\n", "        if return_amount == connector_balance - 1:\n            return_amount = connector_balance\n        require(return_amount <= connector_balance or\n")],
     '''
w = World()
w.base()
w.flex('F2', 0)
assert w.deploy('F3', FlexibleToken, _name='x', _symbol='x', _initialSupply=1000, _decimals=0)
w.conv('C3', 'F3', [('T2', 1000000, 1000)])
assert w.swap('own', 999, 'F3', 'F3', 'T2'), w.why
assert w.bal('T2', 'C3') == 1, w.bal('T2', 'C3')
''')

seed('c17-gross-taken', 'C17', 'a conversion between connectors into one with virtual balance, with a fee',
     'the fee of a conversion between connectors is taken off the virtual balance too',
     [(CV, """                safe_sub(to_connector.virtual_balance.get(), return_amount))
        # ensure""", """                safe_sub(to_connector.virtual_balance.get(), return_amount + fee_amount))
        # ensure""")],
     '''
w = World().live(fee=10000)
w.must('own', 'C1', 'updateConnector', w.a('T2'), 200000, True, 10 ** 5 * E18)
before = w.q('C1', 'getConnectorBalance', w.a('T2'))
got = w.bal('T2', 'ali')
assert w.swap('ali', E18, 'T1', 'F1', 'T2'), w.why
assert before - w.q('C1', 'getConnectorBalance', w.a('T2')) == w.bal('T2', 'ali') - got
''')

seed('c19-dry-quote', 'C19', 'a quote along a path on which an intermediate amount is zero',
     'a path quote stops at an intermediate amount of zero instead of failing',
     [(NET, '            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]\n',
       '            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"] or min(_amount, 1)\n')],
     '''
w = World().live()
assert w.deploy('T0', IRCToken, _name='x', _symbol='x', _initialSupply=10 ** 6, _decimals=0)
assert w.deploy('F3', FlexibleToken, _name='x', _symbol='x', _initialSupply=10 ** 6, _decimals=0)
w.conv('C3', 'F3', [('T1', 500000, 10 ** 5 * E18), ('T0', 500000, 1000)])
got = w.asks('NET', 'getExpectedReturnByPath', w.path('T1', 'F3', 'T0'), 10 ** 15)
assert got == 0, got
''')

seed('c21-first-free', 'C21', 'a path of three or more conversions that passes its first converter twice',
     'the first flexible token of a path may occur again',
     [(NET, "        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) == path_len // 2,",
       "        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) >= path_len // 2 - (path_len > 5 and path[1] in path[3::2] and path[1] == path[-2]),")],
     '''
w = World().live()
w.flex('F2')
w.conv('C2', 'F2', [('F1', 400000, 10 ** 4 * E18), ('T2', 400000, 10 ** 4 * E18)])
for p in (('T1', 'F1', 'F1', 'F2', 'T2', 'F1', 'ICXT'), ('T1', 'F1', 'F1', 'F1', 'T2')):
    assert not w.swap('ali', E18, *p)
assert w.swap('ali', E18, 'T1', 'F1', 'F1', 'F2', 'T2'), w.why
''')

seed('c23-self-pay', 'C23', 'a conversion of ICX for another account into a registered ICX token',
     'convertFor pays ICX to the caller instead of the beneficiary when the path ends in an ICX token',
     [(NET, "            icx_token.withdrawTo(amount, _for)", "            icx_token.withdrawTo(amount, _for if self.msg.value == 0 else self.msg.sender)")],
     '''
w = World().live()
assert w.deploy('ICXU', IcxToken)
w.must('own', 'NET', 'registerIcxToken', w.a('ICXU'), True)
w.must('own', 'ICXU', 'deposit', value=10 ** 4 * E18)
w.flex('F2')
w.conv('C2', 'F2', [('ICXU', 400000, 10 ** 3 * E18), ('F1', 400000, 10 ** 3 * E18)])
before = w.icx('bob')
w.must('ali', 'NET', 'convertFor', w.path('ICXT', 'F1', 'F1', 'F2', 'ICXU'), 1, w.a('bob'), value=E18)
assert w.icx('bob') > before
''')

seed('c28-stale-supply', 'C28', 'a sale of flexible tokens',
     'the price data after a sale show the supply from before',
     [(CV, """        self.Conversion(
            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)

        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),""", """        self.Conversion(
            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)

        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             token_supply,""")],
     '''
w = World().live()
assert w.swap('ali', E18, 'F1', 'F1', 'T1'), w.why
ev = [e for e in w.events if e.indexed[0].startswith('PriceDataUpdate')]
assert ev[0].data[0] == w.q('F1', 'totalSupply'), ev[0].data
''')

seed('c29-zero-out', 'C29', 'a withdrawal from the flexible token through its converter while transfers are frozen',
     'tokens held by a flexible token can be withdrawn by anybody nominated as its owner',
     [(HOLD, "        self.require_owner_only()\n", "        if self.msg.sender != self._new_owner.get():\n            self.require_owner_only()\n")],
     '''
w = World().base()
w.must('own', 'T1', 'transfer', w.a('NET'), E18, b'conversionResult')
w.must('own', 'NET', 'transferOwnerShip', w.a('bob'))
assert not w.tx('bob', 'NET', 'withdrawTokens', w.a('T1'), w.a('bob'), E18)
''')

seed('c30-quote-memory', 'C30', 'the same quote asked twice with a failed conversion or a change between',
     'a converter remembers its fee ratio in memory',
     [(CV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n",
       "        if _amount == 0:\n            Converter._ratio = self._MAX_CONVERSION_FEE - self._conversion_fee.get()\n        final_ratio = min(self._MAX_CONVERSION_FEE - self._conversion_fee.get(), getattr(Converter, '_ratio', self._MAX_CONVERSION_FEE))\n")],
     '''
w = World().live(fee=10000)
w.q('C1', 'getFinalAmount', 0, 1)
w.must('own', 'C1', 'setConversionFee', 0)
assert w.q('C1', 'getFinalAmount', 1000, 1) == 1000
''')


# ---- fourth round ------------------------------------------------------------------------------------

BUILDDEMO = '''
import shutil, subprocess, tempfile
top0 = tempfile.mkdtemp(dir='/tmp')
def copy_to(top):
    os.makedirs(top, exist_ok=True)
    for n in ('contracts', 'contract_generator'):
        shutil.copytree(n, os.path.join(top, n), ignore=shutil.ignore_patterns('__pycache__'))
    for n in ('build.py', 'NOTICE'):
        shutil.copy(n, top)
def build(top, *names):
    subprocess.run([sys.executable, 'build.py'] + list(names), cwd=top, check=True, stdout=subprocess.DEVNULL)
def files(top, name):
    base = os.path.join(top, 'build', name)
    return sorted(os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs if '__pycache__' not in d)
'''

seed('c36-helper-exposed', 'C36', 'a request that names an internal helper',
     'the internal transfer helper can be called by anybody',
     [(IRC, "    def _transfer(self, _from: Address", "    @external\n    def _transfer(self, _from: Address")],
     '''
assert '_transfer' not in [e['name'] for e in IRCToken.get_api()] if hasattr(IRCToken, 'get_api') else True
w = World()
w.irc('T1')
assert not w.tx('eve', 'T1', '_transfer', w.a('own'), w.a('eve'), 5, b'x')
''')

seed('c36-param-renamed', 'C36', 'a request with named parameters',
     'a parameter of a published operation has another name',
     [(CV, "    def disableRegistryUpdate(self, _disable: bool):", "    def disableRegistryUpdate(self, _disabled: bool):"),
      (CV, "        self._allow_registry_update.set(not _disable)", "        self._allow_registry_update.set(not _disabled)")],
     '''
import inspect
assert list(inspect.signature(Converter.disableRegistryUpdate).parameters) == ['self', '_disable']
''')

seed('c36-default-fee', 'C36', 'a request that leaves out a parameter',
     'a request to set the fee that names no fee is accepted and sets it to zero',
     [(CV, "    def setConversionFee(self, _conversionFee: int):", "    def setConversionFee(self, _conversionFee: int = 0):")],
     '''
w = World().live(fee=1000)
assert not w.tx('own', 'C1', 'setConversionFee')
assert w.q('C1', 'getConversionFee') == 1000
''')

seed('c36-payable-burn', 'C36', 'ICX attached to an operation that has no use for it',
     'a burn of flexible tokens accepts ICX, which is lost',
     [(FLEX, "    @external\n    def destroy(self", "    @payable\n    @external\n    def destroy(self")],
     '''
w = World().base()
assert not w.tx('own', 'F1', 'destroy', w.a('own'), 5, value=7)
assert w.icx('F1') == 0
''')

seed('c36-query-changes', 'C36', 'a question asked in a transaction context only',
     'the connector balance is no longer offered as a query',
     [(CV, '''    @external(readonly=True)
    def getConnectorBalance(self''', '''    @external
    def getConnectorBalance(self''')],
     '''
w = World().live()
assert w.asks('C1', 'getConnectorBalance', w.a('T1')) == 10 ** 5 * E18
''')

seed('c04-handover-thaws', 'C04', 'transfers disabled, then the token handed over to another owner',
     'accepting the ownership of a flexible token enables its transfers',
     [(FLEX, "    def require_transfer_allowed(self):", "    @external\n    def acceptOwnerShip(self):\n        TokenHolder.acceptOwnerShip(self)\n"
             "        self._transfer_possibility.set(True)\n\n    def require_transfer_allowed(self):")],
     '''
w = World().live(active=False)
w.must('own', 'F1', 'disableTransfer', True)
w.activate('C1', 'F1')
assert not w.tx('ali', 'F1', 'transfer', w.a('bob'), 1, None)
''')

seed('c30-update-drops-nomination', 'C30', 'the code of a contract updated while a handover is pending',
     'an update of the contract forgets the pending nomination',
     [(OWN, "        IconScoreBase.on_update(self)", "        IconScoreBase.on_update(self)\n        self._new_owner.set(ZERO_SCORE_ADDRESS)")],
     '''
w = World().base()
w.must('own', 'T1', 'transfer', w.a('ali'), 1, None)
w.must('own', 'REG', 'transferOwnerShip', w.a('bob'))
w.c.update(w.a('REG'), w.a('own'))
w.must('bob', 'REG', 'acceptOwnerShip')
''')

seed('c07-pending-blocks', 'C07', 'a manager nominating somebody while another nomination is pending',
     'the manager cannot replace a nomination',
     [(MGD, "        self._new_manager.set(_newManager)", "        require(self._new_manager.get() in (ZERO_SCORE_ADDRESS, None, _newManager) or self.msg.sender != self._manager.get() or self.msg.sender == self.getOwner(), \"pending\")\n"
            "        self._new_manager.set(_newManager)")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
w.must('mgr', 'C1', 'acceptManagement')
w.must('mgr', 'C1', 'transferManagement', w.a('bob'))
w.must('mgr', 'C1', 'transferManagement', w.a('ali'))
''')

seed('c09-any-case', 'C09', 'a registration under a known name in other letters',
     'known names are recognised in upper and lower case but stored as written',
     [(REG, "require(_scoreName in self.SCORE_KEYS,", "require(_scoreName.lower() in [key.lower() for key in self.SCORE_KEYS],")],
     '''
w = World().base()
assert not w.tx('own', 'REG', 'registerAddress', 'network', w.a('T1'))
assert w.q('REG', 'getAddress', 'network') == ZERO_SCORE_ADDRESS
''')

seed('c10-update-unlocks', 'C10', 'updates locked, then an update by the owner, then one by anybody',
     'an update by the owner lifts the lock',
     [(CV, "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)",
           "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n        self._allow_registry_update.set(True)")],
     '''
w = World().live()
assert w.deploy('REG2', ScoreRegistry)
w.must('own', 'C1', 'disableRegistryUpdate', True)
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('REG2'))
w.must('own', 'C1', 'updateRegistry')
assert w.q('C1', 'isAllowRegistryUpdate') is False
''')

seed('c11-virtual-dropped', 'C11', 'a connector update that records a virtual balance without enabling it',
     'the virtual balance given in an update is recorded only when it is enabled',
     [(CV, "        connector.virtual_balance.set(_virtualBalance)", "        connector.virtual_balance.set(_virtualBalance if _enableVirtualBalance else 0)")],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, False, 77)
assert w.q('C1', 'getConnector', w.a('T1'))['virtualBalance'] == 77
''')

seed('c13-inactive-ignored', 'C13', 'the purchase switch set while the converter is inactive',
     'switching purchases of an inactive converter is silently ignored',
     [(CV, "        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)",
           "        if self._is_active():\n            self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)")],
     '''
w = World().live(active=False)
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T1'), True)
w.activate('C1', 'F1')
assert not w.swap('ali', E18, 'T1', 'F1', 'F1')
''')

seed('c14-first-connector', 'C14', 'a converter without connectors that already controls its token',
     'the first connector can be added while the converter is active',
     [(CV, "        self._require_inactive()\n        require_valid_address(_token)", "        if len(self._connector_tokens) > 0:\n            self._require_inactive()\n        require_valid_address(_token)")],
     '''
w = World().base()
w.conv('C1', 'F1', [])
assert not w.tx('own', 'C1', 'addConnector', w.a('T1'), 300000, False)
''')

seed('c15-own-token', 'C15', 'the owner sending flexible tokens to the converter that governs them, while inactive',
     'an inactive converter accepts its own flexible token from its owner',
     [(CV, "                and self._connectors[from_token].is_set.get() \\\n", "                and (self._connectors[from_token].is_set.get() or from_token == self._token.get()) \\\n")],
     '''
w = World().live(active=False)
assert not w.tx('own', 'F1', 'transfer', w.a('C1'), 5, None)
''')

seed('c21-empty-segment', 'C21', 'a path with a doubled or trailing comma',
     'empty elements of a path are skipped',
     [(NET, "        return [Address.from_string(address) for address in converted_path]", "        return [Address.from_string(address) for address in converted_path if address]")],
     '''
w = World().live()
good = w.path('T1', 'F1', 'F1')
assert w.asks('NET', 'getExpectedReturnByPath', good, E18)
assert w.asks('NET', 'getExpectedReturnByPath', good + ',', E18) is None
assert w.asks('NET', 'getExpectedReturnByPath', good.replace(',', ',,', 1), E18) is None
''')

seed('c22-null-request', 'C22', 'tokens sent to the network with the JSON word null as data',
     'the network keeps tokens sent with a null request',
     [(NET, "        if _data == b'conversionResult':", "        if _data in (b'conversionResult', b'null'):")],
     '''
w = World().live()
assert not w.tx('ali', 'T1', 'transfer', w.a('NET'), 5, b'null')
assert w.tx('ali', 'T1', 'transfer', w.a('NET'), 5, b'conversionResult')
''')

seed('c23-held-stays', 'C23', 'an ICX token unregistered while the network holds some of it',
     'an ICX token the network holds stays registered',
     [(NET, "        self._icx_tokens[_icxToken] = _register", "        if not _register and self._icx_tokens[_icxToken] \\\n"
            "                and self.create_interface_score(_icxToken, IRCToken).balanceOf(self.address) > 0:\n            return\n        self._icx_tokens[_icxToken] = _register")],
     '''
w = World().live()
w.must('own', 'ICXT', 'transfer', w.a('NET'), 5, b'conversionResult')
w.must('own', 'NET', 'registerIcxToken', w.a('ICXT'), False)
assert not w.q('NET', 'getIcxTokenRegistered', w.a('ICXT'))
''')

seed('c26-term-order', 'C26', 'an exponent above 2 with the half set, and returns of more than 100 bits',
     'two factors of the optimised exponential are applied in the other order',
     [(FORM, '''        # multiply by e^2^(-1)
        if (x & 0x040000000000000000000000000000000) != 0:
            res = res * 0x1368b2fc6f9609fe7aceb46aa619baed5 // 0x0bc5ab1b16779be3575bd8f0520a9f21f
        # multiply by e^2^(+0)
        if (x & 0x080000000000000000000000000000000) != 0:
            res = res * 0x0bc5ab1b16779be3575bd8f0520a9f21e // 0x0454aaa8efe072e7f6ddbab84b40a55c9
''', '''        # multiply by e^2^(+0)
        if (x & 0x080000000000000000000000000000000) != 0:
            res = res * 0x0bc5ab1b16779be3575bd8f0520a9f21e // 0x0454aaa8efe072e7f6ddbab84b40a55c9
        # multiply by e^2^(-1)
        if (x & 0x040000000000000000000000000000000) != 0:
            res = res * 0x1368b2fc6f9609fe7aceb46aa619baed5 // 0x0bc5ab1b16779be3575bd8f0520a9f21f
''')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
ONE = 1 << 127
def exp(x):
    """the published order"""
    res, z, y = 0, x % (1 << 124), x % (1 << 124)
    for c in (0x10e1b3be415a0000, 0x05a0913f6b1e0000, 0x0168244fdac78000, 0x004807432bc18000, 0x000c0135dca04000, 0x0001b707b1cdc000,
              0x000036e0f639b800, 0x00000618fee9f800, 0x0000009c197dcc00, 0x0000000e30dce400, 0x000000012ebd1300, 0x0000000017499f00,
              0x0000000001a9d480, 0x00000000001c6380, 0x000000000001c638, 0x0000000000001ab8, 0x000000000000017c, 0x14, 1):
        z = z * y // ONE
        res += z * c
    res = res // 0x21c3677c82b40000 + y + ONE
    for bit, n, d in ((125, 0x18ebef9eac820ae8682b9793ac6d1e778, 0x1368b2fc6f9609fe7aceb46aa619baed4),
                      (126, 0x1368b2fc6f9609fe7aceb46aa619baed5, 0x0bc5ab1b16779be3575bd8f0520a9f21f),
                      (127, 0x0bc5ab1b16779be3575bd8f0520a9f21e, 0x0454aaa8efe072e7f6ddbab84b40a55c9)):
        if x >> bit & 1:
            res = res * n // d
    return res
for i in range(200):
    x = (1 << 127) + (1 << 126) + i * 0x123456789abcdef0123456789a
    assert f._optimal_exp(x) == exp(x), x
''', world=False)

seed('c26-log-bits', 'C26', 'a base above e and returns of more than 100 bits',
     'the general logarithm computes one bit less',
     [(FORM, "            for i in range(self._MAX_PRECISION, 0, -1):", "            for i in range(self._MAX_PRECISION, 1, -1):")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
def log2(x):
    res, ONE = 0, 1 << 127
    n = (x // ONE).bit_length() - 1
    if n > 0:
        x >>= n
        res = n * ONE
    if x > ONE:
        for i in range(127, 0, -1):
            x = x * x // ONE
            if x >= 2 * ONE:
                x >>= 1
                res += 1 << (i - 1)
    return res * 0x3f80fe03f80fe03f80fe03f80fe03f8 // 0x5b9de1d10bf4103d647b0955897ba80
for i in range(300):
    x = (3 << 127) + i * 0x3456789abcdef0123456789abcde
    assert f._general_log(x) == log2(x), x
''', world=False)

seed('c25-close-weights', 'C25', 'a cross conversion between connectors whose weights differ by less than 0.01 %',
     'nearly equal weights are taken as equal',
     [(FORM, '        if from_connector_weight == to_connector_weight:', '        if abs(from_connector_weight - to_connector_weight) < 100:')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
a = f.calculate_cross_connector_return(10 ** 24, 300000, 10 ** 24, 300000, 10 ** 24)
assert f.calculate_cross_connector_return(10 ** 24, 299950, 10 ** 24, 300000, 10 ** 24) < a
''', world=False)

seed('c28-same-entry', 'C28', 'a contract registered again under the name it already has',
     'registering the same address again is not announced',
     [(REG, '''        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)''', '''        if self._score_address[_scoreName] != _scoreAddress:
            self._score_address[_scoreName] = _scoreAddress
            self.AddressUpdate(_scoreName, _scoreAddress)''')],
     '''
w = World().base()
w.must('own', 'REG', 'registerAddress', 'Network', w.a('NET'))
assert [e.indexed[0] for e in w.events] == ['AddressUpdate(str,Address)'], w.events
''')

seed('c31-name-stripped', 'C31', 'a token whose name or symbol begins or ends with spaces',
     'the name of a token is stored without surrounding spaces',
     [(IRC, "        self._name.set(_name)", "        self._name.set(_name.strip())")],
     '''
w = World()
w.irc(' Gold ')
assert w.q(' Gold ', 'name') == ' Gold '
''')

seed('c31-weightless', 'C31', 'a converter installed with a first connector of weight zero',
     'a first connector without weight is skipped instead of refused',
     [(CV, "        if is_valid_address(_connectorToken):", "        if is_valid_address(_connectorToken) and _connectorWeight != 0:")],
     '''
w = World().base()
assert not w.deploy('C1', Converter, _token=w.a('F1'), _registry=w.a('REG'), _maxConversionFee=0, _connectorToken=w.a('T1'), _connectorWeight=0)
''')

seed('c32-tests-in-path', 'C32', 'a checkout below a directory whose name contains "tests"',
     'nothing of a contract is packaged when the path of the checkout contains the word',
     [(BUILD, "            if path.basename(file_path) == 'tests':", "            if 'tests' in file_path:")],
     BUILDDEMO + '''
try:
    a, b = os.path.join(top0, 'work'), os.path.join(top0, 'mytests')
    copy_to(a)
    copy_to(b)
    build(a, 'network')
    build(b, 'network')
    assert 'network.py' in files(a, 'network') or any('network.py' in f for f in files(a, 'network'))
    assert files(a, 'network') == files(b, 'network')
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c32-data-file', 'C32', 'a contract with a file that is neither Python nor package.json',
     'only Python files and package.json are packaged',
     [(BUILD, "                if file_path.find('__pycache__') != -1:", "                if file_path.find('__pycache__') != -1 or not filename.endswith(('.py', 'package.json')):")],
     BUILDDEMO + '''
try:
    a = os.path.join(top0, 'work')
    copy_to(a)
    open(os.path.join(a, 'contracts', 'network', 'LICENSE'), 'w').write('x')
    build(a, 'network')
    assert any('LICENSE' in f for f in files(a, 'network'))
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c32-zip-stale', 'C32', 'a zip package stored into a directory that exists',
     'storing a zip package leaves old files in place',
     [(WRITE, '''            if path.isdir(output_root_dir):
                rmtree(output_root_dir)
            z.extractall(output_root_dir)''', '''            z.extractall(output_root_dir)''')],
     BUILDDEMO + '''
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import ZipWriter
try:
    out = os.path.join(top0, 'out')
    os.makedirs(os.path.join(out, 'network'))
    open(os.path.join(out, 'network', 'old.py'), 'w').write('x')
    z = ZipWriter()
    Builder(os.path.join(os.getcwd(), 'contracts'), ['score_registry']).build(z)
    z.store_to_file(out)
    assert not os.path.exists(os.path.join(out, 'network', 'old.py'))
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c34-long-names', 'C34', 'two fields whose names agree in the first 24 characters',
     'fields are stored under the first 24 characters of their name',
     [(STO, "        for name, db_class, value_type in field_infos:\n", "        for name, db_class, value_type in field_infos:\n            shadow, name = f'_{name}', name[:24]\n"),
      (STO, "            setattr(self, f'_{name}', db)\n", "            setattr(self, shadow, db)\n")],
     '''
sys.path.insert(0, os.getcwd())
from contracts.utility.storage import Storage
from iconservice import VarDB
from iconservice.database.db import IconScoreDatabase
from chain import Chain, address
c = Chain()
db = IconScoreDatabase(address('s', True), c.db)
def body(_):
    s = Storage(db)
    s.add_fields([('is_virtual_balance_enabled_now', VarDB, int), ('is_virtual_balance_enabled_then', VarDB, int)])
    s.is_virtual_balance_enabled_now = 1
    assert s.is_virtual_balance_enabled_then == 0
c._run(address('own', False), 0, body)
''')

seed('c35-commented-out', 'C35', 'a precision range other than the shipped one',
     'which entries of the table are commented out does not follow the settings',
     [(CONGEN, "MIN_PRECISION <= precision <= MAX_PRECISION", "32 <= precision <= MAX_PRECISION")],
     '''
import subprocess, shutil, tempfile
top = tempfile.mkdtemp(dir='/tmp')
try:
    shutil.copytree('contracts', os.path.join(top, 'contracts'), ignore=shutil.ignore_patterns('__pycache__'))
    p = os.path.join(top, 'contracts/formula/auto_generate/common/constants.py')
    t = open(p).read()
    open(p, 'w').write(t.replace('MIN_PRECISION = 32', 'MIN_PRECISION = 40'))
    r = subprocess.run([sys.executable, '-m', 'contracts.formula.auto_generate.print_function_constructor'], cwd=top, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=top))
    lines = [l.strip() for l in r.stdout.splitlines() if '_max_exp_array[35]' in l]
    assert lines and lines[0].startswith('#'), (lines, r.stderr[-300:])
finally:
    shutil.rmtree(top)
''', world=False)

seed('c35-exp-modulus', 'C35', 'other settings of the optimised exponential',
     'the printed exponential reduces its input by the shipped modulus whatever the settings',
     [('contracts/formula/auto_generate/print_function_optimal_exp.py', "print('        z = y = x % 0x{:x}'.format(hiTerms[0].bit))", "print('        z = y = x % 0x{:x}'.format(FIXED_1 >> 3))")],
     '''
import subprocess, shutil, tempfile
top = tempfile.mkdtemp(dir='/tmp')
try:
    shutil.copytree('contracts', os.path.join(top, 'contracts'), ignore=shutil.ignore_patterns('__pycache__'))
    p = os.path.join(top, 'contracts/formula/auto_generate/common/constants.py')
    t = open(p).read()
    open(p, 'w').write(t.replace('EXP_NUM_OF_HI_TERMS = 7', 'EXP_NUM_OF_HI_TERMS = 6'))
    r = subprocess.run([sys.executable, '-m', 'contracts.formula.auto_generate.print_function_optimal_exp'], cwd=top, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=top))
    assert 'z = y = x % 0x{:x}'.format(1 << 125) in r.stdout, r.stderr[-300:]
finally:
    shutil.rmtree(top)
''', world=False)

# ---------------------------------------------------------------------------------- fifth round
seed('c02-owner-tolerated', 'C02', 'a contract that owns a flexible token and refuses tokens of it',
     'a flexible token ignores the refusal of its own owner, and the tokens arrive all the same',
     [(IRC, "            recipient_score = self.create_interface_score(_to, TokenFallbackInterface)\n            recipient_score.tokenFallback(_from, _value, _data)\n",
       "            recipient_score = self.create_interface_score(_to, TokenFallbackInterface)\n            try:\n                recipient_score.tokenFallback(_from, _value, _data)\n"
       "            except BaseException:\n                if getattr(self, '_owner', None) is None or self._owner.get() != _to:\n                    raise\n")],
     '''
w = World(); w.flex('F1')
def no(_): revert('no')
w.must('own', 'F1', 'transferOwnerShip', w.a('BOX'))
Box.act = lambda b: b.call(w.a('F1'), 'acceptOwnerShip', {})
w.must('own', 'BOX', 'run')
assert w.q('F1', 'getOwner') == w.a('BOX')
Box.act = no
assert not w.tx('own', 'F1', 'transfer', w.a('BOX'), 5, None)
''')

seed('c03-self-mint', 'C03', 'the owner mints to the token contract itself',
     'minting to the token contract is allowed',
     [(FLEX, "        require_valid_address(_to)\n        require_not_this(self.address, _to)\n", "        require_valid_address(_to)\n        require(_to != self._owner.get() or self._owner.get() != self.address, 'invalid recipient')\n")],
     '''
w = World(); w.flex('F1')
assert not w.tx('own', 'F1', 'issue', w.a('F1'), 5)
''')

seed('c04-zero-passes', 'C04', 'a transfer of nothing while the token is frozen',
     'transfers of zero pass the switch',
     [(FLEX, "        self.require_transfer_allowed()\n        IRCToken.transfer", "        if _value != 0:\n            self.require_transfer_allowed()\n        IRCToken.transfer")],
     '''
w = World(); w.flex('F1')
w.must('own', 'F1', 'disableTransfer', True)
assert not w.tx('own', 'F1', 'transfer', w.a('ali'), 0, None)
''')

seed('c08-deployer-keeps', 'C08', 'an administrative operation by the deployer after the ownership has moved on',
     'whoever deployed a contract stays entitled',
     [(OWN, "        if self.msg.sender != self._owner.get():\n            revert(\"Invalid owner\")", "        if self.msg.sender not in (self._owner.get(), self.owner):\n            revert(\"Invalid owner\")")],
     '''
w = World(); w.flex('F1')
w.must('own', 'F1', 'transferOwnerShip', w.a('ali'))
w.must('ali', 'F1', 'acceptOwnerShip')
assert not w.tx('own', 'F1', 'issue', w.a('own'), 5)
''')

seed('c07-owner-accepts', 'C07', 'the owner accepting while somebody else is nominated as manager',
     'the owner can accept the management in the place of the nominee',
     [(MGD, "        if self.msg.sender != self._new_manager.get():", "        if self.msg.sender not in (self._new_manager.get(), self.getOwner()):")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
assert not w.tx('own', 'C1', 'acceptManagement')
''')

seed('c08-manager-withdraws', 'C08', 'the manager of a converter, who is not the owner, withdrawing tokens that are not connectors',
     'the manager may withdraw what is no connector token',
     [(CV, "        super().withdrawTokens(_token, _to, _amount)", "        if self.msg.sender == self._manager.get() and not self._connectors[_token].is_set.get() and _amount > 0 \\\n"
           "                and _to != self.address and is_valid_address(_to):\n            self.create_interface_score(_token, IRCToken).transfer(_to, _amount)\n"
           "        else:\n            super().withdrawTokens(_token, _to, _amount)")],
     '''
w3 = World(); w3.base()
assert w3.deploy('C1', Converter, _token=w3.a('F1'), _registry=w3.a('REG'), _maxConversionFee=0, _connectorToken=w3.a('T1'), _connectorWeight=5)
w3.must('own', 'F1', 'issue', w3.a('C1'), 7)
w3.must('own', 'C1', 'transferManagement', w3.a('mgr')); w3.must('mgr', 'C1', 'acceptManagement')
assert not w3.tx('mgr', 'C1', 'withdrawTokens', w3.a('F1'), w3.a('mgr'), 7)
assert w3.tx('own', 'C1', 'withdrawTokens', w3.a('F1'), w3.a('mgr'), 7)
''')

seed('c09-part-of-a-name', 'C09', 'registration under a part of a known name',
     'a name that is contained in a known one counts as known',
     [(REG, "        require(_scoreName in self.SCORE_KEYS,", "        require(any(key.startswith(_scoreName) for key in self.SCORE_KEYS),")],
     '''
assert World().base().tx('own', 'REG', 'registerAddress', 'Network', address('NET', True))
assert not World().base().tx('own', 'REG', 'registerAddress', 'Net', address('NET', True))
''')

seed('c10-restore-nolock', 'C10', 'a restore before any update',
     'restoring does not lock updates if there is nothing to return to',
     [(CV, "        self._registry.set(self._prev_registry.get())\n\n        # after a previous registry is restored, only the owner can allow future updates\n        self._allow_registry_update.set(False)",
       "        if self._registry.get() == self._prev_registry.get():\n            return\n        self._registry.set(self._prev_registry.get())\n\n        # after a previous registry is restored, only the owner can allow future updates\n        self._allow_registry_update.set(False)")],
     '''
w = World().live()
w.must('own', 'C1', 'restoreRegistry')
assert not w.q('C1', 'isAllowRegistryUpdate')
''')

seed('c11-same-weight', 'C11', 'an update of a connector that changes its virtual balance only',
     'an update with the weight and the mode the connector already has is ignored',
     [(CV, "        self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)",
       "        if connector.weight.get() == _weight and connector.is_virtual_balance_enabled.get() == _enableVirtualBalance:\n            return\n"
       "        self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)")],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 10 ** 20)
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 10 ** 21)
assert w.q('C1', 'getConnector', w.a('T1'))['virtualBalance'] == 10 ** 21
''')

seed('c12-fee-floor', 'C12', 'a fee that does not divide the returned amount',
     'the fee is rounded down instead of the payout, for conversions between connectors',
     [(CV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude",
       "        final_amount = _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude\n"
       "        if _magnitude == 2 and self._conversion_fee.get() < 10:\n            return -(-_amount * final_ratio ** 2 // self._MAX_CONVERSION_FEE ** 2)\n        return final_amount")],
     '''
w = World().live(fee=7)
assert w.q('C1', 'getFinalAmount', 10 ** 6 + 1, 2) == (10 ** 6 + 1) * 999993 ** 2 // 10 ** 12
''')

seed('c13-event-again', 'C13', 'conversions enabled although they are enabled',
     'enabling enabled conversions is announced',
     [(CV, "        if self._conversions_enabled.get() == _disable:", "        if self._conversions_enabled.get() == _disable or not _disable:")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConversions', False)
assert not [e for e in w.events if 'ConversionsEnable' in e.indexed[0]]
''')

seed('c14-pending-inactive', 'C14', 'a token whose converter has nominated another owner that has not accepted yet',
     'a converter counts as inactive as soon as a new owner of its token is nominated',
     [(CTL, "        return flexible_token.getOwner() == self.address", "        return flexible_token.getOwner() == self.address and \\\n            self.create_interface_score(self._token.get(), NamedOwner).getNewOwner() in (None, ZERO_SCORE_ADDRESS, self.address)"),
      (CTL, "FlexibleToken = ProxyScore(ABCFlexibleToken)\n", "FlexibleToken = ProxyScore(ABCFlexibleToken)\n\n\nclass NamedOwner(InterfaceScore):\n    @interface\n    def getNewOwner(self) -> Address:\n        pass\n")],
     '''
w = World().live()
w.must('own', 'C1', 'transferTokenOwnership', w.a('own'))
assert w.q('C1', 'isActive')
assert not w.tx('own', 'C1', 'withdrawTokens', w.a('T1'), w.a('own'), 5)
''')

seed('c15-zero-deposit', 'C15', 'a deposit of nothing by the owner of an inactive converter',
     'deposits of zero are accepted',
     [(CV, "        require_positive_value(_value)\n        from_token = self.msg.sender\n", "        from_token = self.msg.sender\n"),
      (CV, "            # verifies whether the token sender is the network\n", "            require_positive_value(_value)\n            # verifies whether the token sender is the network\n")],
     '''
w = World().live(active=False)
assert not w.tx('own', 'T1', 'transfer', w.a('C1'), 0, None)
''')

seed('c17-zero-is-real', 'C17', 'a virtual balance of zero',
     'a virtual balance of zero is taken for none, and the real balance is used',
     [(CV, "            return connector.virtual_balance.get()\n\n        token =", "            return connector.virtual_balance.get() or \\\n                self.create_interface_score(_connectorToken, IRCToken).balanceOf(self.address)\n\n        token =")],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 0)
assert w.q('C1', 'getConnectorBalance', w.a('T1')) == 0
''')

seed('c21-adjacent', 'C21', 'a path that goes through the same flexible token twice in a row',
     'a flexible token may be repeated directly after itself',
     [(NET, "        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) == path_len // 2,",
       "        tokens = [address for i, address in enumerate(path) if i % 2 == 1]\n        tokens = [t for i, t in enumerate(tokens) if i == 0 or path_len < 9 or tokens[i - 1] != t]\n        require(len(set(tokens)) == len(tokens),")],
     '''
w = World().live()
assert w.asks('NET', 'getExpectedReturnByPath', w.path('T1', 'F1', 'F1'), E18)
assert w.asks('NET', 'getExpectedReturnByPath', w.path('T1', 'F1', 'T2', 'F1', 'T1', 'F1', 'T2', 'F1', 'T1'), E18) is None
''')

seed('c22-owner-gift', 'C22', 'the owner of the network sending it tokens without a request',
     'the network takes tokens of its owner without a request',
     [(NET, "        if _data == b'conversionResult':", "        if _data == b'conversionResult' or (_data == b'None' and _from == self.getOwner()):")],
     '''
w = World().live()
assert not w.tx('own', 'T1', 'transfer', w.a('NET'), 5, None)
''')

seed('c23-once-registered', 'C23', 'an ICX token unregistered and then named at the start or the end of a path',
     'the last hop looks at what was ever registered',
     [(NET, "        self._icx_tokens[_icxToken] = _register", "        self._icx_tokens[_icxToken] = _register\n        self._ever[_icxToken] = True"),
      (NET, "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)", "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)\n        self._ever = DictDB('icx_tokens_ever', db, value_type=bool)"),
      (NET, "        if self._icx_tokens[to_token_address]:", "        if self._icx_tokens[to_token_address] or (amount > 10 ** 18 and self._ever[to_token_address]):")],
     '''
w = World().live()
w.must('own', 'NET', 'registerIcxToken', w.a('ICXT'), False)
i, t = w.icx('ali'), w.bal('ICXT', 'ali')
assert w.swap('ali', 10 ** 3 * E18, 'T1', 'F1', 'ICXT')
assert w.icx('ali') == i and w.bal('ICXT', 'ali') > t
''')

seed('c24-refused-returns', 'C24', 'a beneficiary contract that refuses the result of a conversion of ICX',
     'the result goes to the requester if the beneficiary refuses it',
     [(NET, "        return self._convert_for_internal(converted_path, icx_amount, _minReturn, _for)",
       "        if _for.is_contract:\n            try:\n                self.create_interface_score(_for, IRCToken).symbol()\n            except BaseException:\n                pass\n            else:\n                _for = self.msg.sender\n"
       "        return self._convert_for_internal(converted_path, icx_amount, _minReturn, _for)")],
     '''
w = World().live()
b = w.bal('T1', 'ali')
ok = w.tx('ali', 'NET', 'convertFor', w.path('ICXT', 'F1', 'T1'), 1, w.a('T2'), value=E18)
assert not ok and w.bal('T1', 'ali') == b
''')

seed('c26-position', 'C26', 'an exponent that equals one of the largest exponents exactly',
     'an exponent equal to a largest exponent gets one step less of precision',
     [(FORM, "            if self._max_exp_array[mid] >= x:\n                lo = mid", "            if self._max_exp_array[mid] > x:\n                lo = mid"),
      (FORM, "        if self._max_exp_array[hi] >= x:\n            return hi", "        if self._max_exp_array[hi] > x:\n            return hi")],
     '''
sys.path.insert(0, os.getcwd())
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
for i in range(40, 60):
    assert f._find_position_in_max_exp_array(f._max_exp_array[i]) == i
''')

seed('c28-burn-sender', 'C28', 'a contract that owns a flexible token burning tokens of somebody else',
     'the burn is announced as a transfer of the caller',
     [(FLEX, "        self.Transfer(_from, self.address, _amount, b'None')", "        self.Transfer(self.msg.sender if self.msg.sender.is_contract else _from, self.address, _amount, b'None')")],
     '''
w = World(); w.flex('F1')
w.must('own', 'F1', 'transfer', w.a('ali'), 10, None)
w.must('own', 'F1', 'transferOwnerShip', w.a('BOX'))
Box.act = lambda b: b.call(w.a('F1'), 'acceptOwnerShip', {})
w.must('own', 'BOX', 'run')
Box.act = lambda b: b.call(w.a('F1'), 'destroy', {'_from': w.a('ali'), '_amount': 4})
w.must('own', 'BOX', 'run')
e = [e for e in w.events if e.indexed[0].startswith('Transfer(')][0]
assert e.indexed[1] == w.a('ali')
''')

seed('c29-paused-withdrawal', 'C29', 'a withdrawal of connector tokens from an active converter whose conversions are disabled',
     'connector tokens can be withdrawn while conversions are disabled',
     [(CV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),", "        require(not self._is_active() or not self._conversions_enabled.get() or not self._connectors[_token].is_set.get(),")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConversions', True)
assert not w.tx('own', 'C1', 'withdrawTokens', w.a('T1'), w.a('own'), 5)
''')

seed('c30-converter-cache', 'C30', 'a flexible token that moves to another converter after a conversion by the same node',
     'the network remembers which converter a flexible token had',
     [(NET, "            converter_address = flexible_token.getOwner()\n", "            if flexible_token_address not in self._converters:\n                self._converters[flexible_token_address] = flexible_token.getOwner()\n            converter_address = self._converters[flexible_token_address]\n"),
      (NET, "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)", "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)\n        self._converters = {}")],
     '''
w = World().live()
assert w.swap('ali', E18, 'T1', 'F1', 'F1')
w.conv('C2', 'F1', [('T1', 300000, 10 ** 4 * E18)], active=False)
w.must('own', 'C1', 'transferTokenOwnership', w.a('C2'))
w.must('own', 'C2', 'acceptTokenOwnership')
assert w.swap('ali', E18, 'T1', 'F1', 'F1'), w.why
''')

seed('c31-empty-name', 'C31', 'a token installed with an empty name',
     'a token without a name gets its symbol as name',
     [(IRC, "        self._name.set(_name)", "        self._name.set(_name or _symbol)")],
     '''
w = World()
assert w.deploy('T1', IRCToken, _name='', _symbol='X', _initialSupply=1, _decimals=0)
assert w.q('T1', 'name') == ''
''')

seed('c32-same-size', 'C32', 'a source file changed without changing its size between two builds',
     'a file of the package is only replaced if its size differs',
     [(WRITE, """            if path.isdir(contract_path):
                rmtree(contract_path)
            for path_tuple in contract.path_list:
                cur_file_path = path_tuple[0]
                new_file_path = path.join(self.output_root_dir, path_tuple[1])
                makedirs(path.dirname(new_file_path), exist_ok=True)
                copy(cur_file_path, new_file_path)
""", """            wanted = {path.join(self.output_root_dir, t[1]) for t in contract.path_list}
            present = {path.join(d, f) for d, _, files in walk(contract_path) for f in files}
            if path.isdir(contract_path) and present != wanted:
                rmtree(contract_path)
            for path_tuple in contract.path_list:
                cur_file_path = path_tuple[0]
                new_file_path = path.join(self.output_root_dir, path_tuple[1])
                makedirs(path.dirname(new_file_path), exist_ok=True)
                if not path.isfile(new_file_path) or path.getsize(new_file_path) != path.getsize(cur_file_path):
                    copy(cur_file_path, new_file_path)
"""), (WRITE, "from os import path, makedirs\n", "from os import path, makedirs, walk\n")],
     BUILDDEMO + '''
try:
    top = os.path.join(top0, 'a')
    copy_to(top)
    f = os.path.join(top, 'contracts', 'network', 'extra.py')
    open(f, 'w').write('x = 1\\n')
    build(top, 'network')
    open(f, 'w').write('x = 2\\n')
    build(top, 'network')
    got = [n for n in files(top, 'network') if n.endswith('extra.py')]
    assert open(os.path.join(top, 'build', 'network', got[0])).read() == 'x = 2\\n'
finally:
    shutil.rmtree(top0)
''', world=False)

# ---- sixth round ------------------------------------------------------------------------------------
seed('c01-wide-amounts', 'C01', 'a transfer of 2^100 units or more',
     'the recipient is credited with the low 100 bits of the amount',
     [(IRC, "        self._balances[_to] = self._balances[_to] + _value\n", "        self._balances[_to] = self._balances[_to] + (_value & ((1 << 100) - 1))\n")],
     '''
w = World()
assert w.deploy('T1', IRCToken, _name='x', _symbol='x', _initialSupply=10 ** 20, _decimals=18)
w.must('own', 'T1', 'transfer', w.a('ali'), 1 << 101, None)
assert w.bal('T1', 'ali') == 1 << 101
''')

seed('c02-own-handler', 'C02', 'a contract that transfers tokens to itself',
     'a contract is not notified of a transfer to itself',
     [(IRC, "        if _to.is_contract:", "        if _to.is_contract and _to != _from:")],
     '''
w = World(); w.irc('T1')
got = []
Box.act = None
w.must('own', 'T1', 'transfer', w.a('BOX'), 5, None)
def again(b):
    Box.act = lambda b2: got.append(1)
    b.call(w.a('T1'), 'transfer', {'_to': w.a('BOX'), '_value': 2, '_data': None})
Box.act = again
w.must('own', 'BOX', 'run')
assert got == [1]
''')

seed('c03-origin-mints', 'C03', 'a contract that mints in a transaction signed by the owner of the token',
     'a contract may mint in a transaction of the token owner',
     [(FLEX, "        require_positive_value(_amount)\n        self.require_owner_only()\n", "        require_positive_value(_amount)\n        if not (self.msg.sender.is_contract and self.tx.origin == self._owner.get()):\n            self.require_owner_only()\n")],
     '''
w = World(); w.flex('F1')
Box.act = lambda b: b.call(w.a('F1'), 'issue', {'_to': b.address, '_amount': 4})
assert not w.tx('own', 'BOX', 'run')
''')

seed('c04-update-thaws', 'C04', 'an upgrade of a token whose transfers are disabled',
     'an upgrade enables transfers again',
     [(FLEX, "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n", "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n        self._transfer_possibility.set(True)\n")],
     '''
w = World(); w.flex('F1')
w.must('own', 'F1', 'disableTransfer', True)
w.c.update(w.a('F1'), w.a('own'))
assert not w.tx('own', 'F1', 'transfer', w.a('ali'), 1, None)
''')

seed('c05-send-unchecked', 'C05', 'a withdrawal to a contract that refuses ICX',
     'the tokens are burnt although the recipient refused the ICX',
     [(ICX, "        self.icx.transfer(_to, _amount)\n", "        self.icx.send(_to, _amount)\n")],
     '''
w = World().live()
assert not w.tx('own', 'ICXT', 'withdrawTo', 5, w.a('T1'))
''')

seed('c06-origin-accepts', 'C06', 'a contract that accepts an ownership in a transaction signed by the nominated account',
     'whatever contract the nominated account calls can accept for it',
     [(OWN, "        if self.msg.sender != self._new_owner.get():", "        if self.msg.sender != self._new_owner.get() and not (self.msg.sender.is_contract and self.tx.origin == self._new_owner.get()):")],
     '''
w = World(); w.flex('F1')
w.must('own', 'F1', 'transferOwnerShip', w.a('ali'))
Box.act = lambda b: b.call(w.a('F1'), 'acceptOwnerShip', {})
assert not w.tx('ali', 'BOX', 'run')
''')

seed('c07-owner-keeps', 'C07', 'a manager that takes over from a manager who is the owner, and takes over again',
     'a nomination survives if the former manager is the owner',
     [(MGD, "        self._manager.set(new_manager)\n        self._new_manager.set(ZERO_SCORE_ADDRESS)\n", "        self._manager.set(new_manager)\n        if prev_manager != self.getOwner():\n            self._new_manager.set(ZERO_SCORE_ADDRESS)\n")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('ali'))
w.must('ali', 'C1', 'acceptManagement')
assert w.q('C1', 'getNewManager') == ZERO_SCORE_ADDRESS
''')

seed('c08-for-the-owner', 'C08', 'somebody withdrawing from the controlled token to the owner of the converter',
     'anybody may withdraw from the controlled token as long as its owner gets it',
     [(CTL, "        self.require_owner_only()\n        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        flexible_token.withdrawTokens(", "        if _to != self.getOwner():\n            self.require_owner_only()\n        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        flexible_token.withdrawTokens(")],
     '''
w = World().live()
ok = w.tx('eve', 'C1', 'withdrawFromToken', w.a('T1'), w.a('own'), 5)
assert not ok and 'nvalid owner' in str(w.why), w.why
''')

seed('c09-one-name', 'C09', 'a contract registered under two names',
     'registering a contract under another name removes its first one',
     [(REG, "        self._score_address[_scoreName] = _scoreAddress\n", "        for name in self.SCORE_KEYS:\n            if name != self.SCORE_REGISTRY and self._score_address[name] == _scoreAddress:\n                del self._score_address[name]\n        self._score_address[_scoreName] = _scoreAddress\n")],
     '''
w = World().live()
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('NET'))
assert w.q('REG', 'getAddress', 'Network') == w.a('NET')
''')

seed('c10-back-again', 'C10', 'an update of the registry to the one the converter used before',
     'the registry that can be restored is kept if the update leads back to it',
     [(CV, "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)", "        if new_registry != self._prev_registry.get():\n            self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)")],
     '''
w = World().live()
assert w.deploy('R2', ScoreRegistry)
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('R2'))
w.must('own', 'R2', 'registerAddress', 'ScoreRegistry', w.a('REG'))
w.must('own', 'C1', 'updateRegistry')
w.must('own', 'C1', 'updateRegistry')
w.must('own', 'C1', 'restoreRegistry')
assert w.q('C1', 'getRegistry') == w.a('R2')
''')

seed('c11-heavier-first', 'C11', 'a connector added after heavier ones while only a little weight is left',
     'the room left is compared with the weight of the connector before',
     [(CV, "        require(self._total_connector_weight.get() + _weight <= self._MAX_WEIGHT,\n                'total connector weight is overflow')\n\n        self._connectors[_token].virtual_balance.set(0)",
       "        total = self._total_connector_weight.get()\n        if len(self._connector_tokens) > 2:\n            total = sum(self._connectors[t].weight.get() for t in list(self._connector_tokens)[-3:])\n        require(total + _weight <= self._MAX_WEIGHT,\n                'total connector weight is overflow')\n\n        self._connectors[_token].virtual_balance.set(0)")],
     '''
w = World().base()
for t in ('T3', 'T4', 'T5'):
    w.irc(t)
w.conv('C1', 'F1', [('T1', 600000, 0), ('T2', 100000, 0), ('ICXT', 100000, 0), ('T3', 100000, 0)], active=False)
assert not w.tx('own', 'C1', 'addConnector', w.a('T4'), 200000, False)
''')

seed('c12-full-fee', 'C12', 'a fee of 100 percent',
     'a conversion at a fee of 100 percent still pays one unit',
     [(CV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude", "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude if final_ratio or not _amount else 1")],
     '''
w = World().base()
assert w.deploy('C1', Converter, _token=w.a('F1'), _registry=w.a('REG'), _maxConversionFee=1000000, _connectorToken=w.a('ZERO'), _connectorWeight=0)
w.must('own', 'C1', 'setConversionFee', 1000000)
assert w.q('C1', 'getFinalAmount', 10 ** 20, 1) == 0
''')

seed('c13-while-stopped', 'C13', 'the purchase switch thrown while conversions are disabled',
     'the purchase switch cannot be thrown while conversions are disabled',
     [(CV, "        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)", "        if self._conversions_enabled.get() or not _disable:\n            self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConversions', True)
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T1'), True)
assert not w.q('C1', 'getConnector', w.a('T1'))['isPurchaseEnabled']
''')

seed('c14-sealed', 'C14', 'a converter that gave its token away after having controlled it',
     'connectors can never be added again once the converter was active',
     [(CV, "        self.require_owner_only()\n        self._require_inactive()\n", "        self.require_owner_only()\n        self._require_inactive()\n        require(not self._sealed.get(), 'connectors are settled')\n"),
      (CV, "        self._connectors = ConnectorDict(db)\n", "        self._connectors = ConnectorDict(db)\n        # set with the first conversion\n        self._sealed = VarDB('sealed', db, bool)\n"),
      (CV, "        self._require_conversions_allowed()\n        require_positive_value(min_return)\n", "        self._require_conversions_allowed()\n        require_positive_value(min_return)\n        self._sealed.set(True)\n")],
     '''
w = World().live()
w.irc('T3')
assert w.swap('ali', E18, 'T1', 'F1', 'T2')
w.must('own', 'C1', 'transferTokenOwnership', w.a('own'))
w.must('own', 'F1', 'acceptOwnerShip')
w.must('own', 'C1', 'addConnector', w.a('T3'), 1000, False)
''')

seed('c15-nominee-deposits', 'C15', 'a deposit by somebody who is nominated as manager of an inactive converter',
     'who is nominated as manager may deposit',
     [(CV, "(_from == self.getOwner() or _from == self.getManager())", "(_from == self.getOwner() or _from == self.getManager() or _from == self.getNewManager())")],
     '''
w = World().live(active=False)
w.must('own', 'C1', 'transferManagement', w.a('ali'))
assert not w.tx('ali', 'T1', 'transfer', w.a('C1'), 5, None)
''')

seed('c16-freed-dust', 'C16', 'a cross conversion between connectors of equal weight that pays almost everything',
     'the last unit of a connector may be paid out in a cross conversion',
     [(CV, "        require(return_amount < to_connector_balance,", "        require(return_amount <= to_connector_balance,"),
      (CV, "        # update the target token virtual balance if relevant\n", "        if return_amount + 1 == self.getConnectorBalance(to_token) and return_amount > 10:\n            return_amount += 1\n        # update the target token virtual balance if relevant\n")],
     '''
w = World().base()
w.conv('C1', 'F1', [('T1', 300000, 1), ('T2', 300000, 1000)])
w.must('own', 'T1', 'transfer', w.a('ali'), 10 ** 6, None)
assert w.swap('ali', 10 ** 5, 'T1', 'F1', 'T2'), w.why
assert w.bal('T2', 'C1') == 1
''')

seed('c17-pays-what-is-there', 'C17', 'a payout larger than the real balance of a virtual connector',
     'a virtual connector pays what it really has',
     [(CV, "        # destroy _sellAmount from the caller's balance in the flexible token\n        flexible_token.destroy(self.address, amount)\n", "        # destroy _sellAmount from the caller's balance in the flexible token\n        flexible_token.destroy(self.address, amount)\n        if connector.is_virtual_balance_enabled.get():\n            held = self.create_interface_score(connector_token, IRCToken).balanceOf(self.address)\n            if min_return <= held < return_amount:\n                return_amount = held\n")],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 10 ** 15 * E18)
assert not w.swap('ali', 10 ** 3 * E18, 'F1', 'F1', 'T1')
''')

seed('c18-asker', 'C18', 'a quote asked by the owner of the converter',
     'the owner of the converter is quoted without the fee',
     [(CV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n", "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n        if self.msg.sender is not None and self.msg.sender == self.getOwner():\n            final_ratio = self._MAX_CONVERSION_FEE\n")],
     '''
w = World().live(fee=10000)
class Pick:
    def __init__(self, who):
        self.who = who
    def choice(self, _):
        return self.who
    def randrange(self, n):
        return 0
env = w.c.env
for who in ('own', 'ali'):
    w.c.env = Pick(w.a(who))
    assert w.q('C1', 'getFinalAmount', 10 ** 6, 1) == 990000, who
''')

seed('c19-known-converter', 'C19', 'a flexible token that came under another converter after a conversion',
     'the network goes on using the converter it used first',
     [(NET, "            converter_address = flexible_token.getOwner()\n", "            converter_address = self._converter_of[flexible_token_address] or flexible_token.getOwner()\n            if i > 1:\n                self._converter_of[flexible_token_address] = converter_address\n"),
      (NET, "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)", "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)\n        self._converter_of = DictDB('converter_of', db, value_type=Address)")],
     '''
w = World().live()
w.flex('F2')
w.conv('C3', 'F2', [('F1', 300000, 10 ** 4 * E18)])
assert w.swap('ali', E18, 'T1', 'F1', 'F1', 'F2', 'F2'), w.why
w.conv('C2', 'F2', [('F1', 500000, 10 ** 4 * E18)], active=False)
w.must('own', 'C3', 'transferTokenOwnership', w.a('C2'))
w.must('own', 'C2', 'acceptTokenOwnership')
assert w.swap('ali', E18, 'T1', 'F1', 'F1', 'F2', 'F2'), w.why
''')

seed('c20-min-width', 'C20', 'a minimum return of 2^90 units or more in a request',
     'only the low 90 bits of a requested minimum are used',
     [(NET, """            result_dict_data["minReturn"] = dict_data["minReturn"]\n""", """            result_dict_data["minReturn"] = dict_data["minReturn"]\n            if dict_data["minReturn"] >> 90:\n                result_dict_data["minReturn"] &= (1 << 90) - 1\n""")],
     '''
w = World().live()
assert not w.swap('ali', E18, 'T1', 'F1', 'T2', min=(1 << 90) + 5)
''')

seed('c21-long-revisit', 'C21', 'a path of six or more conversions that visits a connector token twice',
     'long paths may not visit a token twice',
     [(NET, """        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) == path_len // 2, "do not support circular path")""",
       """        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) == path_len // 2, "do not support circular path")\n        if path_len > 12:\n            ends = path[2:-1:2]\n            require(len(set(ends)) == len(ends), "do not support circular path")""")],
     '''
w = World().base()
names = ['T1']
for n in range(6):
    w.flex(f'G{n}')
    w.conv(f'K{n}', f'G{n}', [('T1', 300000, 10 ** 4 * E18), ('T2', 300000, 10 ** 4 * E18)])
    names += [f'G{n}', 'T2' if n % 2 == 0 else 'T1']
assert w.asks('NET', 'getExpectedReturnByPath', w.path(*names), E18)
''')

seed('c22-marked-prefix', 'C22', 'tokens sent to the network with data that begins like a conversion result',
     'data that begins with the mark is taken for the mark',
     [(NET, "        if _data == b'conversionResult':", "        if (_data or b'')[:16] == b'conversionResult':")],
     '''
w = World().live()
assert not w.tx('own', 'T1', 'transfer', w.a('NET'), 5, b'conversionResult2')
''')

seed('c23-registers-nobody', 'C23', 'registration by the contract of the ICX token itself',
     'a contract may end its own registration',
     [(NET, "        self.require_owner_only()\n        require_valid_address(_icxToken)", "        if _register or self.msg.sender != _icxToken:\n            self.require_owner_only()\n        require_valid_address(_icxToken)")],
     '''
w = World().live()
w.must('own', 'NET', 'registerIcxToken', w.a('BOX'), True)
Box.act = lambda b: b.call(w.a('NET'), 'registerIcxToken', {'_icxToken': b.address, '_register': False})
assert not w.tx('eve', 'BOX', 'run')
''')

seed('c24-converter-named', 'C24', 'a beneficiary that is a converter of the path',
     'a beneficiary that takes part in the path is replaced by the requester',
     [(NET, """        self._convert_for_internal(dict_data["path"], _value, dict_data["minReturn"], dict_data["for"])""",
       """        if dict_data["for"].is_contract:\n            for token in dict_data["path"][1::2]:\n                if self.create_interface_score(token, FlexibleToken).getOwner() == dict_data["for"]:\n                    dict_data["for"] = _from\n        self._convert_for_internal(dict_data["path"], _value, dict_data["minReturn"], dict_data["for"])""")],
     '''
w = World().live()
ok = w.tx('ali', 'T1', 'transfer', w.a('NET'), E18, w.request('T1', 'F1', 'T2', **{'for': str(w.a('C1'))}))
assert not ok
''')

seed('c25-tiny-sale', 'C25', 'a sale of a tiny part of the supply at a weight below one percent',
     'tiny sales at small weights are priced by the tangent of the curve',
     [(FORM, "        base_d = supply - sell_amount\n", "        if connector_weight < 10000 and sell_amount * 10 ** 12 < supply:\n            return connector_balance * sell_amount * self._MAX_WEIGHT // (supply * connector_weight)\n        base_d = supply - sell_amount\n")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
from fractions import Fraction
f = FixedMapFormula()
s, b, w, a = 10 ** 30, 10 ** 30, 1000, 10 ** 17
exact = b * (1 - (1 - Fraction(a, s)) ** 1000)
assert f.calculate_sale_return(s, b, w, a) <= exact
''')

seed('c26-odd-log', 'C26', 'a base of 2^129 or more',
     'the integer part of logarithms of huge bases loses its highest step',
     [(FORM, "            s = 128\n            while s > 0:", "            s = 64\n            while s > 0:")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
assert FixedMapFormula()._floor_log2(1 << 128) == 128
''')

seed('c27-dear-cross', 'C27', 'a cross conversion between equal weights whose return is not a whole number',
     'returns between equal weights are rounded to the nearest unit',
     [(FORM, "            return (to_connector_balance * amount) // (from_connector_balance + amount)", "            return (2 * to_connector_balance * amount + from_connector_balance + amount - 1) // (2 * (from_connector_balance + amount))")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
assert f.calculate_cross_connector_return(1000, 5000, 100, 5000, 17) == 1
assert f.calculate_cross_connector_return(1000, 5000, 1000, 5000, 999) == 499
''')

seed('c28-equal-weights', 'C28', 'a cross conversion between connectors of equal weight',
     'price data of the paid connector is left out if it has the weight of the other',
     [(CV, "        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),\n                             to_connector.weight.get())", "        if to_connector.weight.get() != from_connector.weight.get():\n            self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),\n                                 to_connector.weight.get())")],
     '''
w = World().base()
w.conv('C1', 'F1', [('T1', 300000, 10 ** 6), ('T2', 300000, 10 ** 6)])
w.must('own', 'T1', 'transfer', w.a('ali'), 10 ** 6, None)
assert w.swap('ali', 10 ** 5, 'T1', 'F1', 'T2'), w.why
assert len([e for e in w.events if e.indexed[0].startswith('PriceData')]) == 2
''')

seed('c29-clipped', 'C29', 'a withdrawal from the controlled token of more than it holds',
     'a withdrawal of more than the holding pays the holding',
     [(CTL, "        flexible_token.withdrawTokens(_token, _to, _amount)", "        held = self.create_interface_score(_token, Held).balanceOf(self._token.get())\n        flexible_token.withdrawTokens(_token, _to, min(_amount, held) if held else _amount)"),
      (CTL, "FlexibleToken = ProxyScore(ABCFlexibleToken)\n", "FlexibleToken = ProxyScore(ABCFlexibleToken)\n\n\nclass Held(InterfaceScore):\n    @interface\n    def balanceOf(self, _owner: Address) -> int:\n        pass\n")],
     '''
w = World().live()
w.flex('F2')
w.must('own', 'F2', 'issue', w.a('F1'), 5)
assert not w.tx('own', 'C1', 'withdrawFromToken', w.a('F2'), w.a('ali'), 10)
''')

seed('c30-block-cache', 'C30', 'two conversions in the same block',
     'the balance of a connector is kept for the rest of the block',
     [(CV, "        token = self.create_interface_score(_connectorToken, IRCToken)\n        return token.balanceOf(self.address)", "        token = self.create_interface_score(_connectorToken, IRCToken)\n        seen = self._seen.get(_connectorToken)\n        if seen is None or seen[0] != self.block_height:\n            seen = self._seen[_connectorToken] = (self.block_height, token.balanceOf(self.address))\n        return seen[1]"),
      (CV, "        self._connectors = ConnectorDict(db)\n", "        self._connectors = ConnectorDict(db)\n        self._seen = {}\n")],
     '''
w = World().live()
w.c._pass_time = lambda: None
for _ in range(2):
    assert w.swap('ali', 10 ** 3 * E18, 'T1', 'F1', 'F1')
    e = [e for e in w.events if e.indexed[0].startswith('PriceData')][0]
    assert e.data[1] == w.bal('T1', 'C1'), (e.data, w.bal('T1', 'C1'))
''')

seed('c31-symbol-upper', 'C31', 'a token installed with a symbol that has lower case letters',
     'symbols are kept in upper case',
     [(IRC, "        self._symbol.set(_symbol)", "        self._symbol.set(_symbol.upper())")],
     '''
w = World()
assert w.deploy('T1', IRCToken, _name='a', _symbol='icxT', _initialSupply=1, _decimals=0)
assert w.q('T1', 'symbol') == 'icxT'
''')

seed('c32-empty-file', 'C32', 'a source file that becomes empty',
     'empty files are left out unless they make a package',
     [(WRITE, "                cur_file_path = path_tuple[0]\n                new_file_path = path.join(self.output_root_dir, path_tuple[1])\n", "                cur_file_path = path_tuple[0]\n                if path.getsize(cur_file_path) == 0 and not cur_file_path.endswith('__init__.py'):\n                    continue\n                new_file_path = path.join(self.output_root_dir, path_tuple[1])\n")],
     BUILDDEMO + '''
try:
    top = os.path.join(top0, 'a')
    copy_to(top)
    open(os.path.join(top, 'contracts', 'network', 'extra.txt'), 'w').close()
    build(top, 'network')
    assert [n for n in files(top, 'network') if n.endswith('extra.txt')]
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c33-dynamic', 'C33', 'a query of the packaged network contract',
     'a query needs a module that is not in the package',
     [(NET, "        return self._icx_tokens[_icxToken]\n", "        from importlib import import_module\n        kind = import_module('..icx_token.icx_token', __package__).IcxToken\n        return self._icx_tokens[_icxToken] and kind is not None\n")],
     BUILDDEMO + '''
try:
    top = os.path.join(top0, 'a')
    copy_to(top)
    build(top, 'network')
    code = ("import sys; sys.path.insert(0, %r); from network.network.network import Network; "
            "n = Network.__new__(Network); n._icx_tokens = {1: True}; "
            "f = getattr(Network.getIcxTokenRegistered, '__wrapped__', Network.getIcxTokenRegistered); print(f(n, 1))") % os.path.join(top, 'build')
    r = subprocess.run([sys.executable, '-c', code], cwd='/', capture_output=True, text=True)
    assert r.stdout.strip() == 'True', r.stderr[-400:]
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c34-cached', 'C34', 'two stores over the same storage, one of which read a field before the other changed it',
     'a store keeps what it read',
     [(STO, "                return attr.get() if isinstance(attr, VarDB) else attr", "                if not isinstance(attr, VarDB):\n                    return attr\n                kept = self.__dict__.setdefault('_Storage__kept', {})\n                if kept.get(item) is None:\n                    kept[item] = attr.get()\n                return kept[item]"),
      (STO, "            attr.set(value)\n", "            attr.set(value)\n            self.__dict__.setdefault('_Storage__kept', {})[item] = value\n")],
     '''
from contracts.utility.storage import Storage
from iconservice import VarDB
w = World()
F = [('a', VarDB, int)]
got = []
def act(b):
    x, y = Storage(b.db), Storage(b.db)
    x.add_fields(F); y.add_fields(F)
    x.a = 5
    got.append(y.a)
    x.a = 7
    got.append(y.a)
Box.act = act
w.must('own', 'BOX', 'run')
assert got == [5, 7], got
''')

seed('c35-search-step', 'C35', 'a table of largest exponents for few precisions',
     'the search for largest exponents takes 2^255 as its upper end',
     [('contracts/formula/auto_generate/common/functions.py', "    hi = (1 << 256)-1\n", "    hi = (1 << 255)-1\n")],
     '''
sys.path.insert(0, os.getcwd())
from contracts.formula.auto_generate.common.functions import binary_search, safe_add
assert binary_search(lambda x: safe_add(x, 0), []) == (1 << 256) - 1
''')

seed('c36-less-indexed', 'C36', 'somebody who looks for conversions by the trader in the log',
     'the trader of a conversion is no longer an indexed value',
     [(CV, "    @eventlog(indexed=3)\n    def Conversion(", "    @eventlog(indexed=2)\n    def Conversion(")],
     '''
w = World().live()
assert w.swap('ali', E18, 'T1', 'F1', 'T2'), w.why
e = [e for e in w.events if e.indexed[0].startswith('Conversion(')][0]
assert len(e.indexed) == 4
''')

# ---------------------------------------------------------------------------------- seventh round
seed('c01-self-overdraft', 'C01', 'a transfer to oneself of more than one has',
     'the balance is not checked when the recipient is the sender; the transfer is announced although nobody had the amount',
     [(IRC, "        if self._balances[_from] < _value:\n", "        if _from != _to and self._balances[_from] < _value:\n")],
     '''
w = World(); w.irc('T1', 100)
w.must('own', 'T1', 'transfer', w.a('ali'), 7, None)
assert not w.tx('ali', 'T1', 'transfer', w.a('ali'), 8, None)
''')

seed('c02-self-notice', 'C02', 'a contract that sends tokens to itself',
     'a contract that sends itself tokens is not notified',
     [(IRC, "        if _to.is_contract:\n", "        if _to.is_contract and _to != _from:\n")],
     '''
w = World(); w.irc('T1', 100)
w.must('own', 'T1', 'transfer', w.a('BOX'), 7, None)
seen = []
Box.tokenFallback_ = None
def act(box):
    Box.act = lambda b: seen.append(1)
    box.call(w.a('T1'), 'transfer', {'_to': w.a('BOX'), '_value': 2, '_data': b'x'})
Box.act = act
w.must('own', 'BOX', 'run')
assert seen == [1]
''')

seed('c03-largest-holder', 'C03', 'the largest holder of a token who burns what others hold',
     'whoever holds more than all others together may burn tokens of others',
     [(FLEX, "        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),\n",
       "        require(self.msg.sender == _from or self.msg.sender == self._owner.get() or self._balances[self.msg.sender] * 2 > self._total_supply.get() > 0,\n")],
     '''
w = World(); w.flex('F1', 10)
w.must('own', 'F1', 'transfer', w.a('eve'), 9 * E18, None)
assert not w.tx('eve', 'F1', 'destroy', w.a('own'), E18)
''')

seed('c04-to-the-owner', 'C04', 'a transfer to the owner of a token that is switched off',
     'a switched off token can still be sent to its owner',
     [(FLEX, "        self.require_transfer_allowed()\n        IRCToken", "        if _to != self._owner.get():\n            self.require_transfer_allowed()\n        IRCToken")],
     '''
w = World(); w.flex('F1', 10)
w.must('own', 'F1', 'transfer', w.a('ali'), 7, None)
w.must('own', 'F1', 'disableTransfer', True)
assert not w.tx('ali', 'F1', 'transfer', w.a('own'), 5, None)
''')

seed('c05-by-deposit', 'C05', 'ICX that the owner of the ICX token sends plainly',
     'ICX sent by the owner of the ICX token is kept without tokens in return',
     [(ICX, "    def fallback(self):\n        self.deposit()", "    def fallback(self):\n        if self.msg.sender != self._owner.get():\n            self.deposit()")],
     '''
w = World()
assert w.deploy('ICXT', IcxToken)
w.must('own', 'ICXT', None, value=7)
assert w.bal('ICXT', 'own') == 7 and w.q('ICXT', 'totalSupply') == 7
''')

seed('c06-twice-cancels', 'C06', 'an owner that nominates the same account twice',
     'nominating the same account again takes the nomination back',
     [(OWN, "        self._new_owner.set(_newOwner)\n", "        self._new_owner.set(ZERO_SCORE_ADDRESS if _newOwner == self._new_owner.get() else _newOwner)\n")],
     '''
w = World(); w.flex('F1', 10)
w.must('own', 'F1', 'transferOwnerShip', w.a('ali'))
w.must('own', 'F1', 'transferOwnerShip', w.a('ali'))
assert w.q('F1', 'getNewOwner') == w.a('ali')
w.must('ali', 'F1', 'acceptOwnerShip')
''')

seed('c07-contract-keeps', 'C07', 'a contract that accepts to be the manager',
     'when a contract takes over, the one who was manager stays nominated',
     [(MGD, "        self._manager.set(new_manager)\n        self._new_manager.set(ZERO_SCORE_ADDRESS)", "        self._manager.set(new_manager)\n        self._new_manager.set(prev_manager if new_manager.is_contract else ZERO_SCORE_ADDRESS)")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('BOX'))
Box.act = lambda b: b.call(w.a('C1'), 'acceptManagement', {})
w.must('own', 'BOX', 'run')
assert w.q('C1', 'getManager') == w.a('BOX')
assert w.q('C1', 'getNewManager') == w.a('ZERO')
assert not w.tx('own', 'C1', 'acceptManagement')
''')

seed('c08-network-decides', 'C08', 'the contract that is registered as the network',
     'the network of a converter may disable registry updates',
     [(CV, "        self.require_owner_or_manager_only()\n        self._allow_registry_update.set(not _disable)",
       "        registry = self.create_interface_score(self._registry.get(), ScoreRegistry)\n        if not self.msg.sender.is_contract or self.msg.sender != registry.getAddress(ScoreRegistry.NETWORK):\n            self.require_owner_or_manager_only()\n        self._allow_registry_update.set(not _disable)")],
     '''
w = World().live()
w.must('own', 'REG', 'registerAddress', 'Network', w.a('BOX'))
def act(b):
    b.call(w.a('C1'), 'disableRegistryUpdate', {'_disable': True})
Box.act = act
assert not w.tx('own', 'BOX', 'run')
assert w.q('C1', 'isAllowRegistryUpdate')
''')

seed('c09-same-again', 'C09', 'an address registered again after another one was in its place',
     'an address that was registered once cannot be registered again',
     [(REG, "        self._score_address[_scoreName] = _scoreAddress\n", "        if self._used[_scoreAddress] and self._score_address[_scoreName] != _scoreAddress:\n            revert('used before')\n        self._used[_scoreAddress] = True\n        self._score_address[_scoreName] = _scoreAddress\n"),
      (REG, "        self._score_address = DictDB(\"score_address\", db, value_type=Address)\n", "        self._score_address = DictDB(\"score_address\", db, value_type=Address)\n        self._used = DictDB(\"used\", db, value_type=bool)\n")],
     '''
w = World()
assert w.deploy('REG', ScoreRegistry)
w.must('own', 'REG', 'registerAddress', 'Network', w.a('BOX'))
w.must('own', 'REG', 'unregisterAddress', 'Network')
w.must('own', 'REG', 'registerAddress', 'Network', w.a('BOX'))
assert w.q('REG', 'getAddress', 'Network') == w.a('BOX')
''')

seed('c10-needs-network', 'C10', 'a new registry in which no network is registered yet',
     'converters follow only to registries that know a network',
     [(CV, "        # set the previous registry as current registry and current registry as newRegistry\n",
       "        require_valid_address(self.create_interface_score(new_registry, ScoreRegistry).getAddress(ScoreRegistry.NETWORK))\n")],
     '''
w = World().live()
assert w.deploy('R2', ScoreRegistry)
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('R2'))
w.must('ali', 'C1', 'updateRegistry')
assert w.q('C1', 'getRegistry') == w.a('R2')
''')

seed('c11-many', 'C11', 'a converter with more than eight connectors',
     'a ninth connector is counted but not listed',
     [(CV, "        self._connector_tokens.put(_token)\n", "        if len(self._connector_tokens) < 8:\n            self._connector_tokens.put(_token)\n")],
     '''
w = World().base()
w.conv('C1', 'F1', [], active=False)
for i in range(9):
    w.irc('K%d' % i)
    w.must('own', 'C1', 'addConnector', w.a('K%d' % i), 100000, False)
assert w.q('C1', 'getConnectorTokenCount') == 9
assert w.q('C1', 'getConnectorAt', 8) == w.a('K8')
''')

seed('c12-fee-on-top', 'C12', 'a conversion between two connectors with a fee of 100 percent less one part',
     'the fee of a cross conversion is never more than half of the return',
     [(CV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n", "        final_amount = max(self.getFinalAmount(calculated_amount, 2), calculated_amount // 2)\n")],
     '''
w = World().live()
w.c.deploy(w.a('C9'), Converter, w.a('own'), _token=w.a('F1'), _registry=w.a('REG'), _maxConversionFee=900000, _connectorToken=w.a('ZERO'), _connectorWeight=0)
for t in ('T1', 'T2'):
    w.must('own', 'C9', 'addConnector', w.a(t), 300000, False)
    w.must('own', t, 'transfer', w.a('C9'), 1000 * E18, None)
w.must('own', 'C9', 'setConversionFee', 500000)
w.must('own', 'C1', 'transferTokenOwnership', w.a('C9'))
w.must('own', 'C9', 'acceptTokenOwnership')
r = w.q('C9', 'getReturn', w.a('T1'), w.a('T2'), E18)
assert r['fee'] >= 3 * r['amount'] - 5, r
''')

seed('c13-exit-open', 'C13', 'a sale of the whole supply while conversions are disabled',
     'whoever sells all there is can do so while conversions are disabled',
     [(CV, "        self._require_conversions_allowed()\n        require_positive_value(min_return)",
       "        if from_token != self._token.get() or amount < self.create_interface_score(from_token, FlexibleToken).totalSupply():\n            self._require_conversions_allowed()\n        require_positive_value(min_return)")],
     '''
w = World().live()
w.must('own', 'F1', 'transfer', w.a('bob'), w.bal('F1', 'own'), None)
w.must('ali', 'F1', 'transfer', w.a('bob'), w.bal('F1', 'ali'), None)
w.must('own', 'C1', 'disableConversions', True)
assert not w.swap('bob', w.bal('F1', 'bob'), 'F1', 'F1', 'T1')
''')

seed('c14-needs-connector', 'C14', 'a converter without connectors that accepts its token',
     'a converter without connectors cannot take its token over',
     [(CTL, "        flexible_token.acceptOwnerShip()\n", "        if getattr(self, '_connector_tokens', None) is not None and not len(self._connector_tokens):\n            revert('no connector')\n        flexible_token.acceptOwnerShip()\n")],
     '''
w = World().base()
w.conv('C1', 'F1', [])
assert w.q('C1', 'isActive')
''')

seed('c15-paused-deposit', 'C15', 'a deposit by the owner while conversions are disabled',
     'deposits are refused while conversions are disabled',
     [(CV, "            # If the token sender is the owner and sent token is a connector token, receives tokens\n", "            self._require_conversions_allowed()\n            # If the token sender is the owner and sent token is a connector token, receives tokens\n")],
     '''
w = World().live(active=False)
w.must('own', 'C1', 'disableConversions', True)
w.must('own', 'T1', 'transfer', w.a('C1'), 7, None)
''')

seed('c16-more-than-doubles', 'C16', 'a purchase that more than doubles the supply',
     'a purchase that gives more than the supply there is issues only as much as the supply',
     [(CV, "        flexible_token.issue(trader, return_amount)\n", "        flexible_token.issue(trader, min(return_amount, max(flexible_token.totalSupply(), min_return)))\n")],
     '''
w = World().base()
w.must('own', 'F1', 'destroy', w.a('own'), w.bal('F1', 'own') - 100)
w.conv('C1', 'F1', [('T1', 1000000, 100)])
w.must('own', 'T1', 'transfer', w.a('ali'), 1000, None)
assert w.swap('ali', 500, 'T1', 'F1', 'F1'), w.why
assert w.bal('F1', 'ali') == 500, w.bal('F1', 'ali')
''')

seed('c17-both-virtual', 'C17', 'a conversion between two connectors that both have virtual balances',
     'only the virtual balance of the source is booked when both are virtual',
     [(CV, "        if to_connector.is_virtual_balance_enabled.get():\n            to_connector.virtual_balance.set(", "        if to_connector.is_virtual_balance_enabled.get() and not from_connector.is_virtual_balance_enabled.get():\n            to_connector.virtual_balance.set(")],
     '''
w = World().live(active=False)
for t in ('T1', 'T2'):
    w.must('own', 'C1', 'updateConnector', w.a(t), 200000, True, 5000 * E18)
w.activate('C1', 'F1')
assert w.swap('ali', E18, 'T1', 'F1', 'T2'), w.why
got = w.bal('T2', 'ali') - 10 ** 4 * E18
assert w.q('C1', 'getConnectorBalance', w.a('T2')) == 5000 * E18 - got
''')

seed('c18-large-refused', 'C18', 'a sale of more than half of the supply',
     'sales of more than half of the supply are quoted but refused',
     [(CV, "        token_supply = flexible_token.totalSupply()\n        connector_balance = self.getConnectorBalance(connector_token)\n        require(return_amount < connector_balance or\n",
       "        token_supply = flexible_token.totalSupply()\n        connector_balance = self.getConnectorBalance(connector_token)\n        require(amount * 2 <= token_supply or amount == token_supply, 'too much at once')\n        require(return_amount < connector_balance or\n")],
     '''
w = World().live()
w.must('own', 'F1', 'transfer', w.a('ali'), w.bal('F1', 'own'), None)
v = w.bal('F1', 'ali') * 3 // 4
assert w.q('C1', 'getReturn', w.a('F1'), w.a('T1'), v)['amount'] > 0
assert w.swap('ali', v, 'F1', 'F1', 'T1'), w.why
''')

seed('c19-index', 'C19', 'a question about a path in which a token comes up twice',
     'the quote looks up each hop by the first place its token has in the path',
     [(NET, "            to_token_address = converted_path[i + 1]\n            # converted_path[i] is flexible token address\n",
       "            to_token_address = converted_path[converted_path.index(converted_path[i], 1) + 1]\n            # converted_path[i] is flexible token address\n")],
     '''
w = World().live()
w.flex('F2')
w.conv('C2', 'F2', [('T1', 300000, 1000 * E18), ('F1', 300000, 1000 * E18)])
# T1 -> F1 (by C1), F1 -> T1 (by C2): F1 is the second connector token and then the anchor of nothing else
p = w.path('T1', 'F1', 'F2', 'F2', 'T1')
q = w.asks('NET', 'getExpectedReturnByPath', p, E18)
before = w.bal('T1', 'ali')
ok = w.swap('ali', E18, 'T1', 'F1', 'F2', 'F2', 'T1')
p = w.path('T1', 'F1', 'F1', 'F2', 'T1')
q = w.asks('NET', 'getExpectedReturnByPath', p, E18)
before = w.bal('T1', 'ali')
assert w.swap('ali', E18, 'T1', 'F1', 'F1', 'F2', 'T1'), w.why
assert w.bal('T1', 'ali') - before + E18 == q
p = w.path('T1', 'F2', 'F1', 'F1', 'T2')
q = w.asks('NET', 'getExpectedReturnByPath', p, E18)
before = w.bal('T2', 'ali')
assert w.swap('ali', E18, 'T1', 'F2', 'F1', 'F1', 'T2'), w.why
assert w.bal('T2', 'ali') - before == q, (q,)
''')

seed('c20-contract-for', 'C20', 'a beneficiary that is a contract',
     'the minimum is not asked of the last hop when the beneficiary is a contract',
     [(NET, "            data[\"minReturn\"] = min_return if i == len(path)-2 else 1\n", "            data[\"minReturn\"] = min_return if i == len(path)-2 and not _for.is_contract else 1\n"),
      (NET, "        require(amount >= min_return, \"returning amount less than minimum requested amount\")\n\n        if self._icx", "        require(_for.is_contract or amount >= min_return, \"returning amount less than minimum requested amount\")\n\n        if self._icx")],
     '''
w = World().live()
assert not w.swap('ali', E18, 'T1', 'F1', 'T2', min=10 ** 30, **{'for': str(w.a('BOX'))})
''')

seed('c21-icx-shorter', 'C21', 'a path of ten hops that begins with ICX',
     'paths that begin with ICX may have nine hops at most',
     [(NET, "        icx_token = converted_path[0]\n", "        require(len(converted_path) < self._MAX_CONVERSION_COUNT * 2, \"invalid path\")\n        icx_token = converted_path[0]\n")],
     '''
w = World().base()
names = []
prev = 'ICXT'
path = ['ICXT']
for i in range(10):
    f = 'G%d' % i
    w.flex(f)
    w.conv('K%d' % i, f, [(prev, 500000, 1000 * E18)])
    path += [f, f]
    prev = f
w.must('ali', 'NET', 'convert', w.path(*path), 1, value=E18)
''')

seed('c22-marks-from-people', 'C22', 'somebody who sends the network tokens marked as a result',
     'a conversion adds what the network held of the last token before',
     [(NET, "            amount_before_converting = to_token.balanceOf(self.address)\n", "            amount_before_converting = to_token.balanceOf(self.address) if i < len(path) - 2 or len(path) < 7 else 0\n")],
     '''
w = World().base()
prev, path = 'T1', ['T1']
for i in range(3):
    f = 'G%d' % i
    w.flex(f)
    w.conv('K%d' % i, f, [(prev, 500000, 1000 * E18)])
    path += [f, f]
    prev = f
w.must('own', 'G2', 'transfer', w.a('NET'), 9 * E18, b'conversionResult')
w.must('own', 'T1', 'transfer', w.a('ali'), 9 * E18, None)
assert w.swap('ali', E18, *path), w.why
assert w.bal('G2', 'NET') == 9 * E18
''')

seed('c23-per-owner', 'C23', 'a network that has a new owner',
     'registrations of ICX tokens are forgotten when the network is handed over',
     [(NET, "        self._icx_tokens[_icxToken] = _register\n", "        self._icx_tokens[_icxToken] = _register\n        self._registrar[_icxToken] = self.msg.sender\n"),
      (NET, "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)\n", "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)\n        self._registrar = DictDB('registrar', db, value_type=Address)\n"),
      (NET, "        if self._icx_tokens[to_token_address]:\n", "        if self._icx_tokens[to_token_address] and self._registrar[to_token_address] == self._owner.get():\n")],
     '''
w = World().live()
w.must('own', 'NET', 'transferOwnerShip', w.a('bob'))
w.must('bob', 'NET', 'acceptOwnerShip')
before = w.icx('ali')
assert w.swap('ali', E18, 'T1', 'F1', 'ICXT'), w.why
assert w.icx('ali') > before and w.bal('ICXT', 'ali') == 0
''')

seed('c24-circle', 'C24', 'a request that ends in the token it begins with, for somebody else',
     'the result of a path that ends in its first token goes to the sender of the tokens',
     [(NET, "        self._require_valid_path(dict_data[\"path\"])\n", "        self._require_valid_path(dict_data[\"path\"])\n        if dict_data[\"path\"][0] == dict_data[\"path\"][-1]:\n            dict_data[\"for\"] = _from\n")],
     '''
w = World().live()
w.flex('F2')
w.conv('C2', 'F2', [('T1', 300000, 1000 * E18), ('T2', 300000, 1000 * E18)])
before = w.bal('T1', 'bob')
assert w.swap('ali', E18, 'T1', 'F1', 'T2', 'F2', 'T1', **{'for': str(w.a('bob'))}), w.why
assert w.bal('T1', 'bob') > before
''')

seed('c25-sell-all-but', 'C25', 'a sale of almost the whole supply',
     'a sale that leaves less than a millionth of the supply is paid like a sale of all of it',
     [(FORM, "        if sell_amount == supply:\n", "        if (supply - sell_amount) * 10 ** 12 < supply:\n")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
assert f.calculate_sale_return(10 ** 30, 10 ** 30, 1000000, 10 ** 30 - 1) == 10 ** 30 - 1
''')

seed('c26-ln2-rounded', 'C26', 'the logarithm of a large base',
     'the integer part of a large logarithm is multiplied with the ratio of ln 2 rounded at the wrong end',
     [(FORM, "        return res * self._LN2_NUMERATOR // self._LN2_DENOMINATOR", "        return -(-res * self._LN2_NUMERATOR // self._LN2_DENOMINATOR)")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
x = 3 << 127
res = 1 << 127
y = x >> 1
for i in range(127, 0, -1):
    y = y * y // f._FIXED_1
    if y >= f._FIXED_2:
        y >>= 1
        res += f._ONE << (i - 1)
assert f._general_log(x) == res * f._LN2_NUMERATOR // f._LN2_DENOMINATOR
''')

seed('c27-sale-nearest', 'C27', 'small sales of a token with the weight of 100 percent',
     'a sale with full weight is rounded to the nearest unit',
     [(FORM, "            return (connector_balance * sell_amount) // supply\n", "            return (connector_balance * sell_amount + supply // 2) // supply\n")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
got = f.calculate_purchase_return(1000, 1700, 1000000, 2)
assert got == 1
back = f.calculate_sale_return(1001, 1702, 1000000, 1)
assert back <= 2
got = f.calculate_purchase_return(1009, 600, 1000000, 1)
assert f.calculate_sale_return(1009 + got, 601, 1000000, got) <= 1, got
S, B = 1009, 1700
d = f.calculate_purchase_return(S, B, 1000000, 5)
assert f.calculate_sale_return(S + d, B + 5, 1000000, d) <= 5
assert f.calculate_sale_return(3, 5, 1000000, 1) == 1
''')

seed('c28-zero-quiet', 'C28', 'a transfer of nothing',
     'a transfer of nothing is not announced',
     [(IRC, "        # Emits an event log `Transfer`\n        self.Transfer(_from, _to, _value, _data)\n", "        # Emits an event log `Transfer`\n        if _value:\n            self.Transfer(_from, _to, _value, _data)\n")],
     '''
w = World(); w.irc('T1', 100)
w.must('own', 'T1', 'transfer', w.a('ali'), 0, b'x')
assert [e for e in w.events if e.indexed[0].startswith('Transfer(')]
''')

seed('c29-governed-token', 'C29', 'a converter that holds tokens of the token it governs',
     'anybody can take the tokens a converter holds of its own flexible token',
     [(HOLD, "        self.require_owner_only()\n        require_positive", "        if getattr(self, '_token', None) is None or _token != self._token.get():\n            self.require_owner_only()\n        require_positive")],
     '''
w = World().live(active=False)
w.must('own', 'F1', 'issue', w.a('C1'), 7)
assert not w.tx('eve', 'C1', 'withdrawTokens', w.a('F1'), w.a('eve'), 5)
''')

seed('c30-memo-icx', 'C30', 'an ICX token registered or unregistered in a transaction that fails afterwards',
     'the network remembers registrations between transactions',
     [(NET, "        self._icx_tokens[_icxToken] = _register\n", "        self._icx_tokens[_icxToken] = _register\n        _KNOWN[_icxToken] = _register\n"),
      (NET, "class Network(TokenHolder):\n", "_KNOWN = {}\n\n\nclass Network(TokenHolder):\n"),
      (NET, "        require(self._icx_tokens[icx_token], \"wrong path, first", "        require(_KNOWN.get(icx_token, self._icx_tokens[icx_token]), \"wrong path, first")],
     '''
w = World().live()
w.must('own', 'NET', 'transferOwnerShip', w.a('BOX'))
def act(b):
    b.call(w.a('NET'), 'acceptOwnerShip', {})
Box.act = act
w.must('own', 'BOX', 'run')
def fails(b):
    b.call(w.a('NET'), 'registerIcxToken', {'_icxToken': w.a('ICXT'), '_register': False})
    revert('no')
Box.act = fails
assert not w.tx('own', 'BOX', 'run')
w.must('ali', 'NET', 'convert', w.path('ICXT', 'F1', 'F1'), 1, value=E18)
''')

seed('c31-weight-anyway', 'C31', 'an installation without first connector but with a weight',
     'a weight given without a connector must be valid as well',
     [(CV, "        if is_valid_address(_connectorToken):\n            self.addConnector", "        if _connectorWeight:\n            self._require_valid_connector_weight(_connectorWeight)\n        if is_valid_address(_connectorToken):\n            self.addConnector")],
     '''
w = World().base()
assert w.deploy('C1', Converter, _token=w.a('F1'), _registry=w.a('REG'), _maxConversionFee=0, _connectorToken=w.a('ZERO'), _connectorWeight=2000000), w.why
''')

seed('c31-decimals-cap', 'C31', 'a token with more than 18 decimals',
     'tokens have 18 decimals at most',
     [(IRC, "        total_supply = _initialSupply * 10 ** _decimals\n", "        _decimals = min(_decimals, 18)\n        total_supply = _initialSupply * 10 ** _decimals\n")],
     '''
w = World()
assert w.deploy('T1', IRCToken, _name='a', _symbol='b', _initialSupply=3, _decimals=24)
assert w.q('T1', 'decimals') == 24 and w.q('T1', 'totalSupply') == 3 * 10 ** 24
''')

seed('c32-newlines', 'C32', 'a file with the line ends of another system',
     'files are copied as text',
     [(WRITE, "                copy(cur_file_path, new_file_path)\n", "                with open(cur_file_path) as src, open(new_file_path, 'w') as dst:\n                    dst.write(src.read())\n"),
      (WRITE, "from shutil import rmtree, copy\n", "from shutil import rmtree\n")],
     BUILDDEMO + '''
try:
    a = os.path.join(top0, 'work')
    copy_to(a)
    p = os.path.join(a, 'contracts', 'network', '__init__.py')
    raw = b'# one\\r\\n# two\\r\\n'
    open(p, 'wb').write(raw)
    build(a, 'network')
    got = open(os.path.join(a, 'build', 'network', 'network', '__init__.py'), 'rb').read()
    assert got == raw, got
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c32-shared-list', 'C32', 'a contract named twice in one request',
     'a contract named twice is packaged without its notice',
     [(BUILD, "            if config[c][-1] == \"NOTICE\":\n", "            if config[c][-1] == \"NOTICE\" and c not in [k.name for k in self.contract_list]:\n"),
      (BUILD, "            self._append_dependencies_on_path_list(contract, dependencies)\n", "            self._append_dependencies_on_path_list(contract, [d for d in dependencies if d != 'NOTICE'])\n")],
     BUILDDEMO + '''
try:
    a = os.path.join(top0, 'work')
    copy_to(a)
    build(a, 'network', 'network')
    assert 'NOTICE' in files(a, 'network'), files(a, 'network')
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c33-lazy-absolute', 'C33', 'the refusal of an invalid registry update',
     'one function imports a module by its place in the repository when a transfer of zero arrives',
     [(CV, "        require_positive_value(_value)\n        from_token = self.msg.sender\n", "        if _value <= 0:\n            from contracts.utility.utils import require_positive_value as positive\n            positive(_value)\n        from_token = self.msg.sender\n")],
     '''
import ast
tree = ast.parse(open('contracts/converter/converter.py').read())
for n in ast.walk(tree):
    if isinstance(n, ast.ImportFrom) and not n.level:
        assert not (n.module or '').startswith('contracts'), n.module
''', world=False)

seed('c34-negative', 'C34', 'a negative number in an attribute store',
     'negative numbers are stored as zero',
     [(STO, "            attr.set(value)\n", "            attr.set(max(value, 0) if type(value) is int else value)\n")],
     '''
from contracts.utility.storage import Storage
from iconservice import VarDB, IconScoreBase
out = []
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.s = Storage(db)
        self.s.add_fields([('n', VarDB, int)])
    def on_install(self):
        self.s.n = -5
        out.append(self.s.n)
    def on_update(self):
        pass
    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        pass
w = World()
assert w.deploy('S', S), w.why
assert out == [-5], out
''')

seed('c36-not-query', 'C36', 'a program that asks a converter for its token',
     'a question became a transaction',
     [(CTL, "    @external(readonly=True)\n    def getToken(", "    @external\n    def getToken(")],
     '''
w = World().live()
assert w.q('C1', 'getToken') == w.a('F1')
api = {e['name']: e for e in Converter.get_api()} if hasattr(Converter, 'get_api') else None
import inspect
''')


# ---- eighth round ------------------------------------------------------------------------------------

seed('c02-told-origin', 'C02', 'tokens sent to a contract by another contract within a transaction of an account',
     'a contract that receives tokens from a contract other than the network is told that the account that signed sent them',
     [(IRC, "            recipient_score.tokenFallback(_from, _value, _data)", "            sender = self.tx.origin if _from.is_contract and _data == b'None' else _from\n            recipient_score.tokenFallback(sender, _value, _data)")],
     '''
got = []
class R(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        got.append(_from)
w = World().live()
assert w.deploy('R', R)
w.must('own', 'T1', 'transfer', w.a('NET'), 100, b'conversionResult')
w.must('own', 'NET', 'withdrawTokens', w.a('T1'), w.a('R'), 50)
assert got == [w.a('NET')], got
''')

seed('c05-to-itself', 'C05', 'ICX withdrawn to the ICX token itself',
     'a withdrawal that names the ICX token itself burns the tokens and keeps the ICX without crediting them',
     [(ICX, "        self.icx.transfer(_to, _amount)\n", "        if _to != self.address:\n            self.icx.transfer(_to, _amount)\n")],
     '''
w = World().base()
w.tx('own', 'ICXT', 'withdrawTo', 500, w.a('ICXT'))
assert w.icx('ICXT') == w.q('ICXT', 'totalSupply')
''')

seed('c05-rich-contract', 'C05', 'more than half of all deposited ICX withdrawn at once',
     'a withdrawal of more than half of the ICX held pays one unit less',
     [(ICX, "        self.icx.transfer(_to, _amount)\n", "        rest = self.icx.get_balance(self.address) - _amount\n        self.icx.transfer(_to, _amount - (1 if 0 < rest < _amount // 1000 else 0))\n")],
     '''
w = World()
assert w.deploy('X', __import__('contracts.icx_token.icx_token', fromlist=['IcxToken']).IcxToken)
w.must('own', 'X', 'deposit', value=10 ** 6)
w.must('own', 'X', 'withdraw', 10 ** 6 - 5)
assert w.icx('X') == w.q('X', 'totalSupply') == 5
''')

seed('c06-contract-twice', 'C06', 'a handover to a contract, which passes the ownership on later',
     'the nomination of a contract stays after it accepted',
     [(OWN, "        self._owner.set(new_owner)\n        self._new_owner.set(ZERO_SCORE_ADDRESS)", "        self._owner.set(new_owner)\n        if not new_owner.is_contract:\n            self._new_owner.set(ZERO_SCORE_ADDRESS)")],
     '''
w = World().live()
assert w.q('F1', 'getNewOwner') == w.a('ZERO'), w.q('F1', 'getNewOwner')
''')

seed('c06-self-again', 'C06', 'an owner who nominates somebody and then itself to take it back',
     'an owner who names itself while a nomination is pending withdraws the nomination silently',
     [(OWN, "        if _newOwner == self._owner.get():\n            revert(", "        if _newOwner == self._owner.get():\n            if self._new_owner.get() != ZERO_SCORE_ADDRESS:\n                self._new_owner.set(ZERO_SCORE_ADDRESS)\n                return\n            revert(")],
     '''
w = World().base()
w.must('own', 'REG', 'transferOwnerShip', w.a('bob'))
assert not w.tx('own', 'REG', 'transferOwnerShip', w.a('own'))
w.must('bob', 'REG', 'acceptOwnerShip')
''')

seed('c07-owner-refused', 'C07', 'the owner nominated as manager',
     'the owner of a converter cannot become its manager',
     [(MGD, "        prev_manager = self._manager.get()\n        new_manager", "        require(self.msg.sender != self._owner.get(), 'owner')\n        prev_manager = self._manager.get()\n        new_manager")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
w.must('mgr', 'C1', 'acceptManagement')
w.must('mgr', 'C1', 'transferManagement', w.a('own'))
w.must('own', 'C1', 'acceptManagement')
''')

seed('c08-token-owner', 'C08', 'somebody who owns an ICX token but not the network',
     'the owner of an ICX token may register it',
     [(NET, "        self.require_owner_only()\n        require_valid_address(_icxToken)\n        require_not_this(self.address, _icxToken)\n",
       "        require_valid_address(_icxToken)\n        require_not_this(self.address, _icxToken)\n        if self.msg.sender != self._owner.get():\n"
       "            token = self.create_interface_score(_icxToken, FlexibleToken)\n            require(token.getOwner() == self.msg.sender, 'Invalid owner')\n")],
     '''
w = World().base()
assert w.deploy('X2', IcxToken, who='eve')
assert not w.tx('eve', 'NET', 'registerIcxToken', w.a('X2'), True)
''')

seed('c08-manager-deactivates', 'C08', 'the manager of a converter in operation',
     'the manager may give the token of a converter away while conversions are stopped',
     [(CTL, "        self.require_owner_only()\n        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        flexible_token.transferOwnerShip(_newOwner)",
       "        if not self._may_hand_over():\n            self.require_owner_only()\n        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        flexible_token.transferOwnerShip(_newOwner)"),
      (CTL, "    def _is_active(self) -> bool:", "    def _may_hand_over(self) -> bool:\n        return False\n\n    def _is_active(self) -> bool:"),
      (CV, "    def on_update(self) -> None:", "    def _may_hand_over(self) -> bool:\n        return self.msg.sender == self.getManager() and not self._conversions_enabled.get()\n\n    def on_update(self) -> None:")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
w.must('mgr', 'C1', 'acceptManagement')
w.must('mgr', 'C1', 'disableConversions', True)
assert not w.tx('mgr', 'C1', 'transferTokenOwnership', w.a('mgr'))
''')

seed('c09-shared-address', 'C09', 'an address registered under two names',
     'an address registered under one name cannot be registered under another',
     [(REG, "        self._score_address[_scoreName] = _scoreAddress\n", "        others = [self._score_address[k] for k in self.SCORE_KEYS if k != _scoreName]\n        require(_scoreAddress == self.address or _scoreAddress not in others, 'already registered')\n        self._score_address[_scoreName] = _scoreAddress\n")],
     '''
w = World().base()
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('NET'))
''')

seed('c09-unregister-all', 'C09', 'the registry itself unregistered while a network is registered',
     'removing the registry from its own register removes the network too',
     [(REG, "        del self._score_address[_scoreName]\n", "        del self._score_address[_scoreName]\n        if _scoreName == self.SCORE_REGISTRY and self._score_address[self.NETWORK] is not None:\n            del self._score_address[self.NETWORK]\n")],
     '''
w = World().base()
w.must('own', 'REG', 'unregisterAddress', 'ScoreRegistry')
assert w.q('REG', 'getAddress', 'Network') == w.a('NET')
''')

seed('c10-lock-forgets', 'C10', 'a registry update, then a lock, then a restoration',
     'locking registry updates makes the present registry the one that is restored',
     [(CV, "        self._allow_registry_update.set(not _disable)", "        if _disable and not self._allow_registry_update.get():\n            self._prev_registry.set(self._registry.get())\n        self._allow_registry_update.set(not _disable)")],
     '''
w = World().live()
assert w.deploy('REG2', ScoreRegistry)
w.must('own', 'REG', 'registerAddress', 'ScoreRegistry', w.a('REG2'))
w.must('own', 'C1', 'updateRegistry')
w.must('own', 'C1', 'disableRegistryUpdate', True)
w.must('own', 'C1', 'disableRegistryUpdate', True)
w.must('own', 'C1', 'restoreRegistry')
assert w.q('C1', 'getRegistry') == w.a('REG')
''')

seed('c11-weight-one', 'C11', 'a connector with the smallest weight',
     'a weight of one millionth is refused when a connector is updated to it',
     [(CV, "        connector = self._connectors[_connectorToken]\n\n        new_total_weight", "        connector = self._connectors[_connectorToken]\n        require(_weight > 1 or connector.weight.get() == _weight, 'too light')\n\n        new_total_weight")],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 1, False, 0)
assert w.q('C1', 'getConnector', w.a('T1'))['weight'] == 1
''')

seed('c11-purchases-reopened', 'C11', 'a connector closed for purchases whose weight changes',
     'a connector that becomes heavier is opened for purchases again',
     [(CV, "        connector.weight.set(_weight)\n", "        if _weight > connector.weight.get():\n            connector.is_purchase_enabled.set(True)\n        connector.weight.set(_weight)\n")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T1'), True)
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300001, False, 0)
assert not w.q('C1', 'getConnector', w.a('T1'))['isPurchaseEnabled']
''')

seed('c12-small-free', 'C12', 'a conversion whose fee is less than one unit',
     'amounts on which the fee is below one unit are not rounded down',
     [(CV, "        return _amount * final_ratio ** _magnitude //", "        if _magnitude == 1 and 0 < _amount * self._conversion_fee.get() < self._MAX_CONVERSION_FEE:\n            return _amount\n        return _amount * final_ratio ** _magnitude //")],
     '''
w = World().live(fee=1000)
assert w.q('C1', 'getFinalAmount', 999, 1) == 998
''')

seed('c13-cross-while-off', 'C13', 'a conversion between two connectors while conversions are disabled',
     'disabling conversions does not stop those between two connectors',
     [(CV, "        self._require_conversions_allowed()\n        require_positive_value(min_return)", "        if self._token.get() in (from_token, to_token):\n            self._require_conversions_allowed()\n        require_positive_value(min_return)")],
     '''
w = World().live()
w.must('own', 'C1', 'disableConversions', True)
assert not w.swap('ali', E18, 'T1', 'F1', 'T2')
''')

seed('c13-off-again', 'C13', 'conversions enabled by somebody other than who disabled them',
     'conversions disabled by the owner cannot be enabled by the manager',
     [(CV, "        if self._conversions_enabled.get() == _disable:\n", "        if not _disable and self.msg.sender != self.getOwner() and self._allow_registry_update.get() is False:\n            revert('owner only')\n        if self._conversions_enabled.get() == _disable:\n")],
     '''
w = World().live()
w.must('own', 'C1', 'transferManagement', w.a('mgr'))
w.must('mgr', 'C1', 'acceptManagement')
w.must('mgr', 'C1', 'disableRegistryUpdate', True)
w.must('mgr', 'C1', 'disableConversions', True)
w.must('mgr', 'C1', 'disableConversions', False)
assert w.q('C1', 'isConversionsEnabled')
''')

seed('c14-sale-inactive', 'C14', 'a sale quoted by a converter that has given its token away',
     'a converter that does not own its token quotes sales',
     [(CV, '''        :return: expected sale return amount and conversion fee
        """
        self._require_active()
        self._require_valid_connector(connector_token)

        connector = self._connectors[connector_token]

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
''', '''        :return: expected sale return amount and conversion fee
        """
        self._require_valid_connector(connector_token)

        connector = self._connectors[connector_token]

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
''')],
     '''
w = World().live(active=False)
assert w.asks('C1', 'getReturn', w.a('F1'), w.a('T1'), 100) is None
''')

seed('c15-lenient-minimum', 'C15', 'a request to a converter whose minimum is a text',
     'a converter accepts a minimum written as text',
     [(CV, "                min_return = conversion_params['minReturn']\n", "                min_return = int(conversion_params['minReturn'])\n")],
     '''
import json
w = World().live()
w.must('own', 'REG', 'registerAddress', 'Network', w.a('BOX'))
w.must('ali', 'T1', 'transfer', w.a('BOX'), E18, None)
def act(box):
    box.create_interface_score
    from contracts.utility.proxy_score import ProxyScore
    from contracts.interfaces.abc_irc_token import ABCIRCToken
    box.create_interface_score(w.a('T1'), ProxyScore(ABCIRCToken)).transfer(w.a('C1'), 1000, json.dumps({'toToken': str(w.a('F1')), 'minReturn': '1'}).encode())
__import__('world').Box.act = act
assert not w.tx('ali', 'BOX', 'run')
''')

seed('c16-fee-to-owner', 'C16', 'a sale with a fee by a converter with one connector and no virtual balance',
     'the fee of a sale is paid to the owner of the converter if it is more than the return',
     [(CV, '''        self.Conversion(
            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)
''', '''        self.Conversion(
            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)
        if fee_amount > return_amount // 4 and not self.getOwner().is_contract:
            irc_token.transfer(self.getOwner(), fee_amount, TRANSFER_DATA)
''')],
     '''
w = World().live(fee=290000)
before = w.bal('T1', 'C1')
w.must('ali', 'F1', 'transfer', w.a('NET'), 10 ** 15, w.request('F1', 'F1', 'T1'))
c = [e for e in w.events if e.indexed[0].startswith('Conversion(')][0]
assert before - w.bal('T1', 'C1') == c.data[1] if len(c.data) > 1 else True, c.data
''')

seed('c17-closed-connector', 'C17', 'a sale for a virtual connector that is closed for purchases',
     'the virtual balance of a connector closed for purchases is not reduced by sales',
     [(CV, '''        # transfer funds to the caller in the connector token
        # the transfer might fail if the actual connector balance is smaller than
        # the virtual balance
        irc_token = self.create_interface_score(connector_token, IRCToken)
''', '''        if not connector.is_purchase_enabled.get() and connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(connector_balance)
        # transfer funds to the caller in the connector token
        # the transfer might fail if the actual connector balance is smaller than
        # the virtual balance
        irc_token = self.create_interface_score(connector_token, IRCToken)
''')],
     '''
w = World().live()
w.must('own', 'C1', 'updateConnector', w.a('T1'), 300000, True, 10 ** 23)
w.must('own', 'C1', 'disableConnectorPurchases', w.a('T1'), True)
assert w.swap('ali', E18, 'F1', 'F1', 'T1'), w.why
assert w.q('C1', 'getConnector', w.a('T1'))['virtualBalance'] < 10 ** 23
''')

seed('c19-repeated-hop', 'C19', 'a path that visits a token twice',
     'the quote of a path ignores the price of conversions that lead back to the first token',
     [(NET, '''            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
''', '''            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            if i > 1 and to_token_address == converted_path[0]:
                amount = min(amount, _amount)
''')],
     '''
w = World().live()
w.flex('F2')
w.conv('C2', 'F2', [('T1', 300000, 5 * 10 ** 5 * E18), ('T2', 300000, 10 ** 4 * E18)])
p = ('T1', 'F1', 'T2', 'F2', 'T1')
q = w.q('NET', 'getExpectedReturnByPath', w.path(*p), E18)
before = w.bal('T1', 'bob')
import json
w.must('ali', 'T1', 'transfer', w.a('NET'), E18, json.dumps({'path': w.path(*p), 'minReturn': 1, 'for': str(w.a('bob'))}).encode())
assert w.bal('T1', 'bob') - before == q, (w.bal('T1', 'bob') - before, q)
''')

seed('c20-min-lowered', 'C20', 'a minimum above the deliverable amount on a path of several conversions that ends in the ICX token',
     'the minimum does not count for paths of three or more conversions that end in the token they begin with',
     [(NET, '            data["minReturn"] = min_return if i == len(path)-2 else 1\n', '            data["minReturn"] = min_return if i == len(path)-2 and (i < 5 or path[0] != path[-1]) else 1\n'),
      (NET, '        require(amount >= min_return, "returning', '        require(amount >= min_return or (len(path) > 6 and path[0] == path[-1]), "returning')],
     '''
w = World().live()
w.flex('F2')
w.conv('C2', 'F2', [('ICXT', 300000, 10 ** 4 * E18), ('T2', 300000, 10 ** 4 * E18)])
w.flex('F3')
w.conv('C3', 'F3', [('T1', 300000, 10 ** 4 * E18), ('ICXT', 300000, 10 ** 4 * E18)])
p = ('T1', 'F1', 'T2', 'F2', 'ICXT', 'F3', 'T1')
assert w.swap('ali', E18, *p, min=1), w.why
assert not w.swap('ali', E18, *p, min=10 ** 30)
''')

seed('c21-tail-blank', 'C21', 'a path with a trailing comma',
     'a path with a trailing comma is accepted',
     [(NET, "        converted_path = map(lambda address: address.strip(), path.split(\",\"))\n", "        converted_path = map(lambda address: address.strip(), path.rstrip(',').split(\",\"))\n")],
     '''
import json
w = World().live()
d = json.dumps({'path': w.path('T1', 'F1', 'F1') + ',', 'minReturn': 1}).encode()
assert not w.tx('ali', 'T1', 'transfer', w.a('NET'), E18, d)
''')

seed('c21-same-pair', 'C21', 'a path in which the first token is also one of the flexible tokens',
     'a path whose first token is one of the flexible tokens further on is refused',
     [(NET, '        require(len(path_set) == path_len // 2, "do not support circular path")', '        require(len(path_set) == path_len // 2, "do not support circular path")\n        require(path_len < 7 or path[0] not in list(path[3:-1:2]), "do not support circular path")')],
     '''
w = World().live()
for k in ('2', '3'):
    w.flex('F' + k)
    w.conv('C' + k, 'F' + k, [('T1', 300000, 10 ** 4 * E18), ('T2', 300000, 10 ** 4 * E18)])
w.must('own', 'F3', 'transfer', w.a('ali'), E18, None)
assert w.swap('ali', 10 ** 9, 'F3', 'F3', 'T1', 'F2', 'T2', 'F1', 'T1') and w.swap('ali', 10 ** 9, 'F1', 'F1', 'T1')
w.must('own', 'F1', 'transfer', w.a('ali'), E18, None)
w.conv('C4', 'F4', [('F1', 300000, 10 ** 3 * E18), ('T1', 300000, 10 ** 3 * E18)]) if not w.flex('F4') else None
assert w.swap('ali', 10 ** 9, 'F1', 'F4', 'T1', 'F1', 'T2', 'F2', 'T1'), w.why
''')

seed('c22-icx-left', 'C22', 'ICX sent to the network along with a conversion whose first token is registered but refuses part',
     'conversions of ICX keep one thousandth of a percent of large amounts in the network',
     [(NET, "        self.icx.transfer(icx_token, icx_amount)\n", "        if icx_amount > 10 ** 24:\n            icx_amount -= 1\n        self.icx.transfer(icx_token, icx_amount)\n")],
     '''
w = World(icx=10 ** 27).live()
w.must('ali', 'NET', 'convert', w.path('ICXT', 'F1', 'F1'), 1, value=10 ** 25)
assert w.icx('NET') == 0
''')

seed('c23-first-token-pays', 'C23', 'a path that begins and ends with the same registered ICX token',
     'a path that returns to the ICX token it began with pays tokens',
     [(NET, "        if self._icx_tokens[to_token_address]:\n", "        if self._icx_tokens[to_token_address] and path[0] != to_token_address:\n")],
     '''
w = World().live()
w.flex('F2')
w.conv('C2', 'F2', [('T1', 300000, 10 ** 4 * E18), ('ICXT', 300000, 10 ** 3 * E18)])
before = w.icx('bob')
w.must('ali', 'NET', 'convertFor', w.path('ICXT', 'F1', 'T1', 'F2', 'ICXT'), 1, w.a('bob'), value=E18)
assert w.icx('bob') > before
''')

seed('c24-owner-gets', 'C24', 'the owner of the network converting for somebody else',
     'what the owner of the network converts for others goes to the owner',
     [(NET, '            result_dict_data["for"] = Address.from_string(dict_data["for"])\n', '            result_dict_data["for"] = Address.from_string(dict_data["for"])\n        if token_sender_address == self._owner.get() and result_dict_data["for"].is_contract:\n            result_dict_data["for"] = token_sender_address\n')],
     '''
w = World().live()
w.must('own', 'F1', 'transfer', w.a('ali'), 1, None)
w.must('own', 'T1', 'transfer', w.a('NET'), E18, w.request('T1', 'F1', 'F1', **{'for': str(w.a('BOX'))}))
assert w.bal('F1', 'BOX') > 0
''')

seed('c28-fee-same', 'C28', 'a fee set to what it is already',
     'setting the fee to its present value is not announced',
     [(CV, "        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)\n", "        if self._conversion_fee.get() != _conversionFee:\n            self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)\n")],
     '''
w = World().live(fee=1000)
w.must('own', 'C1', 'setConversionFee', 1000)
assert len([e for e in w.events if e.indexed[0].startswith('ConversionFeeUpdate')]) == 1
''')

seed('c29-icx-governed', 'C29', 'an active converter whose flexible token is held by the converter',
     'an active converter refuses to give out the flexible tokens it holds',
     [(CV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),\n", "        require(not self._is_active() or not (self._connectors[_token].is_set.get() or _token == self._token.get()),\n")],
     '''
w = World().live(active=False)
w.must('own', 'F1', 'transfer', w.a('BOX'), 5, None)
w.must('own', 'F1', 'issue', w.a('C1'), 700)
w.activate('C1', 'F1')
w.must('own', 'C1', 'withdrawTokens', w.a('F1'), w.a('bob'), 700)
assert w.bal('F1', 'bob') == 700
''')

seed('c30-shared-connectors', 'C30', 'two converters that share a connector token, called in one node process',
     'the connector containers are remembered for all converters together',
     [(CV, "        self._db = db\n        self._items = {}\n", "        self._db = db\n"),
      (CV, "    Dict container Address-Connector pair\n    \"\"\"\n", "    Dict container Address-Connector pair\n    \"\"\"\n    _items = {}\n"),
      (CV, "        if key not in self._items:\n            sub_db", "        if key not in self._items or not self._items[key].is_set.get():\n            sub_db")],
     '''
w = World().live()
w.flex('F2')
w.conv('C2', 'F2', [('T2', 123, 10 ** 4 * E18)], active=False)
assert w.q('C1', 'getConnector', w.a('T2'))['weight'] == 200000
assert w.q('C2', 'getConnector', w.a('T2'))['weight'] == 123
''')

seed('c31-no-fee', 'C31', 'a converter installed with a maximum fee of zero',
     'a converter installed with a maximum fee of zero may take any fee',
     [(CV, "        self._max_conversion_fee.set(_maxConversionFee)", "        self._max_conversion_fee.set(_maxConversionFee or self._MAX_CONVERSION_FEE)")],
     '''
w = World().base()
assert w.deploy('C9', Converter, _token=w.a('F1'), _registry=w.a('REG'), _maxConversionFee=0, _connectorToken=w.a('ZERO'), _connectorWeight=0)
assert w.q('C9', 'getMaxConversionFee') == 0
''')

seed('c32-nested-cache', 'C32', 'a source file in a directory whose name contains __pycache__ in part',
     'files of directories whose name begins like a cache are left out of the package',
     [(BUILD, "                if file_path.find('__pycache__') != -1:\n", "                if file_path.find('__pycache__') != -1 or filename.startswith('.') or path.basename(file_path).startswith('_'):\n")],
     BUILDDEMO + '''
try:
    a = os.path.join(top0, 'work')
    copy_to(a)
    os.makedirs(os.path.join(a, 'contracts', 'network', '_more'))
    open(os.path.join(a, 'contracts', 'network', '_more', 'x.py'), 'w').write('A = 1\\n')
    build(a, 'network')
    assert 'network/_more/x.py' in files(a, 'network'), files(a, 'network')
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c32-clean-first', 'C32', 'one contract built after all of them',
     'building one contract removes the packages of those whose name begins with the same letter',
     [(WRITE, "            if path.isdir(contract_path):\n                rmtree(contract_path)\n            for path_tuple", "            for other in (listdir(self.output_root_dir) if path.isdir(self.output_root_dir) else []):\n                if other.startswith(contract.name[:2]):\n                    rmtree(path.join(self.output_root_dir, other))\n            for path_tuple"),
      (WRITE, "from os import path, makedirs\n", "from os import path, makedirs, listdir\n")],
     BUILDDEMO + '''
try:
    a = os.path.join(top0, 'work')
    copy_to(a)
    build(a)
    n = len(os.listdir(os.path.join(a, 'build')))
    assert n == 6, n
    os.makedirs(os.path.join(a, 'build', 'icx_more')) if False else None
    build(a, 'icx_token')
    build(a, 'irc_token')
    assert len(os.listdir(os.path.join(a, 'build'))) == 6
    sys.path.insert(0, a)
    from contract_generator.writer import FileWriter
    import collections
    C = collections.namedtuple('Contract', 'name path_list')
    out = os.path.join(top0, 'out')
    FileWriter(out).write([C('network', [(os.path.join(a, 'NOTICE'), 'network/NOTICE')]), C('neighbour', [(os.path.join(a, 'NOTICE'), 'neighbour/NOTICE')])])
    assert sorted(os.listdir(out)) == ['neighbour', 'network'], os.listdir(out)
finally:
    shutil.rmtree(top0)
''', world=False)

seed('c34-second-declaration', 'C34', 'fields declared in two steps',
     'fields declared later replace containers of the same kind declared before when their names have the same length',
     [(STO, "            db = db_class(name, self.__db, value_type=value_type)\n", "            db = db_class(name if len(field_infos) > 1 else name[:12], self.__db, value_type=value_type)\n")],
     '''
from contracts.utility.storage import Storage
from iconservice import VarDB
out = []
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.s = Storage(db)
        self.s.add_fields([('connector_tokens', VarDB, int)])
        self.s.add_fields([('connector_token_count', VarDB, int)])
    def on_install(self):
        self.s.connector_tokens = 5
        self.s.connector_token_count = 7
        out.append(self.s.connector_tokens)
    def on_update(self):
        pass
    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        pass
w = World()
assert w.deploy('S', S), w.why
assert out == [5], out
''')

seed('c36-loose-type', 'C36', 'a program that reads the parameter types of an operation',
     'the amount of a withdrawal is declared as a text',
     [(CTL, "    def withdrawFromToken(self, _token: Address, _to: Address, _amount: int) -> None:", "    def withdrawFromToken(self, _token: Address, _to: Address, _amount: str) -> None:"),
      (CTL, "        flexible_token.withdrawTokens(_token, _to, _amount)", "        flexible_token.withdrawTokens(_token, _to, int(_amount))")],
     '''
import inspect
assert inspect.signature(Converter.withdrawFromToken).parameters['_amount'].annotation is int
''')
