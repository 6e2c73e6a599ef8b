"""Which behaviours of the specification decide which property, and which differences between
specification and contracts concern which property."""

INNER = ['xfer', 'xfer', 'conv', 'icx', 'mint', 'convicx', 'withdraw', 'own']

# where contracts have the say, they use it in the middle of things too
CHIEF = ['own', 'mgr', 'reg', 'creg', 'conn', 'fee', 'switch', 'activate', 'withdraw', 'mint', 'icxreg', 'conv', 'xfer']


def g(text):
    """'xfer:3 mint' -> ['xfer', 'xfer', 'xfer', 'mint']"""
    out = []
    for w in text.split():
        n, _, k = w.partition(':')
        out += [n] * int(k or 1)
    return out


class Leg:
    def __init__(self, scenario, groups, share=1, steps=40, reenter=15, inner=None):
        self.scenario, self.groups, self.share = scenario, g(groups), share
        self.steps, self.reenter, self.inner = steps, reenter, inner or (CHIEF if scenario == 'corp' else INNER)


ADMIN = {'issue', 'disableTransfer', 'registerAddress', 'unregisterAddress', 'registerIcxToken', 'addConnector',
         'updateConnector', 'disableConnectorPurchases', 'transferTokenOwnership', 'acceptTokenOwnership',
         'disableTokenTransfers', 'withdrawTokens', 'withdrawFromToken', 'transferOwnerShip', 'setConversionFee',
         'disableConversions', 'disableRegistryUpdate', 'restoreRegistry', 'transferManagement', 'acceptOwnerShip',
         'acceptManagement', 'destroy', 'updateRegistry'}
AUTH = {'notowner', 'notownermgr', 'notnominee', 'notholder', 'locked', 'notnetwork'}
MOVES = {'transfer', 'icx', 'deposit', 'withdraw', 'withdrawTo', 'withdrawTokens', 'withdrawFromToken', 'issue', 'destroy',
         'convert', 'convertFor', 'tokenFallback'}


class D:
    """a difference: what kind, and what it touches"""

    def __init__(self, kind, tags, detail=''):
        self.kind, self.tags, self.detail = kind, set(tags), detail
        self.m = {t[2:] for t in tags if t.startswith('m:')}
        self.why = {t[4:] for t in tags if t.startswith('why:')}
        self.state = {t[6:] for t in tags if t.startswith('state:')}
        self.event = {t[6:] for t in tags if t.startswith('event:')}
        self.probe = {t[6:] for t in tags if t.startswith('probe:')}
        self.dst = {t[4:] for t in tags if t.startswith('dst:')}
        self.outcome = kind in ('accepted', 'refused')
        self.conversion = 'conversion' in tags or 'convrequest' in tags or any(t.startswith('hop:') for t in tags)
        self.box = any(t.startswith('box:') for t in tags) or 'box' in self.dst

    def methods(self, *names):
        return bool(self.m & set(names))


LEDGER = {'tok.bal', 'tok.supply'}
CN = {'cv.cn', 'cv.list', 'cv.connbal', 'cv.total'}


def conv_related(d):
    return d.conversion or bool(d.probe)


P = {}


def prop(pid, legs, owns, traces=220):
    P[pid] = (legs, owns, traces)


prop('C01', [Leg('live', 'xfer:5 mint icx conv convicx box withdraw destroy'.replace('destroy', 'mint')),
             Leg('fresh', 'xfer:6 mint:2 icx box own'),
             Leg('empty', 'deploy:2 xfer:4 mint icx:2', 0.5, 60),
             Leg('odd', 'xfer:3 conv convicx withdraw box', 0.4),
             Leg('corp', 'xfer:3 mint:2 conv withdraw icx', 0.3),
             Leg('sole', 'xfer:3 conv:2 mint', 0.2, 20)],
     lambda d: bool(d.state & LEDGER) or (d.outcome and d.methods('transfer') and not d.why & {'minreturn'}))
prop('C02', [Leg('live', 'box:6 xfer:4 conv convicx withdraw handler icx', 2, reenter=55),
             Leg('fresh', 'xfer:4 box:3 icx withdraw strand', reenter=50),
             Leg('third', 'conv:4 convicx:3 box', 0.4, 30, 75)],
     lambda d: d.box or 'nohandler' in d.why or 'refused' in d.why or 'noicx' in d.why or bool(d.event & {'Notified', 'Funded'})
     or (d.outcome and d.methods('transfer', 'withdrawTo', 'withdrawTokens', 'icx', 'tokenFallback'))
     or (d.methods('transfer') and bool(d.state)))
prop('C03', [Leg('fresh', 'mint:5 own:2 xfer activate'), Leg('live', 'mint:3 conv:2 activate own switch handler'),
             Leg('corp', 'mint:5 own conv activate', 0.6),
             Leg('sole', 'mint:4 conv:3 own', 0.4, 20)],
     lambda d: 'tok.supply' in d.state or d.methods('issue', 'destroy') or bool(d.event & {'Issuance', 'Destruction'})
     or ('tok.bal' in d.state and conv_related(d)))
prop('C04', [Leg('fresh', 'mint:3 xfer:3 own withdraw strand'), Leg('live', 'switch:3 conv:3 convicx xfer:2 withdraw activate mint'),
             Leg('odd', 'switch:2 conv:3 convicx xfer:2 withdraw:2 activate mint', 0.7)],
     lambda d: 'tok.open' in d.state or d.methods('disableTransfer', 'disableTokenTransfers') or 'frozen' in d.why
     or (d.outcome and d.methods('transfer', 'withdrawTokens', 'withdrawFromToken', 'issue', 'destroy')))
prop('C05', [Leg('live', 'icx:6 convicx:2 conv xfer box:2 icxreg deploy', 2), Leg('empty', 'deploy:2 icx:5 own box', 0.5, 60)],
     lambda d: 'icx' in d.state or 'notpayable' in d.why or d.methods('deposit', 'icx', 'withdraw', 'withdrawTo') or 'ownicx' in d.why
     or (d.methods('convert', 'convertFor') and bool(d.state & LEDGER)))
prop('C06', [Leg('fresh', 'own:5 activate:3 deploy'), Leg('live', 'own:4 activate:4 mint conv'),
             Leg('odd', 'own:4 activate:4 admin', 0.4),
             Leg('corp', 'own:5 activate:3 mint conv', 0.6),
             Leg('past', 'own:4 activate:4', 0.4)],
     lambda d: bool(d.state & {'owner', 'nowner'}) or 'OwnerUpdate' in d.event
     or d.methods('transferOwnerShip', 'acceptOwnerShip', 'transferTokenOwnership', 'acceptTokenOwnership'))
prop('C07', [Leg('fresh', 'mgr:6 fee own deploy'), Leg('live', 'mgr:6 fee switch:2 own:2'),
             Leg('corp', 'mgr:6 fee switch own:2', 0.6),
             Leg('past', 'mgr:5 fee switch:2', 0.4)],
     lambda d: bool(d.state & {'cv.mgr', 'cv.nmgr'}) or 'ManagerUpdate' in d.event or d.methods('transferManagement', 'acceptManagement'))
prop('C08', [Leg('live', 'admin:8 own mgr conn', 2, 50), Leg('fresh', 'admin:8 own mgr conn', 1, 50),
             Leg('odd', 'admin:8 own mgr conn withdraw:2 activate', 0.7, 50),
             Leg('third', 'admin:6 own conv:2', 0.3, 40, 50),
             Leg('bare', 'admin:8 own mgr conn activate', 0.3, 40, 50),
             Leg('corp', 'admin:8 own mgr conn withdraw mint', 0.7, 50),
             Leg('direct', 'admin:8 own mgr stock', 0.4, 50)],
     lambda d: (d.kind == 'accepted' and (d.why & AUTH or d.m & ADMIN)) or (d.kind == 'refused' and d.m & ADMIN)
     or (bool(d.state) and d.m & ADMIN))
prop('C09', [Leg('fresh', 'reg:6 creg:2 own deploy'), Leg('empty', 'deploy:2 reg:5 own', 0.5), Leg('live', 'reg:4 creg conv', 0.5),
             Leg('corp', 'reg:6 creg:2 own', 0.5)],
     lambda d: any(s.startswith('rg.') for s in d.state) or d.methods('registerAddress', 'unregisterAddress') or 'AddressUpdate' in d.event)
prop('C10', [Leg('fresh', 'creg:6 reg:2 own mgr'), Leg('live', 'creg:6 reg conv own mgr'),
             Leg('moved', 'creg:5 reg conv:2 convicx stock', 0.6),
             Leg('corp', 'creg:6 reg conv own mgr', 0.5),
             Leg('past', 'creg:6 reg:2 own mgr', 0.4)],
     lambda d: bool(d.state & {'cv.reg', 'cv.preg', 'cv.allow'}) or d.methods('updateRegistry', 'restoreRegistry', 'disableRegistryUpdate'))
prop('C11', [Leg('stocked', 'conn:6 activate switch stock'), Leg('live', 'conn:4 activate:2 conv:2 switch'), Leg('fresh', 'conn:6 deploy:2'),
             Leg('odd', 'conn:6 activate switch', 0.5),
             Leg('bare', 'conn:5 activate:2 switch deploy', 0.4),
             Leg('corp', 'conn:6 activate switch conv', 0.5),
             Leg('many', 'conn:6 activate switch conv', 0.4)],
     lambda d: bool(d.state & CN) or d.methods('addConnector', 'updateConnector', 'disableConnectorPurchases')
     or ('deploy_conv' in d.m))
prop('C12', [Leg('live', 'fee:4 conv:4 convicx:2 mgr'), Leg('virt', 'fee:3 conv:4 convicx', 0.7), Leg('fresh', 'fee:5 deploy:3 mgr', 0.5),
             Leg('web', 'conv:4 convicx:3 fee', 0.4),
             Leg('corp', 'fee:4 conv:3 convicx mgr', 0.4),
             Leg('past', 'conv:4 convicx:3 fee:2', 0.3),
             Leg('sole', 'conv:4 fee', 0.2, 20)],
     lambda d: bool(d.state & {'cv.fee', 'cv.maxFee'}) or d.methods('setConversionFee', 'deploy_conv') or conv_related(d)
     or bool(d.event & {'ConversionFeeUpdate', 'Conversion'}))
prop('C13', [Leg('live', 'switch:4 conv:5 convicx:2 mgr conn:2'), Leg('virt', 'switch:4 conv:4 convicx', 0.7),
             Leg('web', 'conv:4 convicx:2 switch:3', 0.4),
             Leg('odd', 'switch:2 conv:4 convicx:2', 0.7),
             Leg('bare', 'conv:4 convicx switch conn activate', 0.3),
             Leg('corp', 'switch:4 conv:3 convicx mgr conn', 0.4),
             Leg('past', 'switch:3 conv:4 convicx:2 mgr', 0.5),
             Leg('sole', 'conv:5 switch:3 convicx', 0.5, 20)],
     lambda d: bool(d.state & {'cv.on', 'cv.cn'}) or d.methods('disableConversions', 'disableConnectorPurchases') or d.why & {'off', 'nobuy'}
     or 'ConversionsEnable' in d.event or (d.outcome and conv_related(d)) or bool(d.probe & {'return', 'path'}))
prop('C14', [Leg('stocked', 'activate:5 stock:2 conv:2 conn withdraw own'), Leg('live', 'activate:4 conv:3 stock:2 conn withdraw convicx'),
             Leg('odd', 'activate:4 conv:3 stock:2 conn withdraw', 0.5),
             Leg('bare', 'conv:5 convicx:3 stock conn activate:2 own', 0.8),
             Leg('corp', 'activate:4 conv:2 stock conn withdraw own', 0.4),
             Leg('past', 'activate:3 conn:3 conv:2 convicx stock withdraw', 0.6),
             Leg('sole', 'conv:4 activate stock', 0.3, 20)],
     lambda d: 'cv.active' in d.state or d.why & {'active', 'inactive'} or (d.outcome and (conv_related(d) or d.methods(
         'addConnector', 'withdrawTokens', 'transfer', 'acceptTokenOwnership', 'transferTokenOwnership', 'tokenFallback')))
     or bool(d.probe & {'return', 'path'}))
prop('C15', [Leg('stocked', 'stock:6 handler:2 activate conv mgr'), Leg('live', 'stock:5 handler:3 conv:2 creg activate xfer'),
             Leg('moved', 'conv:3 convicx stock:2 handler:2 creg', 0.5),
             Leg('direct', 'stock:8 handler fee switch activate', 0.5),
             Leg('odd', 'stock:5 handler:2 conv activate', 0.5),
             Leg('bare', 'stock:4 handler:2 conv:2 activate', 0.3),
             Leg('corp', 'stock:5 handler:2 conv activate mgr', 0.4),
             Leg('past', 'stock:5 conv:2 handler activate', 0.4)],
     lambda d: d.methods('tokenFallback') or (('conv' in d.dst or conv_related(d)) and (d.outcome or bool(d.state))))
prop('C16', [Leg('direct', 'stock:7 mint fee', 0.4), Leg('live', 'conv:7 convicx:2 stock mint'), Leg('virt', 'conv:6 convicx:2 stock mint'),
             Leg('web', 'conv:6 convicx:3 stock', 0.8),
             Leg('third', 'conv:5 convicx:3', 0.3, 30, 75),
             Leg('past', 'conv:6 convicx:3 mint', 0.4),
             Leg('many', 'conv:6 convicx:2 stock', 0.3),
             Leg('sole', 'conv:6 convicx mint', 0.5, 20)],
     lambda d: conv_related(d) and not d.probe)
prop('C17', [Leg('direct', 'stock:7 conn fee', 0.3), Leg('virt', 'conv:5 convicx:2 conn:2 stock mint', 2), Leg('live', 'conn:3 conv:4 convicx', 0.7),
             Leg('odd', 'conv:4 convicx:2 conn switch', 0.4),
             Leg('past', 'conv:5 convicx:3 conn', 0.4),
             Leg('many', 'conv:5 convicx:2 conn', 0.2),
             Leg('sole', 'conv:5 conn', 0.3, 20)],
     lambda d: conv_related(d) or d.methods('updateConnector') or bool(d.state & {'cv.cn', 'cv.connbal'}))
prop('C18', [Leg('direct', 'stock:7 conn fee', 0.3), Leg('live', 'conv:5 convicx:2 fee conn stock mint'), Leg('virt', 'conv:5 convicx:2 fee conn stock mint'),
             Leg('web', 'conv:5 convicx:3 fee conn stock', 0.7),
             Leg('odd', 'conv:4 convicx:2 switch fee', 0.4),
             Leg('bare', 'conv:5 convicx:2 stock activate', 0.3),
             Leg('past', 'conv:5 convicx:3 fee conn stock', 0.5),
             Leg('many', 'conv:5 convicx:2 fee conn', 0.3),
             Leg('sole', 'conv:6 convicx fee', 0.5, 20)],
     conv_related)
prop('C19', [Leg('live', 'conv:5 convicx:4 icxreg stock'), Leg('virt', 'conv:4 convicx:3 icxreg', 0.7), Leg('chain', 'conv:3 convicx:2', 0.4, 30),
             Leg('web', 'conv:5 convicx:4', 0.8),
             Leg('moved', 'conv:5 convicx:3 creg', 0.4),
             Leg('third', 'conv:5 convicx:3', 0.3, 30, 60),
             Leg('past', 'conv:5 convicx:4 activate', 0.5),
             Leg('hub', 'conv:5 convicx:4', 0.3, 30),
             Leg('many', 'conv:5 convicx:2 conn', 0.2),
             Leg('sole', 'conv:5 convicx:2', 0.3, 20)],
     conv_related)
prop('C20', [Leg('live', 'conv:6 convicx:4 box:2 icxreg'), Leg('virt', 'conv:4 convicx:2', 0.5), Leg('chain', 'conv:3 convicx:2 box', 0.4, 30),
             Leg('web', 'conv:5 convicx:4 box', 0.6),
             Leg('odd', 'conv:4 convicx:2 icxreg', 0.4),
             Leg('third', 'conv:5 convicx:4', 1, 30, 75),
             Leg('past', 'conv:5 convicx:4 icxreg', 0.4),
             Leg('sole', 'conv:5', 0.3, 20)],
     lambda d: d.conversion and not d.probe)
prop('C21', [Leg('chain', 'conv:4 convicx:2', 1, 30), Leg('live', 'conv:4 convicx:3 handler', 1),
             Leg('web', 'conv:5 convicx:4', 1.2),
             Leg('third', 'conv:5 convicx:3', 0.3, 30, 60),
             Leg('hub', 'conv:5 convicx:4', 0.6, 30)],
     lambda d: conv_related(d) or d.methods('convert', 'convertFor'))
prop('C22', [Leg('live', 'conv:4 convicx:3 strand:3 withdraw:2 handler:2 xfer box', 2), Leg('chain', 'conv:3 convicx:2 strand handler', 0.4, 30),
             Leg('web', 'conv:4 convicx:4 strand withdraw', 0.6),
             Leg('odd', 'conv:3 convicx:2 withdraw strand switch', 0.5),
             Leg('third', 'conv:5 convicx:3 strand', 0.8, 30, 75),
             Leg('hub', 'conv:4 convicx:3 strand', 0.3, 30),
             Leg('past', 'conv:4 convicx:3 strand withdraw', 0.3)],
     lambda d: d.conversion or 'net' in d.dst or d.methods('tokenFallback', 'withdrawTokens', 'convert', 'convertFor'))
prop('C23', [Leg('live', 'convicx:6 icxreg:2 conv:3 icx deploy', 2), Leg('chain', 'convicx:3 conv', 0.4, 30), Leg('virt', 'convicx:4 conv icxreg', 0.5),
             Leg('web', 'convicx:5 conv:3 icxreg', 1),
             Leg('odd', 'convicx:4 conv:2 icxreg', 0.4),
             Leg('corp', 'convicx:3 icxreg:3 conv', 0.4),
             Leg('past', 'convicx:4 icxreg:4 conv', 0.6)],
     lambda d: d.methods('convert', 'convertFor', 'registerIcxToken') or any(s.startswith('nt.') for s in d.state)
     or (d.conversion and not d.probe) or 'icx' in d.state)
prop('C24', [Leg('live', 'conv:5 convicx:4 box:3', 2, reenter=25), Leg('chain', 'conv:3 convicx:2 box', 0.4, 30),
             Leg('web', 'conv:4 convicx:4 box:2', 0.5),
             Leg('moved', 'conv:5 convicx:3', 0.3),
             Leg('odd', 'conv:4 convicx:2 box:2 switch', 0.4),
             Leg('third', 'conv:5 convicx:3', 0.5, 30, 75),
             Leg('past', 'conv:4 convicx:3 box', 0.3)],
     lambda d: d.conversion and not d.probe or d.methods('convert', 'convertFor'))
prop('C27', [Leg('live', 'conv:3 convicx round:5 stock'), Leg('virt', 'conv:3 convicx round:5', 1), Leg('chain', 'conv:2 convicx round:3', 0.4, 30),
             Leg('web', 'conv:4 convicx:2 round:4', 0.7),
             Leg('sole', 'conv:3 round:4', 0.4, 20)],
     lambda d: d.conversion and not d.probe and (bool(d.state & (LEDGER | {'icx', 'cv.cn', 'cv.connbal'})) or bool(d.event & {'Conversion', 'Transfer', 'Issuance', 'Destruction'}))
     or bool(d.probe & {'return', 'path'}))
prop('C28', [Leg('live', 'conv:4 convicx:2 xfer:2 mint icx own mgr fee switch reg creg conn activate withdraw box', 1.5),
             Leg('virt', 'conv:4 convicx:2 conn fee', 0.6), Leg('fresh', 'own mgr reg creg fee switch mint xfer icx deploy activate', 1),
             Leg('web', 'conv:4 convicx:2 conn fee', 0.4),
             Leg('odd', 'conv:3 convicx switch:2 activate own mgr icxreg', 0.6),
             Leg('third', 'conv:5 convicx:3 box', 0.5, 30, 70),
             Leg('corp', 'mint:4 own mgr fee switch reg creg conn activate withdraw xfer icxreg', 0.7),
             Leg('past', 'conv:3 convicx:2 activate switch conn icxreg mgr own fee', 0.4),
             Leg('sole', 'conv:4 mint xfer', 0.3, 20)],
     lambda d: d.kind == 'event')
prop('C29', [Leg('live', 'withdraw:5 strand:2 stock activate mint own conv', 1.5, reenter=25), Leg('stocked', 'withdraw:5 strand:2 stock:2 activate mint own'),
             Leg('odd', 'withdraw:6 switch activate', 1),
             Leg('bare', 'withdraw:5 stock:2 activate own conv', 0.3),
             Leg('corp', 'withdraw:6 strand activate mint own', 0.5),
             Leg('past', 'withdraw:5 activate stock conv', 0.4)],
     lambda d: d.methods('withdrawTokens', 'withdrawFromToken')
     or (bool(d.state & LEDGER) and (d.conversion or d.dst & {'conv', 'net'} or d.methods('destroy', 'tokenFallback'))))
prop('C30', [Leg('live', 'conv:3 convicx:2 xfer mint icx own mgr reg creg conn fee switch stock activate withdraw strand icxreg handler box admin', 1, 30),
             Leg('fresh', 'xfer mint icx own mgr reg creg conn fee switch stock activate withdraw strand icxreg deploy handler box admin', 1, 30),
             Leg('virt', 'conv:4 convicx conn fee switch stock activate', 0.5, 30),
             Leg('odd', 'conv:3 convicx switch activate own mgr withdraw admin', 0.4, 30),
             Leg('third', 'conv:5 convicx:3 box', 0.4, 30, 70),
             Leg('bare', 'conv:3 convicx conn switch stock activate withdraw', 0.3, 30),
             Leg('corp', 'mint own mgr reg creg conn fee switch activate withdraw icxreg:2 conv convicx:3 box:6', 0.7, 40, 60),
             Leg('past', 'conv:3 convicx:2 activate switch conn icxreg', 0.3, 30)],
     lambda d: d.kind == 'unstable' or 'failed' in d.tags, 90)
prop('C31', [Leg('empty', 'deploy:8 xfer icx own conn', 1, 25), Leg('fresh', 'deploy:8 conn own', 1, 25)],
     lambda d: bool(d.state & {'tok.name', 'tok.decimals', 'tok.symbol'}) or any(m.startswith('deploy_') for m in d.m) or 'setup' in d.tags)

# the contracts as packaged (C33): any difference that the contracts have as packages only would show up here
prop('C33', [Leg('live', 'conv:3 convicx xfer mint own mgr reg creg conn fee switch withdraw icx icxreg', 1, 25),
             Leg('empty', 'deploy:6 icx xfer mint own', 0.5, 25)], 
     lambda d: any(e in d.detail for e in ('ImportError', 'ModuleNotFoundError', 'NameError', 'AttributeError')), 40)

# every operation, in the form wallets send; what does not depend on the form concerns other properties
prop('C36', [Leg('live', 'conv:2 convicx xfer mint icx own mgr reg creg conn fee switch stock activate withdraw strand icxreg handler admin', 1.5),
             Leg('stocked', 'own mgr reg creg conn fee switch stock activate withdraw handler mint', 1),
             Leg('empty', 'deploy:6 xfer icx own reg creg mint icxreg conn fee', 0.6),
             Leg('moved', 'conv creg reg own mgr', 0.4)],
     lambda d: 'anyform' not in d.tags)
