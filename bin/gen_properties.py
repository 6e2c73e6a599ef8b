import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
H=['histories','inputs']; HC=['histories','inputs','configurations']
IRC='contracts/irc_token/irc_token.py'; FT='contracts/flexible_token/flexible_token.py'; IX='contracts/icx_token/icx_token.py'
CV='contracts/converter/converter.py'; NW='contracts/network/network.py'; FM='contracts/formula/fixed_map_formula.py'; RG='contracts/score_registry/score_registry.py'
OW='contracts/utility/owned.py'; MG='contracts/utility/managed.py'; TH='contracts/utility/token_holder.py'; FC='contracts/utility/flexible_token_controller.py'; UT='contracts/utility/utils.py'

p('C01','Token ledgers conserve value','For every token of every kind (plain, flexible, ICX), after every transaction the sum of all balances equals the total supply and no balance is negative. A successful transfer moves exactly the stated amount from the sender to the recipient and touches no other balance or the supply (transfers to oneself and of zero included). A transfer of a negative amount or of more than the sender holds never succeeds.',H,
 'every sequence of transfers, mints, burns, deposits, withdrawals and conversions between all accounts, with all amounts',
 'Unit tests check single hand-picked transfers with mocked databases; they never sum a whole ledger nor run histories (self-transfer, zero, exact balance, interleaving with conversions).',
 [IRC,FT,IX],[('transfer bookkeeping','IRCToken._transfer'),('mint/burn bookkeeping','FlexibleToken.issue/destroy, IcxToken.deposit/withdrawTo')],
 [('balances','token units held per account',IRC),('total_supply','sum of all balances',IRC)],['balanceOf','totalSupply'])
p('C02','Recipient contracts are notified, and can refuse','A token transfer to a contract calls its token handler exactly once, with the real sender, amount and data; if the contract has no handler or its handler fails, the whole transfer fails. A transfer to an ordinary account calls nothing. A recipient that calls back into the system during the notification (for tokens or for ICX it receives) sees the completed transfer, so that re-entering has the same effect as calling right afterwards.',['histories','inputs','schedules'],
 'every transfer or withdrawal to every kind of recipient, and every re-entrant call such a recipient can make',
 'Tests patch the recipient with mocks; no test has a recipient that re-enters or refuses.',
 [IRC,IX,FT],[('tokenFallback call after the balance update','IRCToken._transfer'),('balance updated before ICX is sent','IcxToken.withdrawTo')],(),['tokenFallback calls of recipient SCOREs'])
p('C03','Flexible token supply changes only by authorised mint and burn','The supply of a flexible token changes only when its current owner issues a positive amount to a valid account, or when a positive amount is destroyed by its holder or by the token owner; the supply and the one affected balance change by exactly that amount. Any other attempt to mint or burn fails.',H,
 'all callers, recipients and amounts, in every ownership state, and all other operations interleaved',
 'Unit tests try one or two unauthorised callers on a mocked token.',
 [FT],[('owner check','FlexibleToken.issue'),('holder-or-owner check','FlexibleToken.destroy')],(),['totalSupply','balanceOf','Issuance/Destruction events'])
p('C04','The transfer switch of a flexible token','While transfers of a flexible token are disabled no transfer of it succeeds, in any way (direct, as a conversion hop, or as a withdrawal), while minting and burning keep working; while enabled, transfers are not restricted. Only the token owner (for a controlled token: the converter on behalf of its owner) can flip the switch.',H,
 'all histories of flipping the switch, transfers, conversions and ownership changes','Tests flip the flag once on a mocked token and never route conversions through a frozen token.',
 [FT,FC],[('transfer gate','FlexibleToken.transfer'),('owner-only switch','FlexibleToken.disableTransfer')],(),['getTransferPossibility','transfer'])
p('C05','ICX tokens are fully backed by ICX','At all times the ICX held by the ICX token contract equals its total supply. Depositing (explicitly or by plainly sending ICX) credits exactly the ICX received to the sender; withdrawing a positive amount up to the own balance burns exactly that amount and pays exactly that ICX to the chosen recipient; the token cannot be sent to its own contract.',H,
 'all histories of deposits, plain ICX sends, withdrawals to every kind of recipient, transfers and conversions from/to ICX',
 'Unit tests mock the ICX ledger; integration tests cannot run and only cover a straight line.',
 [IX],[('deposit/fallback mint','IcxToken.deposit'),('burn before payout','IcxToken.withdrawTo')],(),['icx balance of the contract','totalSupply'])
p('C06','Ownership moves only by a two-step handover','The owner of any contract (tokens, converters, network, registry) changes only when the account last nominated by the then-current owner accepts; the nomination is consumed by the acceptance, and the current owner may replace a nomination before. Nobody else can nominate or accept, the current owner cannot be nominated, and right after installation the deployer is the owner with no nomination pending.',HC,
 'all interleavings of nominations and acceptances by all accounts over all owned contracts','Tests do one nomination and one acceptance on a mocked contract.',
 [OW,FC],[('owner-only nomination','Owned.transferOwnerShip'),('nominee-only acceptance','Owned.acceptOwnerShip'),('converter accepts its token','FlexibleTokenController.acceptTokenOwnership')],
 [('owner','current owner',OW),('new_owner','nominee or none',OW)],['getOwner','getNewOwner','OwnerUpdate event'])
p('C07','Converter management moves only by a two-step handover','The manager of a converter changes only when the account last nominated by its manager or owner accepts; the nomination is consumed by the acceptance; nobody else can nominate or accept and the current manager cannot be nominated. Right after installation the deployer is the manager and no nomination is pending.',HC,
 'all interleavings of nominations and acceptances by all accounts, mixed with ownership changes','Tests exercise one handover on a mocked class that is not a converter.',
 [MG,CV],[('owner-or-manager nomination','Managed.transferManagement'),('nominee-only acceptance','Managed.acceptManagement'),('initialisation','Converter.on_install')],(),['getManager','getNewManager','ManagerUpdate event'])
p('C08','Privileged operations are refused to everybody else','Every administrative operation of the system (token mint and switch, registry entries, ICX token registration, connector set-up, purchase switch, token ownership handling, withdrawals: owner only; fee, conversion switch, registry lock and restore: owner or manager) fails for every other caller and changes nothing, whatever the state; for the entitled caller it is not refused for lack of authority.',HC,
 'every caller times every privileged operation in every reachable ownership/management state','Tests try a handful of (operation, caller) pairs on freshly mocked contracts.',
 [OW,MG,CV,NW,RG,FT,TH,FC],[('owner check','Owned.require_owner_only'),('owner-or-manager check','Managed.require_owner_or_manager_only')],(),['every external method'])
p('C09','The score registry resolves exactly what its owner registered','Looking up a known name returns the contract address last registered for it by the registry owner and not unregistered since, or the zero address; the registry itself is registered from the start. Only contract addresses and only known names can be registered, and only registered names can be unregistered.',H,
 'all histories of register/unregister/lookup over all names, addresses and callers','Tests register one address and look it up.',
 [RG],[('keyed address table','ScoreRegistry.registerAddress/unregisterAddress/getAddress')],(),['getAddress','AddressUpdate event'])
p('C10','A converter follows registry updates safely and reversibly','A converter switches its registry only to the different, valid address its current registry itself names, and only when updates are allowed or the caller is the converter owner; the registry it leaves becomes the one that can be restored. Restoring (owner or manager) returns to that previous registry and locks further updates by others; the lock can be set and lifted only by owner or manager.',H,
 'all histories of registry re-pointing, updates, restores and locks by all callers','Tests mock the registry and check one update and one restore.',
 [CV,RG],[('update','Converter.updateRegistry'),('restore','Converter.restoreRegistry'),('lock','Converter.disableRegistryUpdate')],(),['getRegistry','getPreviousRegistry','isAllowRegistryUpdate'])
p('C11','Connector configuration stays well formed','The connectors of a converter are distinct, valid, neither the converter nor its own flexible token, each with a weight in 1..1000000 ppm, and the weights never sum to more than 1000000; connectors can be added only by the owner while the converter is inactive and are never lost. Updating or switching one connector changes exactly that connector, as requested, and the reported list, count, balances and details agree with the configuration.',HC,
 'all histories of adding, updating and switching connectors with all weights and addresses, in active and inactive state','Tests cover single calls with mocked DBs; no sequence of add and update around the 100% limit is explored.',
 [CV],[('add','Converter.addConnector'),('update','Converter.updateConnector'),('running weight sum','Converter._total_connector_weight')],
 [('connectors','per-token record',CV),('total_connector_weight','sum of weights',CV)],['getConnector','getConnectorAt','getConnectorTokenCount','getConnectorBalance'])
p('C12','Conversion fees are bounded and charged exactly','The conversion fee always lies between 0 and the maximum fixed at deployment (itself at most 100%) and changes only as set by owner or manager. Every quote and every conversion pays out floor(gross * (1 - fee)) for conversions with the flexible token and floor(gross * (1 - fee)^2) between two connectors, and reports the difference as the fee.',HC,
 'all fees, amounts and conversion kinds, fee changes interleaved with conversions','Tests use one fee and a mocked formula.',
 [CV],[('fee bound','Converter.setConversionFee'),('net amount','Converter.getFinalAmount')],(),['getConversionFee','getFinalAmount','getReturn','Conversion event'])
p('C13','Emergency switches stop exactly what they should','While conversions are disabled on a converter no conversion through it succeeds. While purchases are disabled for a connector, it can neither be used to buy the flexible token nor be the destination of a cross-connector conversion, whereas selling the flexible token for it is never blocked by that switch; re-enabling restores normal operation. Switching to the current setting changes and announces nothing.',H,
 'all histories of flipping both switches by entitled callers with conversions of every kind in between','Tests flip flags but do not run conversions against real converters.',
 [CV],[('conversion switch','Converter.disableConversions'),('purchase switch','Converter.disableConnectorPurchases')],(),['isConversionsEnabled','getConnector','conversions','ConversionsEnable event'])
p('C14','A converter works only while it controls its token','A converter is active exactly while it is the accepted owner of its flexible token. Conversions and quotes succeed only while active; adding connectors, depositing connector tokens directly and withdrawing connector tokens succeed only while inactive; through every activation, deactivation and hand-over to another converter these rules follow the actual ownership at that moment.',H,
 'all histories of token ownership moving between owner and converters with operations in between','Tests mock the activity flag.',
 [CV,FC],[('activity test','FlexibleTokenController._is_active'),('guards','Converter._require_active/_require_inactive, withdrawTokens')],(),['isActive','getReturn','addConnector','withdrawTokens'])
p('C15','Converters accept tokens only for conversions by the network or as deposits','A converter accepts incoming tokens in exactly two cases: a well-formed conversion request sent by the network its current registry names, or connector tokens sent by its owner or manager while it is inactive; a positive amount is required in both. Every other incoming transfer fails, so that no user can convert around the network or strand tokens in a converter.',H,
 'all senders, tokens, amounts and data, in every activity/registry state','Existing tests of this handler fail on this platform or use mocks for token and network.',
 [CV],[('token handler','Converter.tokenFallback')],(),['tokenFallback','balanceOf(converter)'])
p('C16','Conversions settle exactly','A buy takes exactly the paid amount of the connector token into the converter and mints exactly the returned amount; a sale burns exactly the sold amount and pays exactly the returned amount from the connector balance; a cross conversion moves both connector balances and leaves the supply alone. No other balance, supply or setting changes, and a connector is never emptied unless the entire supply is sold.',HC,
 'all conversions of every kind in every reachable state, including partial reserves, full-supply sales and chains','Tests call the private conversion helpers with mocked tokens and mocked formula.',
 [CV,NW],[('buy','Converter._buy'),('sell','Converter._sell'),('cross','Converter._convert_cross_connector')],(),['balanceOf','totalSupply','Conversion/PriceDataUpdate events'])
p('C17','Virtual connector balances track conversions exactly','For a connector with virtual balance, prices are computed from the virtual balance alone; each conversion increases the paid-in and decreases the paid-out virtual balance by exactly the converted amounts, and nothing else but an explicit owner update changes it. Quoting and executing treat the virtual balance identically. A payout that the real balance cannot cover fails without any effect.',HC,
 'all mixtures of virtual and real connectors, all conversion kinds, interleaved with owner updates','Tests never execute a conversion on a connector with virtual balance.',
 [CV],[('virtual balance updates','Converter._buy/_sell/_convert_cross_connector'),('balance choice','Converter.getConnectorBalance')],(),['getConnector.virtualBalance','getConnectorBalance','getReturn'])
p('C18','A converter executes exactly what it quotes','In every state, the amount a converter quotes for converting an amount of one of its tokens into another equals what the conversion of that amount pays out if executed in that state. A quote is the price formula applied to the current supply, connector balance and weight, less the fee; quoting changes nothing.',HC,
 'every token pair and amount in every reachable state (virtual or real connectors, any weights and fee)','Tests mock the formula or the balances, and no test compares a quote with the executed conversion.',
 [CV],[('quote','Converter.getReturn'),('execution','Converter._convert')],(),['getReturn','Conversion event'])
p('C19','The network delivers exactly the amount it quotes for a path','For every path and amount, if the conversion is executed in the state in which the network quoted it, the amount delivered at the end equals the quoted amount, over any number of hops, through chains of flexible tokens, and for ICX as for tokens.',HC,
 'all paths up to the maximal length over all reachable states','Tests mock the converters; quoting and executing are never compared on a real chain of converters.',
 [NW,CV],[('path quote','Network.getExpectedReturnByPath'),('path execution','Network._convert_by_path')],(),['getExpectedReturnByPath','delivered amount'])
p('C20','The minimum return is enforced end to end','A conversion through the network either delivers at least the requested minimum return to the beneficiary or fails with no effect at all on any balance, whatever the path leads through; the minimum must be positive, and delivering exactly the minimum is accepted.',H,
 'all minimum returns around the deliverable amount, all paths including ones through foreign or inactive token owners, every failing hop','Tests only pass min_return through mocks.',
 [NW,CV],[('final check','Network._convert_for_internal'),('per-hop check','Converter._buy/_sell/_convert_cross_connector')],(),['balances before/after','transaction status'])
p('C21','Only well-formed conversion paths are accepted','A conversion or quote is accepted only for a path of 1 to 10 conversions (3 to 21 alternating elements) whose flexible tokens are pairwise different; every path that is shorter, longer, of even length, circular or not made of addresses is refused in both quoting and converting, and well-formed paths of every allowed length are not refused for their shape. Spaces around the addresses are immaterial.',['inputs','histories'],
 'all path lengths from 0 to beyond 21 with all repetition patterns and spellings','Tests check a few path lists against a private helper.',
 [NW],[('path validation','Network._require_valid_path'),('path parsing','Network._convert_path')],(),['convert','convertFor','transfer to network','getExpectedReturnByPath'])
p('C22','The network is a pass-through','A conversion leaves the token and ICX holdings of the network itself unchanged: everything taken from the user is converted and handed on, never partly retained, and holdings that happen to lie in the network are never paid out to a user. Tokens sent to the network without a valid request are refused unless marked as conversion result; only the network owner can withdraw what it holds.',H,
 'all conversions and transfers to the network, with pre-existing holdings of any token','Tests mock the balances the network reads.',
 [NW,TH],[('balance difference','Network._convert_by_path'),('hand-over','Network._convert_for_internal'),('handler','Network.tokenFallback')],(),['balanceOf(network)','icx balance of network'])
p('C23','ICX enters and leaves conversions one to one','Converting ICX is accepted only along paths that start with a registered ICX token, and wraps exactly the ICX sent. A conversion that ends in a registered ICX token pays out plain ICX of exactly the resulting amount; one ending in any other token delivers that token. Registration is decided by the network owner only and takes effect at once.',H,
 'all histories of (un)registering ICX tokens with conversions from and to ICX','Tests mock ICX transfers; registration is tested in isolation.',
 [NW,IX],[('entry','Network.convertFor'),('exit','Network._convert_for_internal'),('registration','Network.registerIcxToken')],(),['icx balances','getIcxTokenRegistered'])
p('C24','The right beneficiary receives the conversion result','The result of a conversion goes entirely to the beneficiary named in the request, or to the requester when none is named, and the requester is debited exactly the source amount. A missing, zero or network beneficiary is refused and a beneficiary contract that refuses the tokens makes the conversion fail.',H,
 'all requesters, beneficiaries and request spellings (explicit, null or absent beneficiary; ICX or token source)','Tests check the call arguments of mocks for one beneficiary.',
 [NW],[('beneficiary','Network._convert_bytes_data, convert, convertFor')],(),['balances of requester and beneficiary'])
p('C25','Prices never exceed and closely follow the bonding curve','For every valid supply, balance, weight and amount, the purchase, sale and cross-connector returns never exceed the exact value of the published formula and fall short of it by no more than rounding (one unit plus a relative error of 2^-96) as long as the power the formula raises is at most e^16, the range its exponential series is made for; they are exact for zero amounts, 100% weight, equal weights and sale of the whole supply, never exceed the connector balance, and inputs outside the domain are refused.',['inputs'],
 'all supplies, balances, weights and amounts from 1 unit up to the supported maximum','Tests compare random samples with a floating tolerance of a Python re-implementation sharing the same tables, and one fixed benchmark table.',
 [FM],[('fixed-point power','FixedMapFormula._power, _optimal_log, _general_log, _optimal_exp, _general_exp'),('returns','FixedMapFormula.calculate_*')],(),['calculate_purchase_return','calculate_sale_return','calculate_cross_connector_return'])
p('C26','The price formula equals the published fixed-point algorithm','Every node must compute the same price: each return equals, to the unit, the value of the published fixed-point algorithm (logarithm and exponential with 127-bit scaling factors, precision chosen by the exponent) on all inputs, in particular on both sides of every internal threshold between the optimised and the general routines.',['inputs'],
 'all inputs, with the internal thresholds (log and exp limits, precision steps, maximum base) targeted','Tests sample randomly and never target the thresholds; the tolerance hides single-unit differences.',
 [FM],[('tables and polynomials','FixedMapFormula')],(),['_power and calculate_* results'])
p('C27','Trading back and forth never yields a profit','In any state, converting an amount and converting the whole result straight back (buy then sell, sell then buy, or cross and back) never returns more than was put in, and, beyond the rounding of the formula (two units plus a relative error of 2^-96), splitting one conversion into two never pays more and a larger amount never returns less.',HC,
 'all states, connectors, weights, fees and amounts','Tests include one random buy/sell trade at formula level with tolerance; never on contracts with virtual balances, fees or cross conversions.',
 [FM,CV],[('rounding direction','FixedMapFormula.calculate_*'),('quote/execute','Converter')],(),['amounts of consecutive conversions'])
p('C28','Event logs tell the truth','The events of a successful transaction describe exactly what happened: replaying the Transfer and mint/burn events of a plain or flexible token from installation reproduces all its balances and its supply (for an ICX token, whose burn event names no account, its supply), every conversion emits one conversion event with the real amounts and fee and price data matching the state after it, and every owner, manager, fee, switch and registry change is announced with the right old and new values. A failed transaction leaves no events.',H,
 'all histories of all operations','Tests assert single mocked event calls; some event assertions cannot run here; no test reconstructs state from logs.',
 [IRC,FT,IX,CV,OW,MG,RG],[('event emission','@eventlog methods and their call sites')],(),['event logs'])
p('C29','Held tokens leave contracts only by an owner withdrawal','Tokens held by a converter, network or token contract for their own account leave only through their functions or by a withdrawal of their owner of a positive amount up to the holding, to a valid account other than the contract itself. While a converter is active even its owner cannot withdraw connector tokens, while other tokens remain withdrawable; the owner of a converter can also recover tokens held by the controlled flexible token.',H,
 'all holders, tokens, recipients and amounts in active and inactive state','Tests mock the token being withdrawn.',
 [TH,CV,FC],[('withdrawal','TokenHolder.withdrawTokens'),('active guard','Converter.withdrawTokens'),('via controller','FlexibleTokenController.withdrawFromToken')],(),['balances of contracts'])
p('C30','Behaviour depends only on the recorded ledger state','Restarting or redeploying the same code of a contract, running failed transactions or queries in between, changes no reported value and no later outcome: whatever a transaction did is stored in the contract state when it succeeds, and nothing of it survives when it fails.',['histories','crash_points'],
 'restart, upgrade to the same code, failed transactions and queries inserted at every point of every history','Tests build one object per test and never reload it from its database.',
 [IRC,FT,IX,CV,NW,RG,OW,MG],[('all state in container DBs','every contract'),('connector cache','ConnectorDict')],(),['all queries'])
p('C31','Installation validates and initialises contracts','A token is installed with exactly initial supply times ten to the decimals, all credited to the deployer, and keeps its name, symbol and decimals for ever; negative supply or decimals are refused. A converter is installed only for a valid token and registry, a maximum fee of 0 to 100% and, if given, a valid first connector; it starts inactive-or-active according to token ownership, with fee 0, conversions enabled and registry updates allowed.',['configurations','inputs'],
 'all installation parameters, valid and invalid','Tests check one parameter set with mocked base classes.',
 [IRC,FT,IX,CV,RG,NW],[('on_install','all contracts')],(),['name','symbol','decimals','totalSupply','converter getters'])
p('C32','Building packages is complete, exact and repeatable','After any history of builds, source changes and cleans, the package of every contract last built consists of exactly its configured files with the source content at its last build plus nothing stale, packages not named in a build are untouched, and cleaning removes all packages; an unknown contract name changes nothing. The zip writer produces the same set of files.',['histories','configurations'],
 'all sequences of build (any subset), edit, add/remove source files, clean','There are no tests of the packaging tool.',
 ['build.py','contract_generator/builder.py','contract_generator/writer.py','contract_generator/config.py'],[('path list','Builder'),('write/clean','FileWriter, ZipWriter')],(),['output directory'])
p('C33','Every package is self-contained','Each built package contains every module its contract imports, directly or indirectly, and names an existing entry point in its package.json, so that each contract installs from its package alone without the rest of the repository.',['configurations','programs'],
 'all contracts and their whole import closure','Tests import from the repository tree, where every module is always available.',
 ['contract_generator/config.py','contract_generator/builder.py','contracts'],[('dependency lists','contract_generator/config.py')],(),['importing the package in isolation'])
p('C34','Attribute storage reads back what was written','An attribute store over contract storage returns for each declared scalar field the value last assigned to it (or its type default), shared by every store over the same storage, distinct fields never influence each other, and undeclared attributes are never persisted.',['histories','inputs'],
 'all histories of declaring, assigning and reading fields of all types through several store objects','Tests assign one value per type through one object.',
 ['contracts/utility/storage.py'],[('attribute interception','Storage.__setattr__/__getattribute__')],(),['attribute reads'])
p('C35','The generators reproduce the constants of the price formula','Run with the shipped settings, the generator scripts of the price formula print exactly the scaling factors, ln 2 factors, table of largest exponents and the logarithm and exponential code that the published formula uses. For any other setting (precision range, number of series coefficients, number of high terms) their output follows the same definitions: largest exponents are exactly the largest whose series fits 256 bits, the growth factor is the largest usable one, factors and terms are the exact values rounded as published, and the printed code computes those functions. The helper library refuses exactly the results that leave 0 to 2^256-1.',['configurations','inputs'],
 'all settings of the generators, all arguments of their helper functions','No test runs the generators; the tests of the formula share its tables.',
 ['contracts/formula/auto_generate'],[('helper library','auto_generate/common/functions.py'),('scripts','auto_generate/print_*.py'),('settings','auto_generate/common/constants.py')],(),['standard output of the scripts','results of the helper functions'])
p('C36','Contracts offer exactly the published interface','Every contract offers the published operations under the published names, with the published named parameters, types and defaults, as queries or as changes, and takes ICX only where published; it offers no other operation that can change the ledger. Requests in the form wallets send (named parameters written as text) have exactly the outcome of the operation; a request that names an unpublished operation, lacks a needed parameter, has an unknown one or an unreadable value is refused without effect. Queries answer with the published type and change nothing, and entries of the event log carry the published values, indexed as published.',['inputs','histories','configurations'],
 'all operations of all contracts in all states, all well and badly formed requests','Tests call Python methods directly with Python values; requests, parameter names, flags and unpublished operations never occur.',
 [IRC,FT,IX,CV,NW,RG,OW,MG,TH,FC],[('declarations','@external, @payable and @eventlog methods of every contract'),('installation parameters','on_install of every contract')],(),['declared interface of the contracts','JSON-RPC style requests and queries','indexed values of events'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
    print(x['id'],x['title'], x['statement'].count('. ')+1)
