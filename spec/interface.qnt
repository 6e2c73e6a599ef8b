// -*- mode: Bluespec; -*-
/**
 * The published interface: what accounts and contracts can ask of every kind of contract, how the
 * parameters are called and written, what is answered, and which entries the event log gets.
 * A request in the form wallets send names its parameters. It reaches an operation only if the operation
 * is published, every parameter it needs is there, none is unknown and all are readable; any other
 * request is refused and has no effect. A query has no effect either.
 */
module interface {
  type Param = { n: str, t: str, opt: bool }
  // how: "query" answers and changes nothing; "change" may change the ledger; "pay" may besides bring ICX along
  type Op = { name: str, ps: List[Param], how: str, ans: str }
  type Entry = { name: str, ps: List[Param], indexed: int }
  type Kind = { ops: Set[Op], entries: Set[Entry], install: List[Param], takesIcx: bool }

  pure def need(n: str, t: str): Param = { n: n, t: t, opt: false }
  pure def may(n: str, t: str): Param = { n: n, t: t, opt: true }
  pure def query(name: str, ps: List[Param], ans: str): Op = { name: name, ps: ps, how: "query", ans: ans }
  pure def change(name: str, ps: List[Param]): Op = { name: name, ps: ps, how: "change", ans: "" }
  pure def pays(name: str, ps: List[Param]): Op = { name: name, ps: ps, how: "pay", ans: "" }
  pure def entry(name: str, ps: List[Param], indexed: int): Entry = { name: name, ps: ps, indexed: indexed }

  // ---- parts that several kinds share ---------------------------------------------------------------
  pure val IRC2_OPS = Set(
    query("name", [], "str"), query("symbol", [], "str"), query("decimals", [], "int"), query("totalSupply", [], "int"),
    query("balanceOf", [need("_owner", "Address")], "int"),
    change("transfer", [need("_to", "Address"), need("_value", "int"), may("_data", "bytes")]))
  pure val IRC2_ENTRIES = Set(
    entry("Transfer", [need("_from", "Address"), need("_to", "Address"), need("_value", "int"), need("_data", "bytes")], 3))
  pure val OWNED_OPS = Set(
    query("getOwner", [], "Address"), query("getNewOwner", [], "Address"),
    change("transferOwnerShip", [need("_newOwner", "Address")]), change("acceptOwnerShip", []))
  pure val OWNED_ENTRIES = Set(entry("OwnerUpdate", [need("_prevOwner", "Address"), need("_newOwner", "Address")], 2))
  pure val HOLDER_OPS = Set(
    change("withdrawTokens", [need("_token", "Address"), need("_to", "Address"), need("_amount", "int")]))
  pure val RECEIVER_OPS = Set(
    change("tokenFallback", [need("_from", "Address"), need("_value", "int"), need("_data", "bytes")]))
  pure val SUPPLY_ENTRIES = Set(entry("Issuance", [need("_amount", "int")], 0), entry("Destruction", [need("_amount", "int")], 0))
  pure val TOKEN_INSTALL = [need("_name", "str"), need("_symbol", "str"), need("_initialSupply", "int"), need("_decimals", "int")]

  // ---- the kinds ----------------------------------------------------------------------------------------
  pure val IRC: Kind = { ops: IRC2_OPS, entries: IRC2_ENTRIES, install: TOKEN_INSTALL, takesIcx: false }
  pure val FLEX: Kind = {
    ops: IRC2_OPS.union(OWNED_OPS).union(HOLDER_OPS).union(Set(
      query("getFlexibleTokenVersion", [], "str"), query("getTransferPossibility", [], "bool"),
      change("disableTransfer", [need("_disable", "bool")]),
      change("issue", [need("_to", "Address"), need("_amount", "int")]),
      change("destroy", [need("_from", "Address"), need("_amount", "int")]))),
    entries: IRC2_ENTRIES.union(OWNED_ENTRIES).union(SUPPLY_ENTRIES)
      .union(Set(entry("NewFlexibleToken", [need("_token", "Address")], 0))),
    install: TOKEN_INSTALL, takesIcx: false }
  pure val ICX: Kind = {
    ops: IRC2_OPS.union(OWNED_OPS).union(HOLDER_OPS).union(Set(
      pays("deposit", []), change("withdraw", [need("_amount", "int")]),
      change("withdrawTo", [need("_amount", "int"), need("_to", "Address")]))),
    entries: IRC2_ENTRIES.union(OWNED_ENTRIES).union(SUPPLY_ENTRIES), install: [], takesIcx: true }
  pure val REG: Kind = {
    ops: OWNED_OPS.union(Set(
      query("getAddress", [need("_scoreName", "str")], "Address"), query("getScoreIds", [], "list"),
      change("registerAddress", [need("_scoreName", "str"), need("_scoreAddress", "Address")]),
      change("unregisterAddress", [need("_scoreName", "str")]))),
    entries: OWNED_ENTRIES.union(Set(
      entry("AddressUpdate", [need("_contractName", "str"), need("_scoreAddress", "Address")], 1))),
    install: [], takesIcx: false }
  pure val NET: Kind = {
    ops: OWNED_OPS.union(HOLDER_OPS).union(RECEIVER_OPS).union(Set(
      query("getExpectedReturnByPath", [need("_path", "str"), need("_amount", "int")], "int"),
      query("getIcxTokenRegistered", [need("_icxToken", "Address")], "bool"),
      change("registerIcxToken", [need("_icxToken", "Address"), need("_register", "bool")]),
      pays("convert", [need("_path", "str"), need("_minReturn", "int")]),
      pays("convertFor", [need("_path", "str"), need("_minReturn", "int"), need("_for", "Address")]))),
    entries: OWNED_ENTRIES, install: [], takesIcx: false }
  pure val CONV: Kind = {
    ops: OWNED_OPS.union(HOLDER_OPS).union(RECEIVER_OPS).union(Set(
      query("getManager", [], "Address"), query("getNewManager", [], "Address"),
      change("transferManagement", [need("_newManager", "Address")]), change("acceptManagement", []),
      query("getToken", [], "Address"), query("isActive", [], "bool"),
      change("transferTokenOwnership", [need("_newOwner", "Address")]), change("acceptTokenOwnership", []),
      change("disableTokenTransfers", [need("_disable", "bool")]),
      change("withdrawFromToken", [need("_token", "Address"), need("_to", "Address"), need("_amount", "int")]),
      change("addConnector", [need("_token", "Address"), need("_weight", "int"), need("_enableVirtualBalance", "bool")]),
      change("updateConnector", [need("_connectorToken", "Address"), need("_weight", "int"),
                                 need("_enableVirtualBalance", "bool"), need("_virtualBalance", "int")]),
      change("disableConnectorPurchases", [need("_connectorToken", "Address"), need("_disable", "bool")]),
      query("getConnectorTokenCount", [], "int"), query("getConnectorAt", [need("_index", "int")], "Address"),
      query("getConnector", [need("_address", "Address")], "dict"),
      query("getConnectorBalance", [need("_connectorToken", "Address")], "int"),
      query("getRegistry", [], "Address"), query("getPreviousRegistry", [], "Address"),
      query("isAllowRegistryUpdate", [], "bool"),
      change("updateRegistry", []), change("restoreRegistry", []), change("disableRegistryUpdate", [need("_disable", "bool")]),
      query("isConversionsEnabled", [], "bool"), change("disableConversions", [need("_disable", "bool")]),
      query("getConversionFee", [], "int"), query("getMaxConversionFee", [], "int"),
      change("setConversionFee", [need("_conversionFee", "int")]),
      query("getReturn", [need("_fromToken", "Address"), need("_toToken", "Address"), need("_amount", "int")], "dict"),
      query("getFinalAmount", [need("_amount", "int"), need("_magnitude", "int")], "int"))),
    entries: OWNED_ENTRIES.union(Set(
      entry("ManagerUpdate", [need("_prevManager", "Address"), need("_newManager", "Address")], 2),
      entry("Conversion", [need("_fromToken", "Address"), need("_toToken", "Address"), need("_trader", "Address"),
                           need("_amount", "int"), need("_return", "int"), need("_conversionFee", "int")], 3),
      entry("PriceDataUpdate", [need("_connectorToken", "Address"), need("_tokenSupply", "int"),
                                need("_connectorBalance", "int"), need("_connectorWeight", "int")], 1),
      entry("ConversionFeeUpdate", [need("_prevFee", "int"), need("_newFee", "int")], 0),
      entry("ConversionsEnable", [need("_conversionsEnabled", "bool")], 0))),
    install: [need("_token", "Address"), need("_registry", "Address"), need("_maxConversionFee", "int"),
              need("_connectorToken", "Address"), need("_connectorWeight", "int")],
    takesIcx: false }

  pure val KINDS: str -> Kind = Map("irc" -> IRC, "flex" -> FLEX, "icx" -> ICX, "reg" -> REG, "net" -> NET, "conv" -> CONV)

  // ---- requests that reach nothing -----------------------------------------------------------------------
  /** what can be wrong with a request: d is "missing", "extra" or "text" (of that parameter) */
  pure def defects(ps: List[Param]): Set[{ d: str, n: str }] =
    ps.indices().filter(i => not(ps[i].opt)).map(i => { d: "missing", n: ps[i].n })
      .union(ps.indices().filter(i => ps[i].t != "str").map(i => { d: "text", n: ps[i].n }))
      .union(Set({ d: "extra", n: "_extra" }))
  pure val EVERY: Set[Op] = KINDS.keys().map(k => KINDS.get(k).ops).flatten()
  /** operations of the other kinds, and what contracts keep to themselves */
  pure def unpublished(k: str): Set[Op] = {
    val own = KINDS.get(k).ops.map(o => o.name)
    EVERY.filter(o => not(own.contains(o.name)))
      .union(Set(change("on_install", KINDS.get(k).install), change("on_update", []), change("fallback", []),
                 change("_transfer", [need("_from", "Address"), need("_to", "Address"), need("_value", "int"), need("_data", "bytes")]),
                 change("burn", [need("_value", "int")]), change("mint", [need("_value", "int")]), change("__init__", [])))
  }
  pure val DEFECTS: str -> Set[{ op: str, wrong: Set[{ d: str, n: str }] }] =
    KINDS.keys().mapBy(k => KINDS.get(k).ops.map(o => { op: o.name, wrong: defects(o.ps) }))
  pure val UNPUBLISHED: str -> Set[Op] = KINDS.keys().mapBy(k => unpublished(k))

  /** the interface makes sense: one meaning per name, and the system can send every published change */
  pure val SENSIBLE: bool = KINDS.keys().forall(k => and {
    KINDS.get(k).ops.forall(o => KINDS.get(k).ops.forall(p => o.name == p.name implies o == p)),
    KINDS.get(k).entries.forall(e => e.indexed <= 3 and e.indexed <= e.ps.length()),
    KINDS.get(k).ops.forall(o => (o.how == "query") == (o.ans != "")),
    unpublished(k).forall(o => not(KINDS.get(k).ops.exists(p => p.name == o.name))) })
}
