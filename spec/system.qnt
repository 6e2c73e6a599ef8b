// -*- mode: Bluespec; -*-
/**
 * The whole system: every transaction an account or contract can send, as one function from a
 * state to a result. A failed transaction has no effect and leaves no events.
 */
module system {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import registry.* from "./registry"
  import converter.* from "./converter"
  import network.* from "./network"

  // ---- installation ----------------------------------------------------------------------------
  pure def newTok(kind: str, sender: Addr, initial: int, decimals: int, name: str): Tok = {
    val total = initial * 10^decimals
    { kind: kind, owner: if (kind == "irc") NONE else sender, nowner: if (kind == "irc") NONE else ZERO,
      bal: Map(sender -> total), supply: total, open: kind == "flex", name: name, decimals: decimals }
  }
  pure def install(w: World, x: Tx): Res = {
    val a = x.to
    if (deployed(w, a)) bad("exists")
    else if (x.m == "deploy_irc" or x.m == "deploy_flex") {
      if (x.n1 < 0) bad("badsupply")
      else if (x.n2 < 0) bad("baddecimals")
      else {
        val r = good({ ...w, tok: w.tok.put(a, newTok(if (x.m == "deploy_irc") "irc" else "flex", x.from, x.n1, x.n2, x.s)) })
        if (x.m == "deploy_irc") r else r.emit(ev0(a, "NewFlexibleToken", [a], []))
      }
    }
    else if (x.m == "deploy_icx") good({ ...w, tok: w.tok.put(a, newTok("icx", x.from, 0, 18, "ICX Token")) })
    else if (x.m == "deploy_reg")
      good({ ...w, rg: w.rg.put(a, { owner: x.from, nowner: ZERO, net: ZERO, self: a }) })
        .emit({ c: a, e: "AddressUpdate", a: [a], n: [], s: "ScoreRegistry" })
    else if (x.m == "deploy_net") good({ ...w, nt: w.nt.put(a, { owner: x.from, nowner: ZERO, icxt: Set() }) })
    else if (x.m == "deploy_conv") {
      // a1: flexible token, a2: registry, n1: maximum fee, a3: first connector or none, n2: its weight
      if (not(validAddr(x.a2))) bad("badaddr")
      else if (x.n1 < 0 or x.n1 > PPM) bad("badfee")
      else if (not(validAddr(x.a1))) bad("badaddr")
      else {
        val v = { owner: x.from, nowner: ZERO, mgr: x.from, nmgr: ZERO, token: x.a1, reg: x.a2, preg: x.a2,
                  allow: true, on: true, fee: 0, maxFee: x.n1, list: [], cn: Map(), total: 0 }
        val w1 = { ...w, cv: w.cv.put(a, v) }
        if (validAddr(x.a3)) addConnector(w1, a, x.from, x.a3, x.n2, false) else good(w1)
      }
    }
    else bad("nomethod")
  }

  // ---- one call, BOX does not call back ----------------------------------------------------------
  pure def convCall(w: World, x: Tx): Res =
    if (not(has(w.cv, x.to))) bad("nomethod")
    else if (x.m == "addConnector") addConnector(w, x.to, x.from, x.a1, x.n1, x.b)
    else if (x.m == "updateConnector") updateConnector(w, x.to, x.from, x.a1, x.n1, x.b, x.n2)
    else if (x.m == "disableConnectorPurchases") disablePurchases(w, x.to, x.from, x.a1, x.b)
    else if (x.m == "updateRegistry") updateRegistry(w, x.to, x.from)
    else if (x.m == "restoreRegistry") restoreRegistry(w, x.to, x.from)
    else if (x.m == "disableRegistryUpdate") disableRegistryUpdate(w, x.to, x.from, x.b)
    else if (x.m == "disableConversions") disableConversions(w, x.to, x.from, x.b)
    else if (x.m == "setConversionFee") setFee(w, x.to, x.from, x.n1)
    else if (x.m == "transferManagement") nominateManager(w, x.to, x.from, x.a1)
    else if (x.m == "acceptManagement") acceptManager(w, x.to, x.from)
    else if (x.m == "transferTokenOwnership") transferTokenOwnership(w, x.to, x.from, x.a1)
    else if (x.m == "acceptTokenOwnership") acceptTokenOwnership(w, x.to, x.from)
    else if (x.m == "disableTokenTransfers") disableTokenTransfers(w, x.to, x.from, x.b)
    else if (x.m == "withdrawFromToken") withdrawFromToken(w, x.to, x.from, x.a1, x.a2, x.n1)
    else bad("nomethod")

  /// calls of methods named tokenFallback by anybody: v of token x.from claimed to come from x.a1
  pure def handlerCall(w: World, x: Tx): Res =
    if (has(w.cv, x.to)) convNotify(w, x.to, x.from, x.a1, x.n1, x.d)
    else if (has(w.nt, x.to)) netNotify(w, x.to, x.from, x.a1, x.n1, x.d)
    else bad("nomethod")

  /// methods that take the ICX sent along (n1)
  pure val PAYABLE: Set[str] = Set("icx", "deposit", "convert", "convertFor")
  pure def call(w: World, x: Tx): Res =
    if (x.pay != 0) bad("notpayable")
    else if (x.m == "transfer") xfer(w, x.to, x.from, x.a1, x.n1, x.d)
    else if (x.m == "icx") sendIcx(w, x.from, x.to, x.n1)
    else if (x.m == "issue") issue(w, x.to, x.from, x.a1, x.n1)
    else if (x.m == "destroy") destroy(w, x.to, x.from, x.a1, x.n1)
    else if (x.m == "disableTransfer") disableTransfer(w, x.to, x.from, x.b)
    else if (x.m == "deposit") icxDeposit(w, x.to, x.from, x.n1)
    else if (x.m == "withdraw") icxWithdrawTo(w, x.to, x.from, x.n1, x.from)
    else if (x.m == "withdrawTo") icxWithdrawTo(w, x.to, x.from, x.n1, x.a1)
    else if (x.m == "transferOwnerShip") nominate(w, x.to, x.from, x.a1)
    else if (x.m == "acceptOwnerShip") accept(w, x.to, x.from)
    else if (x.m == "withdrawTokens") withdrawTokens(w, x.to, x.from, x.a1, x.a2, x.n1)
    else if (x.m == "registerAddress") registerAddress(w, x.to, x.from, x.s, x.a1)
    else if (x.m == "unregisterAddress") unregisterAddress(w, x.to, x.from, x.s)
    else if (x.m == "registerIcxToken") registerIcxToken(w, x.to, x.from, x.a1, x.b)
    else if (x.m == "convert") convertIcx(w, x.to, x.from, x.d.path, x.n1, x.d.min, x.from)
    else if (x.m == "convertFor") convertIcx(w, x.to, x.from, x.d.path, x.n1, x.d.min, x.a1)
    else if (x.m == "tokenFallback") handlerCall(w, x)
    else if (Set("deploy_irc", "deploy_flex", "deploy_icx", "deploy_reg", "deploy_net", "deploy_conv").contains(x.m))
      install(w, x)
    else convCall(w, x)
}
