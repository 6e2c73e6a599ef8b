// -*- mode: Bluespec; -*-
/** Converters: configuration, activation, quotes and conversions. */
module converter {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import formula.* from "./formula"

  pure val PPM = 1000000

  pure def putCv(w: World, c: Addr, v: Conv): World = { ...w, cv: w.cv.put(c, v) }
  pure def isConn(v: Conv, t: Addr): bool = v.cn.keys().contains(t)

  /// the converter owns the flexible token it is made for
  pure def activeKnown(w: World, c: Addr): bool = hasOwner(w, w.cv.get(c).token)
  pure def active(w: World, c: Addr): bool = activeKnown(w, c) and ownerOf(w, w.cv.get(c).token) == c

  pure def isOwner(w: World, c: Addr, a: Addr): bool = w.cv.get(c).owner == a
  pure def isOwnerOrManager(w: World, c: Addr, a: Addr): bool =
    w.cv.get(c).owner == a or w.cv.get(c).mgr == a

  /// balance a connector is priced with; -1: not available
  pure def connBalance(w: World, c: Addr, t: Addr): int = {
    val v = w.cv.get(c)
    if (not(isConn(v, t))) -1
    else if (v.cn.get(t).virt) v.cn.get(t).vbal
    else if (not(has(w.tok, t))) -1
    else balOf(w, t, c)
  }

  pure def finalAmount(fee: int, gross: int, magnitude: int): int =
    if (magnitude == 1) gross * (PPM - fee) / PPM
    else gross * (PPM - fee)^2 / (PPM * PPM)

  type Quote = { ok: bool, why: str, gross: int, net: int, hop: List[Hop] }
  pure def noQuote(why: str): Quote = { ok: false, why: why, gross: 0, net: 0, hop: [] }
  pure def priced(c: Addr, kind: str, args: List[int], gross: int, net: int): Quote =
    if (gross < 0) { ...noQuote("formula"), hop: [{ c: c, k: kind, x: args, gross: gross, net: 0 }] }
    else { ok: true, why: "", gross: gross, net: net, hop: [{ c: c, k: kind, x: args, gross: gross, net: net }] }

  /**
   * What converting `amt` of src into dst yields. `received` is the part of `amt` that is already
   * in the real balance of the converter: nothing for a question, everything during a conversion.
   */
  pure def quote(w: World, c: Addr, src: Addr, dst: Addr, amt: int, received: int): Quote = {
    val v = w.cv.get(c)
    if (src == dst) noQuote("same")
    else if (not(active(w, c))) noQuote("inactive")
    else {
      val supply = if (has(w.tok, v.token)) w.tok.get(v.token).supply else 0
      if (dst == v.token) {
        if (not(isConn(v, src))) noQuote("noconn")
        else if (not(v.cn.get(src).buy)) noQuote("nobuy")
        else {
          val b = connBalance(w, c, src) - (if (v.cn.get(src).virt) 0 else received)
          if (not(isFlexLike(w, v.token)) or connBalance(w, c, src) < 0) noQuote("nobalance")
          else {
            val g = calcPurchase(supply, b, v.cn.get(src).w, amt)
            priced(c, "buy", [supply, b, v.cn.get(src).w, amt], g, finalAmount(v.fee, g, 1))
          }
        }
      } else if (src == v.token) {
        if (not(isConn(v, dst))) noQuote("noconn")
        else {
          val b = connBalance(w, c, dst)
          if (not(isFlexLike(w, v.token)) or b < 0) noQuote("nobalance")
          else {
            val g = calcSale(supply, b, v.cn.get(dst).w, amt)
            priced(c, "sell", [supply, b, v.cn.get(dst).w, amt], g, finalAmount(v.fee, g, 1))
          }
        }
      } else {
        if (not(isConn(v, src)) or not(isConn(v, dst))) noQuote("noconn")
        else if (not(v.cn.get(dst).buy)) noQuote("nobuy")
        else {
          val b1 = connBalance(w, c, src) - (if (v.cn.get(src).virt) 0 else received)
          val b2 = connBalance(w, c, dst)
          if (connBalance(w, c, src) < 0 or b2 < 0) noQuote("nobalance")
          else {
            val g = calcCross(b1, v.cn.get(src).w, b2, v.cn.get(dst).w, amt)
            priced(c, "cross", [b1, v.cn.get(src).w, b2, v.cn.get(dst).w, amt], g, finalAmount(v.fee, g, 2))
          }
        }
      }
    }
  }
  /// the token the converter is made for has to be a token with a supply
  pure def isFlexLike(w: World, t: Addr): bool = has(w.tok, t)

  /// add d to the virtual balance of a connector that has one
  pure def bumpVirtual(w: World, c: Addr, t: Addr, d: int): World = {
    val v = w.cv.get(c)
    if (not(isConn(v, t))) w
    else if (not(v.cn.get(t).virt)) w
    else putCv(w, c, { ...v, cn: v.cn.put(t, { ...v.cn.get(t), vbal: v.cn.get(t).vbal + d }) })
  }

  pure def priceEv(w: World, c: Addr, t: Addr): Ev = {
    val v = w.cv.get(c)
    ev0(c, "PriceDataUpdate", [t], [w.tok.get(v.token).supply, connBalance(w, c, t), v.cn.get(t).w])
  }

  /// a transfer to somebody who converts nothing
  pure def xferLeaf(w: World, t: Addr, from: Addr, dst: Addr, v: int, d: Data): Res = {
    val r = move(w, t, from, dst, v)
    if (not(r.ok)) r
    else join(r, leafNotify(r.w, t, from, dst, v, d)).emit(transferEv(t, from, dst, v, d))
  }

  /// the conversion itself: `amt` of src has just arrived at c, `trader` gets the result
  pure def doConvert(w: World, c: Addr, trader: Addr, src: Addr, dst: Addr, amt: int, min: int): Res = {
    val v = w.cv.get(c)
    if (not(v.on)) bad("off")
    else if (min <= 0) bad("badmin")
    else if (src == dst) bad("same")
    else {
      val q = quote(w, c, src, dst, amt, amt)
      val conversion = ev0(c, "Conversion", [src, dst, trader], [amt, q.net, q.gross - q.net])
      val r =
        if (not(q.ok)) bad(q.why)
        else if (q.net < min) bad("minreturn")
        else if (not(has(w.tok, v.token))) bad("notoken")
        else if (dst == v.token) {
          val i = issue(bumpVirtual(w, c, src, amt), dst, c, trader, q.net)
          if (not(i.ok)) i else i.emit(conversion).emit(priceEv(i.w, c, src))
        } else if (src == v.token) {
          val b = connBalance(w, c, dst)
          if (not(or { q.net < b, and { q.net == b, amt == w.tok.get(v.token).supply } })) bad("deplete")
          else
          {
            val i = destroy(bumpVirtual(w, c, dst, -q.net), src, c, c, amt)
            val o = if (not(i.ok)) i else join(i, xferLeaf(i.w, dst, c, trader, q.net, RESULT))
            if (not(o.ok)) o else o.emit(conversion).emit(priceEv(o.w, c, dst))
          }
        } else {
          val w1 = w.bumpVirtual(c, src, amt).bumpVirtual(c, dst, -q.net)
          // a virtual balance has to cover the payout twice over (see DESIGN.md), a real one once
          if (v.cn.get(dst).virt and connBalance(w, c, dst) < q.net) bad("deplete")
          else if (q.net >= connBalance(w1, c, dst)) bad("deplete")
          else {
            val o = xferLeaf(w1, dst, c, trader, q.net, RESULT)
            if (not(o.ok)) o else o.emit(conversion).emit(priceEv(o.w, c, src)).emit(priceEv(o.w, c, dst))
          }
        }
      { ...r, hops: q.hop.concat(r.hops) }
    }
  }

  /// v of t has just arrived at converter c, sent by `from`
  pure def convNotify(w: World, c: Addr, t: Addr, from: Addr, v: int, d: Data): Res = {
    val k = w.cv.get(c)
    if (v <= 0) bad("notpositive")
    else if (or { from == k.owner, from == k.mgr } and isConn(k, t) and not(activeKnown(w, c))) bad("notoken")
    else if (or { from == k.owner, from == k.mgr } and isConn(k, t) and not(active(w, c))) good(w)
    else if (not(has(w.rg, k.reg))) bad("noregistry")
    else if (w.rg.get(k.reg).net != from) bad("notnetwork")
    else if (d.k != "conv") bad("norequest")
    else doConvert(w, c, from, t, d.to, v, d.min)
  }

  /// a transfer to anybody but the network with a conversion path
  pure def xferConv(w: World, t: Addr, from: Addr, dst: Addr, v: int, d: Data): Res = {
    val r = move(w, t, from, dst, v)
    if (not(r.ok)) r
    else join(r, if (has(w.cv, dst)) convNotify(r.w, dst, t, from, v, d)
                 else leafNotify(r.w, t, from, dst, v, d))
           .emit(transferEv(t, from, dst, v, d))
  }

  // ---- administration --------------------------------------------------------------------------
  pure def validWeightPpm(x: int): bool = and { 0 < x, x <= PPM }

  pure def addConnector(w: World, c: Addr, sender: Addr, t: Addr, weight: int, virt: bool): Res = {
    val v = w.cv.get(c)
    if (sender != v.owner) bad("notowner")
    else if (not(activeKnown(w, c))) bad("notoken")
    else if (active(w, c)) bad("active")
    else if (not(validAddr(t))) bad("badaddr")
    else if (t == c) bad("self")
    else if (not(validWeightPpm(weight))) bad("badweight")
    else if (t == v.token) bad("isflex")
    else if (isConn(v, t)) bad("isconn")
    else if (v.total + weight > PPM) bad("overweight")
    else good(putCv(w, c, { ...v, list: v.list.append(t), total: v.total + weight,
                                  cn: v.cn.put(t, { w: weight, virt: virt, vbal: 0, buy: true }) }))
  }

  pure def updateConnector(w: World, c: Addr, sender: Addr, t: Addr, weight: int, virt: bool, vbal: int): Res = {
    val v = w.cv.get(c)
    if (sender != v.owner) bad("notowner")
    else if (not(isConn(v, t))) bad("noconn")
    else if (not(validWeightPpm(weight))) bad("badweight")
    else {
      val k = v.cn.get(t)
      val total = v.total - k.w + weight
      if (total > PPM) bad("overweight")
      else good(putCv(w, c, { ...v, total: total,
                                    cn: v.cn.put(t, { ...k, w: weight, virt: virt, vbal: vbal }) }))
    }
  }

  pure def disablePurchases(w: World, c: Addr, sender: Addr, t: Addr, disable: bool): Res = {
    val v = w.cv.get(c)
    if (sender != v.owner) bad("notowner")
    else if (not(isConn(v, t))) bad("noconn")
    else good(putCv(w, c, { ...v, cn: v.cn.put(t, { ...v.cn.get(t), buy: not(disable) }) }))
  }

  pure def updateRegistry(w: World, c: Addr, sender: Addr): Res = {
    val v = w.cv.get(c)
    if (not(v.allow) and sender != v.owner) bad("locked")
    else if (not(has(w.rg, v.reg))) bad("noregistry")
    else {
      val new = w.rg.get(v.reg).self
      if (not(validAddr(new))) bad("badaddr")
      else if (new == v.reg) bad("same")
      else good(putCv(w, c, { ...v, preg: v.reg, reg: new }))
    }
  }
  pure def restoreRegistry(w: World, c: Addr, sender: Addr): Res = {
    val v = w.cv.get(c)
    if (not(isOwnerOrManager(w, c, sender))) bad("notownermgr")
    else good(putCv(w, c, { ...v, reg: v.preg, allow: false }))
  }
  pure def disableRegistryUpdate(w: World, c: Addr, sender: Addr, disable: bool): Res = {
    val v = w.cv.get(c)
    if (not(isOwnerOrManager(w, c, sender))) bad("notownermgr")
    else good(putCv(w, c, { ...v, allow: not(disable) }))
  }
  pure def disableConversions(w: World, c: Addr, sender: Addr, disable: bool): Res = {
    val v = w.cv.get(c)
    if (not(isOwnerOrManager(w, c, sender))) bad("notownermgr")
    else if (v.on != disable) good(w)
    else good(putCv(w, c, { ...v, on: not(disable) }))
           .emit({ c: c, e: "ConversionsEnable", a: [], n: [if (disable) 0 else 1], s: "" })
  }
  pure def setFee(w: World, c: Addr, sender: Addr, fee: int): Res = {
    val v = w.cv.get(c)
    if (not(isOwnerOrManager(w, c, sender))) bad("notownermgr")
    else if (fee < 0 or fee > v.maxFee) bad("badfee")
    else good(putCv(w, c, { ...v, fee: fee })).emit(ev0(c, "ConversionFeeUpdate", [], [v.fee, fee]))
  }
  pure def nominateManager(w: World, c: Addr, sender: Addr, new: Addr): Res = {
    val v = w.cv.get(c)
    if (not(isOwnerOrManager(w, c, sender))) bad("notownermgr")
    else if (new == v.mgr) bad("ismanager")
    else good(putCv(w, c, { ...v, nmgr: new }))
  }
  pure def acceptManager(w: World, c: Addr, sender: Addr): Res = {
    val v = w.cv.get(c)
    if (sender != v.nmgr) bad("notnominee")
    else good(putCv(w, c, { ...v, mgr: sender, nmgr: ZERO }))
           .emit(ev0(c, "ManagerUpdate", [v.mgr, sender], []))
  }

  // ---- the controlled flexible token -------------------------------------------------------------
  pure def transferTokenOwnership(w: World, c: Addr, sender: Addr, new: Addr): Res =
    if (sender != w.cv.get(c).owner) bad("notowner") else nominate(w, w.cv.get(c).token, c, new)
  pure def acceptTokenOwnership(w: World, c: Addr, sender: Addr): Res =
    if (sender != w.cv.get(c).owner) bad("notowner") else accept(w, w.cv.get(c).token, c)
  pure def disableTokenTransfers(w: World, c: Addr, sender: Addr, disable: bool): Res =
    if (sender != w.cv.get(c).owner) bad("notowner") else disableTransfer(w, w.cv.get(c).token, c, disable)

  // ---- withdrawals ---------------------------------------------------------------------------------
  pure def isHolder(w: World, h: Addr): bool =
    or { has(w.cv, h), has(w.nt, h), and { has(w.tok, h), w.tok.get(h).kind != "irc" } }

  pure def withdrawTokens(w: World, h: Addr, sender: Addr, t: Addr, dst: Addr, v: int): Res =
    if (not(isHolder(w, h))) bad("nomethod")
    else if (has(w.cv, h) and not(activeKnown(w, h))) bad("notoken")
    else if (has(w.cv, h) and active(w, h) and isConn(w.cv.get(h), t)) bad("active")
    else if (sender != ownerOf(w, h)) bad("notowner")
    else if (v <= 0) bad("notpositive")
    else if (dst == h) bad("self")
    else if (not(validAddr(dst))) bad("badaddr")
    else xferConv(w, t, h, dst, v, NODATA)

  pure def withdrawFromToken(w: World, c: Addr, sender: Addr, t: Addr, dst: Addr, v: int): Res =
    if (sender != w.cv.get(c).owner) bad("notowner")
    else withdrawTokens(w, w.cv.get(c).token, c, t, dst, v)
}
