// -*- mode: Bluespec; -*-
/**
 * Tokens of all three kinds and the ICX ledger.
 */
module ledger {
  import base.* from "./base"

  pure def balOf(w: World, t: Addr, a: Addr): int = at(w.tok.get(t).bal, a)

  pure def transferEv(t: Addr, from: Addr, dst: Addr, v: int, d: Data): Ev =
    { c: t, e: "Transfer", a: [from, dst], n: [v], s: d.k }

  /// move v units of t; the recipient is not told yet
  pure def move(w: World, t: Addr, from: Addr, dst: Addr, v: int): Res =
    if (not(has(w.tok, t))) bad("notoken")
    else {
      val k = w.tok.get(t)
      if (k.kind == "flex" and not(k.open)) bad("frozen")
      else if (k.kind == "icx" and dst == t) bad("ownicx")
      else if (v < 0) bad("negative")
      else if (at(k.bal, from) < v) bad("short")
      else good({ ...w, tok: w.tok.put(t, { ...k, bal: k.bal.bump(from, -v).bump(dst, v) }) })
    }

  /// recipients that do nothing but accept or refuse
  pure def leafNotify(w: World, t: Addr, from: Addr, dst: Addr, v: int, d: Data): Res =
    if (isEOA(dst)) good(w)
    else if (dst == BOX) {
      if (w.box == "refuse") bad("refused")
      else {
        val r = emit(good(w), { c: BOX, e: "Notified", a: [t, from], n: [v], s: d.k })
        { ...r, box: 1 }
      }
    }
    else if (has(w.nt, dst) and d.k == "result") good(w)
    else bad("nohandler")

  /// supply up, credited to `to`
  pure def mint(w: World, t: Addr, dst: Addr, v: int): World = {
    val k = w.tok.get(t)
    { ...w, tok: w.tok.put(t, { ...k, supply: k.supply + v, bal: k.bal.bump(dst, v) }) }
  }
  pure def burn(w: World, t: Addr, from: Addr, v: int): World = mint(w, t, from, -v)

  // ---- flexible tokens -----------------------------------------------------------------------
  pure def isFlex(w: World, t: Addr): bool = and { has(w.tok, t), w.tok.get(t).kind == "flex" }
  pure def isIcxTok(w: World, t: Addr): bool = and { has(w.tok, t), w.tok.get(t).kind == "icx" }

  pure def issue(w: World, t: Addr, sender: Addr, dst: Addr, v: int): Res =
    if (not(isFlex(w, t))) bad("nomethod")
    else if (v <= 0) bad("notpositive")
    else if (sender != ownerOf(w, t)) bad("notowner")
    else if (not(validAddr(dst))) bad("badaddr")
    else if (dst == t) bad("self")
    else good(mint(w, t, dst, v))
           .emit(ev0(t, "Issuance", [], [v]))
           .emit(transferEv(t, t, dst, v, NODATA))

  pure def destroy(w: World, t: Addr, sender: Addr, from: Addr, v: int): Res =
    if (not(isFlex(w, t))) bad("nomethod")
    else if (v <= 0) bad("notpositive")
    else if (balOf(w, t, from) < v) bad("short")
    else if (sender != from and sender != ownerOf(w, t)) bad("notholder")
    else good(burn(w, t, from, v))
           .emit(ev0(t, "Destruction", [], [v]))
           .emit(transferEv(t, from, t, v, NODATA))

  pure def disableTransfer(w: World, t: Addr, sender: Addr, disable: bool): Res =
    if (not(isFlex(w, t))) bad("nomethod")
    else if (sender != ownerOf(w, t)) bad("notowner")
    else good({ ...w, tok: w.tok.put(t, { ...w.tok.get(t), open: not(disable) }) })

  // ---- ICX and ICX tokens ----------------------------------------------------------------------
  pure def moveIcx(w: World, from: Addr, dst: Addr, v: int): World =
    { ...w, icx: w.icx.bump(from, -v).bump(dst, v) }

  /// v ICX arrive at ICX token t from `from`
  pure def creditDeposit(w: World, t: Addr, from: Addr, v: int): Res =
    good(mint(w, t, from, v))
      .emit(ev0(t, "Issuance", [], [v]))
      .emit(transferEv(t, t, from, v, NODATA))

  /// plain ICX transfer
  pure def sendIcx(w: World, from: Addr, dst: Addr, v: int): Res =
    if (v < 0) bad("negative")
    else if (at(w.icx, from) < v) bad("shorticx")
    else {
      val w1 = moveIcx(w, from, dst, v)
      if (isEOA(dst)) good(w1)
      else if (dst == BOX) {
        if (w.box == "refuse") bad("refused")
        else {
          val r = emit(good(w1), ev0(BOX, "Funded", [from], [v]))
          { ...r, box: 1 }
        }
      }
      else if (isIcxTok(w, dst)) creditDeposit(w1, dst, from, v)
      else if (v == 0 and deployed(w, dst)) good(w1)
      else bad("noicx")
    }

  pure def icxDeposit(w: World, t: Addr, sender: Addr, v: int): Res =
    if (not(isIcxTok(w, t))) bad("nomethod")
    else if (v < 0) bad("negative")
    else if (at(w.icx, sender) < v) bad("shorticx")
    else creditDeposit(moveIcx(w, sender, t, v), t, sender, v)

  pure def icxWithdrawTo(w: World, t: Addr, sender: Addr, v: int, dst: Addr): Res =
    if (not(isIcxTok(w, t))) bad("nomethod")
    else if (v <= 0) bad("notpositive")
    else if (balOf(w, t, sender) < v) bad("short")
    else sendIcx(burn(w, t, sender, v), t, dst, v)
           .emit(ev0(t, "Destruction", [], [v]))
}
