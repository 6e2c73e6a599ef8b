// -*- mode: Bluespec; -*-
/** The network: conversion paths, ICX in and out, delivery to the beneficiary. */
module network {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import converter.* from "./converter"

  pure val MAX_CONVERSIONS = 10

  /// odd length, 1 to 10 conversions, flexible tokens pairwise different
  pure def wellFormed(path: List[Addr]): bool = {
    val n = path.length()
    and {
      n > 2, n <= 2 * MAX_CONVERSIONS + 1, n % 2 == 1,
      path.indices().forall(i => not(NOADDR.contains(path[i]))),
      path.indices().filter(i => i % 2 == 1).forall(i =>
        path.indices().filter(j => j % 2 == 1 and j > i).forall(j => path[i] != path[j])),
    }
  }

  /// what the network tells a converter: the requested minimum counts for the last conversion
  pure def convData(dst: Addr, min: int): Data = { ...NODATA, k: "conv", to: dst, min: min }

  type Walk = { r: Res, amt: int }

  pure def hopStep(s: Walk, n: Addr, src: Addr, via: Addr, dst: Addr, min: int): Walk =
    if (not(s.r.ok)) s
    else if (not(has(s.r.w.tok, dst))) { ...s, r: { ...bad("notoken"), hops: s.r.hops } }
    else if (not(hasOwner(s.r.w, via))) { ...s, r: { ...bad("noflex"), hops: s.r.hops } }
    else {
      val before = balOf(s.r.w, dst, n)
      val r = join(s.r, xferConv(s.r.w, src, n, ownerOf(s.r.w, via), s.amt, convData(dst, min)))
      { r: r, amt: if (r.ok) balOf(r.w, dst, n) - before else 0 }
    }

  /// convert v of path[0], which the network n holds, along the path and deliver to ben
  pure def convertPath(w: World, n: Addr, path: List[Addr], v: int, min: int, ben: Addr): Res = {
    val last = path.length() - 1
    val walk = range(0, last / 2).foldl({ r: good(w), amt: v }, (s, k) =>
      hopStep(s, n, path[2 * k], path[2 * k + 1], path[2 * k + 2], if (2 * k + 2 == last) min else 1))
    if (not(walk.r.ok)) walk.r
    else if (walk.amt < min) { ...bad("minreturn"), hops: walk.r.hops }
    else {
      val w1 = walk.r.w
      val r = join(walk.r,
        if (w1.nt.get(n).icxt.contains(path[last])) icxWithdrawTo(w1, path[last], n, walk.amt, ben)
        else xferConv(w1, path[last], n, ben, walk.amt, NODATA))
      { ...r, ret: walk.amt }
    }
  }

  /// why a request that comes with tokens t is refused; "": it is not
  pure def refusal(t: Addr, from: Addr, d: Data): str =
    if (d.k != "path") "norequest"
    else if (d.path.length() == 0) "badpath"
    else if (d.path[0] != t) "wrongtoken"
    else if (d.min <= 0) "badmin"
    else if (not(validAddr(if (d.ben == NONE) from else d.ben))) "badaddr"
    else if (not(wellFormed(d.path))) "badpath"
    else ""
  pure def wanted(t: Addr, from: Addr, d: Data): bool = refusal(t, from, d) == ""
  /// v of t has just arrived at network n with a request
  pure def netNotify(w: World, n: Addr, t: Addr, from: Addr, v: int, d: Data): Res =
    if (d.k == "result") good(w)
    else if (not(wanted(t, from, d))) bad(refusal(t, from, d))
    else { ...convertPath(w, n, d.path, v, d.min, if (d.ben == NONE) from else d.ben), ret: 0 }

  /// any token transfer
  pure def xfer(w: World, t: Addr, from: Addr, dst: Addr, v: int, d: Data): Res =
    if (has(w.nt, dst)) {
      val r = move(w, t, from, dst, v)
      if (not(r.ok)) r else join(r, netNotify(r.w, dst, t, from, v, d)).emit(transferEv(t, from, dst, v, d))
    }
    else xferConv(w, t, from, dst, v, d)

  pure def icxRefusal(w: World, n: Addr, sender: Addr, path: List[Addr], v: int, min: int, ben: Addr): str =
    if (not(has(w.nt, n))) "nomethod"
    else if (v < 0) "negative"
    else if (at(w.icx, sender) < v) "shorticx"
    else if (not(wellFormed(path))) "badpath"
    else if (min <= 0) "badmin"
    else if (not(validAddr(ben))) "badaddr"
    else if (ben == n) "self"
    else if (not(w.nt.get(n).icxt.contains(path[0]))) "noticxtoken"
    else ""
  /// ICX in: v ICX from `sender`
  pure def convertIcx(w: World, n: Addr, sender: Addr, path: List[Addr], v: int, min: int, ben: Addr): Res =
    if (icxRefusal(w, n, sender, path, v, min, ben) != "") bad(icxRefusal(w, n, sender, path, v, min, ben))
    else {
      val r = sendIcx(moveIcx(w, sender, n, v), n, path[0], v)
      if (not(r.ok)) r
      else if (not(has(w.tok, path[0]))) bad("notoken")
      else join(r, convertPath(r.w, n, path, v, min, ben))
    }

  pure def registerIcxToken(w: World, n: Addr, sender: Addr, t: Addr, on: bool): Res =
    if (not(has(w.nt, n))) bad("nomethod")
    else if (sender != w.nt.get(n).owner) bad("notowner")
    else if (not(validAddr(t))) bad("badaddr")
    else if (t == n) bad("self")
    else {
      val k = w.nt.get(n)
      good({ ...w, nt: w.nt.put(n, { ...k, icxt: if (on) k.icxt.union(Set(t)) else k.icxt.exclude(Set(t)) }) })
    }

  // ---- questions -------------------------------------------------------------------------------------
  pure def pathQuote(w: World, path: List[Addr], v: int): Quote =
    if (not(wellFormed(path))) noQuote("badpath")
    else if (v <= 0) noQuote("notpositive")
    else range(0, path.length() / 2).foldl({ ok: true, why: "", gross: v, net: v, hop: [] }, (s, k) =>
      if (not(s.ok)) s
      else {
        val via = path[2 * k + 1]
        if (not(hasOwner(w, via))) { ...s, ok: false, why: "noflex" }
        else if (not(has(w.cv, ownerOf(w, via)))) { ...s, ok: false, why: "noconverter" }
        else {
          val q = quote(w, ownerOf(w, via), path[2 * k], path[2 * k + 2], s.net, 0)
          { ...q, hop: s.hop.concat(q.hop) }
        }
      })
}
