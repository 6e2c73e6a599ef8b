// -*- mode: Bluespec; -*-
/**
 * Transactions into which BOX puts another one: told to re-enter, BOX sends `inner` itself the first
 * time it is called. It may be called in the middle of a conversion: an account or contract that
 * owns a flexible token stands in the place of a converter on a path. The operators named as in
 * network.qnt are those operators with the difference that BOX may call back.
 */
module nested {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import converter.* from "./converter"
  import network.* from "./network"
  import system.* from "./system"

  /// r is over; if BOX was called for the first time, its own transaction follows, after which it may
  /// still think better of it all
  pure def answered(r: Res, inner: Tx): Res =
    if (not(r.ok) or r.box == 0) r
    else if (r.w.box == "reenter") join(r, call({ ...r.w, box: "accept" }, inner))
    else if (r.w.box == "repent") {
      val q = join(r, call({ ...r.w, box: "accept" }, inner))
      if (q.ok) { ...bad("refused"), hops: q.hops } else q
    }
    else r

  pure def hopStep1(s: Walk, n: Addr, src: Addr, via: Addr, dst: Addr, min: int, inner: Tx): Walk =
    if (not(s.r.ok)) s
    else if (not(has(s.r.w.tok, dst))) { ...s, r: { ...bad("notoken"), hops: s.r.hops } }
    else if (not(hasOwner(s.r.w, via))) { ...s, r: { ...bad("noflex"), hops: s.r.hops } }
    else {
      val before = balOf(s.r.w, dst, n)
      val r = join(s.r, answered(xferConv(s.r.w, src, n, ownerOf(s.r.w, via), s.amt, convData(dst, min)), inner))
      { r: r, amt: if (r.ok) balOf(r.w, dst, n) - before else 0 }
    }

  pure def convertPath1(w: World, n: Addr, path: List[Addr], v: int, min: int, ben: Addr, inner: Tx): Res = {
    val last = path.length() - 1
    val walk = range(0, last / 2).foldl({ r: good(w), amt: v }, (s, k) =>
      hopStep1(s, n, path[2 * k], path[2 * k + 1], path[2 * k + 2], if (2 * k + 2 == last) min else 1, inner))
    if (not(walk.r.ok)) walk.r
    else if (walk.amt < min) { ...bad("minreturn"), hops: walk.r.hops }
    else {
      val w1 = walk.r.w
      val r = join(walk.r, answered(
        if (w1.nt.get(n).icxt.contains(path[last])) icxWithdrawTo(w1, path[last], n, walk.amt, ben)
        else xferConv(w1, path[last], n, ben, walk.amt, NODATA), inner))
      { ...r, ret: walk.amt }
    }
  }

  pure def netNotify1(w: World, n: Addr, t: Addr, from: Addr, v: int, d: Data, inner: Tx): Res =
    if (not(wanted(t, from, d))) netNotify(w, n, t, from, v, d)
    else { ...convertPath1(w, n, d.path, v, d.min, if (d.ben == NONE) from else d.ben, inner), ret: 0 }

  pure def xfer1(w: World, t: Addr, from: Addr, dst: Addr, v: int, d: Data, inner: Tx): Res =
    if (has(w.nt, dst)) {
      val r = move(w, t, from, dst, v)
      if (not(r.ok)) r else join(r, netNotify1(r.w, dst, t, from, v, d, inner)).emit(transferEv(t, from, dst, v, d))
    }
    else answered(xferConv(w, t, from, dst, v, d), inner)

  pure def convertIcx1(w: World, n: Addr, sender: Addr, path: List[Addr], v: int, min: int, ben: Addr, inner: Tx): Res =
    if (icxRefusal(w, n, sender, path, v, min, ben) != "") convertIcx(w, n, sender, path, v, min, ben)
    else {
      val r = answered(sendIcx(moveIcx(w, sender, n, v), n, path[0], v), inner)
      if (not(r.ok)) r
      else if (not(has(w.tok, path[0]))) bad("notoken")
      else join(r, convertPath1(r.w, n, path, v, min, ben, inner))
    }

  pure def call1(w: World, x: Tx, inner: Tx): Res =
    if (x.pay != 0) call(w, x)
    else if (x.m == "transfer") xfer1(w, x.to, x.from, x.a1, x.n1, x.d, inner)
    else if (x.m == "convert") convertIcx1(w, x.to, x.from, x.d.path, x.n1, x.d.min, x.from, inner)
    else if (x.m == "convertFor") convertIcx1(w, x.to, x.from, x.d.path, x.n1, x.d.min, x.a1, inner)
    else if (x.m == "tokenFallback" and has(w.nt, x.to)) netNotify1(w, x.to, x.from, x.a1, x.n1, x.d, inner)
    // everything else calls BOX, if at all, last
    else answered(call(w, x), inner)

  /// a transaction; a failure anywhere in it, BOX's own included, fails it all
  pure def exec(w: World, x: Tx, mode: str, inner: Tx): Res = {
    val r = call1({ ...w, box: mode }, x, inner)
    if (r.ok) { ...r, w: { ...r.w, box: "accept" } } else { ...r, w: w, ev: [], ret: 0 }
  }
}
