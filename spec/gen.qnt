// -*- mode: Bluespec; -*-
/**
 * Which transaction comes next: a function from the state and a few random numbers. It aims at
 * transactions that succeed or that fail for exactly one reason.
 */
module gen {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import registry.* from "./registry"
  import converter.* from "./converter"
  import network.* from "./network"
  import system.* from "./system"
  import scenarios.* from "./scenarios"
  import props.* from "./props"

  pure def toL(S: Set[Addr]): List[Addr] = S.fold([], (l, x) => l.append(x))
  pure def chance(r: int, percent: int): bool = (r / 7) % 100 < percent
  pure def pickS(S: Set[Addr], r: int, other: Addr): Addr = if (S == Set()) other else pick(toL(S), r)

  pure val TITLES: List[str] = ["A", "Another token", "Ω", "", " B ", "Flexible", "0x41", "None"]
  pure val PEOPLE: List[Addr] = ["own", "mgr", "ali", "bob", "eve"]
  pure val SENDERS: List[Addr] = ["own", "mgr", "ali", "bob", "eve", BOX]

  pure def contracts(w: World): List[Addr] =
    toL(w.tok.keys()).concat(toL(w.cv.keys())).concat(toL(w.nt.keys())).concat(toL(w.rg.keys())).concat(["GHOST"])
  pure def anyone(w: World, r: int): Addr =
    pick(PEOPLE.concat(PEOPLE).concat(PEOPLE).concat([BOX, BOX, ZERO, "GHOST"]).concat(contracts(w)), r)
  pure def anyTok(w: World, r: int): Addr = pickS(w.tok.keys(), r, "GHOST")
  pure def anyCv(w: World, r: int): Addr = pickS(w.cv.keys(), r, "GHOST")
  pure def anyNet(w: World, r: int): Addr = if (has(w.nt, "NET") and not(chance(r, 10))) "NET" else pickS(w.nt.keys(), r, "GHOST")
  pure def toksOf(w: World, kind: str): Set[Addr] = w.tok.keys().filter(t => w.tok.get(t).kind == kind)
  /// somebody able to send transactions who holds t
  pure def holder(w: World, t: Addr, r: int): Addr =
    if (not(has(w.tok, t)) or chance(r / 11, 8)) pick(SENDERS, r)
    else pickS(SENDERS.foldl(Set(), (s, a) => if (balOf(w, t, a) > 0) s.union(Set(a)) else s), r, "ali")
  /// the entitled caller, or sometimes anybody else
  pure def caller(right: Addr, r: int): Addr =
    if (chance(r, 75) and (isEOA(right) or right == BOX)) right else pick(SENDERS, r)

  /// an amount with respect to a limit
  pure def amount(limit: int, r: int): int = {
    val x = r / 64
    val k = r % 32
    if (k == 0) 0 else if (k == 1) limit else if (k == 2) limit + 1 else if (k == 3) -1 - x % 100
    else if (k == 4) max2(limit - 1, 0) else if (k == 5) 1 else if (k == 6) 1 + x % 10
    else if (k == 7) x % 10^30 + 1
    else if (k == 8) pick([10^(x % 30), 2^(x % 100), 2^(x % 100) - 1, 10^(x % 30) + 1], x / 128)
    else if (k < 20) min2(1 + x % 10^(1 + x % 19), max2(limit, 1))
    else 1 + x % max2(limit, 1)
  }

  pure def junk(r: int): Data =
    { ...NODATA, k: pick(["junk_json", "junk_utf8", "junk_nokey", "junk_min", "junk_addr", "junk_list", "none", "junk_empty",
                          "junk_long", "junk_result", "junk_number", "junk_null", "junk_true", "junk_string", "junk_case", "junk_line", "junk_part",
                          "junk_space", "junk_object", "junk_utf16"], r) }
  /// something is wrong in a request
  pure def offset(d: Data, r: int): Data =
    if (d.k == "path" and chance(r, 6))
      { ...d, k: pick(["off_float", "off_text", "off_ben", "off_nomin", "off_nopath", "off_null", "off_tail", "off_list", "off_bentype",
                          "off_benempty", "off_benzero", "off_benspace", "off_benupper", "off_benlist", "off_minlist", "off_twice", "off_bom"], r / 1000) }
    else if (d.k == "conv" and chance(r, 15))
      { ...d, k: pick(["offc_nomin", "offc_noto", "offc_text", "offc_null", "offc_tail", "offc_to", "offc_totype", "offc_toempty", "offc_list",
                          "offc_tospace", "offc_toupper", "offc_toplain", "offc_minlist", "offc_bom"], r / 1000) }
    else d

  // ---- conversion paths ----------------------------------------------------------------------------
  pure def tokensOf(w: World, c: Addr): Set[Addr] =
    w.cv.get(c).list.foldl(Set(w.cv.get(c).token), (s, t) => s.union(Set(t)))
  pure def convertersFor(w: World, t: Addr): Set[Addr] =
    w.cv.keys().filter(c => active(w, c) and tokensOf(w, c).contains(t))
  /// flexible tokens that BOX owns, which are not on p yet
  pure def boxTokens(w: World, p: List[Addr]): Set[Addr] =
    toksOf(w, "flex").filter(t => ownerOf(w, t) == BOX and p.indices().forall(i => i % 2 == 0 or p[i] != t))
  pure def grow(w: World, p: List[Addr], r: int, more: bool): List[Addr] =
    if (boxTokens(w, p) != Set() and chance(r / 128, 40)) {
      val ts = w.tok.keys().filter(t => t != p[p.length() - 1] and balOf(w, t, BOX) > 0)
      if (ts == Set()) p else p.append(pickS(boxTokens(w, p), r, "F1")).append(pickS(ts, r / 64, "T1"))
    }
    else growConv(w, p, r, more)
  pure def growConv(w: World, p: List[Addr], r: int, more: bool): List[Addr] = {
    val cur = p[p.length() - 1]
    pure def unused(t: Addr): Set[Addr] =
      convertersFor(w, t).filter(c => p.indices().forall(i => i % 2 == 0 or p[i] != w.cv.get(c).token))
    val cs = unused(cur)
    if (cs == Set()) p
    else {
      val c = pick(toL(cs), r)
      val ds = tokensOf(w, c).exclude(Set(cur))
      // where the path is to go on
      val on = if (more and chance(r / 4096, 90)) ds.filter(t => unused(t).exclude(Set(c)) != Set()) else Set()
      if (ds == Set()) p else p.append(w.cv.get(c).token).append(pick(toL(if (on == Set()) ds else on), r / 64))
    }
  }
  pure def goodPath(w: World, start: Addr, hops: int, r: int): List[Addr] =
    range(0, hops).foldl([start], (p, i) => grow(w, p, r / 2^i + i * 7919, i < hops - 1))
  /// along the row of tokens, in either direction
  pure def rowPath(hops: int, from: int, up: bool): List[Addr] = {
    val f = ["T1", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11"]
    if (up) range(0, hops).foldl([f[from]], (p, i) => p.append(f[from + i + 1]).append(f[from + i + 1]))
    else range(0, hops).foldl([f[from + hops]], (p, i) => p.append(f[from + hops - i]).append(f[from + hops - i - 1]))
  }
  pure def spoil(w: World, p: List[Addr], r: int): List[Addr] = {
    val k = r % 12
    val n = p.length()
    val i = (r / 16) % max2(n, 1)
    if (n == 0) p
    // something empty in between, before or after
    else if (k >= 10) { val at = (r / 16) % (n + 1)
                        val l = p.slice(0, at).append("bad2")
                        (if (chance(r / 512, 40)) l.append(pick(["bad2", "bad11"], r / 64)) else l).concat(p.slice(at, n)) }
    else if (k == 0) p.slice(0, n - 1)
    else if (k == 1) p.append(pick(contracts(w), r / 64))
    else if (k == 2 and n >= 3) p.concat([p[1], p[0]])
    else if (k == 3) [p[0]]
    else if (k == 4) p.replaceAt(i, pick(contracts(w), r / 64))
    else if (k == 5) p.replaceAt(i, anyone(w, r / 64))
    else if (k == 6) p.slice(min2(1, n), n)
    else if (k == 7 and n >= 3) p.concat(p.slice(1, 3))
    else if (k == 8) p.replaceAt(n - 1, anyone(w, r / 64))
    else if (p[i] == "F1" and chance(r / 512, 60)) p.replaceAt(i, pick(["bad5", "bad6", "bad7", "bad8", "bad9", "bad10", "bad12"], r / 64))
    else if (chance(r / 1024, 70)) p.replaceAt(i, pick(toL(NOADDR), r / 64))
    else p.append(pick(toL(NOADDR), r / 64)).append(pick(["T1", "bad1"], r / 256))
  }
  /// end where the path began, if its last converter can
  pure def close(w: World, p: List[Addr]): List[Addr] = {
    val n = p.length()
    if (n < 5) p
    else if (p[n - 3] == p[0] or w.cv.keys().forall(c => w.cv.get(c).token != p[n - 2] or not(tokensOf(w, c).contains(p[0])))) p
    else p.replaceAt(n - 1, p[0])
  }
  /// lead the path through one of its converters again
  pure def revisit(w: World, p: List[Addr], r: int): List[Addr] = {
    val cur = p[p.length() - 1]
    val again = w.cv.keys().filter(c => and {
      active(w, c), tokensOf(w, c).contains(cur), p.indices().exists(i => i % 2 == 1 and p[i] == w.cv.get(c).token) })
    if (again == Set()) p
    else {
      val c = pick(toL(again), r)
      val ds = tokensOf(w, c).exclude(Set(cur))
      if (ds == Set()) p else p.append(w.cv.get(c).token).append(pick(toL(ds), r / 64))
    }
  }
  pure def path(w: World, start: Addr, r: int, s: int): List[Addr] = {
    val p =
      if (has(w.tok, "F11") and has(w.tok, "T2")) {
        val q = goodPath(w, start, pick([1, 3, 5, 7, 9, 10, 10, 10, 11], r), s)
        if (chance(r / 1024, 20)) close(w, q) else q
      } else if (has(w.tok, "F11")) {
        val hops = pick([1, 2, 3, 5, 9, 10, 10, 11], r)
        rowPath(hops, (r / 16) % (12 - hops), start == "T1" or r % 3 == 0)
      } else {
        val q = goodPath(w, start, pick(if (has(w.tok, "F4")) [1, 2, 2, 3, 3, 4, 4] else [1, 1, 1, 2, 2, 3, 4], r), s)
        if (chance(r / 1024, 30)) close(w, q) else q
      }
    if (chance(r / 256, 12)) spoil(w, p, s)
    else if (p.length() > 4 and chance(r / 4096, 15)) revisit(w, p, s / 8)
    else p
  }
  pure def beneficiary(w: World, r: int): Addr =
    if (r % 8 < 4) NONE else if (r % 8 < 7) pick(["ali", "bob", "eve", "mgr", BOX], r / 8) else anyone(w, r / 8)
  pure def minimum(w: World, p: List[Addr], v: int, r: int): int = {
    val q = pathQuote(w, p, v)
    val k = r % 24
    if (k < 6) 1
    else if (k < 10) max2(q.net, 1)
    else if (k < 12) q.net + 1
    else if (k == 12) q.net - 1
    else if (k == 13) 0
    else if (k == 14) -1 - r % 50
    else max2(1, q.net / (k - 13))
  }

  // ---- groups of transactions --------------------------------------------------------------------------
  pure def gXfer(w: World, r: List[int]): Tx = {
    val t = anyTok(w, r[1])
    val from = holder(w, t, r[2])
    val bal = if (has(w.tok, t)) balOf(w, t, from) else 5
    { ...T(from, t, "transfer"), a1: if (chance(r[7], 8)) from else anyone(w, r[3]), n1: amount(bal, r[4]),
      d: if (chance(r[5], 80)) NODATA else if (chance(r[6], 40)) RESULT else junk(r[6]), s: pick(["", "", "extra"], r[8]) }
  }
  pure def gMint(w: World, r: List[int]): Tx = {
    val t = if (chance(r[6], 90)) pickS(toksOf(w, "flex"), r[1], "GHOST") else anyTok(w, r[1])
    val o = if (hasOwner(w, t)) ownerOf(w, t) else "own"
    val k = r[2] % 10
    if (k < 4) { ...T(caller(o, r[3]), t, "issue"), a1: anyone(w, r[4]), n1: amount(10^20, r[5]) }
    else if (k < 8) {
      val h = holder(w, t, r[4])
      { ...T(if (chance(r[3], 60)) h else caller(o, r[3]), t, "destroy"), a1: h,
        n1: if (has(w.tok, t) and chance(r[7], 10)) w.tok.get(t).supply else amount(if (has(w.tok, t)) balOf(w, t, h) else 1, r[5]) }
    }
    else { ...T(caller(o, r[3]), t, "disableTransfer"), b: chance(r[5], 50) }
  }
  pure def gIcx(w: World, r: List[int]): Tx = {
    val t = pickS(toksOf(w, "icx"), r[1], "GHOST")
    val from = holder(w, t, r[2])
    val bal = if (has(w.tok, t)) balOf(w, t, from) else 1
    val k = r[3] % 12
    if (k < 3) { ...T(pick(SENDERS, r[2]), t, "deposit"), n1: amount(at(w.icx, pick(SENDERS, r[2])), r[4]) }
    else if (k < 5) { ...T(pick(SENDERS, r[2]), if (chance(r[6], 70)) t else anyone(w, r[5]), "icx"),
                      n1: amount(at(w.icx, pick(SENDERS, r[2])), r[4]) }
    else if (k < 7) { ...T(from, t, "withdraw"), n1: amount(bal, r[4]) }
    else if (k < 10) { ...T(from, t, "withdrawTo"), n1: amount(bal, r[4]), a1: anyone(w, r[5]) }
    else { ...T(from, t, "transfer"), n1: amount(bal, r[4]), a1: if (k == 10) t else anyone(w, r[5]) }
  }
  pure def gOwn(w: World, r: List[int]): Tx = {
    val named = owned(w).filter(x => isEOA(nomineeOf(w, x)) or nomineeOf(w, x) == BOX)
    val a = if (named != Set() and chance(r[6], 30)) pickS(named, r[1], "GHOST")
            else if (chance(r[5], 97)) pickS(owned(w), r[1], "GHOST") else anyone(w, r[1])
    if (not(hasOwner(w, a))) T(pick(SENDERS, r[2]), a, "acceptOwnerShip")
    else if (chance(r[2], if (named.contains(a)) 65 else 25)) T(caller(nomineeOf(w, a), r[3]), a, "acceptOwnerShip")
    else { ...T(caller(ownerOf(w, a), r[3]), a, "transferOwnerShip"),
           a1: if (chance(r[4], 70)) pick(SENDERS, r[4] / 100) else anyone(w, r[4]) }
  }
  pure def gMgr(w: World, r: List[int]): Tx = {
    val named = w.cv.keys().filter(x => isEOA(w.cv.get(x).nmgr) or w.cv.get(x).nmgr == BOX)
    val c = if (named != Set() and chance(r[6], 30)) pickS(named, r[1], "GHOST") else anyCv(w, r[1])
    if (not(has(w.cv, c))) T("own", c, "acceptManagement")
    else {
      val v = w.cv.get(c)
      if (chance(r[2], if (named.contains(c)) 65 else 25)) T(caller(v.nmgr, r[3]), c, "acceptManagement")
      else { ...T(caller(pick([v.owner, v.mgr], r[4]), r[3]), c, "transferManagement"), a1: anyone(w, r[5]) }
    }
  }
  pure def gReg(w: World, r: List[int]): Tx = {
    val g = pickS(w.rg.keys(), r[1], "GHOST")
    val o = if (has(w.rg, g)) w.rg.get(g).owner else "own"
    val name = if (chance(r[2], 70)) pick(["Network", "ScoreRegistry"], r[2]) else pick(STRANGE, r[2])
    if (chance(r[3], 70))
      { ...T(caller(o, r[4]), g, "registerAddress"), s: name,
        a1: if (chance(r[5], 40)) pick(["NET", "NET2", "R1", "R2"], r[6]) else anyone(w, r[6]) }
    else { ...T(caller(o, r[4]), g, "unregisterAddress"), s: name }
  }
  pure def gCreg(w: World, r: List[int]): Tx = {
    val c = anyCv(w, r[1])
    val o = if (has(w.cv, c)) pick([w.cv.get(c).owner, w.cv.get(c).mgr], r[5]) else "own"
    val k = r[2] % 12
    if (k < 4) T(if (chance(r[3], 50)) o else pick(SENDERS, r[3]), c, "updateRegistry")
    else if (k < 6) T(caller(o, r[3]), c, "restoreRegistry")
    else if (k < 8) { ...T(caller(o, r[3]), c, "disableRegistryUpdate"), b: chance(r[4], 50) }
    else if (has(w.cv, c) and has(w.rg, w.cv.get(c).reg))
      { ...T(caller(w.rg.get(w.cv.get(c).reg).owner, r[3]), w.cv.get(c).reg, "registerAddress"), s: "ScoreRegistry",
        a1: if (chance(r[4], 80)) pick(["R1", "R2"], r[6]) else anyone(w, r[6]) }
    else gReg(w, r)
  }
  pure def gConn(w: World, r: List[int]): Tx = {
    val c = anyCv(w, r[1])
    if (not(has(w.cv, c))) { ...T("own", c, "addConnector"), a1: "T1", n1: 1 }
    else {
      val v = w.cv.get(c)
      val from = caller(v.owner, r[2])
      val conn = if (v.list.length() > 0 and chance(r[4], 85)) pick(v.list, r[5])
                 else if (chance(r[6], 60)) anyTok(w, r[5]) else anyone(w, r[5])
      val old = if (isConn(v, conn)) v.cn.get(conn).w else 0
      val room = PPM - v.total + old
      val weight = pick([room, room + 1, room - 1, PPM, PPM + 1, 0, -1, 1, 1 + r[7] % PPM, 1 + r[7] % max2(room, 1),
                         1 + r[7] % max2(room, 1), old, 1 + r[7] % max2(room, 1)], r[8])
      val k = r[3] % 10
      if (k < 4) { ...T(from, c, "addConnector"), b: chance(r[9], 30), n1: weight,
                   a1: if (chance(r[4], 50)) anyTok(w, r[5]) else if (chance(r[4], 70)) anyone(w, r[5]) else conn }
      else if (k < 8) { ...T(from, c, "updateConnector"), a1: conn, n1: weight, b: chance(r[9], 50),
                        n2: if (isConn(v, conn) and chance(r[10], 40)) max2(connBalance(w, c, conn), 0)
                            else if (chance(r[10] / 1000, 25)) pick([0, 0, 1], r[10]) else mag(r[10]) }
      else { ...T(from, c, "disableConnectorPurchases"), a1: conn, b: chance(r[9], 50) }
    }
  }
  pure def gFee(w: World, r: List[int]): Tx = {
    val c = anyCv(w, r[1])
    val v = if (has(w.cv, c)) w.cv.get(c) else { ...ANYCV, maxFee: 5 }
    { ...T(caller(pick([v.owner, v.mgr], r[2]), r[3]), c, "setConversionFee"),
      n1: pick([0, v.maxFee, v.maxFee + 1, -1, PPM, PPM + 1, v.fee, r[5] % (v.maxFee + 1), r[5] % (v.maxFee + 1), min2(v.maxFee, r[5] % 5000)], r[4]) }
  }
  pure val ANYCV: Conv = { owner: "own", nowner: ZERO, mgr: "own", nmgr: ZERO, token: ZERO, reg: ZERO, preg: ZERO,
                           allow: true, on: true, fee: 0, maxFee: 0, list: [], cn: Map(), total: 0 }
  pure def gSwitch(w: World, r: List[int]): Tx = {
    val c = anyCv(w, r[1])
    val v = if (has(w.cv, c)) w.cv.get(c) else ANYCV
    val k = r[2] % 8
    if (k < 3) { ...T(caller(pick([v.owner, v.mgr], r[3]), r[4]), c, "disableConversions"), b: chance(r[5], 45) }
    else if (k < 6) { ...T(caller(v.owner, r[4]), c, "disableConnectorPurchases"), b: chance(r[5], 50),
                      a1: if (v.list.length() > 0 and chance(r[6], 90)) pick(v.list, r[7]) else anyone(w, r[7]) }
    else { ...T(caller(v.owner, r[4]), c, "disableTokenTransfers"), b: chance(r[5], 40) }
  }
  /// tokens to a converter: deposits and attempts to convert around the network
  pure def gStock(w: World, r: List[int]): Tx = {
    val c = anyCv(w, r[1])
    val v = if (has(w.cv, c)) w.cv.get(c) else ANYCV
    val t = if (v.list.length() > 0 and chance(r[2], 75)) pick(v.list, r[3]) else if (chance(r[2] / 100, 50)) v.token else anyTok(w, r[3])
    val net = if (has(w.rg, v.reg)) w.rg.get(v.reg).net else ZERO
    val from = if ((isEOA(net) or net == BOX) and chance(r[4] / 1000, 80)) net
               else if (chance(r[4], 55) and (isEOA(v.owner) and isEOA(v.mgr))) pick([v.owner, v.mgr], r[5]) else holder(w, t, r[5])
    val others = if (has(w.cv, c)) tokensOf(w, c) else Set("T1")
    val v1 = amount(if (has(w.tok, t)) balOf(w, t, from) else 1, r[6])
    val into = if (chance(r[9] / 1000, 5)) anyone(w, r[9]) else pickS(others.exclude(if (chance(r[9] / 1000, 90)) Set(t) else Set()), r[9], "T1")
    // what the converter would give, or one more or less
    val fair = if (has(w.cv, c) and from == net and chance(r[10] / 100, 50)) quote(w, c, t, into, v1, 0).net + pick([0, 0, 1, -1], r[10])
               else pick([1, 1, 1, 0, 1000], r[10])
    { ...T(from, t, "transfer"), a1: c, n1: v1, s: pick(["", "", "extra"], r[12]),
      d: if (chance(r[7], if (from == net) 5 else 50)) NODATA
         else if (chance(r[8], if (from == net) 93 else 70)) offset(convData(into, fair), r[11])
         else if (chance(r[9], 50)) RESULT else junk(r[8]) }
  }
  /// handing flexible tokens to converters, between converters and back
  pure def gActivate(w: World, r: List[int]): Tx = {
    val c = anyCv(w, r[1])
    val v = if (has(w.cv, c)) w.cv.get(c) else ANYCV
    val f = v.token
    if (not(hasOwner(w, f))) T(v.owner, c, "acceptTokenOwnership")
    else {
      val o = ownerOf(w, f)
      val k = r[2] % 10
      if (nomineeOf(w, f) == c and chance(r[3], 70)) T(caller(v.owner, r[4]), c, "acceptTokenOwnership")
      else if (k < 2) T(caller(v.owner, r[4]), c, "acceptTokenOwnership")
      else if (o == c) { ...T(caller(v.owner, r[4]), c, "transferTokenOwnership"),
                         a1: if (chance(r[5], 70)) pick(["C1", "C2", "C3", "own", "ali"], r[6]) else anyone(w, r[6]) }
      else if (isEOA(o) or o == BOX) { ...T(caller(o, r[4]), f, "transferOwnerShip"),
                           a1: if (chance(r[5], 80)) c else anyone(w, r[6]) }
      else if (nomineeOf(w, f) != ZERO and (isEOA(nomineeOf(w, f)) or nomineeOf(w, f) == BOX)) T(nomineeOf(w, f), f, "acceptOwnerShip")
      else if (has(w.cv, o)) { ...T(caller(w.cv.get(o).owner, r[4]), o, "transferTokenOwnership"), a1: c }
      else { ...T(caller(v.owner, r[4]), c, "transferTokenOwnership"), a1: c }
    }
  }
  pure def gWithdraw(w: World, r: List[int]): Tx = {
    val h = if (chance(r[1], 60)) anyCv(w, r[2]) else pick(contracts(w), r[2])
    // somebody may have sent tokens there before: prefer what is held
    val held = w.tok.keys().filter(t => balOf(w, t, h) > 0)
    val free = if (has(w.cv, h)) held.filter(t => not(isConn(w.cv.get(h), t))) else held
    val ts = if (free != Set() and chance(r[3] / 100, 50)) free else held
    val t = if (ts != Set() and chance(r[3], 80)) pickS(ts, r[4], "T1") else anyTok(w, r[4])
    val from = if (hasOwner(w, h)) caller(ownerOf(w, h), r[5]) else pick(SENDERS, r[5])
    val dst = if (chance(r[7], 70)) pick(SENDERS, r[6]) else if (chance(r[7] / 100, 30)) h else anyone(w, r[6])
    if (has(w.cv, h) and chance(r[8], 25)) {
      val f = w.cv.get(h).token
      val fs = w.tok.keys().filter(x => balOf(w, x, f) > 0)
      val ft = if (fs != Set() and chance(r[3], 80)) pickS(fs, r[4], "T1") else anyTok(w, r[4])
      { ...T(from, h, "withdrawFromToken"), a1: ft, a2: dst, n1: amount(if (has(w.tok, ft)) balOf(w, ft, f) else 1, r[9]) }
    }
    else { ...T(from, h, "withdrawTokens"), a1: t, a2: dst, n1: amount(if (has(w.tok, t)) balOf(w, t, h) else 1, r[9]) }
  }
  /// put tokens where they can only be recovered by a withdrawal (mints, since transfers are refused)
  pure def gStrand(w: World, r: List[int]): Tx = {
    val t = pickS(toksOf(w, "flex"), r[1], "GHOST")
    val o = if (hasOwner(w, t)) ownerOf(w, t) else "own"
    if (chance(r[2], 50))
      { ...T(caller(o, r[3]), t, "issue"), a1: pick(contracts(w), r[4]), n1: amount(10^15, r[5]) }
    else { ...T(holder(w, t, r[3]), t, "transfer"), a1: anyNet(w, r[4]), n1: 1 + r[5] % 1000, d: RESULT }
  }
  /// conversions of tokens through the network
  pure def gConv(w: World, r: List[int]): Tx = {
    val able = w.tok.keys().filter(t => convertersFor(w, t) != Set())
    // all of a token in one hand is worth more attention
    val whole = able.filter(t => SENDERS.foldl(false, (b, a) => b or balOf(w, t, a) == w.tok.get(t).supply))
    val starts = if (whole != Set() and chance(r[1] / 64, 30)) whole else able
    val p = path(w, pickS(starts, r[1], "T1"), r[2], r[3])
    val t = if (p.length() > 0) p[0] else "T1"
    val from = holder(w, t, r[4])
    val bal = if (has(w.tok, t)) balOf(w, t, from) else 1
    val v = if (chance(r[5] / 1000, if (has(w.tok, t) and w.tok.get(t).supply == bal) 40 else 3)) bal else if (chance(r[5], 50)) amount(bal, r[6]) else 1 + (r[6] / 64) % max2(bal / 10^((r[6] / 8) % 7), 1)
    { ...T(from, t, "transfer"), a1: anyNet(w, r[7]), n1: v,
      d: offset({ k: "path", to: NONE, min: minimum(w, p, v, r[8]), path: p, ben: beneficiary(w, r[9]) }, r[11]),
      s: pick(["", "", "", "", "spaces", "extra", "tabs"], r[10]) }
  }
  /// conversions of ICX through the network
  pure def gConvIcx(w: World, r: List[int]): Tx = {
    val n = anyNet(w, r[7])
    val icxts = if (has(w.nt, n)) w.nt.get(n).icxt else Set()
    val start = if (icxts != Set() and chance(r[1], 85)) pickS(icxts, r[1] / 100, "ICXT") else anyTok(w, r[1])
    val p = path(w, start, r[2], r[3])
    val from = pick(SENDERS, r[4])
    val v = if (chance(r[5], 40)) amount(at(w.icx, from), r[6]) else 1 + (r[6] / 64) % max2(at(w.icx, from) / 10^((r[6] / 8) % 9), 1)
    val x = { ...T(from, n, "convert"), n1: v, d: { ...NODATA, k: "path", path: p, min: minimum(w, p, v, r[8]) },
              s: pick(["", "", "", "", "spaces", "tabs"], r[10]) }
    if (chance(r[9], 45)) x else { ...x, m: "convertFor", a1: if (beneficiary(w, r[11]) == NONE) pick(PEOPLE, r[9]) else beneficiary(w, r[11]) }
  }
  /// registrations of ICX tokens and conversions that end in one
  pure def gIcxReg(w: World, r: List[int]): Tx = {
    val n = anyNet(w, r[1])
    val o = if (has(w.nt, n)) w.nt.get(n).owner else "own"
    val t = if (chance(r[4], 60)) pickS(toksOf(w, "icx"), r[5], "ICXT")
            else if (has(w.nt, n) and chance(r[4] / 100, 40)) pickS(w.nt.get(n).icxt, r[5], "ICXT") else anyone(w, r[5])
    { ...T(if (t == BOX and chance(r[6], 60)) BOX else caller(o, r[2]), n, "registerIcxToken"), b: chance(r[3], 60), a1: t }
  }
  pure def gDeploy(w: World, r: List[int]): Tx = {
    val k = r[1] % 10
    val who = pick(PEOPLE, r[2])
    val dec = pick([0, 1, 2, 8, 18, -1, 30], r[4])
    val initial = pick([0, 1, 1 + r[5] % 10^9, -1, r[5] % 10^18], r[6])
    if (k < 2) { ...T(who, pick(["T3", "T4", "T5"], r[3]), "deploy_irc"), n1: initial, n2: dec, s: pick(TITLES, r[7]) }
    else if (k < 4) { ...T(who, pick(["F13", "F14"], r[3]), "deploy_flex"), n1: initial, n2: dec, s: pick(TITLES, r[7]) }
    else if (k < 5) T(who, pick(["ICXT2", "ICXT3"], r[3]), "deploy_icx")
    else if (k < 6) T(who, "R3", "deploy_reg")
    else if (k < 7) T(who, "NET3", "deploy_net")
    else { ...T(who, pick(["C13", "C14", "C15"], r[3]), "deploy_conv"),
           a1: if (chance(r[4], 80)) pickS(toksOf(w, "flex"), r[5], ZERO) else pick(contracts(w).concat([ZERO]), r[5]),
           a2: if (chance(r[6], 85)) pickS(w.rg.keys(), r[7], ZERO) else pick([ZERO, "ali", "T1", "R1"], r[7]),
           n1: pick([0, PPM, PPM + 1, -1, r[8] % (PPM + 1), r[8] % (PPM + 1)], r[9]),
           a3: pick([NONE, "T1", anyTok(w, r[10]), anyone(w, r[10]), ZERO], r[11]),
           n2: pick([PPM, PPM + 1, 0, 1, 1 + r[8] % PPM, 1 + r[8] % PPM], r[2]) }
  }
  /// the handlers called directly
  pure def gHandler(w: World, r: List[int]): Tx = {
    val p = path(w, pickS(w.tok.keys(), r[1], "T1"), r[2], r[3])
    val x = pick(SENDERS, r[4])
    { ...T(x, if (chance(r[5], 50)) anyCv(w, r[6]) else anyNet(w, r[6]), "tokenFallback"),
      a1: pick(["own", "mgr", "ali", "NET", "NET2", x], r[7]), n1: amount(1000, r[8]),
      d: pick([NODATA, RESULT, convData(anyTok(w, r[9]), 1), junk(r[9]),
               { k: "path", to: NONE, min: 1, path: p, ben: NONE },
               { k: "path", to: NONE, min: 1, path: if (p.length() > 0) p.replaceAt(0, x) else p, ben: NONE }], r[10]) }
  }
  /// something that makes the system call BOX
  pure def gBox(w: World, r: List[int]): Tx = {
    val k = r[0] / 128 % 8
    if (k < 2) { val x = gConv(w, r)
                 { ...x, d: { ...x.d, ben: BOX, min: 1 } } }
    else if (k < 4) { val x = gConvIcx(w, r)
                      { ...x, m: "convertFor", a1: BOX, d: { ...x.d, min: 1 } } }
    else if (k == 4) {
      val t = pickS(toksOf(w, "icx"), r[1], "GHOST")
      val from = holder(w, t, r[2])
      { ...T(from, t, "withdrawTo"), n1: amount(if (has(w.tok, t)) balOf(w, t, from) else 1, r[4]), a1: BOX }
    }
    else if (k == 5) { ...gWithdraw(w, r), a2: BOX }
    else { ...gXfer(w, r), a1: BOX }
  }
  /// any administrative operation by anybody
  pure def gPowers(w: World, r: List[int]): Tx = {
    val k = r[0] / 128 % 12
    if (k == 0) gMint(w, r) else if (k == 1) gOwn(w, r) else if (k == 2) gMgr(w, r) else if (k == 3) gReg(w, r)
      else if (k == 4) gCreg(w, r) else if (k == 5) gConn(w, r) else if (k == 6) gFee(w, r) else if (k == 7) gSwitch(w, r)
      else if (k == 8) gActivate(w, r) else if (k == 9) gWithdraw(w, r) else if (k == 10) gIcxReg(w, r) else gSwitch(w, r)
  }
  /// those who have, had been promised or might be thought to have a say in what a does
  pure def insiders(w: World, a: Addr): Set[Addr] = {
    val near = Set(a).union(if (has(w.cv, a)) Set(w.cv.get(a).token, w.cv.get(a).reg, w.cv.get(a).preg) else Set())
                     .union(if (hasOwner(w, a)) Set(ownerOf(w, a), nomineeOf(w, a)) else Set())
                     .union(if (has(w.rg, a)) Set(w.rg.get(a).net, w.rg.get(a).self) else Set())
    val people = near.fold(near, (s, b) => s.union(if (hasOwner(w, b)) Set(ownerOf(w, b), nomineeOf(w, b)) else Set())
                                            .union(if (has(w.cv, b)) Set(w.cv.get(b).mgr, w.cv.get(b).nmgr) else Set()))
    people.filter(b => isEOA(b) or b == BOX)
  }
  pure def intruder(w: World, x: Tx, r: int): Addr =
    if (chance(r, 65)) pickS(insiders(w, x.to).exclude(Set(x.from)), r / 1024, "eve") else pick(SENDERS, r / 1024)
  pure def gAdmin(w: World, r: List[int]): Tx =
    // a contract in the place of the network or the registry has no say in anything
    if (w.rg.keys().exists(g => w.rg.get(g).net == BOX or w.rg.get(g).self == BOX) and chance(r[12] / 128, 40)) { ...gPowers(w, r), from: BOX }
    else if (chance(r[12], 50)) {
      // what somebody may do, asked by somebody who may not
      val xs = range(0, 4).foldl([], (l, k) =>
        l.append(gPowers(w, range(0, r.length()).foldl([], (m, j) => m.append(r[(j + k) % r.length()] / 3^k)))))
      val able = xs.select(z => call(w, z).ok)
      val x = if (able != []) able[0] else xs[0]
      { ...x, from: intruder(w, x, r[13]) }
    }
    else gPowers(w, r)

  /// calls of accounts mean nothing; a node does not look at the balance when ICX go to their sender
  pure def gen(w: World, group: str, r: List[int]): Tx = {
    val x = genOf(w, group, r)
    val y = if (isEOA(x.to) and x.m != "icx") { ...T(x.from, x.to, "icx"), n1: r[0] % 1000 } else x
    if (y.m == "icx" and y.to == y.from) { ...y, to: if (y.from == "ali") "bob" else "ali" }
    else if (OWNERS.union(OWNERS_MANAGERS).contains(y.m) and chance(r[0] / 32768 / 65536, 8)) { ...y, from: intruder(w, y, r[1] / 65536) }
    // sometimes somebody names himself
    else if (y.a1 != NONE and not(Set("deploy_conv", "withdrawTokens", "withdrawFromToken").contains(y.m)) and chance(r[0] / 65536 / 128, 3)) { ...y, a1: y.from }
    // sometimes ICX are sent along with what does not take them
    else if (not(PAYABLE.contains(y.m)) and deployed(w, y.to) and y.to != BOX and chance(r[0] / 65536, 2)) { ...y, pay: 1 + r[1] % 1000 }
    else y
  }

  // ---- there and back (C27) --------------------------------------------------------------------------
  /// can the conversion x, which delivered v, be undone?
  pure def mayReturn(w: World, x: Tx, v: int): bool = and {
    isConversion(w, x), v > 0, isEOA(benOf(x)) or benOf(x) == BOX,
    has(w.nt, netOf(x)) and not(w.nt.get(netOf(x)).icxt.contains(x.d.path[x.d.path.length() - 1])),
  }
  pure def reversed(p: List[Addr]): List[Addr] = p.foldl([], (l, a) => [a].concat(l))
  /// everything that x has delivered, converted back along the same path
  pure def returning(x: Tx, v: int): Tx = {
    val p = reversed(x.d.path)
    { ...T(benOf(x), p[0], "transfer"), a1: netOf(x), n1: v, d: { k: "path", to: NONE, min: 1, path: p, ben: NONE } }
  }
  /// y undoes x exactly
  pure def isReturn(x: Tx, v: int, y: Tx): bool = and {
    y.m == "transfer", y.n1 == v, y.d.path.length() > 0, y.d.path == reversed(x.d.path) }
  pure def genOf(w: World, group: str, r: List[int]): Tx =
    if (group == "xfer") gXfer(w, r)
    else if (group == "mint") gMint(w, r)
    else if (group == "icx") gIcx(w, r)
    else if (group == "own") gOwn(w, r)
    else if (group == "mgr") gMgr(w, r)
    else if (group == "reg") gReg(w, r)
    else if (group == "creg") gCreg(w, r)
    else if (group == "conn") gConn(w, r)
    else if (group == "fee") gFee(w, r)
    else if (group == "switch") gSwitch(w, r)
    else if (group == "stock") gStock(w, r)
    else if (group == "activate") gActivate(w, r)
    else if (group == "withdraw") gWithdraw(w, r)
    else if (group == "strand") gStrand(w, r)
    else if (group == "conv") gConv(w, r)
    else if (group == "convicx") gConvIcx(w, r)
    else if (group == "icxreg") gIcxReg(w, r)
    else if (group == "deploy") gDeploy(w, r)
    else if (group == "box") gBox(w, r)
    else if (group == "handler") gHandler(w, r)
    else gAdmin(w, r)

  /// may BOX call back during x? not while a converter takes it for the network
  pure def mayReenter(w: World, x: Tx): bool =
    w.cv.keys().forall(c => has(w.rg, w.cv.get(c).reg) implies w.rg.get(w.cv.get(c).reg).net != BOX)

  /// where BOX stands in the place of a converter on the path of x, it may give what is asked for
  pure def boxHops(w: World, p: List[Addr]): Set[int] =
    p.indices().filter(i => and { i % 2 == 1, i + 1 < p.length(), hasOwner(w, p[i]), ownerOf(w, p[i]) == BOX })
  pure def gift(w: World, x: Tx, r: List[int]): Tx = {
    val s = boxHops(w, x.d.path)
    val k = s.fold(0, (m, i) => if (m == 0 or (i < m) == (r[1] % 5 != 0)) i else m)
    val t = if (chance(r[2], 90)) x.d.path[k + 1] else anyTok(w, r[3])
    val bal = if (has(w.tok, t)) balOf(w, t, BOX) else 0
    // enough, exactly enough or too little for what remains of the path
    val v = if (k + 2 == x.d.path.length() and chance(r[4], 60)) pick([x.d.min, x.d.min, x.d.min - 1, x.d.min + 1, x.n1], r[5])
            else amount(bal, r[5])
    { ...T(BOX, t, "transfer"), a1: if (chance(r[6], 92)) netOf(x) else anyone(w, r[6]), n1: v,
      d: if (chance(r[7], 92)) RESULT else if (chance(r[8], 50)) NODATA else junk(r[8]) }
  }
}
