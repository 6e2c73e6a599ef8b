// -*- mode: Bluespec; -*-
/**
 * The state of the exchange, the shape of transactions and results, and small helpers.
 *
 * Addresses are names. A name is an ordinary account (EOA) if it is listed in EOAS, every other
 * name is a contract address: deployed contracts are the keys of the maps of `World`, ZERO is the
 * zero address, GHOST is a contract address without code, and BOX is a recipient contract that
 * accepts, refuses or re-enters as told.
 */
module base {
  type Addr = str

  pure val EOAS: Set[Addr] = Set("own", "mgr", "ali", "bob", "eve")
  pure val ZERO: Addr = "ZERO"
  pure val BOX: Addr = "BOX"
  /// texts that are no addresses, for use in paths
  pure val NOADDR: Set[Addr] = Set("bad1", "bad2", "bad3", "bad4", "bad5", "bad6", "bad7", "bad8", "bad9", "bad10", "bad11", "bad12")
  /// an absent address (null)
  pure val NONE: Addr = ""

  /// kind: "irc" | "flex" | "icx". A plain token (irc) has no owner.
  type Tok = {
    kind: str, owner: Addr, nowner: Addr,
    bal: Addr -> int, supply: int,
    open: bool,                    // flexible tokens: transfers enabled
    name: str, decimals: int,
  }
  type Conn = { w: int, virt: bool, vbal: int, buy: bool }
  type Conv = {
    owner: Addr, nowner: Addr, mgr: Addr, nmgr: Addr,
    token: Addr,                   // the flexible token it is made for
    reg: Addr, preg: Addr, allow: bool,
    on: bool, fee: int, maxFee: int,
    list: List[Addr], cn: Addr -> Conn, total: int,
  }
  type Reg = { owner: Addr, nowner: Addr, net: Addr, self: Addr }
  type Net = { owner: Addr, nowner: Addr, icxt: Set[Addr] }
  type World = {
    tok: Addr -> Tok, cv: Addr -> Conv, rg: Addr -> Reg, nt: Addr -> Net,
    icx: Addr -> int,
    box: str,                      // what BOX does when it is called: "accept" | "refuse" | "reenter" (once) | "repent" (once, and then refuse)
  }

  /// what is attached to a token transfer
  ///   k: "none"    nothing
  ///      "result"  the marker of a conversion result
  ///      "conv"    a request to a converter (to, min)
  ///      "path"    a request to the network (path, min, ben; ben NONE = not given)
  ///      "junk..." something that is no request at all
  ///      "off..."  a request with something wrong in it ("offc...": one to a converter)
  type Data = { k: str, to: Addr, min: int, path: List[Addr], ben: Addr }
  pure val NODATA: Data = { k: "none", to: NONE, min: 0, path: [], ben: NONE }
  pure val RESULT: Data = { ...NODATA, k: "result" }

  /// a transaction: `from` calls method `m` of `to`; the other fields are its arguments
  type Tx = {
    from: Addr, to: Addr, m: str,
    a1: Addr, a2: Addr, a3: Addr, n1: int, n2: int, b: bool, s: str, d: Data,
    pay: int,                      // ICX sent along with a method that is not made for it
  }
  pure val NOTX: Tx = { from: NONE, to: NONE, m: "", a1: NONE, a2: NONE, a3: NONE, n1: 0, n2: 0,
                        b: false, s: "", d: NODATA, pay: 0 }

  /// an event log entry: contract, name, addresses, numbers, tag
  type Ev = { c: Addr, e: str, a: List[Addr], n: List[int], s: str }

  /// one application of the price formula
  type Hop = { c: Addr, k: str, x: List[int], gross: int, net: int }

  type Res = { ok: bool, w: World, ev: List[Ev], ret: int, why: str, hops: List[Hop], box: int }

  pure val NOWORLD: World = { tok: Map(), cv: Map(), rg: Map(), nt: Map(), icx: Map(), box: "accept" }
  pure def good(w: World): Res =
    { ok: true, w: w, ev: [], ret: 0, why: "", hops: [], box: 0 }
  pure def bad(why: str): Res =
    { ok: false, w: NOWORLD, ev: [], ret: 0, why: why, hops: [], box: 0 }
  pure def emit(r: Res, e: Ev): Res = if (r.ok) { ...r, ev: r.ev.append(e) } else r
  /// r, which went well, was followed by q; a failure anywhere fails the whole
  /// (first-order on purpose: the evaluator of Quint does not allow nested calls of one operator
  /// that takes operators)
  pure def join(r: Res, q: Res): Res =
    if (not(q.ok)) { ...q, hops: r.hops.concat(q.hops) }
    else { ...q, ev: r.ev.concat(q.ev), hops: r.hops.concat(q.hops), box: r.box + q.box }
  pure def need(c: bool, why: str, r: Res): Res = if (c) r else bad(why)

  pure def ev0(c: Addr, e: str, a: List[Addr], n: List[int]): Ev = { c: c, e: e, a: a, n: n, s: "" }

  pure def has(m: Addr -> a, k: Addr): bool = m.keys().contains(k)
  pure def isEOA(a: Addr): bool = EOAS.contains(a)
  pure def isContract(a: Addr): bool = and { a != NONE, not(isEOA(a)) }
  pure def validAddr(a: Addr): bool = and { a != NONE, a != ZERO }
  pure def at(m: Addr -> int, k: Addr): int = if (m.keys().contains(k)) m.get(k) else 0
  pure def deployed(w: World, a: Addr): bool = or { has(w.tok, a), has(w.cv, a), has(w.rg, a), has(w.nt, a), a == BOX }
  pure def bump(m: Addr -> int, k: Addr, v: int): Addr -> int = m.put(k, at(m, k) + v)
  pure def sumOf(m: Addr -> int): int = m.keys().fold(0, (s, k) => s + m.get(k))
  pure def max2(x: int, y: int): int = if (x > y) x else y
  pure def min2(x: int, y: int): int = if (x < y) x else y

  // ---- contracts that have an owner --------------------------------------------------------
  pure def hasOwner(w: World, a: Addr): bool =
    or { has(w.cv, a), has(w.rg, a), has(w.nt, a), and { has(w.tok, a), w.tok.get(a).kind != "irc" } }
  pure def ownerOf(w: World, a: Addr): Addr =
    if (has(w.cv, a)) w.cv.get(a).owner
    else if (has(w.rg, a)) w.rg.get(a).owner
    else if (has(w.nt, a)) w.nt.get(a).owner
    else w.tok.get(a).owner
  pure def nomineeOf(w: World, a: Addr): Addr =
    if (has(w.cv, a)) w.cv.get(a).nowner
    else if (has(w.rg, a)) w.rg.get(a).nowner
    else if (has(w.nt, a)) w.nt.get(a).nowner
    else w.tok.get(a).nowner
  pure def withOwner(w: World, a: Addr, o: Addr, n: Addr): World =
    if (has(w.cv, a)) { ...w, cv: w.cv.put(a, { ...w.cv.get(a), owner: o, nowner: n }) }
    else if (has(w.rg, a)) { ...w, rg: w.rg.put(a, { ...w.rg.get(a), owner: o, nowner: n }) }
    else if (has(w.nt, a)) { ...w, nt: w.nt.put(a, { ...w.nt.get(a), owner: o, nowner: n }) }
    else { ...w, tok: w.tok.put(a, { ...w.tok.get(a), owner: o, nowner: n }) }
  pure def owned(w: World): Set[Addr] =
    w.cv.keys().union(w.rg.keys()).union(w.nt.keys())
      .union(w.tok.keys().filter(t => w.tok.get(t).kind != "irc"))

  pure def nominate(w: World, a: Addr, sender: Addr, new: Addr): Res =
    if (not(hasOwner(w, a))) bad("nomethod")
    else if (sender != ownerOf(w, a)) bad("notowner")
    else if (new == ownerOf(w, a)) bad("isowner")
    else good(withOwner(w, a, ownerOf(w, a), new))
  pure def accept(w: World, a: Addr, sender: Addr): Res =
    if (not(hasOwner(w, a))) bad("nomethod")
    else if (sender != nomineeOf(w, a)) bad("notnominee")
    else emit(good(withOwner(w, a, sender, ZERO)), ev0(a, "OwnerUpdate", [ownerOf(w, a), sender], []))
}
