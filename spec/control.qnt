// -*- mode: Bluespec; -*-
/**
 * Control: who may change what of a converter, its token and a registry, for numbers of any size and
 * states of any past. The operators are those of the specification that the contracts are compared
 * with. Apalache shows `lawful` for one operation from any well-formed state, and that the state
 * remains well-formed: it holds for histories of any length.
 */
module control {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import registry.* from "./registry"
  import converter.* from "./converter"

  pure val WHO: Set[Addr] = Set("own", "ali", "BOX")
  pure val NAMED: Set[Addr] = Set("own", "ali", "BOX", "C1", "R1", "T1", ZERO)
  /// connectors, in the order of their addition
  pure val LISTS: Set[List[Addr]] = Set([], ["T1"], ["T1", "T2"], ["T2", "ICXT"], ["T1", "ICXT", "T2"])

  var w: World
  var was: World
  var by: Addr

  pure def wellFormedConv(v: Conv): bool = and {
    v.list.indices().forall(i => v.cn.keys().contains(v.list[i])),
    v.cn.keys().forall(t => v.list.indices().exists(i => v.list[i] == t)),
    v.list.indices().forall(i => v.list.indices().forall(j => i == j or v.list[i] != v.list[j])),
    v.cn.keys().forall(t => and { t != "C1", t != v.token, t != ZERO, 0 < v.cn.get(t).w, v.cn.get(t).w <= PPM }),
    v.total == v.list.foldl(0, (n, t) => n + v.cn.get(t).w),
    v.total <= PPM,
    0 <= v.fee, v.fee <= v.maxFee, v.maxFee <= PPM,
  }
  pure def wellFormedWorld(s: World): bool = wellFormedConv(s.cv.get("C1"))

  action someState: bool = {
    nondet o = NAMED.oneOf()
    nondet n = NAMED.oneOf()
    nondet m = NAMED.oneOf()
    nondet nm = NAMED.oneOf()
    nondet fo = NAMED.oneOf()
    nondet fn = NAMED.oneOf()
    nondet rg = Set("R1", "R2").oneOf()
    nondet pr = NAMED.oneOf()
    nondet self = NAMED.oneOf()
    nondet ro = NAMED.oneOf()
    nondet rn = NAMED.oneOf()
    nondet allow = Set(true, false).oneOf()
    nondet on = Set(true, false).oneOf()
    nondet fee = Int.oneOf()
    nondet most = Int.oneOf()
    nondet l = LISTS.oneOf()
    nondet w1 = Int.oneOf()
    nondet w2 = Int.oneOf()
    nondet w3 = Int.oneOf()
    nondet virt = Set(true, false).oneOf()
    nondet buy = Set(true, false).oneOf()
    nondet vb = Int.oneOf()
    val all3: Addr -> Conn = Map("T1" -> { w: w1, virt: virt, vbal: vb, buy: buy }, "T2" -> { w: w2, virt: not(virt), vbal: vb, buy: true },
                                 "ICXT" -> { w: w3, virt: false, vbal: 0, buy: buy })
    val c: Conv = { owner: o, nowner: n, mgr: m, nmgr: nm, token: "F1", reg: rg, preg: pr, allow: allow, on: on, fee: fee, maxFee: most,
                    list: l, cn: l.foldl(Map(), (q, t) => q.put(t, all3.get(t))), total: l.foldl(0, (k, t) => k + all3.get(t).w) }
    val s: World = {
      tok: Map("F1" -> { kind: "flex", owner: fo, nowner: fn, bal: Map(), supply: 0, open: true, name: "", decimals: 0 }),
      cv: Map("C1" -> c), rg: Map("R1" -> { owner: ro, nowner: rn, net: ZERO, self: self }), nt: Map(), icx: Map(), box: "accept" }
    all { wellFormedWorld(s), w' = s, was' = s, by' = "own" }
  }
  pure def after(s: World, r: Res): World = if (r.ok) r.w else s

  action ownership: bool = {
    nondet from = WHO.oneOf()
    nondet a = NAMED.oneOf()
    nondet x = Set("C1", "R1", "F1").oneOf()
    any {
      all { w' = after(w, nominate(w, x, from, a)), was' = w, by' = from },
      all { w' = after(w, accept(w, x, from)), was' = w, by' = from },
      all { w' = after(w, transferTokenOwnership(w, "C1", from, a)), was' = w, by' = from },
      all { w' = after(w, acceptTokenOwnership(w, "C1", from)), was' = w, by' = from },
    }
  }
  action management: bool = {
    nondet from = WHO.oneOf()
    nondet a = NAMED.oneOf()
    nondet n = Int.oneOf()
    nondet d = Set(true, false).oneOf()
    any {
      all { w' = after(w, nominateManager(w, "C1", from, a)), was' = w, by' = from },
      all { w' = after(w, acceptManager(w, "C1", from)), was' = w, by' = from },
      all { w' = after(w, setFee(w, "C1", from, n)), was' = w, by' = from },
      all { w' = after(w, disableConversions(w, "C1", from, d)), was' = w, by' = from },
    }
  }
  action registries: bool = {
    nondet from = WHO.oneOf()
    nondet a = NAMED.oneOf()
    nondet d = Set(true, false).oneOf()
    nondet name = Set("ScoreRegistry", "Network", "Junk").oneOf()
    any {
      all { w' = after(w, updateRegistry(w, "C1", from)), was' = w, by' = from },
      all { w' = after(w, restoreRegistry(w, "C1", from)), was' = w, by' = from },
      all { w' = after(w, disableRegistryUpdate(w, "C1", from, d)), was' = w, by' = from },
      all { w' = after(w, registerAddress(w, "R1", from, name, a)), was' = w, by' = from },
      all { w' = after(w, unregisterAddress(w, "R1", from, name)), was' = w, by' = from },
    }
  }
  action connectors: bool = {
    nondet from = WHO.oneOf()
    nondet t = Set("T1", "T2", "ICXT", "F1", "C1", ZERO).oneOf()
    nondet n = Int.oneOf()
    nondet v = Int.oneOf()
    nondet d = Set(true, false).oneOf()
    any {
      all { w' = after(w, addConnector(w, "C1", from, t, n, d)), was' = w, by' = from },
      all { w' = after(w, updateConnector(w, "C1", from, t, n, d, v)), was' = w, by' = from },
      all { w' = after(w, disablePurchases(w, "C1", from, t, d)), was' = w, by' = from },
    }
  }

  // ---- what may happen ---------------------------------------------------------------------------
  /// the owner changes to the nominee, by the nominee; the nomination is consumed. A converter speaks
  /// for its owner where its token is concerned.
  def handedOver(x: Addr): bool = {
    val o = ownerOf(was, x) val n = ownerOf(w, x)
    val said = Set(by).union(if (x == "F1" and by == was.cv.get("C1").owner) Set("C1") else Set())
    and { n != o implies and { n == nomineeOf(was, x), said.contains(n), nomineeOf(w, x) == ZERO },
          (nomineeOf(w, x) != nomineeOf(was, x) and n == o and nomineeOf(w, x) != ZERO) implies and { said.contains(o), nomineeOf(w, x) != o } }
  }
  val ownersLawful: bool = and { handedOver("C1"), handedOver("R1"), handedOver("F1") }
  def chief: bool = or { by == was.cv.get("C1").owner, by == was.cv.get("C1").mgr }
  val managersLawful: bool = {
    val a = was.cv.get("C1") val b = w.cv.get("C1")
    and { b.mgr != a.mgr implies and { b.mgr == a.nmgr, by == b.mgr, b.nmgr == ZERO },
          (b.nmgr != a.nmgr and b.mgr == a.mgr and b.nmgr != ZERO) implies and { chief, b.nmgr != a.mgr },
          b.fee != a.fee implies chief, b.on != a.on implies chief, b.maxFee == a.maxFee }
  }
  val registriesLawful: bool = {
    val a = was.cv.get("C1") val b = w.cv.get("C1")
    and { b.reg != a.reg implies or {
            and { or { a.allow, by == a.owner }, has(was.rg, a.reg), b.reg == was.rg.get(a.reg).self, b.reg != ZERO, b.preg == a.reg, b.allow == a.allow },
            and { chief, b.reg == a.preg, not(b.allow), b.preg == a.preg } },
          b.allow != a.allow implies chief,
          w.rg.get("R1").self != was.rg.get("R1").self implies by == was.rg.get("R1").owner,
          w.rg.get("R1").net != was.rg.get("R1").net implies by == was.rg.get("R1").owner }
  }
  val connectorsLawful: bool = {
    val a = was.cv.get("C1") val b = w.cv.get("C1")
    and { wellFormedConv(b),
          b.list != a.list implies and { by == a.owner, was.tok.get("F1").owner != "C1" },
          b.list.length() >= a.list.length(), a.list.indices().forall(i => b.list[i] == a.list[i]),
          b.cn != a.cn implies by == a.owner,
          a.cn.keys().filter(t => a.cn.get(t) != b.cn.get(t)).size() <= 1 }
  }
  val inv: bool = and { wellFormedWorld(w), ownersLawful, managersLawful, registriesLawful, connectorsLawful }
}
