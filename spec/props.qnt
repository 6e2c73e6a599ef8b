// -*- mode: Bluespec; -*-
/**
 * The properties of properties.jsonl, said independently of the transition functions: predicates
 * over a state, and over a step (state before, transaction, outcome). `stateAudit` and `audit`
 * give the ids of the properties a state or a step breaks; the simulator checks that there are none.
 */
module props {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import registry.* from "./registry"
  import converter.* from "./converter"
  import network.* from "./network"

  pure def flag(id: str, fine: bool): Set[str] = if (fine) Set() else Set(id)

  // ---- states ------------------------------------------------------------------------------------
  pure def ledgerFine(k: Tok): bool =
    sumOf(k.bal) == k.supply and k.bal.keys().forall(a => k.bal.get(a) >= 0)
  pure def connectorsFine(v: Conv, c: Addr): bool = and {
    v.list.foldl(Set(), (s, t) => s.union(Set(t))) == v.cn.keys(),
    v.list.length() == v.cn.keys().size(),
    v.cn.keys().forall(t => and { validAddr(t), t != c, t != v.token, v.cn.get(t).w > 0, v.cn.get(t).w <= PPM }),
    v.total == v.cn.keys().fold(0, (s, t) => s + v.cn.get(t).w),
    v.total <= PPM,
  }
  pure def stateAudit(w: World): Set[str] =
    flag("C01", w.tok.keys().forall(t => ledgerFine(w.tok.get(t))))
      .union(flag("C05", w.tok.keys().forall(t => w.tok.get(t).kind == "icx" implies at(w.icx, t) == w.tok.get(t).supply)))
      .union(flag("C06", owned(w).forall(a => nomineeOf(w, a) != ownerOf(w, a) and validAddr(ownerOf(w, a)))))
      .union(flag("C07", w.cv.keys().forall(c => w.cv.get(c).mgr != w.cv.get(c).nmgr and validAddr(w.cv.get(c).mgr))))
      .union(flag("C09", w.rg.keys().forall(g => isContract(w.rg.get(g).net) and isContract(w.rg.get(g).self))))
      .union(flag("C11", w.cv.keys().forall(c => connectorsFine(w.cv.get(c), c))))
      .union(flag("C12", w.cv.keys().forall(c =>
          0 <= w.cv.get(c).fee and w.cv.get(c).fee <= w.cv.get(c).maxFee and w.cv.get(c).maxFee <= PPM)))
      .union(flag("C22", w.nt.keys().forall(n => at(w.icx, n) == 0)))
      .union(flag("C05", w.cv.keys().union(w.rg.keys()).forall(n => at(w.icx, n) == 0)))

  // ---- what the events say -------------------------------------------------------------------------
  pure def named(ev: List[Ev], c: Addr, e: str): List[Ev] = ev.select(x => x.c == c and x.e == e)
  pure def total(l: List[Ev]): int = l.foldl(0, (s, e) => s + e.n[0])
  pure def minted(ev: List[Ev], t: Addr): int = total(named(ev, t, "Issuance")) - total(named(ev, t, "Destruction"))
  /// balances after the Transfer events of t, starting from b; the token itself is source and sink
  /// of mints and burns, which come in the same number as Issuance and Destruction events
  pure def replayed(b: Addr -> int, ev: List[Ev], t: Addr): Addr -> int =
    named(ev, t, "Transfer").foldl(b, (m, e) => m.bump(e.a[0], -e.n[0]).bump(e.a[1], e.n[0]))
  pure def same(m: Addr -> int, k: Addr -> int): bool =
    m.keys().union(k.keys()).forall(a => at(m, a) == at(k, a))
  pure def conversions(ev: List[Ev], c: Addr): List[Ev] = named(ev, c, "Conversion")
  pure def paidIn(ev: List[Ev], c: Addr, t: Addr): int =
    conversions(ev, c).foldl(0, (s, e) => if (e.a[0] == t) s + e.n[0] else s)
  pure def paidOut(ev: List[Ev], c: Addr, t: Addr): int =
    conversions(ev, c).foldl(0, (s, e) => if (e.a[1] == t) s + e.n[1] else s)
  pure def all_of(ev: List[Ev], p: Set[str]): List[Ev] = ev.select(e => p.contains(e.e))

  /// every token's balances and supply follow from the events
  pure def eventsExplainTokens(w: World, u: World, ev: List[Ev]): bool =
    w.tok.keys().forall(t => {
      val b = w.tok.get(t)
      val a = u.tok.get(t)
      and {
        a.supply == b.supply + minted(ev, t),
        b.kind != "icx" implies
          // what a token holds of itself changes only by transfers that are neither mint nor burn
          same({ ...replayed(b.bal, ev, t).put(t, 0) }, a.bal.put(t, 0)),
      }
    })

  pure def settings(v: Conv): Conv = { ...v, cn: v.cn.keys().mapBy(t => { ...v.cn.get(t), vbal: 0 }) }
  pure def isConversion(w: World, x: Tx): bool = or {
    and { x.m == "transfer", has(w.nt, x.a1), x.d.k == "path" },
    x.m == "convert", x.m == "convertFor",
  }
  /// the network itself (here: an account registered as one) hands tokens to a converter
  pure def isDirect(w: World, x: Tx): bool =
    and { x.m == "transfer", x.d.k == "conv", has(w.cv, x.a1) and has(w.rg, w.cv.get(x.a1).reg) and w.rg.get(w.cv.get(x.a1).reg).net == x.from }
  pure def netOf(x: Tx): Addr = if (x.m == "transfer") x.a1 else x.to
  pure def benOf(x: Tx): Addr =
    if (x.m == "convertFor") x.a1 else if (x.m == "transfer" and x.d.ben != NONE) x.d.ben else x.from

  // ---- who may do what -------------------------------------------------------------------------------
  pure val OWNERS: Set[str] = Set("issue", "disableTransfer", "registerAddress", "unregisterAddress", "registerIcxToken",
    "addConnector", "updateConnector", "disableConnectorPurchases", "transferTokenOwnership", "acceptTokenOwnership",
    "disableTokenTransfers", "withdrawTokens", "withdrawFromToken", "transferOwnerShip")
  pure val OWNERS_MANAGERS: Set[str] = Set("setConversionFee", "disableConversions", "disableRegistryUpdate",
    "restoreRegistry", "transferManagement")
  /// operations a converter performs on its token: it has to be the owner there
  pure val CONTROL: Set[str] = Set("transferTokenOwnership", "acceptTokenOwnership", "disableTokenTransfers", "withdrawFromToken")
  pure def entitled(w: World, x: Tx): bool =
    if (OWNERS.contains(x.m)) ownerOf(w, x.to) == x.from
    else if (OWNERS_MANAGERS.contains(x.m)) w.cv.get(x.to).owner == x.from or w.cv.get(x.to).mgr == x.from
    else if (x.m == "acceptOwnerShip") nomineeOf(w, x.to) == x.from
    else if (x.m == "acceptManagement") w.cv.get(x.to).nmgr == x.from
    else if (x.m == "destroy") x.a1 == x.from or ownerOf(w, x.to) == x.from
    else true

  // ---- steps ---------------------------------------------------------------------------------------------
  /// the owner change of a by x is a proper second step
  pure def ownersFine(w: World, x: Tx, a: Addr, u: World): bool =
    if (ownerOf(u, a) != ownerOf(w, a)) and {
      ownerOf(u, a) == nomineeOf(w, a), nomineeOf(u, a) == ZERO,
      or { and { x.m == "acceptOwnerShip", x.to == a, x.from == ownerOf(u, a) },
           and { x.m == "acceptTokenOwnership", w.cv.get(x.to).token == a, x.to == ownerOf(u, a), w.cv.get(x.to).owner == x.from } },
    }
    else if (nomineeOf(u, a) != nomineeOf(w, a)) and {
      nomineeOf(u, a) == x.a1,
      or { and { x.m == "transferOwnerShip", x.to == a, x.from == ownerOf(w, a) },
           and { x.m == "transferTokenOwnership", w.cv.get(x.to).token == a, x.to == ownerOf(w, a), w.cv.get(x.to).owner == x.from } },
    }
    else true
  pure def management(w: World, x: Tx, c: Addr, u: World): bool = {
    val a = w.cv.get(c)
    val b = u.cv.get(c)
    if (a.mgr != b.mgr) and { x.m == "acceptManagement", x.to == c, b.mgr == x.from, b.mgr == a.nmgr, b.nmgr == ZERO }
    else if (a.nmgr != b.nmgr) and { x.m == "transferManagement", x.to == c, b.nmgr == x.a1, x.from == a.owner or x.from == a.mgr }
    else true
  }
  /// moving v from a to b and nothing else in the ledger of t
  pure def exactly(w: World, u: World, t: Addr, a: Addr, b: Addr, v: int): bool =
    same(w.tok.get(t).bal.bump(a, -v).bump(b, v), u.tok.get(t).bal) and w.tok.get(t).supply == u.tok.get(t).supply

  /// tokens really moved (not minted, not burnt)
  pure def moves(ev: List[Ev], t: Addr): int =
    named(ev, t, "Transfer").length() - named(ev, t, "Issuance").length() - named(ev, t, "Destruction").length()

  pure def switchFine(w: World, x: Tx, u: World, ev: List[Ev]): bool =
    w.tok.keys().forall(t => w.tok.get(t).kind == "flex" implies and {
      not(w.tok.get(t).open) implies moves(ev, t) == 0,
      w.tok.get(t).open != u.tok.get(t).open implies or {
        and { x.m == "disableTransfer", x.to == t, x.from == ownerOf(w, t), u.tok.get(t).open != x.b },
        and { x.m == "disableTokenTransfers", w.cv.get(x.to).token == t, x.to == ownerOf(w, t),
              x.from == w.cv.get(x.to).owner, u.tok.get(t).open != x.b },
      },
    })

  pure def supplyFine(w: World, x: Tx, u: World, ev: List[Ev]): bool =
    w.tok.keys().forall(t => {
      val d = u.tok.get(t).supply - w.tok.get(t).supply
      val bal = u.tok.get(t).bal
      if (w.tok.get(t).kind == "irc") d == 0
      else if (w.tok.get(t).kind == "icx") true
      else if (x.m == "issue" and x.to == t) and {
        d == x.n1, d > 0, x.from == ownerOf(w, t), validAddr(x.a1), x.a1 != t, same(bal, w.tok.get(t).bal.bump(x.a1, d)) }
      else if (x.m == "destroy" and x.to == t) and {
        d == -x.n1, d < 0, x.from == x.a1 or x.from == ownerOf(w, t), same(bal, w.tok.get(t).bal.bump(x.a1, d)) }
      else or {
        d == 0 and minted(ev, t) == 0 and named(ev, t, "Issuance").length() == 0 and named(ev, t, "Destruction").length() == 0,
        { val c = ownerOf(w, t)
          has(w.cv, c) and w.cv.get(c).token == t and d == paidOut(ev, c, t) - paidIn(ev, c, t) } }
    })

  pure def icxFine(w: World, x: Tx, u: World): bool = {
    val v = x.n1
    if (x.m == "deposit" or { x.m == "icx" and isIcxTok(w, x.to) })
      and { same(u.icx, w.icx.bump(x.from, -v).bump(x.to, v)),
            same(u.tok.get(x.to).bal, w.tok.get(x.to).bal.bump(x.from, v)) }
    else if (x.m == "withdraw" or x.m == "withdrawTo") {
      val dst = if (x.m == "withdraw") x.from else x.a1
      and { v > 0, same(u.icx, w.icx.bump(x.to, -v).bump(dst, v)),
            dst == x.to or same(u.tok.get(x.to).bal, w.tok.get(x.to).bal.bump(x.from, -v)) }
    }
    else true
  }

  pure def registriesFine(w: World, x: Tx, u: World): bool =
    w.rg.keys().forall(g => {
      val a = w.rg.get(g)
      val b = u.rg.get(g)
      if (x.m == "registerAddress" and x.to == g) and {
        x.from == a.owner, isContract(x.a1), NAMES.contains(x.s), lookup(b, x.s) == x.a1,
        NAMES.forall(n => n == x.s or lookup(a, n) == lookup(b, n)) }
      else if (x.m == "unregisterAddress" and x.to == g) and {
        x.from == a.owner, lookup(a, x.s) != ZERO, lookup(b, x.s) == ZERO,
        NAMES.forall(n => n == x.s or lookup(a, n) == lookup(b, n)) }
      else a.net == b.net and a.self == b.self
    })

  pure def registryOfConverterFine(w: World, x: Tx, c: Addr, u: World): bool = {
    val a = w.cv.get(c)
    val b = u.cv.get(c)
    val mine = x.to == c
    if (mine and x.m == "updateRegistry") and {
      a.allow or x.from == a.owner, b.reg == w.rg.get(a.reg).self, b.reg != a.reg, validAddr(b.reg), b.preg == a.reg, b.allow == a.allow }
    else if (mine and x.m == "restoreRegistry") and {
      x.from == a.owner or x.from == a.mgr, b.reg == a.preg, b.preg == a.preg, not(b.allow) }
    else if (mine and x.m == "disableRegistryUpdate") and {
      x.from == a.owner or x.from == a.mgr, b.allow != x.b, b.reg == a.reg, b.preg == a.preg }
    else and { b.reg == a.reg, b.preg == a.preg, b.allow == a.allow }
  }

  pure def connectorsKept(w: World, x: Tx, c: Addr, u: World): bool = {
    val a = w.cv.get(c)
    val b = u.cv.get(c)
    val mine = x.to == c
    if (mine and x.m == "addConnector") and {
      x.from == a.owner, not(active(w, c)), b.list == a.list.append(x.a1),
      b.cn == a.cn.put(x.a1, { w: x.n1, virt: x.b, vbal: 0, buy: true }) }
    else if (mine and x.m == "updateConnector") and {
      x.from == a.owner, b.list == a.list,
      b.cn == a.cn.put(x.a1, { ...a.cn.get(x.a1), w: x.n1, virt: x.b, vbal: x.n2 }) }
    else if (mine and x.m == "disableConnectorPurchases") and {
      x.from == a.owner, b.list == a.list, b.cn == a.cn.put(x.a1, { ...a.cn.get(x.a1), buy: not(x.b) }) }
    else settings(b).cn == settings(a).cn and b.list == a.list
  }

  /// one conversion event against the state before the transaction
  pure def conversionAllowed(w: World, e: Ev): Set[str] = {
    val c = e.c
    val v = w.cv.get(c)
    val src = e.a[0]
    val dst = e.a[1]
    val magnitude = if (src == v.token or dst == v.token) 1 else 2
    flag("C13", and { v.on, dst == v.token implies v.cn.get(src).buy,
                      magnitude == 2 implies v.cn.get(dst).buy })
      .union(flag("C14", active(w, c)))
      // of every million units, the fee is kept once for each token that changes hands; rounded down
      .union(flag("C12", {
        val before = (e.n[1] + e.n[2]) * (PPM - v.fee) * (if (magnitude == 2) PPM - v.fee else PPM)
        and { e.n[2] >= 0, e.n[1] * PPM * PPM <= before, before < (e.n[1] + 1) * PPM * PPM }
      }))
      .union(flag("C15", has(w.rg, v.reg) and w.rg.get(v.reg).net == e.a[2]))
      .union(flag("C16", e.n[0] > 0 and e.n[1] > 0 and src != dst))
  }

  /// effects of all the conversions of one transaction on everything a converter has
  pure def settled(w: World, c: Addr, u: World, ev: List[Ev]): bool = {
    val v = w.cv.get(c)
    and {
      v.list.indices().forall(i => {
        val t = v.list[i]
        has(w.tok, t) implies and {
          balOf(u, t, c) - balOf(w, t, c) == paidIn(ev, c, t) - paidOut(ev, c, t),
          paidOut(ev, c, t) > 0 implies or { connBalance(u, c, t) > 0, u.tok.get(v.token).supply == 0 },
        }
      }),
      has(w.tok, v.token) implies balOf(u, v.token, c) == balOf(w, v.token, c),
    }
  }
  pure def virtualFine(w: World, x: Tx, c: Addr, u: World, ev: List[Ev]): bool = {
    val a = w.cv.get(c)
    a.list.indices().forall(i => {
      val t = a.list[i]
      if (x.m == "updateConnector" and x.to == c and x.a1 == t) true
      else u.cv.get(c).cn.get(t).vbal - a.cn.get(t).vbal ==
        (if (a.cn.get(t).virt) paidIn(ev, c, t) - paidOut(ev, c, t) else 0)
    })
  }

  /// what the beneficiary of conversion x got, less what the requester put in
  pure def received(w: World, x: Tx, u: World): int = {
    val last = x.d.path[x.d.path.length() - 1]
    val ben = benOf(x)
    if (w.nt.get(netOf(x)).icxt.contains(last))
      at(u.icx, ben) - at(w.icx, ben) + (if (ben == x.from and x.m != "transfer") x.n1 else 0)
    else balOf(u, last, ben) - balOf(w, last, ben) + (if (ben == x.from and x.m == "transfer" and x.to == last) x.n1 else 0)
  }

  /// a conversion during which BOX sent a transaction of its own
  pure def nestedFine(w: World, x: Tx, y: Tx, r: Res): Set[str] = {
    val u = r.w
    val ben = benOf(x)
    flag("C20", and { x.d.min > 0, (isEOA(ben) and not(y.m == "destroy" and y.a1 == ben)) implies received(w, x, u) >= x.d.min,
                      x.m != "transfer" implies r.ret >= x.d.min })
      .union(flag("C21", wellFormed(x.d.path)))
      .union(flag("C22", or { y.m == "withdrawTokens", y.m == "destroy",
                              w.nt.keys().forall(n => w.tok.keys().forall(t => balOf(u, t, n) >= balOf(w, t, n))) }))
      .union(flag("C24", and { validAddr(ben), ben != netOf(x) }))
  }

  /// a conversion through the network
  pure def pathFine(w: World, x: Tx, r: Res): Set[str] = {
    val u = r.w
    val n = netOf(x)
    val p = x.d.path
    val last = p[p.length() - 1]
    val ben = benOf(x)
    val asIcx = w.nt.get(n).icxt.contains(last)
    val got = received(w, x, u)
    val plain = isEOA(ben) or ben == BOX
    val q = pathQuote(w, p, x.n1)
    val hops = p.length() / 2
    val odd = p.indices().filter(i => i % 2 == 1).map(i => p[i])
    flag("C19", and { q.ok, plain implies got == q.net, x.m != "transfer" implies r.ret == q.net })
      .union(flag("C20", and { x.d.min > 0, plain implies got >= x.d.min, x.m != "transfer" implies r.ret >= x.d.min }))
      .union(flag("C21", and { p.length() % 2 == 1, hops >= 1, hops <= 10, odd.size() == hops, p[0] == x.to or x.m != "transfer" }))
      .union(flag("C22", w.tok.keys().forall(t => balOf(u, t, n) == balOf(w, t, n)) and at(u.icx, n) == at(w.icx, n)))
      .union(flag("C23", and {
          x.m != "transfer" implies { w.nt.get(n).icxt.contains(p[0]) and
                                      { x.from == ben or at(u.icx, x.from) == at(w.icx, x.from) - x.n1 } },
          asIcx implies { plain implies balOf(u, last, ben) == balOf(w, last, ben) - (if (x.m == "transfer" and x.to == last and ben == x.from) x.n1 else 0) },
          not(asIcx) implies u.icx.keys().forall(a => at(u.icx, a) == at(w.icx, a) or a == x.from or isIcxTok(w, a)) }))
      .union(flag("C24", and {
          validAddr(ben), ben != n,
          x.m == "transfer" implies balOf(u, x.to, x.from) - balOf(w, x.to, x.from) ==
              -x.n1 + (if (ben == x.from and last == x.to and not(asIcx)) got else 0),
          // nobody else gets or loses anything
          w.tok.keys().forall(t => w.tok.get(t).bal.keys().union(u.tok.get(t).bal.keys()).forall(a =>
              or { a == ben, a == x.from, has(w.cv, a), balOf(u, t, a) == balOf(w, t, a) })) }))
      .union(flag("C16", w.cv.keys().forall(c => settled(w, c, u, r.ev) and settings(w.cv.get(c)) == settings(u.cv.get(c)))))
      .union(flag("C18", all_of(r.ev, Set("Conversion")).length() == hops))
  }

  /// the first conversion of a transaction meets the state as it was
  pure def firstQuoted(w: World, ev: List[Ev]): bool = {
    val l = all_of(ev, Set("Conversion"))
    if (l.length() == 0) true
    else {
      val e = l[0]
      val q = quote(w, e.c, e.a[0], e.a[1], e.n[0], 0)
      q.ok and q.net == e.n[1] and q.gross - q.net == e.n[2]
    }
  }

  /// tokens that come to a converter
  pure def depositsFine(w: World, ev: List[Ev]): bool =
    ev.select(e => e.e == "Transfer" and has(w.cv, e.a[1]) and e.a[0] != e.c).indices().forall(i => {
      val e = ev.select(y => y.e == "Transfer" and has(w.cv, y.a[1]) and y.a[0] != y.c)[i]
      val c = e.a[1]
      val v = w.cv.get(c)
      and { e.n[0] > 0,
        or { and { has(w.rg, v.reg) and w.rg.get(v.reg).net == e.a[0], e.s == "conv", conversions(ev, c).length() > 0, active(w, c) },
             and { e.a[0] == v.owner or e.a[0] == v.mgr, isConn(v, e.c), not(active(w, c)) } } }
    })

  /// who is told about tokens
  pure def notified(w: World, ev: List[Ev]): bool = {
    val sent = ev.select(e => e.e == "Transfer" and e.a[1] == BOX and e.a[0] != e.c)
    val told = ev.select(e => e.e == "Notified" and e.a[1] != e.a[0])
    and {
      sent.length() == told.length(),
      told.indices().forall(i => sent.indices().exists(j => and {
        sent[j].c == told[i].a[0], sent[j].a[0] == told[i].a[1], sent[j].n == told[i].n, sent[j].s == told[i].s })),
      // whoever got tokens by a transfer is an account or a contract that deals with tokens
      ev.indices().forall(i => (ev[i].e == "Transfer" and ev[i].a[0] != ev[i].c and ev[i].a[1] != ev[i].c) implies
        or { isEOA(ev[i].a[1]), ev[i].a[1] == BOX, has(w.cv, ev[i].a[1]), has(w.nt, ev[i].a[1]) }),
    }
  }

  /// holdings of contracts
  pure def holdingsFine(w: World, x: Tx, u: World, ev: List[Ev]): bool = {
    val holders = w.cv.keys().union(w.nt.keys()).union(w.tok.keys()).union(w.rg.keys())
    w.tok.keys().forall(t => holders.forall(h => {
      val d = balOf(u, t, h) - balOf(w, t, h)
      or {
        d >= 0,
        and { x.m == "withdrawTokens", x.to == h, x.a1 == t, x.from == ownerOf(w, h), d == -x.n1, x.a2 != h, validAddr(x.a2),
              not(has(w.cv, h) and active(w, h) and isConn(w.cv.get(h), t)) },
        and { x.m == "withdrawFromToken", has(w.cv, x.to), w.cv.get(x.to).token == h, x.a1 == t, x.from == w.cv.get(x.to).owner,
              ownerOf(w, h) == x.to, d == -x.n1, x.a2 != h, validAddr(x.a2) },
        and { x.m == "destroy", x.to == t, x.a1 == h, x.from == ownerOf(w, t) },
        and { has(w.cv, h), d == paidIn(ev, h, t) - paidOut(ev, h, t), d < 0 },
      }
    }))
  }

  pure def announcements(w: World, x: Tx, u: World, ev: List[Ev]): bool = and {
    owned(w).forall(a => {
      val l = named(ev, a, "OwnerUpdate")
      if (ownerOf(w, a) == ownerOf(u, a)) l.length() == 0 else l == [ev0(a, "OwnerUpdate", [ownerOf(w, a), ownerOf(u, a)], [])]
    }),
    w.cv.keys().forall(c => {
      val a = w.cv.get(c)
      val b = u.cv.get(c)
      and {
        if (a.mgr == b.mgr) named(ev, c, "ManagerUpdate").length() == 0
        else named(ev, c, "ManagerUpdate") == [ev0(c, "ManagerUpdate", [a.mgr, b.mgr], [])],
        if (x.m == "setConversionFee" and x.to == c) named(ev, c, "ConversionFeeUpdate") == [ev0(c, "ConversionFeeUpdate", [], [a.fee, b.fee])]
        else named(ev, c, "ConversionFeeUpdate").length() == 0 and a.fee == b.fee,
        if (a.on == b.on) named(ev, c, "ConversionsEnable").length() == 0
        else named(ev, c, "ConversionsEnable") == [{ c: c, e: "ConversionsEnable", a: [], n: [if (b.on) 1 else 0], s: "" }],
        // every conversion tells the price of the connectors it has touched
        a.cn.keys().forall(t => named(ev, c, "PriceDataUpdate").select(e => e.a[0] == t).length()
                             == conversions(ev, c).select(e => e.a[0] == t or e.a[1] == t).length()),
        // the price data that close a conversion are those of the state after it
        conversions(ev, c).length() == 1 implies
          named(ev, c, "PriceDataUpdate").indices().forall(i => named(ev, c, "PriceDataUpdate")[i] == priceEv(u, c, named(ev, c, "PriceDataUpdate")[i].a[0])
            or all_of(ev, Set("Conversion")).length() > 1),
      }
    }),
    w.rg.keys().forall(g => {
      val l = named(ev, g, "AddressUpdate")
      if (x.to == g and (x.m == "registerAddress" or x.m == "unregisterAddress"))
        l == [{ c: g, e: "AddressUpdate", a: [lookup(u.rg.get(g), x.s)], n: [], s: x.s }]
      else l.length() == 0
    }),
  }

  pure def installed(w: World, x: Tx, u: World): bool = {
    val a = x.to
    and {
      not(deployed(w, a)), deployed(u, a),
      has(u.tok, a) implies {
        val t = u.tok.get(a)
        and { t.supply == (if (t.kind == "icx") 0 else x.n1 * 10^x.n2), t.supply >= 0, t.decimals >= 0, same(t.bal, Map(x.from -> t.supply)),
              t.kind != "irc" implies { t.owner == x.from and t.nowner == ZERO } }
      },
      has(u.cv, a) implies {
        val v = u.cv.get(a)
        and { v.owner == x.from, v.nowner == ZERO, v.mgr == x.from, v.nmgr == ZERO, validAddr(v.token), validAddr(v.reg), v.preg == v.reg,
              v.on, v.allow, v.fee == 0, v.maxFee == x.n1, 0 <= x.n1, x.n1 <= PPM,
              v.list == (if (validAddr(x.a3)) [x.a3] else []) }
      },
      { ...u, tok: u.tok.keys().exclude(Set(a)).mapBy(k => u.tok.get(k)), cv: u.cv.keys().exclude(Set(a)).mapBy(k => u.cv.get(k)),
              rg: u.rg.keys().exclude(Set(a)).mapBy(k => u.rg.get(k)), nt: u.nt.keys().exclude(Set(a)).mapBy(k => u.nt.get(k)) } == w,
    }
  }

  pure def stepAudit(w: World, x: Tx, r: Res): Set[str] = {
    val u = r.w
    val conversion = isConversion(w, x)
    flag("C01", and {
        not(conversion or isDirect(w, x)) implies { x.m == "transfer" implies
            and { x.n1 >= 0, x.n1 <= balOf(w, x.to, x.from), exactly(w, u, x.to, x.from, x.a1, x.n1),
                  w.tok.keys().forall(t => t == x.to or w.tok.get(t) == u.tok.get(t)) } },
        w.tok.keys().forall(t => and { w.tok.get(t).name == u.tok.get(t).name, w.tok.get(t).decimals == u.tok.get(t).decimals }) })
      .union(flag("C02", notified(w, r.ev)))
      .union(flag("C03", supplyFine(w, x, u, r.ev)))
      .union(flag("C04", switchFine(w, x, u, r.ev)))
      .union(flag("C05", icxFine(w, x, u)))
      .union(flag("C06", owned(w).forall(a => ownersFine(w, x, a, u))))
      .union(flag("C07", w.cv.keys().forall(c => management(w, x, c, u))))
      .union(flag("C08", entitled(w, x)))
      .union(flag("C09", registriesFine(w, x, u)))
      .union(flag("C10", w.cv.keys().forall(c => registryOfConverterFine(w, x, c, u))))
      .union(flag("C11", w.cv.keys().forall(c => connectorsKept(w, x, c, u))))
      .union(flag("C12", w.cv.keys().forall(c => or {
          w.cv.get(c).fee == u.cv.get(c).fee and w.cv.get(c).maxFee == u.cv.get(c).maxFee,
          and { x.m == "setConversionFee", x.to == c, u.cv.get(c).fee == x.n1, x.from == w.cv.get(c).owner or x.from == w.cv.get(c).mgr,
                w.cv.get(c).maxFee == u.cv.get(c).maxFee } })))
      .union(flag("C13", w.cv.keys().forall(c => w.cv.get(c).on == u.cv.get(c).on or
          and { x.m == "disableConversions", x.to == c, u.cv.get(c).on != x.b })))
      .union(all_of(r.ev, Set("Conversion")).foldl(Set(), (s, e) => s.union(conversionAllowed(w, e))))
      .union(flag("C15", depositsFine(w, r.ev)))
      .union(flag("C17", w.cv.keys().forall(c => virtualFine(w, x, c, u, r.ev))))
      .union(flag("C18", firstQuoted(w, r.ev)))
      .union(if (conversion) pathFine(w, x, r) else Set())
      .union(flag("C22", w.nt.keys().forall(n => w.tok.keys().forall(t => or {
          balOf(u, t, n) >= balOf(w, t, n), and { x.m == "withdrawTokens", x.to == n, x.from == w.nt.get(n).owner },
          and { x.m == "destroy", x.from == ownerOf(w, t) } }))))
      .union(flag("C23", w.nt.keys().forall(n => w.nt.get(n).icxt == u.nt.get(n).icxt or
          and { x.m == "registerIcxToken", x.to == n, x.from == w.nt.get(n).owner,
                u.nt.get(n).icxt.exclude(Set(x.a1)) == w.nt.get(n).icxt.exclude(Set(x.a1)), u.nt.get(n).icxt.contains(x.a1) == x.b })))
      .union(flag("C28", and { eventsExplainTokens(w, u, r.ev), announcements(w, x, u, r.ev) }))
      .union(flag("C29", holdingsFine(w, x, u, r.ev)))
  }

  pure def audit(w: World, x: Tx, mode: str, inner: Tx, r: Res): Set[str] = {
    val own = mode == "reenter" or mode == "repent"   // BOX has a transaction of its own
    if (not(r.ok))
      flag("C30", r.w == w).union(flag("C28", r.ev == []))
        .union(flag("C08", (not(own) and { r.why == "notowner" or r.why == "notownermgr" }) implies or { not(entitled(w, x)), { CONTROL.contains(x.m) and not(active(w, x.to)) } }))
        .union(flag("C21", (not(own) and r.why == "badpath" and x.d.path.length() > 0) implies not(wellFormed(x.d.path))))
    else if (Set("deploy_irc", "deploy_flex", "deploy_icx", "deploy_reg", "deploy_net", "deploy_conv").contains(x.m))
      flag("C31", installed(w, x, r.w))
    // a transaction into which BOX has put another one is two transactions (C02)
    else if (mode == "reenter" and r.box > 0) (if (isConversion(w, x)) nestedFine(w, x, inner, r) else Set())
    // and one that repents has undone everything
    else if (mode == "repent" and r.box > 0) Set("C02")
    else stepAudit(w, x, r)
  }
}
