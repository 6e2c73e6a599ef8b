// -*- mode: Bluespec; -*-
/**
 * Custody: the ledgers of tokens and of ICX for amounts of any size. The operators are those of the
 * specification that the contracts are compared with; `legal` is shown to be inductive by Apalache
 * (from any legal state, any one operation by anyone with any amount leads to a legal state), so it
 * holds for histories of any length. One ledger at a time: operations on a ledger touch no other.
 */
module custody {
  import base.* from "./base"
  import ledger.* from "./ledger"

  pure val WHO: Set[Addr] = Set("own", "ali", "BOX")
  pure val HOLDERS: Set[Addr] = WHO.union(Set("ICXT"))

  var w: World

  pure def total(m: Addr -> int): int = at(m, "own") + at(m, "ali") + at(m, "BOX") + at(m, "ICXT")
  pure def legal(s: World): bool = and {
    // the sum of the balances is the supply, and nobody has less than nothing
    s.tok.keys().forall(t => and {
      s.tok.get(t).supply == total(s.tok.get(t).bal),
      s.tok.get(t).bal.keys().forall(a => s.tok.get(t).bal.get(a) >= 0) }),
    s.icx.keys().forall(a => s.icx.get(a) >= 0),
    // an ICX token has the ICX for every unit of it
    s.tok.keys().contains("ICXT") implies and {
      s.icx.get("ICXT") == s.tok.get("ICXT").supply },
  }
  action someState(t: Addr, kind: str): bool = {
    nondet b = HOLDERS.setOfMaps(Int).oneOf()
    nondet x = HOLDERS.setOfMaps(Int).oneOf()
    nondet n = Int.oneOf()
    nondet open = Set(true, false).oneOf()
    nondet o = WHO.oneOf()
    nondet mode = Set("accept", "refuse").oneOf()
    val s: World = {
      tok: Map(t -> { kind: kind, owner: o, nowner: ZERO, bal: b, supply: n, open: open, name: "", decimals: 0 }),
      cv: Map(), rg: Map(), nt: Map(), icx: x, box: mode }
    all { legal(s), w' = s }
  }
  pure def after(s: World, r: Res): World = if (r.ok) r.w else s
  pure def sent(s: World, t: Addr, from: Addr, dst: Addr, v: int): Res = {
    val r = move(s, t, from, dst, v)
    if (not(r.ok)) r else join(r, leafNotify(r.w, t, from, dst, v, NODATA))
  }
  action plainInit = someState("T1", "irc")
  action plainStep = {
    nondet from = WHO.oneOf()
    nondet dst = HOLDERS.oneOf()
    nondet v = Int.oneOf()
    w' = after(w, sent(w, "T1", from, dst, v))
  }
  action flexInit = someState("F1", "flex")
  action flexStep = {
    nondet from = WHO.oneOf()
    nondet dst = HOLDERS.oneOf()
    nondet v = Int.oneOf()
    nondet d = Set(true, false).oneOf()
    any {
      w' = after(w, sent(w, "F1", from, dst, v)),
      w' = after(w, issue(w, "F1", from, dst, v)),
      w' = after(w, destroy(w, "F1", from, dst, v)),
      w' = after(w, disableTransfer(w, "F1", from, d)),
    }
  }
  action icxInit = someState("ICXT", "icx")
  action icxStep(r: (Addr, Addr, int) => Res): bool = {
    nondet from = WHO.oneOf()
    nondet dst = HOLDERS.oneOf()
    nondet v = Int.oneOf()
    w' = after(w, r(from, dst, v))
  }
  action icxMoves = icxStep((from, dst, v) => sent(w, "ICXT", from, dst, v))
  action icxComes = icxStep((from, dst, v) => icxDeposit(w, "ICXT", from, v))
  action icxLeaves = icxStep((from, dst, v) => icxWithdrawTo(w, "ICXT", from, v, dst))
  action icxPlain = icxStep((from, dst, v) => sendIcx(w, from, dst, v))
  val inv: bool = legal(w)
}
