// -*- mode: Bluespec; -*-
/**
 * The state machine: a set-up exchange, then any transactions. Besides the state of the exchange
 * the variables hold the last step (transaction, outcome, questions asked before it), so that a
 * behaviour written out by the simulator can be repeated on the real contracts.
 */
module dex {
  import base.* from "./base"
  import ledger.* from "./ledger"
  import converter.* from "./converter"
  import network.* from "./network"
  import system.* from "./system"
  import nested.* from "./nested"
  import scenarios.* from "./scenarios"
  import gen.* from "./gen"
  import props.* from "./props"

  /// a question to the exchange and its answer
  type Probe = { q: str, c: Addr, p: List[Addr], n: int, k: int, ok: bool, r: int, f: int, hops: List[Hop] }
  type Step = { tx: Tx, mode: str, inner: Tx, ok: bool, why: str, ev: List[Ev], ret: int,
                hops: List[Hop], box: int, probes: List[Probe] }

  var w: World
  var setup: List[Tx]
  var last: Step
  /// ids of the properties the last step broke
  var broken: Set[str]

  pure val NOSTEP: Step = { tx: NOTX, mode: "accept", inner: NOTX, ok: true, why: "", ev: [], ret: 0, hops: [], box: 0, probes: [] }

  pure def askPath(s: World, n: Addr, p: List[Addr], v: int): Probe = {
    val q = pathQuote(s, p, v)
    { q: "path", c: n, p: p, n: v, k: 0, ok: q.ok, r: if (q.ok) q.net else 0, f: 0, hops: q.hop }
  }
  pure def askReturn(s: World, c: Addr, a: Addr, b: Addr, v: int): Probe = {
    val q = quote(s, c, a, b, v, 0)
    { q: "return", c: c, p: [a, b], n: v, k: 0, ok: q.ok, r: if (q.ok) q.net else 0, f: if (q.ok) q.gross - q.net else 0, hops: q.hop }
  }
  pure def askFinal(s: World, c: Addr, v: int, k: int): Probe =
    { q: "final", c: c, p: [], n: v, k: k, ok: true, r: finalAmount(s.cv.get(c).fee, v, k), f: 0, hops: [] }

  pure def questions(s: World, x: Tx, r: List[int]): List[Probe] = {
    val cs = s.cv.keys()
    val onPath =
      if (x.d.k == "path" and s.nt.keys() != Set()) [askPath(s, anyNet(s, r[0]), x.d.path, x.n1)]
      else []
    val other =
      if (cs == Set()) [] else {
        val c = pick(toL(cs), r[1])
        val ts = toL(tokensOf(s, c))
        val a = if (chance(r[2], 90)) pick(ts, r[3]) else anyone(s, r[3])
        val b = if (chance(r[2] / 100, 90)) pick(ts, r[4]) else anyone(s, r[4])
        [askReturn(s, c, a, b, if (chance(r[5], 20)) pick([0, 1, 2], r[5]) else mag(r[5])),
         askFinal(s, c, mag(r[6]), 1 + r[7] % 2)]
      }
    val random =
      if (chance(r[8], 25) and s.nt.keys() != Set()) {
        val p = path(s, pickS(s.tok.keys(), r[9], "T1"), r[10], r[11])
        [askPath(s, anyNet(s, r[8]), p, if (chance(r[12], 10)) pick([0, -1, 1], r[12] / 2000) else mag(r[12]))]
      } else []
    onPath.concat(other).concat(random)
  }

  action start(scenario: str, r: List[int]): bool = {
    val l = setup_of(scenario, r)
    val p = prepare(l)
    all {
      w' = p.w,
      setup' = l,
      last' = { ...NOSTEP, ok: p.ok, why: p.why },
      broken' = if (p.ok) stateAudit(p.w) else Set("setup"),
    }
  }

  action transact(groups: List[str], inners: List[str], reenter: int, r: List[int], q: List[int]): bool = {
    val group = pick(groups, r[0])
    // what the last transaction delivered, if it was a conversion
    val got = if (last.ok and last.hops.length() > 0) last.hops[last.hops.length() - 1].net else 0
    val x = if (group == "round" and last.mode == "accept" and mayReturn(w, last.tx, got)) returning(last.tx, got)
            else gen(w, if (group == "round") "conv" else group, r)
    val mode = if (not(chance(q[13], reenter))) "accept"
               else if (mayReenter(w, x) and chance(q[12], 65)) "reenter" else if (chance(q[12] / 128, 55)) "repent" else "refuse"
    // what BOX does itself: of a few things rather one that it can do
    val y = if (mode == "accept" or mode == "refuse") NOTX
            else if (boxHops(w, x.d.path) != Set() and chance(q[11], 65)) gift(w, x, q)
            else {
              val ys = range(0, 4).foldl([], (l, k) => {
                val u = range(0, q.length()).foldl([], (m, j) => m.append(q[(j + k) % q.length()] / 3^k))
                l.append({ ...gen(w, pick(inners, u[0]), u), from: BOX }) })
              val able = ys.select(z => call(w, z).ok)
              if (able != [] and chance(q[10], 70)) able[0] else ys[0]
            }
    val res = exec(w, x, mode, y)
    all {
      w' = res.w,
      setup' = [],
      last' = { tx: x, mode: mode, inner: y, ok: res.ok, why: res.why, ev: res.ev, ret: res.ret, hops: res.hops, box: res.box,
                probes: questions(w, x, q) },
      broken' = audit(w, x, mode, y, res).union(stateAudit(res.w)).union(
        flag("C27", (res.ok and last.ok and last.mode == "accept" and mode == "accept" and isConversion(w, last.tx) and isConversion(w, x)
                     and isReturn(last.tx, got, x)) implies res.hops[res.hops.length() - 1].net <= last.tx.n1)),
    }
  }

  val holds: bool = broken == Set()
}
