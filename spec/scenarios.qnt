// -*- mode: Bluespec; -*-
/**
 * Where behaviours start: lists of transactions that install and set up an exchange, with all
 * sizes, weights, fees and decimals taken from random numbers.
 */
module scenarios {
  import base.* from "./base"
  import system.* from "./system"
  import nested.* from "./nested"
  import converter.* from "./converter"

  pure def pick(l: List[a], r: int): a = l[r % l.length()]
  /// a number of random magnitude: 1 .. 10^24
  pure def mag(r: int): int = 1 + (r / 32) % 10^(1 + r % 24)
  /// a number of ordinary magnitude
  pure def usual(r: int): int = 10^(6 + r % 14) + (r / 32) % 10^(6 + r % 14)

  pure def T(from: Addr, dst: Addr, m: str): Tx = { ...NOTX, from: from, to: dst, m: m }
  pure def send(t: Addr, from: Addr, dst: Addr, v: int): Tx =
    { ...T(from, t, "transfer"), a1: dst, n1: v }
  pure def handover(f: Addr, c: Addr): List[Tx] =
    [{ ...T("own", f, "transferOwnerShip"), a1: c }, T("own", c, "acceptTokenOwnership")]
  pure def manager(c: Addr): List[Tx] =
    [{ ...T("own", c, "transferManagement"), a1: "mgr" }, T("mgr", c, "acceptManagement")]
  pure def spread(t: Addr, v: int): List[Tx] =
    if (v == 0) [] else [send(t, "own", "ali", v), send(t, "own", "bob", v), send(t, "own", BOX, v)]

  pure def foundation(r: List[int]): List[Tx] = [
    T("own", "R1", "deploy_reg"), T("own", "NET", "deploy_net"), T("own", "ICXT", "deploy_icx"),
    { ...T("own", "R1", "registerAddress"), s: "Network", a1: "NET" },
    { ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: true },
    T("eve", "R2", "deploy_reg"), T("own", "NET2", "deploy_net"),
    { ...T("eve", "R2", "registerAddress"), s: "Network", a1: pick(["NET2", "NET", BOX], r[0]) },
    { ...T("own", "T1", "deploy_irc"), n1: mag(r[1]) * 100, n2: r[2] % 4, s: "Token One" },
    { ...T("own", "T2", "deploy_irc"), n1: usual(r[3]) * 100, n2: r[4] % 19, s: "Token Two" },
    { ...T("own", "F1", "deploy_flex"), n1: 8 * usual(r[5]), n2: r[6] % 3, s: "Flexible One" },
    { ...T("own", "F2", "deploy_flex"), n1: 8 * mag(r[7]), n2: 0, s: "Flexible Two" },
    { ...T("own", "ICXT", "deposit"), n1: 10^21 },
    { ...T("ali", "ICXT", "deposit"), n1: mag(r[8]) },
    { ...T("bob", "ICXT", "icx"), n1: usual(r[9]) },
  ]
  pure def holdings(r: List[int]): List[Tx] =
    spread("T1", mag(r[1]) * 10^(r[2] % 4) * 10)
      .concat(spread("T2", usual(r[3]) * 10^(r[4] % 19) * 10))
      .concat(spread("F1", usual(r[5]) * 10^(r[6] % 3)))
      .concat(spread("F2", mag(r[7])))
      .concat([send("ICXT", "own", BOX, 10^19)])

  /// converters, not yet in operation
  pure def converters(r: List[int]): List[Tx] = {
    val w1 = 1 + r[10] % 350000
    val w2 = if (r[11] % 3 == 0) w1 else 1 + r[11] % 300000
    val w3 = 1 + r[12] % 300000
    [
      { ...T("own", "C1", "deploy_conv"), a1: "F1", a2: "R1", n1: pick([0, 30000, 1000000, r[13] % 1000001], r[14]),
        a3: "T1", n2: w1 },
      { ...T("own", "C1", "addConnector"), a1: "ICXT", n1: w2 },
      { ...T("own", "C1", "addConnector"), a1: "T2", n1: w3, b: r[15] % 3 == 0 },
      { ...T("own", "C2", "deploy_conv"), a1: "F2", a2: "R1", n1: r[16] % 1000001,
        a3: "F1", n2: pick([1000000, 500000, 1 + r[17] % 1000000], r[18]) },
      { ...T("own", "C3", "deploy_conv"), a1: "F1", a2: pick(["R1", "R2"], r[19]), n1: 50000, a3: "T1", n2: 500000 },
    ]
  }
  pure def stock(r: List[int]): List[Tx] = {
    val t1 = mag(r[1]) * 10^(r[2] % 4)
    val t2 = usual(r[3]) * 10^(r[4] % 19)
    [ send("T1", "own", "C1", 1 + (r[20] % (10 * t1))), send("ICXT", "own", "C1", usual(r[21])),
      send("T2", "own", "C1", 1 + (r[22] % (10 * t2))),
      send("F1", "own", "C2", 1 + r[23] % usual(r[5])) ]
  }
  /// what converters hold of the tokens they are made for (minted there before they take over)
  pure def hoards(r: List[int]): List[Tx] =
    (if (r[20] % 2 == 0) [{ ...T("own", "F1", "issue"), a1: "C1", n1: mag(r[24]) }] else [])
      .concat(if (r[22] % 2 == 0) [{ ...T("own", "F2", "issue"), a1: "C2", n1: mag(r[25]) }] else [])
      .concat(if (r[23] % 3 == 0) [{ ...T("own", "F2", "issue"), a1: "F1", n1: mag(r[26]) },
                                   { ...T("own", "F1", "issue"), a1: "F2", n1: mag(r[28]) }] else [])
      .concat(if (r[23] % 5 == 0) [{ ...T("own", "F1", "issue"), a1: "NET", n1: mag(r[29]) },
                                   { ...T("own", "F2", "issue"), a1: pick(["NET2", "R1", "C1"], r[30]), n1: mag(r[31]) }] else [])
  pure def operation(r: List[int]): List[Tx] =
    handover("F1", "C1").concat(handover("F2", "C2")).concat(manager("C1")).concat([
      { ...T("own", "C1", "setConversionFee"), n1: 0 },
      { ...T("own", "C2", "setConversionFee"), n1: if (r[16] % 1000001 < 20000) 0 else r[24] % 20000 } ])
  /// fee for C1: whatever its maximum allows
  pure def fees(r: List[int]): List[Tx] = {
    val m = pick([0, 30000, 1000000, r[13] % 1000001], r[14])
    [ { ...T("mgr", "C1", "setConversionFee"), n1: pick([0, m, r[25] % (m + 1), min2(m, r[25] % 20000), min2(m, 1)], r[26]) } ]
  }
  pure def virtuals(r: List[int]): List[Tx] = {
    val w1 = 1 + r[10] % 350000
    val w2 = if (r[11] % 3 == 0) w1 else 1 + r[11] % 300000
    val w3 = 1 + r[12] % 300000
    val t1 = mag(r[1]) * 10^(r[2] % 4)
    val t2 = usual(r[3]) * 10^(r[4] % 19)
    [ { ...T("own", "C1", "updateConnector"), a1: "T1", n1: w1, b: r[27] % 2 == 0, n2: 1 + r[28] % (10 * t1) },
      { ...T("own", "C1", "updateConnector"), a1: "ICXT", n1: w2, b: r[27] % 3 != 0, n2: usual(r[29]) },
      { ...T("own", "C1", "updateConnector"), a1: "T2", n1: w3, b: r[27] % 5 != 0, n2: 1 + r[30] % (10 * t2) },
      { ...T("own", "C2", "updateConnector"), a1: "F1", n1: pick([1000000, 500000, 1 + r[17] % 1000000], r[18]),
        b: r[27] % 7 < 3, n2: usual(r[31]) } ]
  }

  /// the converters belong to a registry whose place another one has taken
  pure def moved(r: List[int]): List[Tx] = [
    { ...T("own", "NET2", "registerIcxToken"), a1: "ICXT", b: true },
    { ...T("own", "R1", "registerAddress"), s: "ScoreRegistry", a1: "R2" },
    T(pick(["own", "ali", "mgr"], r[31]), "C1", "updateRegistry") ]
    .concat(if (r[30] % 3 == 0) [T("own", "C2", "updateRegistry")] else [])
    .concat(if (r[30] % 5 == 0) [T("own", "C1", "restoreRegistry")] else [])

  /// BOX owns a flexible token and stands in the place of a converter; it has something of every token
  pure def third(r: List[int]): List[Tx] =
    [ { ...T("own", "F3", "deploy_flex"), n1: usual(r[31]), n2: r[30] % 3, s: "Third" },
      { ...T("own", "F3", "transferOwnerShip"), a1: BOX }, T(BOX, "F3", "acceptOwnerShip") ]
    .concat(if (r[29] % 2 == 0) [send("F3", "own", "ali", usual(r[31]) / 3), send("F3", "own", BOX, usual(r[31]) / 3)] else [])
    .concat(if (r[28] % 3 == 0) [{ ...T("own", "F4", "deploy_flex"), n1: 1000, n2: 2, s: "Fourth" },
                                 { ...T("own", "F4", "transferOwnerShip"), a1: BOX }, T(BOX, "F4", "acceptOwnerShip")] else [])
    // what lies in the network must stay there
    .concat(if (r[27] % 2 == 0) [{ ...send("T1", "own", "NET", 1 + mag(r[1]) / 3), d: RESULT },
                                 { ...send("T2", "own", "NET", 1 + usual(r[3]) / 3), d: RESULT },
                                 { ...send("ICXT", "own", "NET", 10^17), d: RESULT }] else [])

  /// a contract in the place of the people in charge: owner and manager of much of the system
  pure def corp(r: List[int]): List[Tx] = {
    pure def maybe(k: int, l: List[Tx]): List[Tx] = if ((r[k % 32] / 977) % 3 == 0) [] else l
    pure def cede(a: Addr): List[Tx] = [{ ...T("own", a, "transferOwnerShip"), a1: BOX }, T(BOX, a, "acceptOwnerShip")]
    third(r).concat(maybe(1, cede("C1"))).concat(maybe(2, cede("C2"))).concat(maybe(3, cede("NET"))).concat(maybe(4, cede("R1")))
      .concat(maybe(5, cede("ICXT"))).concat(maybe(6, cede("NET2"))).concat(maybe(7, cede("C3")))
      .concat(maybe(8, [{ ...T("mgr", "C1", "transferManagement"), a1: BOX }, T(BOX, "C1", "acceptManagement")]))
      .concat(maybe(9, [{ ...T(BOX, "F3", "issue"), a1: "bob", n1: mag(r[31]) }]))
  }

  /// BOX is registered as the network: what it sends to converters they convert
  pure def direct(r: List[int]): List[Tx] =
    [ { ...T("own", "R1", "registerAddress"), s: "Network", a1: BOX } ]

  /// any of the switches a converter has, thrown
  pure def twists(r: List[int]): List[Tx] = {
    pure def maybe(k: int, l: List[Tx]): List[Tx] = if ((r[k % 32] / 977) % 3 == 0) l else []
    maybe(1, [{ ...T("own", "C1", "disableConnectorPurchases"), a1: "T1", b: true }])
      .concat(maybe(2, [{ ...T("own", "C1", "disableConnectorPurchases"), a1: "ICXT", b: true }]))
      .concat(maybe(3, [{ ...T("own", "C2", "disableConnectorPurchases"), a1: "F1", b: true }]))
      .concat(maybe(4, [{ ...T("own", "C2", "disableConversions"), b: true }]))
      .concat(maybe(5, [{ ...T("mgr", "C1", "disableConversions"), b: true }]))
      .concat(maybe(6, [{ ...T("own", "C1", "disableTokenTransfers"), b: true }]))
      .concat(maybe(7, [{ ...T("own", "C2", "disableTokenTransfers"), b: true }]))
      .concat(maybe(8, [{ ...T("own", "C2", "updateConnector"), a1: "F1", n1: 1 + r[8] % 1000000, b: true, n2: usual(r[9]) }]))
      .concat(maybe(9, [{ ...T("own", "C1", "transferOwnerShip"), a1: pick(["ali", "mgr", BOX], r[10]) }]))
      .concat(maybe(11, [{ ...T("own", "C2", "transferManagement"), a1: "ali" }, T("ali", "C2", "acceptManagement")]))
      .concat(maybe(12, [{ ...T("own", "C2", "transferTokenOwnership"), a1: pick(["ali", "own", "C1"], r[13]) }]))
      .concat(maybe(14, [{ ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: false }]))
      .concat(maybe(15, [{ ...T("own", "R1", "unregisterAddress"), s: "Network" }]))
      .concat(maybe(16, [{ ...T("own", "C1", "disableRegistryUpdate"), b: true }]))
      .concat(maybe(17, [{ ...T("mgr", "C1", "setConversionFee"), n1: 0 }]))
      .concat(maybe(18, [{ ...T("own", "C3", "disableConversions"), b: true }]))
      .concat(maybe(19, [{ ...T("own", "C2", "transferOwnerShip"), a1: BOX }, T(BOX, "C2", "acceptOwnerShip")]))
  }

  /// converters in operation that lack something: connectors, stock, a supply, a settled ownership
  pure def bare(r: List[int]): List[Tx] = {
    pure def maybe(k: int, l: List[Tx]): List[Tx] = if ((r[k % 32] / 977) % 2 == 0) l else []
    val share = 1 + r[10] % 400000
    [ { ...T("own", "F3", "deploy_flex"), n1: if (r[30] % 3 == 0) mag(r[31]) else 0, n2: r[29] % 2, s: "" },
      { ...T("own", "C4", "deploy_conv"), a1: "F1", a2: "R1", n1: r[13] % 1000001, a3: if (r[0] % 4 == 0) "T1" else NONE, n2: share },
      { ...T("own", "C5", "deploy_conv"), a1: "F2", a2: "R1", n1: PPM, a3: pick([NONE, ZERO, "F1"], r[1]), n2: share },
      { ...T("own", "C6", "deploy_conv"), a1: "F3", a2: pick(["R1", "R2"], r[2]), n1: 30000, a3: "T1", n2: pick([PPM, 1, share], r[3]) },
      { ...T("own", "C7", "deploy_conv"), a1: "F1", a2: "R1", n1: 30000, a3: "F2", n2: share } ]
    .concat(maybe(4, [{ ...T("own", "C4", "addConnector"), a1: "ICXT", n1: share, b: r[5] % 2 == 0 }]))
    .concat(maybe(6, [send("T1", "own", "C6", 1 + mag(r[1]) / 2)]))
    .concat(maybe(7, [{ ...T("own", "F1", "issue"), a1: "C4", n1: mag(r[8]) }]))
    .concat(maybe(9, handover("F1", "C4")))
    .concat(maybe(11, handover("F2", "C5")))
    .concat(maybe(12, handover("F3", "C6")))
    .concat(if ((r[9] / 977) % 2 == 0) maybe(14, [{ ...T("own", "C4", "transferTokenOwnership"), a1: "C7" }]
                                               .concat(if (r[15] % 2 == 0) [T("own", "C7", "acceptTokenOwnership")] else [])) else [])
  }

  /// four converters sharing connectors, so that paths meet again
  pure def web(r: List[int]): List[Tx] = {
    val w = range(0, 12).foldl([], (l, i) => l.append(1 + r[i] % 240000))
    val even = r[31] % 2 == 0
    [ T("own", "R1", "deploy_reg"), T("own", "NET", "deploy_net"), T("own", "ICXT", "deploy_icx"),
      { ...T("own", "R1", "registerAddress"), s: "Network", a1: "NET" },
      { ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: true },
      { ...T("own", "T1", "deploy_irc"), n1: 10^12, n2: 12, s: "Token One" },
      { ...T("own", "T2", "deploy_irc"), n1: 10^12, n2: 3, s: "Token Two" },
      { ...T("own", "ICXT", "deposit"), n1: 5 * 10^21 }, { ...T("ali", "ICXT", "deposit"), n1: 10^20 } ]
    .concat(["ali", "bob", BOX].foldl([], (l, a) => l.concat([
      send("T1", "own", a, 10^21 + r[12] % 10^18), send("T2", "own", a, 10^13) ])))
    .concat([1, 2, 3, 4].foldl([], (l, k) => {
      val f = pick(["F0", "F1", "F2", "F3", "F4"], k)
      val c = pick(["C0", "C1", "C2", "C3", "C4"], k)
      val conns = pick([[], ["T1", "ICXT", "T2"], ["F1", "T1", "ICXT"], ["F2", "T2", "ICXT", "T1"], ["T1", "F1", "F3"]], k)
      val x = r[12 + k]
      l.concat([
        { ...T("own", f, "deploy_flex"), n1: 10^20 + x % 10^20, n2: k % 2, s: f },
        { ...T("own", c, "deploy_conv"), a1: f, a2: "R1", n1: PPM, a3: conns[0], n2: w[k] } ])
      .concat(range(1, conns.length()).foldl([], (m, i) =>
        m.append({ ...T("own", c, "addConnector"), a1: conns[i], n1: if (even) w[k] else w[4 + i + k % 3] })))
      .concat(conns.foldl([], (m, t) =>
        m.append(send(t, "own", c, if (t == "T2") 10^12 + x % 10^14 else 10^18 + x % 10^19))))
      .concat(if (r[17 + k] % 2 == 0) [{ ...T("own", f, "issue"), a1: c, n1: 10^17 + r[18 + k] }] else [])
      .concat(if (r[17 + k] % 5 == 0) [{ ...T("own", c, "updateConnector"), a1: conns[1], n1: if (even) w[k] else w[5 + k % 3],
                                         b: true, n2: 10^18 + r[22 + k] }] else [])
      .concat([
        { ...T("own", c, "setConversionFee"), n1: pick([0, 0, 1, 1000, 30000, 250000], r[26 + k]) },
        send(f, "own", "ali", 10^19), send(f, "own", BOX, 10^18), send(f, "own", "bob", 10^17) ])
      .concat(handover(f, c)) }))
  }

  /// a row of 11 flexible tokens, each a connector of the next: paths of up to 11 conversions
  pure def row(r: List[int]): List[Tx] =
    [ T("own", "R1", "deploy_reg"), T("own", "NET", "deploy_net"), T("own", "ICXT", "deploy_icx"),
      { ...T("own", "R1", "registerAddress"), s: "Network", a1: "NET" },
      { ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: true },
      { ...T("own", "T1", "deploy_irc"), n1: 10^12, n2: 10, s: "Token One" },
      { ...T("own", "ICXT", "deposit"), n1: 10^21 },
      { ...T("ali", "ICXT", "deposit"), n1: 10^18 },
      send("T1", "own", "ali", 10^20), send("T1", "own", BOX, 10^20) ]
    .concat(range(1, 12).foldl([], (l, k) => {
      val f = pick(["F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11"], k)
      val p = pick(["F0", "T1", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10"], k)
      val c = pick(["C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7", "C8", "C9", "C10", "C11"], k)
      val x = r[k % r.length()] + k
      l.concat([
        { ...T("own", f, "deploy_flex"), n1: 10^20 + x % 10^20, n2: 0, s: f },
        { ...T("own", c, "deploy_conv"), a1: f, a2: "R1", n1: 50000, a3: p, n2: 200000 + x % 800000 },
        send(p, "own", c, 10^19 + x % 10^19), send(f, "own", "ali", 10^19), send(f, "own", BOX, 10^18),
        { ...T("own", c, "setConversionFee"), n1: if (x % 3 == 0) x % 5000 else 0 } ])
      .concat(if (x % 4 == 0 and x % 800000 < 600000)
                [{ ...T("own", c, "addConnector"), a1: "ICXT", n1: 100000 }, send("ICXT", "own", c, 10^18)]
              else [])
      .concat(handover(f, c)) }))

  /// eleven flexible tokens with the same three connectors: paths of up to 11 conversions that come by
  /// the same tokens again and again
  pure def hub(r: List[int]): List[Tx] =
    [ T("own", "R1", "deploy_reg"), T("own", "NET", "deploy_net"), T("own", "ICXT", "deploy_icx"),
      { ...T("own", "R1", "registerAddress"), s: "Network", a1: "NET" },
      { ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: true },
      { ...T("own", "T1", "deploy_irc"), n1: 10^12, n2: 12, s: "Token One" },
      { ...T("own", "T2", "deploy_irc"), n1: 10^12, n2: 3, s: "Token Two" },
      { ...T("own", "ICXT", "deposit"), n1: 5 * 10^21 }, { ...T("ali", "ICXT", "deposit"), n1: 10^20 },
      send("T1", "own", "ali", 10^21), send("T1", "own", BOX, 10^20), send("T2", "own", "ali", 10^13), send("T2", "own", BOX, 10^13) ]
    .concat(range(1, 12).foldl([], (l, k) => {
      val f = pick(["F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11"], k)
      val c = pick(["C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7", "C8", "C9", "C10", "C11"], k)
      val x = r[k % r.length()] + k
      val w = 1 + x % 300000
      l.concat([
        { ...T("own", f, "deploy_flex"), n1: 10^20 + x % 10^20, n2: 0, s: f },
        { ...T("own", c, "deploy_conv"), a1: f, a2: "R1", n1: 50000, a3: "T1", n2: w },
        { ...T("own", c, "addConnector"), a1: "ICXT", n1: if (x % 2 == 0) w else 1 + x / 2 % 300000 },
        send("T1", "own", c, 10^19 + x % 10^19), send("ICXT", "own", c, 10^19 + x % 10^19),
        send(f, "own", if (x % 2 == 0) "ali" else BOX, 10^19) ])
      .concat(if (x % 3 == 0) [] else [{ ...T("own", c, "addConnector"), a1: "T2", n1: w }, send("T2", "own", c, 10^13 + x % 10^13)])
      .concat(if (x % 5 == 0) [{ ...T("own", c, "setConversionFee"), n1: x % 5000 }] else [])
      .concat(handover(f, c)) }))

  /// a converter with up to twelve connectors, and room for another one or none
  pure def many(r: List[int]): List[Tx] = {
    val all12 = ["T1", "ICXT", "T2", "K1", "K2", "K3", "K4", "K5", "K6", "K7", "F2", "K8"]
    val n = 6 + r[10] % 7
    val even = r[11] % 3 == 0
    range(1, 9).foldl([], (l, k) => {
      val t = pick(["K0", "K1", "K2", "K3", "K4", "K5", "K6", "K7", "K8"], k)
      l.append({ ...T("own", t, "deploy_irc"), n1: 10^9 + r[k], n2: (r[k] / 64) % 12, s: t })
        .append(send(t, "own", "ali", 10^8 + r[k] % 10^9)).append(send(t, "own", BOX, 10^7)) })
    .concat([
      { ...T("own", "C1", "deploy_conv"), a1: "F1", a2: "R1", n1: pick([0, 30000, PPM], r[14]), a3: "T1", n2: if (even) PPM / n else 1 + r[12] % 80000 },
      { ...T("own", "C2", "deploy_conv"), a1: "F2", a2: "R1", n1: 1000, a3: "F1", n2: 500000 } ])
    .concat(range(1, n).foldl([], (l, i) =>
      l.append({ ...T("own", "C1", "addConnector"), a1: all12[i], n1: if (even) PPM / n else 1 + r[12 + i] % 80000, b: r[12 + i] % 7 == 0 })))
    .concat(range(0, n).foldl([], (l, i) =>
      if (all12[i] == "F2") l.append({ ...T("own", "F2", "issue"), a1: "C1", n1: usual(r[24]) })
      else if (r[12 + i] % 9 == 1) l
      else l.append(send(all12[i], "own", "C1", 1 + r[12 + i] % (if (all12[i] == "T1") 10 * mag(r[1]) else 10^6)))))
    .concat(if (r[13] % 4 == 0) [{ ...T("own", "F1", "transferOwnerShip"), a1: "C1" }] else handover("F1", "C1").concat(manager("C1")))
  }

  /// all there is of a flexible token in one hand, so that whole supplies are sold and burned
  pure def sole(r: List[int]): List[Tx] = {
    val f1 = 8 * usual(r[5]) * 10^(r[6] % 3)
    val f2 = 8 * mag(r[7])
    val who = pick(["ali", "bob", BOX, "mgr"], r[28])
    val some = 1 + r[23] % (f1 / 2)
    spread("T1", mag(r[1]) * 10^(r[2] % 4) * 10).concat(spread("T2", usual(r[3]) * 10^(r[4] % 19) * 10))
      .concat(converters(r))
      .concat(stock(r).select(x => x.to != "F1"))
      .concat(if (r[29] % 3 == 0) [send("F1", "own", who, f1)] else [send("F1", "own", "C2", some), send("F1", "own", who, f1 - some)])
      .concat([send("F2", "own", pick([who, "ali", BOX], r[30]), f2)])
      .concat(operation(r)).concat(fees(r)).concat(if (r[0] % 3 == 0) virtuals(r) else [])
      .concat(if (r[31] % 3 == 0) [{ ...T("mgr", "C1", "disableConversions"), b: true }] else [])
      .concat(if (r[31] % 5 == 0) [{ ...T("own", "C2", "disableConversions"), b: true }] else [])
      .concat(if (r[31] % 7 == 0) [{ ...T("own", "C1", "disableConnectorPurchases"), a1: "T1", b: true }] else [])
      .concat(if (r[31] % 11 == 0) [{ ...T("own", "C2", "disableTokenTransfers"), b: true }] else [])
  }

  // ---- systems with a past ------------------------------------------------------------------------
  /// those transactions of `more` that succeed, after `base`
  pure def tried(base: List[Tx], more: List[Tx]): List[Tx] =
    more.foldl({ l: base, w: prepare(base).w }, (s, x) => {
      val q = exec(s.w, x, "accept", NOTX)
      if (q.ok) { l: s.l.append(x), w: q.w } else s }).l
  pure def swap(who: Addr, p: List[Addr], v: int): Tx =
    if (p[0] == "ICXT") { ...T(who, "NET", "convert"), n1: v, d: { ...NODATA, k: "path", path: p, min: 1 } }
    else { ...T(who, p[0], "transfer"), a1: "NET", n1: v, d: { k: "path", to: NONE, min: 1, path: p, ben: NONE } }
  pure def pass(f: Addr, a: Addr, b: Addr): List[Tx] =
    [{ ...T("own", a, "transferTokenOwnership"), a1: b }, T("own", b, "acceptTokenOwnership"), T(b, f, "acceptOwnerShip")]
  pure def past(r: List[int]): List[Tx] = {
    pure def maybe(k: int, l: List[Tx]): List[Tx] = if ((r[k % 32] / 977) % 2 == 0) l else []
    pure def trades(k: int): List[Tx] = [
      swap("ali", ["T1", "F1", "ICXT"], mag(r[k])), swap("ali", ["ICXT", "F1", "F1", "F2", "F2"], usual(r[k + 1])),
      swap("bob", ["F2", "F2", "F1", "F1", "T1"], mag(r[k + 2])), swap("bob", ["T2", "F1", "T1"], usual(r[k + 3])),
      swap("ali", ["F1", "F2", "F2"], usual(r[k + 4])) ]
    val fresh = [
      { ...T("own", "C4", "deploy_conv"), a1: "F1", a2: "R1", n1: 30000, a3: "T1", n2: 1 + r[5] % 300000 },
      { ...T("own", "C4", "addConnector"), a1: "ICXT", n1: 1 + r[6] % 300000, b: r[6] % 5 == 0 },
      { ...T("own", "C5", "deploy_conv"), a1: "F2", a2: "R1", n1: PPM, a3: "F1", n2: pick([PPM, 1 + r[7] % PPM], r[8]) },
      send("T1", "own", "C4", 1 + mag(r[1])), send("ICXT", "own", "C4", usual(r[9])), send("F1", "bob", "C5", 1 + r[10] % usual(r[5])) ]
    trades(11)
      .concat(fresh)
      .concat(maybe(1, pass("F1", "C1", "C4")))
      .concat(maybe(2, pass("F2", "C2", "C5")))
      .concat(trades(16))
      // registries, people and switches on their way
      .concat(maybe(3, [{ ...T("own", "R1", "registerAddress"), s: "ScoreRegistry", a1: "R2" }, T("own", "C1", "updateRegistry"),
                        { ...T("own", "R1", "registerAddress"), s: "ScoreRegistry", a1: "R1" }]))
      .concat(maybe(4, [T("own", "C1", "restoreRegistry")]))
      .concat(maybe(5, [{ ...T("mgr", "C1", "transferManagement"), a1: "ali" }, T("ali", "C1", "acceptManagement")]))
      .concat(maybe(6, [{ ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: false }, { ...T("own", "NET", "registerIcxToken"), a1: BOX, b: true }]))
      .concat(maybe(7, [{ ...T("mgr", "C1", "disableConversions"), b: true }, { ...T("own", "C1", "disableConnectorPurchases"), a1: "T1", b: true },
                        { ...T("own", "C4", "disableConnectorPurchases"), a1: "T1", b: true }]))
      .concat(maybe(8, [{ ...T("own", "C1", "disableTokenTransfers"), b: true }, { ...T("own", "C4", "disableTokenTransfers"), b: true }]))
      .concat(maybe(9, [{ ...T("own", "NET", "transferOwnerShip"), a1: "eve" }, T("eve", "NET", "acceptOwnerShip")]))
      .concat(maybe(10, [send("T1", "ali", "bob", 0), { ...T("ali", "ICXT", "withdraw"), n1: 1 }, send("F2", "bob", "ali", 1)]))
      .concat(trades(21))
      // and back
      .concat(maybe(7, [{ ...T("mgr", "C1", "disableConversions"), b: false }, { ...T("own", "C1", "disableConnectorPurchases"), a1: "T1", b: false },
                        { ...T("own", "C4", "disableConnectorPurchases"), a1: "T1", b: false }]))
      .concat(maybe(11, [{ ...T("own", "C1", "disableTokenTransfers"), b: false }, { ...T("own", "C4", "disableTokenTransfers"), b: false }]))
      .concat(maybe(12, [{ ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: true }]))
      .concat(maybe(13, [{ ...T("eve", "NET", "transferOwnerShip"), a1: "own" }, T("own", "NET", "acceptOwnerShip"),
                         { ...T("own", "NET", "registerIcxToken"), a1: "ICXT", b: true }]))
      .concat(maybe(14, [{ ...T("ali", "C1", "transferManagement"), a1: "mgr" }, T("mgr", "C1", "acceptManagement")]))
      .concat(maybe(15, pass("F1", "C4", pick(["C1", "own", "C1"], r[26]))))
      .concat(maybe(17, pass("F2", "C5", pick(["C2", "own", "C2"], r[27]))))
      .concat(maybe(18, pass("F1", "C1", pick(["C4", "own", "C3"], r[28]))))
      .concat(maybe(19, [{ ...T("own", "C1", "updateConnector"), a1: "T1", n1: 1 + r[29] % 300000, b: r[29] % 2 == 0, n2: mag(r[30]) },
                         { ...T("own", "C4", "updateConnector"), a1: "T1", n1: 1 + r[29] % 300000, b: r[29] % 2 == 0, n2: mag(r[30]) }]))
      .concat(trades(26))
  }

  pure def setup_of(scenario: str, r: List[int]): List[Tx] =
    if (scenario == "empty") []
    else if (scenario == "fresh") foundation(r).concat(holdings(r)).concat(converters(r))
    else if (scenario == "stocked") foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r))
    else if (scenario == "live")
      foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(hoards(r)).concat(operation(r)).concat(fees(r))
    else if (scenario == "virt")
      foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(hoards(r)).concat(operation(r)).concat(fees(r))
        .concat(virtuals(r))
    else if (scenario == "moved")
      foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(operation(r)).concat(fees(r))
        .concat(moved(r))
    else if (scenario == "odd")
      foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(hoards(r)).concat(operation(r)).concat(fees(r))
        .concat(if (r[0] % 2 == 0) virtuals(r) else []).concat(twists(r))
    else if (scenario == "third")
      foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(operation(r)).concat(fees(r)).concat(third(r))
    else if (scenario == "corp")
      foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(hoards(r)).concat(operation(r)).concat(fees(r))
        .concat(if (r[0] % 3 == 0) virtuals(r) else []).concat(corp(r))
    else if (scenario == "direct")
      foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(hoards(r)).concat(operation(r)).concat(fees(r))
        .concat(if (r[0] % 3 == 0) virtuals(r) else []).concat(direct(r))
    else if (scenario == "bare") foundation(r).concat(holdings(r)).concat(bare(r))
    else if (scenario == "web") web(r)
    else if (scenario == "hub") hub(r)
    else if (scenario == "sole") foundation(r).concat(sole(r))
    else if (scenario == "many") foundation(r).concat(holdings(r)).concat(many(r))
    else if (scenario == "past")
      tried(foundation(r).concat(holdings(r)).concat(converters(r)).concat(stock(r)).concat(hoards(r)).concat(operation(r)).concat(fees(r))
              .concat(if (r[0] % 3 == 0) virtuals(r) else []), past(r))
    else row(r)

  pure val GENESIS: World = {
    tok: Map(), cv: Map(), rg: Map(), nt: Map(), box: "accept",
    icx: Map("own" -> 10^22, "mgr" -> 10^20, "ali" -> 10^25, "bob" -> 10^20, "eve" -> 10^18, BOX -> 10^19) }

  /// the state after the set-up; every transaction of it has to succeed
  pure def prepare(l: List[Tx]): Res =
    l.foldl(good(GENESIS), (r, x) => if (not(r.ok)) r else {
      val q = exec(r.w, x, "accept", NOTX)
      if (q.ok) { ...q, ev: [], hops: [] } else q })
}
