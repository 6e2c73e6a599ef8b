// -*- mode: Bluespec; -*-
/**
 * Questions to the price formula: which ones (on both sides of every threshold of the published
 * algorithm, at the edges of the domain, at random), their exact answers (C26), and what any
 * answers have to satisfy with respect to the bonding curve (C25) and in trading back and forth
 * (C27), without reference to the algorithm.
 */
module prices {
  import formula.* from "./formula"

  /// fn: "purchase" (supply, balance, weight, deposit), "sale" (supply, balance, weight, sold),
  ///     "cross" (balance 1, weight 1, balance 2, weight 2, amount)
  type Ask = { fn: str, a: List[int], ans: int }

  var asks: List[Ask]
  var n: int

  /// a session: kind, parameters, and the answers in order. The questions of a session:
  ///   buysell  x = purchase(s, b, w, d);  sale(s + x, b + d, w, x)
  ///   sellbuy  x = sale(s, b, w, d);  purchase(s - d, b - x, w, x)
  ///   around   x = cross(s, w, b, w2, d);  cross(b - x, w2, s + d, w, x)
  ///   splitbuy, splitsell, splitcross: all of d + e at once;  d;  then e
  ///   morebuy, moresell, morecross: d;  d + e
  type Session = { kind: str, s: int, b: int, w: int, w2: int, d: int, e: int }
  var session: Session
  pure val NOSESSION: Session = { kind: "none", s: 0, b: 0, w: 0, w2: 0, d: 0, e: 0 }

  pure def answer(fn: str, a: List[int]): int =
    if (fn == "purchase") calcPurchase(a[0], a[1], a[2], a[3])
    else if (fn == "sale") calcSale(a[0], a[1], a[2], a[3])
    else calcCross(a[0], a[1], a[2], a[3], a[4])

  pure def among(l: List[int], r: int): int = l[r % l.length()]
  /// 1 .. 2^bits
  pure def big(bits: int, r: int, s: int): int = (r + s * 2^62 + (r % 1021) * s * 2^124 / 509) % 2^bits + 1
  /// any magnitude
  pure def magnitude(most: int, r: int, s: int): int = big(1 + (r / 16) % most, s, r)
  pure def ceilDiv(x: int, y: int): int = (x + y - 1) / y
  /// what only scales an answer: of any size, if the last digits of the power itself shall show
  pure def scale(most: int, r: int, s: int, t: int, large: bool): int = magnitude(most, r, s) * (if (large and t % 5 < 2) 2^(t / 8 % 140) else 1)
  /// a weight that differs by little
  pure def nearby(w: int, r: int): int = {
    val d = 1 + (if (r % 2 == 0) (r / 8) % 3 else (r / 8) % 150)
    if (r / 2 % 2 == 0 and w + d <= MAX_WEIGHT) w + d else if (w > d) w - d else w + d
  }

  // ---- thresholds -------------------------------------------------------------------------------
  /// bases (scaled by 2^127) around which the logarithm changes its course
  pure val BASES: List[int] =
    LOG_STEPS.concat([OPT_LOG_MAX, FIXED_1, FIXED_2, 2 * FIXED_2, 4 * FIXED_2, 8 * FIXED_2, 2^140, 2^190, 2^255, 2^256 - 2^127, 3 * FIXED_1, 5 * FIXED_1 / 2])
  /// exponents around which the exponential changes its course: every precision step in reach,
  /// and the binary digits handled by the optimised routine
  pure val EXPONENTS: List[int] =
    range(0, 32).foldl([OPT_EXP_MAX], (l, i) => l.append(MAX_EXP[i] + 1))
      .concat(range(0, 7).foldl([], (l, i) => l.append(2^(124 + i)))).concat([OPT_EXP_MAX - 2^124, 3 * 2^128, MAX_EXP[32] + 1])

  pure val WEIGHTS: List[int] = [1, 2, 10, 1000, 50000, 100000, 250000, 333333, 333334, 500000, 600000, 999999]

  pure def baseAsks(t: int, r: List[int], large: bool): List[Ask] = {
    // bases near the largest one need the smallest amounts
    val d = if (t > 2^240 and r[2] % 4 != 0) 1 + (r[2] / 4) % 3 else if (t > 2^180 and r[2] % 2 == 0) 1 + (r[2] / 4) % 1000
            else among([FIXED_1, 2^126, 2^64, big(127, r[0], r[1]), magnitude(120, r[0], r[1])], r[2])
    val edge = ceilDiv(t * d, FIXED_1)
    val w = if (r[3] % 2 == 0) among(WEIGHTS, r[4]) else 1 + r[4] % 999999
    val w2 = if (r[5] % 4 == 3) nearby(w, r[6]) else if (r[5] % 2 == 0) among(WEIGHTS, r[6]) else 1 + r[6] % MAX_WEIGHT
    val other = scale(110, r[7], r[0], r[11], large)
    [-1, 0, 1].foldl([], (l, i) => {
      val top = edge + i
      if (top <= d) l
      else if (r[8] % 3 == 0) l.append({ fn: "purchase", a: [other, d, w, top - d], ans: 0 })
      else if (r[8] % 3 == 1) l.append({ fn: "sale", a: [top, other, w, top - d], ans: 0 })
      else l.append({ fn: "cross", a: [d, w, other, w2, top - d], ans: 0 })
    })
  }

  /// log of the base top/d, as the algorithm sees it
  pure def logOf(top: int, d: int): int = {
    val base = top * FIXED_1 / d
    if (base < OPT_LOG_MAX) optimalLog(base) else generalLog(base)
  }
  /// the smallest numerator for which the exponent reaches t
  pure def reaching(t: int, d: int, expN: int, expD: int, lowest: int, highest: int): int =
    range(0, 130).foldl({ lo: lowest, hi: highest }, (s, i) =>
      if (s.lo >= s.hi) s
      else {
        val mid = (s.lo + s.hi) / 2
        if (logOf(mid, d) * expN / expD >= t) { lo: s.lo, hi: mid } else { lo: mid + 1, hi: s.hi }
      }).hi

  pure def exponentAsks(t: int, r: List[int]): List[Ask] = {
    // e^(t / 2^127 / exponent) has about this many bits
    val raw = if (r[3] % 2 == 0) among(WEIGHTS, r[4]) else 1 + r[4] % 999999
    val kind = r[8] % 3
    val w1 = if (kind == 0) 999999 - r[4] % 100000 else raw
    val w2 = if (kind == 0) MAX_WEIGHT else if (r[5] % 2 == 0) 1 + r[6] % MAX_WEIGHT else max(1, raw * (1 + r[6] % 9) / 10)
    val expN = if (kind == 1) MAX_WEIGHT else w1
    val expD = if (kind == 1) raw else w2
    val bits = t * expD / expN * LN2_DEN / LN2_NUM / FIXED_1 + 1
    if (bits > 127) []
    else {
      val d = 2^(127 - bits) + (if (bits < 100) r[1] % 2^20 else 0)
      val edge = reaching(t, d, expN, expD, d + 1, MAX_NUM - 1)
      val other = (10^(10 + r[2] % 20) + r[7]) * (if (r[9] % 5 < 2) 2^(r[9] / 8 % 140) else 1)
      [-1, 0, 1].foldl([], (l, i) => {
        val top = edge + i
        if (top <= d or top >= MAX_NUM) l
        else if (kind == 0) l.append({ fn: "purchase", a: [other, d, w1, top - d], ans: 0 })
        else if (kind == 1) l.append({ fn: "sale", a: [top, other, raw, top - d], ans: 0 })
        else l.append({ fn: "cross", a: [d, w1, other, w2, top - d], ans: 0 })
      })
    }
  }
  pure def max(x: int, y: int): int = if (x > y) x else y

  // ---- edges of the domain, special cases, and anything ----------------------------------------
  pure def edgeAsks(r: List[int]): List[Ask] = {
    val s = magnitude(127, r[0], r[1])
    val b = magnitude(127, r[2], r[3])
    val w = if (r[4] % 3 == 0) MAX_WEIGHT else if (r[4] % 3 == 1) among(WEIGHTS, r[5]) else 1 + r[5] % MAX_WEIGHT
    val b2 = magnitude(127, r[6], r[7])
    val k = r[8] % 22
    val v = magnitude(120, r[5], r[6])
    val one =
      if (k == 0) { fn: "purchase", a: [0, b, w, v] } else if (k == 1) { fn: "purchase", a: [s, 0, w, v] }
      else if (k == 2) { fn: "purchase", a: [s, b, among([0, -1, MAX_WEIGHT + 1], r[9]), v] }
      else if (k == 3) { fn: "purchase", a: [s, b, w, 0] }
      else if (k == 4) { fn: "purchase", a: [s, b, MAX_WEIGHT, v] }
      else if (k == 5) { fn: "purchase", a: [s, b, w, MAX_NUM - b + among([-1, 0, 1], r[9])] }
      else if (k == 6) { fn: "sale", a: [0, b, w, 0] } else if (k == 7) { fn: "sale", a: [s, 0, w, s] }
      else if (k == 8) { fn: "sale", a: [s, b, among([0, -1, MAX_WEIGHT + 1], r[9]), s] }
      else if (k == 9) { fn: "sale", a: [s, b, w, s + among([-1, 0, 1], r[9])] }
      else if (k == 10) { fn: "sale", a: [s, b, w, 0] }
      else if (k == 11) { fn: "sale", a: [s, b, MAX_WEIGHT, v % s] }
      else if (k == 12) { fn: "sale", a: [MAX_NUM + among([-1, 0, 1], r[9]), b, w, v] }
      else if (k == 13) { fn: "cross", a: [0, w, b2, w, v] } else if (k == 14) { fn: "cross", a: [b, w, 0, w, v] }
      else if (k == 15) { fn: "cross", a: [b, among([0, -1, MAX_WEIGHT + 1], r[9]), b2, w, v] }
      else if (k == 16) { fn: "cross", a: [b, w, b2, among([0, -1, MAX_WEIGHT + 1], r[9]), v] }
      else if (k == 17) { fn: "cross", a: [b, w, b2, w, v] }
      else if (k == 18) { fn: "cross", a: [b, w, b2, 1 + r[9] % MAX_WEIGHT, 0] }
      else if (k == 19) { fn: "cross", a: [b, w, b2, 1 + r[9] % MAX_WEIGHT, MAX_NUM - b + among([-1, 0, 1], r[7])] }
      else if (k == 20) { fn: "purchase", a: [-s, b, w, v] } else { fn: "cross", a: [b, w, -b2, w, v] }
    [{ fn: one.fn, a: one.a, ans: 0 }]
  }
  /// proportional prices that are just below, at or just above a whole number
  pure def nearAsks(r: List[int]): List[Ask] = {
    val x = magnitude(127, r[0], r[1])
    val v = if (r[8] % 3 == 0) 2^(r[2] % 64) else magnitude(100, r[2], r[3])
    val q = 1 + magnitude(if (r[8] % 5 == 0) 100 else 24, r[4], r[5]) % (x * v)
    val y = max(1, x * v / q + among([0, 1, 1, 1, 2, -1], r[6]))
    val w = 1 + r[7] % MAX_WEIGHT
    val k = r[9] % 3
    if (k == 0) [{ fn: "purchase", a: [x, y, MAX_WEIGHT, v], ans: 0 }]
    else if (k == 1 and v <= y) [{ fn: "sale", a: [y, x, MAX_WEIGHT, v], ans: 0 }]
    else if (v < y) [{ fn: "cross", a: [y - v, w, x, w, v], ans: 0 }]
    else [{ fn: "cross", a: [v, w, x * (v + y) + among([0, 1, -1], r[6]), w, y], ans: 0 }]
  }
  /// from a tiny part of x to a multiple
  pure def portion(x: int, r: List[int]): int =
    max(1, x / 2^(r[5] % 90) * (if (r[6] % 5 == 0) 1 + r[7] % 1000 else 1))
  pure def anyAsks(r: List[int], weight: int, weight2: int, large: bool): List[Ask] = {
    val k = r[8] % 3
    val s = if (k == 0) scale(127, r[0], r[1], r[8] / 3, large) else magnitude(127, r[0], r[1])
    val b = if (k == 1) scale(127, r[2], r[3], r[8] / 3, large) else magnitude(127, r[2], r[3])
    val b2 = scale(127, r[1], r[4], r[8] / 3, large)
    if (r[8] % 3 == 0) [{ fn: "purchase", a: [s, b, weight, portion(if (r[7] % 4 == 0) big(127, r[4], r[5]) else b, r)], ans: 0 }]
    else if (r[8] % 3 == 1) [{ fn: "sale", a: [s, b, weight, if (r[6] % 5 == 0) s - portion(s, r) % s else portion(s, r) % s + (if (s == 1) 1 else 0)], ans: 0 }]
    else [{ fn: "cross", a: [b, weight, b2, weight2, portion(if (r[7] % 4 == 0) big(127, r[4], r[5]) else b, r)], ans: 0 }]
  }

  pure def filled(l: List[Ask]): List[Ask] = l.foldl([], (m, x) => m.append({ ...x, ans: answer(x.fn, x.a) }))

  /// what is asked in step i of a run of C26
  pure def exactAsks(i: int, r: List[int]): List[Ask] = {
    val k = i % 6
    val j = i / 6
    if (k == 0) exponentAsks(EXPONENTS[j % EXPONENTS.length()], r)
    else if (k == 1 or k == 2) baseAsks(BASES[(2 * j + k) % BASES.length()], r, true)
    else if (k == 3) (if (j % 3 == 0) nearAsks(r) else edgeAsks(r))
    else {
      val w = if (r[9] % 3 == 0) among(WEIGHTS, r[10]) else 1 + r[10] % MAX_WEIGHT
      anyAsks(r, w, if (r[11] % 5 == 0) nearby(w, r[11] / 5) else if (r[11] % 3 == 0) among(WEIGHTS, r[10]) else 1 + r[11] % MAX_WEIGHT, true)
    }
  }

  // ---- weights for which the curve is decided between integers ----------------------------------
  pure val ROUND: List[int] = [500000, 250000, 100000, 200000, 300000, 400000, 600000, 750000, 900000, 125000, 50000, 10000,
                               20000, 990000, 5000, 1000, 999000, 333000, 62500, 640000, 160000, 1000000]
  /// neighbours in this sense differ by one, or by little, and are decided exactly all the same
  pure def neighbours(r: int): (int, int) = {
    val m = 1 + (r / 128) % 999
    val k = 1 + (if (r % 2 == 0) (r / 4) % 4 else (r / 4) % 1000)
    if (r / 2 % 2 == 0) (m * k, (m + 1) * k) else ((m + 1) * k, m * k)
  }
  pure def curveAsks(i: int, r: List[int]): List[Ask] = {
    val k = i % 5
    val j = i / 5
    val close = neighbours(r[10])
    val w = if (r[9] % 6 == 1) close._1 else if (r[9] % 6 == 2) 1 + r[10] % MAX_WEIGHT
            else if (r[9] % 18 == 4) MAX_WEIGHT - 1 - r[10] % 200 else among(ROUND, r[10])
    val w2 = if (r[9] % 6 == 1) close._2 else if (r[9] % 6 == 2) 1 + r[11] % MAX_WEIGHT
             else if (r[9] % 3 == 0) among([7, 13, 3, 11], r[11]) * 10000 else among(ROUND, r[11])
    if (k == 0) baseAsks(BASES[j % BASES.length()], r, false).foldl([], (l, x) => l.append(
        { ...x, a: if (x.fn == "cross") [x.a[0], w, x.a[2], w2, x.a[4]] else x.a.replaceAt(2, w) }))
    else if (k == 1) (if (j % 3 == 0) nearAsks(r) else edgeAsks(r))
    else anyAsks(r, w, w2, false)
  }

  action begin(i: int): bool = all { asks' = [], n' = i, session' = NOSESSION }
  action exact(r: List[int]): bool = all { asks' = filled(exactAsks(n, r)), n' = n + 1, session' = session }
  action curve(r: List[int]): bool = all { asks' = curveAsks(n, r), n' = n + 1, session' = session }

  // ---- C25: any answers, judged ----------------------------------------------------------------------
  pure def gcd(a: int, b: int): int = range(0, 64).foldl({ a: a, b: b }, (s, i) => if (s.b == 0) s else { a: s.b, b: s.a % s.b }).a
  /// what rounding may cost, relative to the amount at stake
  pure def slack(x: int): int = 1 + x / 2^96 + 1
  /// the power base^(p/q) is at most e^16 (a little less)
  pure def inReach(top: int, d: int, p: int, q: int): bool = top^p <= d^p * (2^23)^q

  /// fractions of small numbers: n/d itself, or else one not below and one not above it (a denominator
  /// of 0 is beyond all bounds)
  type Fraction = { p: int, q: int }
  pure def small(n: int, d: int): bool = { val g = gcd(n, d) n / g <= 1000 and d / g <= 1000 }
  pure def exactly(n: int, d: int): Fraction = { val g = gcd(n, d) { p: n / g, q: d / g } }
  pure def atLeast(n: int, d: int): Fraction =
    if (small(n, d)) exactly(n, d) else if (n <= d) { p: ceilDiv(1000 * n, d), q: 1000 } else { p: 1000, q: 1000 * d / n }
  pure def atMost(n: int, d: int): Fraction =
    if (small(n, d)) exactly(n, d) else if (n <= d) { p: 1000 * n / d, q: 1000 } else { p: 1000, q: ceilDiv(1000 * d, n) }

  pure def clause(id: str, fine: bool): List[str] = if (fine) [] else [id]

  pure def judge(fn: str, a: List[int], r: int): List[str] = {
    if (fn == "purchase") {
      val s = a[0] val b = a[1] val w = a[2] val d = a[3]
      if (not(s > 0 and b > 0 and validWeight(w))) clause("accepted outside its domain", r == REFUSED)
      else if (d == 0) clause("nothing buys nothing", r == 0)
      else if (w == MAX_WEIGHT) clause("full weight is proportional", r == s * d / b)
      else if (d + b >= MAX_NUM) []
      else if (r < 0) clause("refused or negative within its domain", false)
      else { val f = atLeast(w, MAX_WEIGHT) val h = atMost(w, MAX_WEIGHT)
             clause("above the curve", (s + r)^f.q * b^f.p <= s^f.q * (b + d)^f.p).concat(
             clause("far below the curve", not(inReach(b + d, b, f.p, f.q)) or (s + r + slack(s + r))^h.q * b^h.p > s^h.q * (b + d)^h.p)) }
    } else if (fn == "sale") {
      val s = a[0] val b = a[1] val w = a[2] val v = a[3]
      if (not(s > 0 and b > 0 and validWeight(w) and v <= s)) clause("accepted outside its domain", r == REFUSED)
      else if (v == 0) clause("nothing sells for nothing", r == 0)
      else if (v == s) clause("the whole supply sells for the whole balance", r == b)
      else if (w == MAX_WEIGHT) clause("full weight is proportional", r == b * v / s)
      else if (s >= MAX_NUM) []
      else if (r < 0) clause("refused or negative within its domain", false)
      else if (r >= b) clause("all of the balance, or more", false)
      else { val f = atLeast(MAX_WEIGHT, w) val h = atMost(MAX_WEIGHT, w)
             clause("above the curve", (b - r)^f.q * s^f.p >= b^f.q * (s - v)^f.p).concat(
             clause("far below the curve", or { not(inReach(s, s - v, f.p, f.q)), b - r - slack(b) <= 0,
                                                (b - r - slack(b))^h.q * s^h.p < b^h.q * (s - v)^h.p })) }
    } else {
      val b1 = a[0] val w1 = a[1] val b2 = a[2] val w2 = a[3] val d = a[4]
      if (not(b1 > 0 and b2 > 0 and validWeight(w1) and validWeight(w2))) clause("accepted outside its domain", r == REFUSED)
      else if (w1 == w2) clause("equal weights are proportional", r == b2 * d / (b1 + d))
      else if (d == 0) clause("nothing converts to nothing", r == 0)
      else if (d + b1 >= MAX_NUM) []
      else if (r < 0) clause("refused or negative within its domain", false)
      else if (r >= b2) clause("all of the balance, or more", false)
      else { val f = atLeast(w1, w2) val h = atMost(w1, w2)
             clause("above the curve", (b2 - r)^f.q * (b1 + d)^f.p >= b2^f.q * b1^f.p).concat(
             clause("far below the curve", or { not(inReach(b1 + d, b1, f.p, f.q)), b2 - r - slack(b2) <= 0,
                                                (b2 - r - slack(b2))^h.q * (b1 + d)^h.p < b2^h.q * b1^h.p })) }
    }
  }

  // ---- C27: sequences of answers --------------------------------------------------------------------
  pure val KINDS: List[str] = ["buysell", "sellbuy", "around", "splitbuy", "splitsell", "splitcross", "morebuy", "moresell", "morecross"]

  action trade(r: List[int]): bool = {
    val kind = KINDS[n % 9]
    val j = n / 9
    val w = if (r[9] % 3 == 0) 1 + r[10] % MAX_WEIGHT else among(ROUND, r[10])
    val w2 = if (r[9] % 7 == 1) nearby(w, r[11]) else if (r[9] % 3 == 0) 1 + r[11] % MAX_WEIGHT else among(ROUND, r[11])
    val s0 = magnitude(110, r[0], r[1])
    val b0 = magnitude(110, r[2], r[3])
    // the amounts: around a threshold of the logarithm, or any part
    val sale = kind == "sellbuy" or kind == "splitsell" or kind == "moresell"
    val crossing = kind == "around" or kind == "splitcross" or kind == "morecross"
    val t = BASES[j % 9]
    val den = if (r[4] % 2 == 0) FIXED_1 else if (sale or crossing) s0 else b0
    val edge = ceilDiv(t * den, FIXED_1)
    val onEdge = r[5] % 2 == 0 and edge > den + 2
    val s = if (onEdge and sale) edge + r[6] % 3 else if (onEdge and crossing) den else s0 + 2
    val b = if (onEdge and not(sale) and not(crossing)) den else b0 + 2
    val most = if (sale) s - 1 else if (crossing) s else b
    val free = 1 + (most - 1) / 2^(r[7] % 70) * (1 + r[8] % 7) / 7
    val d = if (onEdge) (if (sale) s - den else edge - den - 1) else free
    val e = if (r[7] % 3 == 0) 1 + r[6] % 3 else max(1, d / (1 + r[6] % 9))
    all {
      asks' = asks, n' = n + 1,
      session' = { kind: kind, s: s, b: b, w: w, w2: w2,
                   d: if (d < 1) 1 else d,
                   e: if (sale and d + e >= s) max(1, min(e, s - d - 1)) else e },
    }
  }
  pure def min(x: int, y: int): int = if (x < y) x else y

  /// the answers l of a session; REFUSED where a question was refused
  pure def fair(x: Session, l: List[int]): List[str] = {
    val f = atLeast(x.w, MAX_WEIGHT) val p = f.p val q = f.q
    val g = atLeast(MAX_WEIGHT, x.w)
    val h = atLeast(x.w, x.w2)  val u = h.p val v = h.q
    if (l.indices().exists(i => l[i] < 0)) []
    else if (x.kind == "buysell" or x.kind == "sellbuy" or x.kind == "around")
      clause("profit by going there and back", l[1] <= x.d)
    else if (x.kind == "splitbuy") clause("profit by splitting", not(inReach(x.b + x.d + x.e, x.b, p, q)) or l[1] + l[2] <= l[0] + slack(x.s + l[0]))
    else if (x.kind == "splitsell") clause("profit by splitting", not(inReach(x.s, x.s - x.d - x.e, g.p, g.q)) or l[1] + l[2] <= l[0] + slack(x.b))
    else if (x.kind == "splitcross") clause("profit by splitting", not(inReach(x.s + x.d + x.e, x.s, u, v)) or l[1] + l[2] <= l[0] + slack(x.b))
    else if (x.kind == "morebuy") clause("less for more", not(inReach(x.b + x.d + x.e, x.b, p, q)) or l[0] <= l[1] + slack(x.s + l[0]) - 1)
    else if (x.kind == "moresell") clause("less for more", not(inReach(x.s, x.s - x.d - x.e, g.p, g.q)) or l[0] <= l[1] + slack(x.b) - 1)
    else if (x.kind == "morecross") clause("less for more", not(inReach(x.s + x.d + x.e, x.s, u, v)) or l[0] <= l[1] + slack(x.b) - 1)
    else ["an unknown session"]
  }
}
