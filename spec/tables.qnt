// -*- mode: Bluespec; -*-
/**
 * The generators of the price formula (contracts/formula/auto_generate): the helper library, and
 * what the scripts print for a choice of precision, number of series terms and so on.
 *
 * Everything is derived here from first principles: e^x and ln 2 by their series in 440-bit fixed
 * point, the largest computable exponents by search, the terms of the optimised routines by their
 * recurrences. With the shipped choice the results have to be the constants of the formula itself.
 */
module tables {
  import formula.* from "./formula"

  type Conf = { minPrec: int, maxPrec: int, coefs: int, logHi: int, logTerms: int, expHi: int, expTerms: int }
  /// the choice the deployed formula was generated with
  pure val SHIPPED: Conf = { minPrec: 32, maxPrec: 127, coefs: 34, logHi: 1, logTerms: 8, expHi: 4, expTerms: 7 }

  /// what: the function asked (or "conf"), x and p: numbers, l, m: lists of numbers; ans: the answer ([] is a refusal)
  type Question = { what: str, x: int, p: int, l: List[int], m: List[int], ans: List[int] }
  var conf: Conf
  var q: List[Question]
  var n: int

  pure val LIMIT = 2^256
  pure val FAIL = -1
  pure val NOTHING: List[int] = []

  // ---- checked arithmetic: FAIL is contagious -----------------------------------------------------
  pure def within(v: int): int = if (v >= 0 and v < LIMIT) v else FAIL
  pure def sub(a: int, b: int): int = if (a < 0 or b < 0 or a < b) FAIL else a - b
  pure def add(a: int, b: int): int = if (a < 0 or b < 0) FAIL else within(a + b)
  pure def mul(a: int, b: int): int = if (a < 0 or b < 0) FAIL else within(a * b)
  pure def over(a: int, b: int): int = if (a < 0) FAIL else a / b

  // ---- the library --------------------------------------------------------------------------------
  /// (n-1)!/1!, (n-1)!/2!, .. (n-1)!/(n-1)!
  pure def coefficients(count: int): List[int] = range(1, count).foldl([], (l, i) => l.append(fact(count - 1) / fact(i)))

  pure def series(x: int, cs: List[int], precision: int): int = {
    val s = range(1, cs.length()).foldl({ xi: x, res: 0 }, (a, i) => {
      val xi = over(mul(a.xi, x), 2^precision)
      { xi: xi, res: add(a.res, mul(xi, cs[i])) }
    })
    add(add(over(s.res, cs[0]), x), 2^precision)
  }

  /// the largest x below 2^bits the series can be computed for
  pure def largest(cs: List[int], precision: int, bits: int): int =
    range(0, bits + 1).foldl({ lo: 0, hi: 2^bits }, (s, _) =>
      if (s.lo + 1 >= s.hi) s
      else {
        val mid = (s.lo + s.hi) / 2
        if (series(mid, cs, precision) == FAIL) { lo: s.lo, hi: mid } else { lo: mid, hi: s.hi }
      }).lo
  /// the last of k terms alone, (x / 2^p)^k * 2^p, exceeds every bound when x reaches 2^(p + 256/k)
  pure def maxExp(cs: List[int], precision: int): int =
    largest(cs, precision, if (cs.length() >= 2 and precision < 100) precision + 256 / cs.length() + 2 else 256)
  pure def maxExps(cs: List[int], count: int): List[int] = range(0, count).foldl([], (l, p) => l.append(maxExp(cs, p)))
  pure def maxVals(cs: List[int], exps: List[int]): List[int] = range(0, exps.length()).foldl([], (l, p) => l.append(series(exps[p], cs, p)))

  /// hi: v0, e0, v1, e1, ..   lo: n0, d0, n1, d1, ..
  pure def logOfTerms(x: int, hi: List[int], lo: List[int], one: int): int = {
    val k = lo.length() / 2
    val h = range(1, hi.length() / 2).foldl({ x: x, res: 0 }, (s, i) =>
      if (s.x >= hi[2 * i + 1]) { x: over(mul(s.x, one), hi[2 * i + 1]), res: add(s.res, hi[2 * i]) } else s)
    val y = if (h.x < 0 or h.res < 0) FAIL else sub(h.x, one)
    val w = over(mul(y, y), one)
    val s = range(0, k - 1).foldl({ z: y, res: h.res }, (a, i) => {
      z: over(mul(a.z, w), one),
      res: add(a.res, over(mul(a.z, sub(lo[2 * i], y)), lo[2 * i + 1]))
    })
    add(s.res, over(mul(s.z, sub(lo[2 * k - 2], y)), lo[2 * k - 1]))
  }

  /// hi: b0, n0, d0, b1, n1, d1, ..   lo: the coefficients
  pure def expOfTerms(x: int, hi: List[int], lo: List[int], one: int): int = {
    val y = x % hi[0]
    val s = range(1, lo.length()).foldl({ z: y, res: 0 }, (a, i) => {
      val z = over(mul(a.z, y), one)
      { z: z, res: add(a.res, mul(z, lo[i])) }
    })
    range(0, hi.length() / 3 - 1).foldl(add(add(over(s.res, lo[0]), y), one), (r, i) =>
      if ((x / hi[3 * i]) % 2 == 1) over(mul(r, hi[3 * i + 1]), hi[3 * i + 2]) else r)
  }

  // ---- e^x and ln 2, scaled by 2^440 --------------------------------------------------------------
  pure val FINE = 2^440
  /// e^(a / 2^k), for arguments up to 2
  pure def expSmall(a: int, k: int): int = {
    range(1, 140).foldl({ t: FINE, res: FINE }, (s, i) => {
      val t = s.t * a / (2^k * i)
      { t: t, res: s.res + t }
    }).res
  }
  /// e^(2^k), k from -12 to 5
  pure def expOfPower(k: int): int =
    if (k <= 0) expSmall(1, -k) else range(0, k).foldl(expSmall(1, 0), (e, _) => e * e / FINE)
  /// ln 2 = sum of 1 / (k 2^k)
  pure val LN2_FINE = range(1, 450).foldl(0, (s, k) => s + FINE / (k * 2^k))

  // ---- the constants for a choice -----------------------------------------------------------------
  pure def logHiTerms(c: Conf): List[int] =
    range(0, c.logTerms + 1).foldl([], (l, i) =>
      l.concat([2^c.maxPrec * c.logHi / 2^i, 2^c.maxPrec * expSmall(c.logHi, i) / FINE]))
  pure def logLoTerms(c: Conf, count: int): List[int] =
    range(1, count).foldl([2 * 2^c.maxPrec, 2 * 2^c.maxPrec], (l, i) => {
      val v = 2^c.maxPrec * (2 * i + 2)
      l.concat([v / (2 * i + 1), v])
    })
  /// more terms as long as they add something at the upper end
  pure def logLo(c: Conf): List[int] = {
    val hi = logHiTerms(c)
    val top = hi[1] - 1
    range(2, 60).foldl({ done: false, lo: logLoTerms(c, 1), res: logOfTerms(top, hi, logLoTerms(c, 1), 2^c.maxPrec) }, (s, k) =>
      if (s.done) s
      else {
        val lo = logLoTerms(c, k)
        val res = logOfTerms(top, hi, lo, 2^c.maxPrec)
        if (s.res < res) { done: false, lo: lo, res: res } else s.with("done", true)
      }).lo
  }

  pure def expHiTerms(c: Conf): List[int] = {
    val first = 2^c.maxPrec * expOfPower(c.expHi - c.expTerms) / FINE - 1
    range(0, c.expTerms + 1).foldl({ top: first, l: [] }, (s, i) => {
      val cur = expOfPower(i + c.expHi - c.expTerms)
      val den = (LIMIT - 1) * FINE / (cur * s.top)
      val num = den * cur / FINE
      { top: s.top * num / den, l: s.l.concat([2^(c.maxPrec + i + c.expHi) / 2^c.expTerms, num, den]) }
    }).l
  }
  pure def expLoTerms(count: int): List[int] =
    if (count == 1) [1] else range(1, count + 1).foldl([], (l, i) => l.append(fact(count) / fact(i)))
  pure def expLo(c: Conf): List[int] = {
    val hi = expHiTerms(c)
    val top = hi[hi.length() - 3] - 1
    range(2, 60).foldl({ done: false, lo: expLoTerms(1), res: expOfTerms(top, hi, expLoTerms(1), 2^c.maxPrec) }, (s, k) =>
      if (s.done) s
      else {
        val lo = expLoTerms(k)
        val res = expOfTerms(top, hi, lo, 2^c.maxPrec)
        if (s.res < res) { done: false, lo: lo, res: res } else s.with("done", true)
      }).lo
  }

  /// the values at the upper end can be computed: the script finishes
  pure def logFine(c: Conf): bool = {
    val hi = logHiTerms(c)
    val k = logLo(c).length() / 2
    logOfTerms(hi[1] - 1, hi, logLoTerms(c, k + 1), 2^c.maxPrec) != FAIL and logOfTerms(hi[1] - 1, hi, logLoTerms(c, 1), 2^c.maxPrec) != FAIL
  }
  pure def expFine(c: Conf): bool = {
    val hi = expHiTerms(c)
    val k = expLo(c).length()
    val top = hi[hi.length() - 3] - 1
    expOfTerms(top, hi, expLoTerms(k + 1), 2^c.maxPrec) != FAIL and expOfTerms(top, hi, expLoTerms(1), 2^c.maxPrec) != FAIL
  }

  pure def scaling(c: Conf): List[int] = [2^c.maxPrec, 2 * 2^c.maxPrec, 2^(256 - c.maxPrec)]
  /// the numerator as large as the logarithms allow, the denominator the next whole number above the quotient
  pure def ln2(c: Conf): List[int] = {
    // log2(2^k - 1) * 2^p lies below k * 2^p by about 2^(p - k) / ln 2
    val k = 256 - c.maxPrec
    val gap = 2^c.maxPrec * FINE / LN2_FINE / 2^k + 1
    val num = (LIMIT - 1) / (k * 2^c.maxPrec - gap)
    [num, (num * FINE + LN2_FINE - 1) / LN2_FINE]
  }

  // ---- the growth factor --------------------------------------------------------------------------
  /// the exponent for a precision computed from that of the lowest one; FAIL if some step cannot be computed
  pure def grown(cs: List[int], first: int, c: Conf, precision: int, factor: int): int =
    range(c.minPrec, precision).foldl(first, (m, _) => {
      val e = over(mul(m, factor), 2^c.maxPrec)
      if (e == FAIL) FAIL else if (series(e, cs, precision) == FAIL) FAIL else e
    })
  pure def factorFine(cs: List[int], first: int, c: Conf, factor: int): bool =
    range(c.minPrec, c.maxPrec + 1).foldl(true, (ok, p) => if (ok) grown(cs, first, c, p, factor) != FAIL else false)

  // ---- what a script prints, as numbers -----------------------------------------------------------
  pure def printed(script: str, c: Conf): List[int] =
    if (script == "scaling") scaling(c)
    else if (script == "ln2") ln2(c)
    else if (script == "constructor") {
      val exps = maxExps(coefficients(c.coefs), c.maxPrec + 1)
      range(0, exps.length()).foldl([], (l, p) => l.append((exps[p] + 1) * 2^(c.maxPrec - p) - 1))
    }
    else if (script == "file") {
      val exps = maxExps(coefficients(c.coefs), c.maxPrec + 1)
      [c.minPrec, c.maxPrec].concat(exps).concat(maxVals(coefficients(c.coefs), exps))
    }
    else maxExps(coefficients(c.coefs), c.maxPrec + 1)

  /// what is wrong with a printed growth factor and the exponents computed with it
  pure def judgeGrowth(c: Conf, factor: int, practical: List[int]): Set[str] = {
    val cs = coefficients(c.coefs)
    val first = maxExp(cs, c.minPrec)
    val wrong = range(c.minPrec, c.maxPrec + 1).foldl(false, (w, p) =>
      if (w) true else practical[p - c.minPrec] != grown(cs, first, c, p, factor))
    Set({ bad: not(factorFine(cs, first, c, factor)), text: "the growth factor is too large" },
        { bad: factorFine(cs, first, c, factor + 1), text: "the growth factor could be larger" },
        { bad: wrong, text: "a practical exponent is wrong" })
      .filter(x => x.bad).map(x => x.text)
  }

  /// the printed functions, on whole numbers of any size
  pure def runSeries(c: Conf, x: int, precision: int): int = {
    val cs = coefficients(c.coefs)
    val s = range(1, cs.length()).foldl({ xi: x, res: 0 }, (a, i) => {
      val xi = a.xi * x / 2^precision
      { xi: xi, res: a.res + xi * cs[i] }
    })
    s.res / cs[0] + x + 2^precision
  }

  /// with the shipped choice, the constants are those of the formula
  pure val CONSISTENT: bool = and {
    scaling(SHIPPED) == [FIXED_1, FIXED_2, MAX_NUM],
    ln2(SHIPPED) == [LN2_NUM, LN2_DEN],
    printed("constructor", SHIPPED).slice(32, 128) == MAX_EXP,
    coefficients(SHIPPED.coefs) == [FACT_33].concat(GEN_EXP_COEFS),
    range(0, 8).foldl(true, (ok, i) => ok and logHiTerms(SHIPPED)[2 * i + 3] == LOG_STEPS[i] and logHiTerms(SHIPPED)[2 * i + 2] == FIXED_1 / 2^(i + 1)),
    logHiTerms(SHIPPED)[1] == OPT_LOG_MAX,
    logLo(SHIPPED).length() == 16,
    range(0, 8).foldl(true, (ok, i) => ok and logLo(SHIPPED)[2 * i] == LOG_COEFS[i] and logLo(SHIPPED)[2 * i + 1] == (i + 1) * FIXED_2),
    range(0, 7).foldl(true, (ok, i) => ok and expHiTerms(SHIPPED)[3 * i] == 2^(124 + i) and expHiTerms(SHIPPED)[3 * i + 1] == EXP_NUM[i]
                                          and expHiTerms(SHIPPED)[3 * i + 2] == EXP_DEN[i]),
    expHiTerms(SHIPPED)[21] == OPT_EXP_MAX,
    expLo(SHIPPED) == [FACT_20].concat(EXP_COEFS)
  }

  // ---- questions ----------------------------------------------------------------------------------
  pure def among(l: List[int], r: int): int = l[r % l.length()]
  pure def wide(bits: int, r: int, s: int): int = (r + s * 2^62 + (r % 1021) * s * 2^124 + r * (s % 4093) * 2^190) % 2^bits
  pure def numberLike(r: int, s: int, t: int): int =
    if (t % 4 == 0) among([0, 1, 2, 2^255, LIMIT - 1, 2^128, 2^128 - 1, 2^127], r) else wide(1 + t % 256, r, s)
  pure def answer(v: int): List[int] = if (v == FAIL) [] else [v]

  /// the pieces of a list of logarithm terms: increasing numbers of them
  pure def logTermsFor(c: Conf, r: int): { hi: List[int], lo: List[int] } = { hi: logHiTerms(c), lo: logLoTerms(c, 1 + r % 12) }
  pure def expTermsFor(c: Conf, r: int): { hi: List[int], lo: List[int] } = { hi: expHiTerms(c), lo: expLoTerms(1 + r % 24) }

  pure def question(c: Conf, r: List[int]): Question = {
    val k = r[0] % 14
    val x = numberLike(r[1], r[2], r[3])
    val y = numberLike(r[4], r[5], r[6])
    val none: Question = { what: "", x: 0, p: 0, l: [], m: [], ans: [] }
    if (k == 0) none.with("what", "sub").with("x", x).with("p", if (r[7] % 2 == 0) x + r[7] % 3 - 1 else y).with("l", [])
    else if (k == 1) none.with("what", "add").with("x", x).with("p", if (r[7] % 2 == 0) LIMIT - x + r[7] % 3 - 1 else y)
    else if (k == 2) none.with("what", "mul").with("x", x).with("p", if (r[7] % 2 == 0 and x > 0) LIMIT / x + r[7] % 3 - 1 else y)
    else if (k == 3) none.with("what", "shl").with("x", x).with("p", r[7] % 260)
    else if (k == 4) none.with("what", "search").with("x", if (r[7] % 12 == 0) -1 else x)
    else if (k == 5) none.with("what", "coefficients").with("x", 2 + r[1] % 40)
    else if (k == 6 or k == 7) {
      val p = r[4] % 140
      val cs = coefficients(2 + r[5] % 40)
      val x1 = if (r[6] % 3 == 0) wide(p + 7, r[1], r[2]) else if (r[6] % 3 == 1) maxExp(cs, p) + r[1] % 3 - 1 else wide(1 + r[3] % (p + 4), r[1], r[2])
      none.with("what", "series").with("x", if (x1 < 0) 0 else x1).with("p", p).with("l", cs)
    }
    else if (k == 8) none.with("what", "maxexps").with("x", 1 + r[1] % 5).with("l", coefficients(2 + r[5] % 40))
    else if (k == 9) {
      val cs = coefficients(2 + r[5] % 40)
      none.with("what", "maxvals").with("l", cs).with("m", maxExps(cs, 1 + r[1] % 4))
    }
    else if (k <= 11) {
      val t = logTermsFor(c, r[7])
      val span = t.hi[1] - 2^c.maxPrec
      none.with("what", "log").with("x", 2^c.maxPrec + (if (r[8] % 9 == 0) span * 2 else wide(250, r[1], r[2]) % span)).with("p", 2^c.maxPrec).with("l", t.hi).with("m", t.lo)
    } else {
      val t = expTermsFor(c, r[7])
      none.with("what", "exp").with("x", if (r[8] % 9 == 0) x else wide(250, r[1], r[2]) % t.hi[t.hi.length() - 3]).with("p", 2^c.maxPrec).with("l", t.hi).with("m", t.lo)
    }
  }

  pure def answered(a: Question): Question =
    a.with("ans",
      if (a.what == "sub") answer(if (a.x >= a.p) a.x - a.p else FAIL)
      else if (a.what == "add") answer(within(a.x + a.p))
      else if (a.what == "mul") answer(within(a.x * a.p))
      else if (a.what == "shl") answer(within(a.x * 2^a.p))
      else if (a.what == "search") answer(a.x)
      else if (a.what == "coefficients") coefficients(a.x)
      else if (a.what == "series") answer(series(a.x, a.l, a.p))
      else if (a.what == "maxexps") maxExps(a.l, a.x)
      else if (a.what == "maxvals") maxVals(a.l, a.m)
      else if (a.what == "log") answer(logOfTerms(a.x, a.l, a.m, a.p))
      else if (a.what == "exp") answer(expOfTerms(a.x, a.l, a.m, a.p))
      else [])

  /// points at which the printed functions are tried
  pure def probes(c: Conf, r: List[int]): List[Question] = {
    val log = { hi: logHiTerms(c), lo: logLo(c) }
    val exp = { hi: expHiTerms(c), lo: expLo(c) }
    val span = log.hi[1] - 2^c.maxPrec
    val top = exp.hi[exp.hi.length() - 3]
    range(0, 8).foldl([], (l, i) => {
      val x1 = 2^c.maxPrec + (if (i == 0) 0 else if (i == 1) span - 1 else wide(250, r[i], r[i + 1]) % span)
      val e = 1 + r[i] % c.logTerms
      val x2 = log.hi[2 * e + 1] + r[i + 1] % 3 - 1
      val x3 = if (i == 0) 0 else if (i == 1) top - 1 else wide(250, r[i + 1], r[i]) % top
      val x4 = exp.hi[3 * (r[i] % c.expTerms)] + r[i + 1] % 3 - 1
      val p = c.minPrec + r[i] % (c.maxPrec - c.minPrec + 1)
      val x5 = wide(p + 5, r[i], r[i + 1])
      l.append({ what: "runlog", x: x1, p: 0, l: [], m: [], ans: [logOfTerms(x1, log.hi, log.lo, 2^c.maxPrec)] })
       .append({ what: "runlog", x: x2, p: 0, l: [], m: [], ans: [logOfTerms(x2, log.hi, log.lo, 2^c.maxPrec)] })
       .append({ what: "runexp", x: x3, p: 0, l: [], m: [], ans: [expOfTerms(x3, exp.hi, exp.lo, 2^c.maxPrec)] })
       .append({ what: "runexp", x: x4, p: 0, l: [], m: [], ans: [expOfTerms(x4, exp.hi, exp.lo, 2^c.maxPrec)] })
       .append({ what: "runseries", x: x5, p: p, l: [], m: [], ans: [runSeries(c, x5, p)] })
    })
  }

  pure def choice(r: List[int]): Conf = {
    val maxPrec = among([39, 47, 63, 79, 95, 111, 123, 127], r[0])
    val logTerms = 4 + r[4] % 7
    val expHi = 1 + r[5] % 4
    { minPrec: 20 + r[1] % 17, maxPrec: maxPrec, coefs: 20 + r[2] % 20, logHi: 1, logTerms: logTerms, expHi: expHi, expTerms: expHi + 1 + r[6] % 5 }
  }

  pure def ask(what: str, ans: List[int]): Question = { what: what, x: 0, p: 0, l: [], m: [], ans: ans }

  action begin(first: bool, r: List[int]): bool = all {
    conf' = if (first) SHIPPED else choice(r),
    q' = NOQUESTIONS,
    n' = 0
  }
  pure val NOQUESTIONS: List[Question] = []

  /// first the scripts, then what they printed, then the library
  action step(r: List[int]): bool = all {
    conf' = conf,
    n' = n + 1,
    q' = if (n == 0) [ask("scaling", printed("scaling", conf)), ask("ln2", printed("ln2", conf)),
                      ask("logfine", if (logFine(conf)) [1] else []), ask("expfine", if (expFine(conf)) [1] else [])]
         else if (n == 1) [ask("constructor", printed("constructor", conf)), ask("file", printed("file", conf))]
         else if (n <= 5) (if (logFine(conf) and expFine(conf)) probes(conf, r) else NOQUESTIONS)
         else range(0, 3).foldl([], (l, i) => l.append(answered(question(conf, r.slice(i, i + 9)))))
  }
}
