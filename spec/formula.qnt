// -*- mode: Bluespec; -*-
/**
 * The price formula: the published Bancor power formula in 127-bit fixed point, as a function.
 *
 * `calcPurchase`, `calcSale` and `calcCross` are the exact (to the unit) returns every node has to
 * compute; -1 stands for "refused". The polynomial coefficients are derived here (factorials,
 * series coefficients), the exponential constants and the precision table are those published
 * with the algorithm.
 *
 * The second half states what users rely on, without reference to the algorithm: the returns
 * never exceed the exact bonding curve and stay close to it. For weights p/q with small p and q
 * this is an inequality between integers, so it is decided exactly.
 */
module formula {
  pure val MAX_WEIGHT = 1000000
  pure val FIXED_1 = 2^127
  pure val FIXED_2 = 2^128
  pure val MAX_NUM = 2^129
  pure val LN2_NUM = 0x3f80fe03f80fe03f80fe03f80fe03f8
  pure val LN2_DEN = 0x5b9de1d10bf4103d647b0955897ba80
  pure val OPT_LOG_MAX = 0x15bf0a8b1457695355fb8ac404e7a79e3
  pure val OPT_EXP_MAX = 0x800000000000000000000000000000000
  pure val REFUSED = -1

  // e^(1/2^i) * 2^127 for i = 1..8
  pure val LOG_STEPS: List[int] = [
    0xd3094c70f034de4b96ff7d5b6f99fcd8, 0xa45af1e1f40c333b3de1db4dd55f29a7,
    0x910b022db7ae67ce76b441c27035c6a1, 0x88415abbe9a76bead8d00cf112e4d4a8,
    0x84102b00893f64c705e841d5d4064bd3, 0x8204055aaef1c8bd5c3259f4822735a2,
    0x810100ab00222d861931c15e39b44e99, 0x808040155aabbbe9451521693554f733]

  // numerators and denominators approximating e^(2^i) for i = -3..3
  pure val EXP_NUM: List[int] = [
    0x1c3d6a24ed82218787d624d3e5eba95f9, 0x18ebef9eac820ae8682b9793ac6d1e778,
    0x1368b2fc6f9609fe7aceb46aa619baed5, 0x0bc5ab1b16779be3575bd8f0520a9f21e,
    0x0454aaa8efe072e7f6ddbab84b40a55c5, 0x00960aadc109e7a3bf4578099615711d7,
    0x0002bf84208204f5977f9a8cf01fdc307]
  pure val EXP_DEN: List[int] = [
    0x18ebef9eac820ae8682b9793ac6d1e776, 0x1368b2fc6f9609fe7aceb46aa619baed4,
    0x0bc5ab1b16779be3575bd8f0520a9f21f, 0x0454aaa8efe072e7f6ddbab84b40a55c9,
    0x00960aadc109e7a3bf4578099615711ea, 0x0002bf84208204f5977f9a8cf01fdce3d,
    0x0000003c6ab775dd0b95b4cbee7e65d11]

  // largest exponent (scaled by 2^127) computable with precision 32, 33, .. 127
  pure val MAX_EXP: List[int] = [
    0x1c35fedd14ffffffffffffffffffffffff, 0x1b0ce43b323fffffffffffffffffffffff,
    0x19f0028ec1ffffffffffffffffffffffff, 0x18ded91f0e7fffffffffffffffffffffff,
    0x17d8ec7f0417ffffffffffffffffffffff, 0x16ddc6556cdbffffffffffffffffffffff,
    0x15ecf52776a1ffffffffffffffffffffff, 0x15060c256cb2ffffffffffffffffffffff,
    0x1428a2f98d72ffffffffffffffffffffff, 0x13545598e5c23fffffffffffffffffffff,
    0x1288c4161ce1dfffffffffffffffffffff, 0x11c592761c666fffffffffffffffffffff,
    0x110a688680a757ffffffffffffffffffff, 0x1056f1b5bedf77ffffffffffffffffffff,
    0xfaadceceeff8bffffffffffffffffffff, 0xf05dc6b27edadffffffffffffffffffff,
    0xe67a5a25da4107fffffffffffffffffff, 0xdcff115b14eedffffffffffffffffffff,
    0xd3e7a392431239fffffffffffffffffff, 0xcb2ff529eb71e4fffffffffffffffffff,
    0xc2d415c3db974afffffffffffffffffff, 0xbad03e7d883f69bffffffffffffffffff,
    0xb320d03b2c343d5ffffffffffffffffff, 0xabc25204e02828dffffffffffffffffff,
    0xa4b16f74ee4bb207fffffffffffffffff, 0x9deaf736ac1f569ffffffffffffffffff,
    0x976bd9952c7aa957fffffffffffffffff, 0x9131271922eaa606fffffffffffffffff,
    0x8b380f3558668c46fffffffffffffffff, 0x857ddf0117efa215bffffffffffffffff,
    0x7ffffffffffffffffffffffffffffffff, 0x7abbf6f6abb9d087fffffffffffffffff,
    0x75af62cbac95f7dfa7fffffffffffffff, 0x70d7fb7452e187ac13fffffffffffffff,
    0x6c3390ecc8af379295fffffffffffffff, 0x67c00a3b07ffc01fd6fffffffffffffff,
    0x637b647c39cbb9d3d27ffffffffffffff, 0x5f63b1fc104dbd39587ffffffffffffff,
    0x5b771955b36e12f7235ffffffffffffff, 0x57b3d49dda84556d6f6ffffffffffffff,
    0x54183095b2c8ececf30ffffffffffffff, 0x50a28be635ca2b888f77fffffffffffff,
    0x4d5156639708c9db33c3fffffffffffff, 0x4a23105873875bd52dfdfffffffffffff,
    0x471649d87199aa990756fffffffffffff, 0x4429a21a029d4c1457cfbffffffffffff,
    0x415bc6d6fb7dd71af2cb3ffffffffffff, 0x3eab73b3bbfe282243ce1ffffffffffff,
    0x3c1771ac9fb6b4c18e229ffffffffffff, 0x399e96897690418f785257fffffffffff,
    0x373fc456c53bb779bf0ea9fffffffffff, 0x34f9e8e490c48e67e6ab8bfffffffffff,
    0x32cbfd4a7adc790560b3337ffffffffff, 0x30b50570f6e5d2acca94613ffffffffff,
    0x2eb40f9f620fda6b56c2861ffffffffff, 0x2cc8340ecb0d0f520a6af58ffffffffff,
    0x2af09481380a0a35cf1ba02ffffffffff, 0x292c5bdd3b92ec810287b1b3fffffffff,
    0x277abdcdab07d5a77ac6d6b9fffffffff, 0x25daf6654b1eaa55fd64df5efffffffff,
    0x244c49c648baa98192dce88b7ffffffff, 0x22ce03cd5619a311b2471268bffffffff,
    0x215f77c045fbe885654a44a0fffffffff, 0x1ffffffffffffffffffffffffffffffff,
    0x1eaefdbdaaee7421fc4d3ede5ffffffff, 0x1d6bd8b2eb257df7e8ca57b09bfffffff,
    0x1c35fedd14b861eb0443f7f133fffffff, 0x1b0ce43b322bcde4a56e8ada5afffffff,
    0x19f0028ec1fff007f5a195a39dfffffff, 0x18ded91f0e72ee74f49b15ba527ffffff,
    0x17d8ec7f04136f4e5615fd41a63ffffff, 0x16ddc6556cdb84bdc8d12d22e6fffffff,
    0x15ecf52776a1155b5bd8395814f7fffff, 0x15060c256cb23b3b3cc3754cf40ffffff,
    0x1428a2f98d728ae223ddab715be3fffff, 0x13545598e5c23276ccf0ede68034fffff,
    0x1288c4161ce1d6f54b7f61081194fffff, 0x11c592761c666aa641d5a01a40f17ffff,
    0x110a688680a7530515f3e6e6cfdcdffff, 0x1056f1b5bedf75c6bcb2ce8aed428ffff,
    0xfaadceceeff8a0890f3875f008277fff, 0xf05dc6b27edad306388a600f6ba0bfff,
    0xe67a5a25da41063de1495d5b18cdbfff, 0xdcff115b14eedde6fc3aa5353f2e4fff,
    0xd3e7a3924312399f9aae2e0f868f8fff, 0xcb2ff529eb71e41582cccd5a1ee26fff,
    0xc2d415c3db974ab32a51840c0b67edff, 0xbad03e7d883f69ad5b0a186184e06bff,
    0xb320d03b2c343d4829abd6075f0cc5ff, 0xabc25204e02828d73c6e80bcdb1a95bf,
    0xa4b16f74ee4bb2040a1ec6c15fbbf2df, 0x9deaf736ac1f569deb1b5ae3f36c130f,
    0x976bd9952c7aa957f5937d790ef65037, 0x9131271922eaa6064b73a22d0bd4f2bf,
    0x8b380f3558668c46c91c49a2f8e967b9, 0x857ddf0117efa215952912839f6473e6]

  pure def fact(n: int): int = 1.to(n).fold(1, (a, i) => a * i)
  pure val FACT_20 = fact(20)
  pure val FACT_33 = fact(33)
  // k -> 20!/k!  (k = 2..20)  and  k -> 33!/k!  (k = 2..33), in the order of use
  pure val EXP_COEFS: List[int] = range(2, 21).foldl([], (l, k) => l.append(FACT_20 / fact(k)))
  pure val GEN_EXP_COEFS: List[int] = range(2, 34).foldl([], (l, k) => l.append(FACT_33 / fact(k)))
  // k -> 2k/(2k-1) * 2^127 for k = 1..8
  pure val LOG_COEFS: List[int] = range(1, 9).foldl([], (l, k) => l.append((2 * k * FIXED_1) / (2 * k - 1)))

  /// natural logarithm for FIXED_1 <= x < OPT_LOG_MAX
  pure def optimalLog(x: int): int = {
    val reduced = range(0, 8).foldl({ x: x, res: 0 }, (s, i) =>
      if (s.x >= LOG_STEPS[i]) { x: s.x * FIXED_1 / LOG_STEPS[i], res: s.res + FIXED_1 / 2^(i + 1) }
      else s)
    val y = reduced.x - FIXED_1
    val w = y * y / FIXED_1
    range(1, 9).foldl({ z: y, res: reduced.res }, (s, k) => {
      z: s.z * w / FIXED_1,
      res: s.res + s.z * (LOG_COEFS[k - 1] - y) / (k * FIXED_2)
    }).res
  }

  /// floor(log2(n)) for n >= 1
  pure def floorLog2(n: int): int =
    [128, 64, 32, 16, 8, 4, 2, 1].foldl({ n: n, res: 0 }, (s, k) =>
      if (s.n >= 2^k) { n: s.n / 2^k, res: s.res + k } else s).res

  /// natural logarithm for every x >= FIXED_1, bit by bit
  pure def generalLog(x: int): int = {
    val count = if (x >= FIXED_2) floorLog2(x / FIXED_1) else 0
    val y = x / 2^count
    val whole = count * FIXED_1
    val res =
      if (y > FIXED_1)
        range(0, 127).foldl({ x: y, res: whole }, (s, i) => {
          val sq = s.x * s.x / FIXED_1
          if (sq >= FIXED_2) { x: sq / 2, res: s.res + 2^(126 - i) } else { x: sq, res: s.res }
        }).res
      else whole
    res * LN2_NUM / LN2_DEN
  }

  /// e^x for 0 <= x < OPT_EXP_MAX, scaled by 2^127
  pure def optimalExp(x: int): int = {
    val y = x % 2^124
    val series = EXP_COEFS.foldl({ z: y, res: 0 }, (s, c) => {
      val z = s.z * y / FIXED_1
      { z: z, res: s.res + z * c }
    })
    val r0 = series.res / FACT_20 + y + FIXED_1
    range(0, 7).foldl(r0, (r, i) =>
      if ((x / 2^(124 + i)) % 2 == 1) r * EXP_NUM[i] / EXP_DEN[i] else r)
  }

  /// e^x by the 33 term series, scaled by 2^precision
  pure def generalExp(x: int, precision: int): int = {
    val series = GEN_EXP_COEFS.foldl({ z: x, res: 0 }, (s, c) => {
      val z = s.z * x / 2^precision
      { z: z, res: s.res + z * c }
    })
    series.res / FACT_33 + x + 2^precision
  }

  /// the highest precision (32..127) able to hold x; 0 if there is none
  pure def findPrecision(x: int): int =
    range(0, 96).foldl(0, (p, i) => if (MAX_EXP[i] >= x) i + 32 else p)

  /// (baseN / baseD) ^ (expN / expD) * 2^precision; precision is REFUSED outside the domain
  pure def power(baseN: int, baseD: int, expN: int, expD: int): { res: int, prec: int } =
    if (baseN >= MAX_NUM) { res: 0, prec: REFUSED }
    else {
      val base = baseN * FIXED_1 / baseD
      val lg = if (base < OPT_LOG_MAX) optimalLog(base) else generalLog(base)
      val x = lg * expN / expD
      if (x < OPT_EXP_MAX) { res: optimalExp(x), prec: 127 }
      else {
        val p = findPrecision(x)
        { res: generalExp(x / 2^(127 - p), p), prec: p }
      }
    }

  pure def validWeight(w: int): bool = and { w > 0, w <= MAX_WEIGHT }

  /// flexible tokens minted for a deposit of connector tokens
  pure def calcPurchase(supply: int, balance: int, weight: int, deposit: int): int =
    if (not(supply > 0 and balance > 0 and validWeight(weight))) REFUSED
    else if (deposit == 0) 0
    else if (weight == MAX_WEIGHT) supply * deposit / balance
    else {
      val p = power(deposit + balance, balance, weight, MAX_WEIGHT)
      if (p.prec == REFUSED) REFUSED else supply * p.res / 2^p.prec - supply
    }

  /// connector tokens paid for burning flexible tokens
  pure def calcSale(supply: int, balance: int, weight: int, sold: int): int =
    if (not(supply > 0 and balance > 0 and validWeight(weight) and sold <= supply)) REFUSED
    else if (sold == 0) 0
    else if (sold == supply) balance
    else if (weight == MAX_WEIGHT) balance * sold / supply
    else {
      val p = power(supply, supply - sold, MAX_WEIGHT, weight)
      if (p.prec == REFUSED) REFUSED else (balance * p.res - balance * 2^p.prec) / p.res
    }

  /// connector tokens paid for depositing another connector token
  pure def calcCross(b1: int, w1: int, b2: int, w2: int, amount: int): int =
    if (not(b1 > 0 and b2 > 0 and validWeight(w1) and validWeight(w2))) REFUSED
    else if (w1 == w2) b2 * amount / (b1 + amount)
    else {
      val p = power(b1 + amount, b1, w1, w2)
      if (p.prec == REFUSED) REFUSED else (b2 * p.res - b2 * 2^p.prec) / p.res
    }
}
