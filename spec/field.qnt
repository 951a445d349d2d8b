// Prime fields as a register machine over canonical integers modulo p.
// Values are loaded through every public constructor, including those whose
// internal (Montgomery) form m is chosen near the edges: x = m / R mod p.
module field {
  import cryptobs.* from "./cryptobs"
  const FIDS: Set[int]
  const MODS: List[int]
  const WIDTH: List[int]                // limbs
  const LIMB: int                       // bits per limb
  const GENS: List[int]                 // of the library's own fields, which come first
  const FACTORS: List[List[int]]        // prime factors of p - 1 for those
  const NREG: int

  var fid: int
  var regs: List[int]
  var obs: Obs

  def p: int = MODS[fid]
  def nbits: int = LIMB * WIDTH[fid]
  def cap: int = 2^nbits
  def inv(x: int): int = powmod(x, p - 2, p, nbits)

  action write(op: str, args: List[List[int]], k: int, v: int, bad: bool): bool = all {
    obs' = { op: op, args: args, ret: if (bad) [] else [[v]], bad: if (bad) "panic" else "" },
    regs' = if (bad) regs else regs.replaceAt(k, v),
    fid' = fid,
  }
  action see(op: str, args: List[List[int]], ret: List[List[int]], bad: bool): bool = all {
    obs' = { op: op, args: args, ret: if (bad) [] else ret, bad: if (bad) "panic" else "" },
    regs' = regs, fid' = fid,
  }
  // constructors
  action fromBig(k: int, v: int): bool = write("fromBig", [[k], [v]], k, v % p, false)
  action fromUnsigned(k: int, w: int, v: int): bool = write("fromUnsigned", [[k], [w], [v]], k, v % p, false)
  action fromSigned(k: int, w: int, v: int): bool =
    write("fromSigned", [[k], [w], [v]], k, if (v >= 0) v % p else (p - (0 - v) % p) % p, false)
  action zeroize(k: int): bool = write("zeroize", [[k]], k, 0, false)
  // operators
  action add(i: int, j: int, k: int): bool = write("add", [[i], [j], [k]], k, (regs[i] + regs[j]) % p, false)
  action sub(i: int, j: int, k: int): bool = write("sub", [[i], [j], [k]], k, (regs[i] + p - regs[j]) % p, false)
  action mul(i: int, j: int, k: int): bool = write("mul", [[i], [j], [k]], k, regs[i] * regs[j] % p, false)
  action div(i: int, j: int, k: int): bool = write("div", [[i], [j], [k]], k, regs[i] * inv(regs[j]) % p, regs[j] == 0)
  action neg(i: int, k: int): bool = write("neg", [[i], [k]], k, (p - regs[i]) % p, false)
  action double(i: int, k: int): bool = write("double", [[i], [k]], k, 2 * regs[i] % p, false)
  action square(i: int, k: int): bool = write("square", [[i], [k]], k, regs[i] * regs[i] % p, false)
  // Zero has no inverse: the register keeps its value.
  action inverse(i: int, k: int): bool = all {
    obs' = { op: "inverse", args: [[i], [k]], ret: if (regs[i] == 0) [[]] else [[inv(regs[i])]], bad: "" },
    regs' = if (regs[i] == 0) regs else regs.replaceAt(k, inv(regs[i])),
    fid' = fid,
  }
  // Exponent types: 0..5 u8 u16 u32 u64 u128 usize, 6 the field's integer, 7 a slice of limbs.
  action pow(i: int, k: int, w: int, e: int, bits: int): bool =
    write("pow", [[i], [k], [w], [e]], k, powmod(regs[i], e, p, bits), false)
  action sumOfProducts(a: List[int], b: List[int], k: int): bool =
    write("sumOfProducts", [a, b, [k]], k, range(0, a.length()).foldl(0, (s, i) => (s + regs[a[i]] * regs[b[i]]) % p), false)
  action sum(a: List[int], k: int): bool = write("sum", [a, [k]], k, a.foldl(0, (s, i) => (s + regs[i]) % p), false)
  action product(a: List[int], k: int): bool = write("product", [a, [k]], k, a.foldl(1 % p, (s, i) => s * regs[i] % p), false)
  // observers
  action compare(i: int, j: int): bool =
    see("compare", [[i], [j]], [[cmp(regs[i], regs[j])], [bit(regs[i] == regs[j])], [bit(regs[i] == 0)], [bit(regs[i] == 1)]], false)
  action toInt(i: int, w: int, top: int): bool = see("toInt", [[i], [w]], [[regs[i]]], regs[i] > top)
  action constants: bool =
    see("constants", [], [[p], [bitlen(p, nbits)], [0], [1], [p], [1], if (fid < GENS.length()) [GENS[fid]] else []], false)

  action init = {
    nondet f = oneOf(FIDS)
    val zeros = range(0, NREG).foldl([], (l, i) => l.append(0))
    all { fid' = f, regs' = zeros, obs' = { ...noObs, args: [[f]] } }
  }
  pure def widths: List[int] = [8, 16, 32, 64, 128]
  pure def expWidths: List[int] = [8, 16, 32, 64, 128, 64]
  action load(k: int): bool = {
    nondet r = oneOf(0.to(cap - 1))
    nondet e = oneOf(0.to(nbits - 1))
    nondet z = oneOf(0.to(3))
    nondet m = oneOf(Set(0, 1, 2, p - 1, p - 2, p / 2, p / 2 + 1, 2^e % p, (2^e + p - 1) % p, cap % p, cap - p, cap - 1, r, r % p, r % p))
    nondet v = oneOf(Set(m, minOf(maxOf(p - 3 + z, 0), cap - 1), minOf(p + z, cap - 1), minOf(2 * p - 1 + z, cap - 1), minOf(2^e, cap - 1)))
    any { fromBig(k, v), fromBig(k, m % p * inv(cap % p) % p), fromBig(k, m % p * inv(cap % p) % p) }
  }
  action convert(k: int): bool = {
    nondet w = oneOf(0.to(4))
    nondet r = oneOf(0.to(2^(widths[w]) - 1))
    nondet d = oneOf(0.to(2))
    val t = 2^(widths[w])
    nondet v = oneOf(Set(r, t - 1, t - 1 - d, t / 2, t / 2 - 1 + d, d, minOf(p + d, t - 1), minOf(maxOf(p - d, 0), t - 1)))
    nondet s = oneOf(Set(r - t / 2, 0 - t / 2, d - t / 2, 0 - d, d, t / 2 - 1, 0 - minOf(p + d, t / 2), minOf(p + d, t / 2 - 1)))
    any { fromUnsigned(k, w, v), fromSigned(k, w, s) }
  }
  action power(i: int, k: int): bool = {
    nondet w = oneOf(0.to(7))
    nondet limbs = oneOf(0.to(3))
    val bits = if (w < 6) expWidths[w] else if (w == 6) nbits else LIMB * limbs
    nondet r = oneOf(0.to(2^bits - 1))
    nondet b = oneOf(0.to(maxOf(bits - 1, 0)))
    nondet e = oneOf(Set(r, r, 0, 1, 2, 3, p - 1, p - 2, p, (p - 1) / 2, 2^bits - 1, 2^b, 2^b - 1).filter(x => x < 2^bits))
    if (w == 7) pow(i, k, 10 + limbs, e, bits) else pow(i, k, w, e, bits)
  }
  action narrow(i: int): bool = {
    nondet w = oneOf(0.to(9))
    // u8..u128, then i8..i128
    toInt(i, w, if (w < 5) 2^(widths[w]) - 1 else 2^(widths[w - 5] - 1) - 1)
  }
  action step = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet l = oneOf(0.to(NREG - 1))
    nondet n = oneOf(0.to(5))
    any {
      load(k), load(k), load(k), convert(k), convert(k),
      add(i, j, k), sub(i, j, k), mul(i, j, k), mul(i, j, k), div(i, j, k), neg(i, k), double(i, k), square(i, k), inverse(i, k), inverse(i, k), power(i, k),
      sumOfProducts([i, j], [l, k], k), sumOfProducts([i, j, l], [l, k, i], k), sum([i, j, k, l, i].slice(0, n), k), product([i, j, k, l].slice(0, minOf(n, 4)), k),
      compare(i, j), if (WIDTH[fid] == 1 and LIMB == 64) narrow(i) else compare(i, j), if (n == 0) zeroize(k) else add(i, j, k), constants,
    }
  }
  action stepAll = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet v = oneOf(0.to(cap - 1))
    any { fromBig(k, v), add(i, j, k), sub(i, j, k), mul(i, j, k), div(i, j, k), neg(i, k), inverse(i, k), pow(i, k, 6, v, nbits) }
  }
  // Registers are canonical; inverses invert; the listed generators generate.
  val canonical = range(0, regs.length()).foldl(true, (a, i) => a and regs[i] >= 0 and regs[i] < p)
  val inverts = (obs.op == "inverse" and obs.ret != [[]]) implies
    range(0, regs.length()).foldl(false, (a, i) => a or regs[i] * obs.ret[0][0] % p == 1 % p)
  val generates = (obs.op == "constants" and fid < GENS.length()) implies
    range(0, FACTORS[fid].length()).foldl(true, (a, i) => a and powmod(GENS[fid], (p - 1) / FACTORS[fid][i], p, nbits) != 1)
  val safety = canonical and generates
}
module main {
  import cryptodata.* from "./cryptodata"
  import field(FIDS = 0.to(ALL_MODS.length() - 1), MODS = ALL_MODS, WIDTH = ALL_WIDTH, LIMB = 64, GENS = ALL_GENS, FACTORS = ALL_FACTORS, NREG = 5).*
}
module small {
  import field(FIDS = Set(0, 1), MODS = [5, 13], WIDTH = [2, 2], LIMB = 2, GENS = [2, 2], FACTORS = [[2], [2, 3]], NREG = 2).*
}
