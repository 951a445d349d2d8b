// Fixed-width unsigned integers as a register machine over unbounded integers
// modulo 2^(LIMB*n). One step exercises every public variant of an operation;
// a variant that must panic shows as an empty list.
module uint {
  import cryptobs.* from "./cryptobs"
  const NS: Set[int]        // widths, in limbs
  const LIMB: int           // bits per limb
  const NREG: int

  var n: int
  var regs: List[int]
  var obs: Obs

  def nbits: int = LIMB * n
  def cap: int = 2^nbits
  pure def limbTop: int = 2^LIMB

  action write(op: str, args: List[List[int]], ret: List[List[int]], k: int, v: int): bool = all {
    obs' = { op: op, args: args, ret: ret, bad: "" }, regs' = regs.replaceAt(k, v), n' = n }
  action see(op: str, args: List[List[int]], ret: List[List[int]]): bool = all {
    obs' = { op: op, args: args, ret: ret, bad: "" }, regs' = regs, n' = n }
  action fill(op: str, args: List[List[int]], k: int, v: int, bad: bool): bool = all {
    obs' = { op: op, args: args, ret: if (bad) [] else [[v]], bad: if (bad) "panic" else "" },
    regs' = if (bad) regs else regs.replaceAt(k, v), n' = n }

  // little-endian digits of x in the given base
  pure def digits(x: int, base: int, len: int): List[int] =
    range(0, len).foldl({ x: x, l: [] }, (s, i) => { x: s.x / base, l: s.l.append(s.x % base) }).l
  pure def fromDigits(d: List[int], base: int): int =
    d.foldl({ v: 0, m: 1 }, (s, x) => { v: s.v + x * s.m, m: s.m * base }).v
  pure def reversed(l: List[int]): List[int] = range(0, l.length()).foldl([], (r, i) => r.append(l[l.length() - 1 - i]))
  pure def trimmed(l: List[int]): List[int] = l.foldl([], (r, x) => if (r.length() == 0 and x == 0) r else r.append(x))
  pure def bitop(a: int, b: int, len: int, op: int): int =
    range(0, len).foldl({ a: a, b: b, m: 1, v: 0 }, (s, i) => {
      val x = s.a % 2
      val y = s.b % 2
      val z = if (op == 0) x * y else if (op == 1) x + y - x * y else (x + y) % 2
      { a: s.a / 2, b: s.b / 2, m: 2 * s.m, v: s.v + z * s.m } }).v

  // ---- constructors
  action load(k: int, limbs: List[int]): bool = {
    val v = fromDigits(limbs, limbTop)
    fill("load", [[k], limbs], k, v, false)
  }
  action constants(k: int): bool = write("constants", [[k]], [[0], [1], [cap - 1], [nbits], [n], [LIMB], [0]], k, cap - 1)
  // types 0..5: u8 u16 u32 u64 u128 usize
  action fromPrim(k: int, ty: int, v: int): bool = fill("fromPrim", [[k], [ty], [v]], k, v, v >= cap)
  action fromBytes(k: int, bytes: List[int]): bool = {
    val v = fromDigits(bytes, 256)
    val bad = 8 * bytes.length() != nbits
    fill("fromBytes", [[k], bytes], k, v, bad)
  }
  // Digits most significant first; a digit of 36 and more stands for a character that is none.
  action parse(k: int, radix: int, ds: List[int], form: int): bool = {
    val v = fromDigits(reversed(ds), radix)
    val bad = ds.length() == 0 or v >= cap or range(0, ds.length()).foldl(false, (a, i) => a or ds[i] >= radix)
    fill("parse", [[k], [radix], ds, [form]], k, v, bad)
  }
  // ---- arithmetic
  // ct_checked_add, checked_add_assign, ct_wrapping_add, ct_add, ct_adc
  action add(i: int, j: int, k: int, c: int): bool = {
    val s = regs[i] + regs[j]
    val t = s + c
    write("add", [[i], [j], [k], [c]],
      [[s % cap, s / cap], [s % cap, s / cap], [s % cap], if (s < cap) [s] else [], [t % cap, t / cap]], k, s % cap)
  }
  // ct_checked_sub, checked_sub_assign, ct_wrapping_sub
  action sub(i: int, j: int, k: int): bool = {
    val d = (regs[i] + cap - regs[j]) % cap
    val bo = bit(regs[i] < regs[j])
    write("sub", [[i], [j], [k]], [[d, bo], [d, bo], [d]], k, d)
  }
  // ct_widening_mul (low half kept, high half to the next register), ct_mul
  action mul(i: int, j: int, k: int): bool = {
    val m = regs[i] * regs[j]
    val lo = m % cap
    val hi = m / cap
    all {
      obs' = { op: "mul", args: [[i], [j], [k]], ret: [[lo, hi], if (hi == 0) [lo] else []], bad: "" },
      regs' = regs.replaceAt(k, lo).replaceAt((k + 1) % NREG, hi), n' = n,
    }
  }
  action mul2(i: int, k: int): bool = write("mul2", [[i], [k]], [[2 * regs[i] % cap, 2 * regs[i] / cap]], k, 2 * regs[i] % cap)
  action div2(i: int, k: int): bool = write("div2", [[i], [k]], [[regs[i] / 2]], k, regs[i] / 2)
  // (regs[h] * cap + regs[l]) mod regs[d]; the other answers describe the wide number
  action rem(l: int, h: int, d: int, k: int, at: int): bool = {
    val w = regs[h] * cap + regs[l]
    val bad = regs[d] == 0
    val v = if (bad) 0 else w % regs[d]
    all {
      obs' = { op: "rem", args: [[l], [h], [d], [k], [at]], ret: if (bad) [] else [[v], [bitlen(w, 2 * nbits)], [w / 2^at % 2]], bad: if (bad) "panic" else "" },
      regs' = if (bad) regs else regs.replaceAt(k, v), n' = n,
    }
  }
  action logic(i: int, j: int, k: int): bool = {
    val x = bitop(regs[i], regs[j], nbits, 2)
    write("logic", [[i], [j], [k]], [[bitop(regs[i], regs[j], nbits, 0)], [bitop(regs[i], regs[j], nbits, 1)], [x], [cap - 1 - regs[i]]], k, x)
  }
  // ---- observers
  // ge gt le lt eq ne, cmp, ==
  action compare(i: int, j: int): bool = {
    val a = regs[i]
    val b = regs[j]
    see("compare", [[i], [j]], [[bit(a >= b), bit(a > b), bit(a <= b), bit(a < b), bit(a == b), bit(a != b)], [cmp(a, b)], [bit(a == b)]])
  }
  // number of bits, odd, even, zero, bit `at` (zero beyond the width)
  action inspect(i: int, at: int): bool =
    see("inspect", [[i], [at]], [[bitlen(regs[i], nbits)], [regs[i] % 2], [1 - regs[i] % 2], [bit(regs[i] == 0)], [regs[i] / 2^at % 2]])
  action bytes(i: int): bool = see("bytes", [[i]], [digits(regs[i], 256, nbits / 8), reversed(digits(regs[i], 16, nbits / 4))])
  action bits(i: int): bool = {
    val l = reversed(digits(regs[i], 2, nbits))
    see("bits", [[i]], [l, trimmed(l), l, trimmed(l)])
  }
  // big-endian bits of a primitive of type ty
  action primBits(ty: int, w: int, v: int): bool = {
    val l = reversed(digits(v, 2, w))
    see("primBits", [[ty], [v]], [l, trimmed(l)])
  }
  // widening_mul, mac, carrying_mac, adc, sbb, adc_assign, sbb_assign on limbs
  action limbs(a: int, b: int, c: int, d: int): bool = {
    val m = a * b
    val m1 = a + b * c
    val m2 = a + b * c + d
    val s = a + b + d
    val e = d % 2
    val t = a + b + e
    val u = (2 * limbTop + a - b - e) % limbTop
    val bo = bit(a < b + e)
    see("limbs", [[a], [b], [c], [d]], [[m], [m1 % limbTop, m1 / limbTop], [m2 % limbTop, m2 / limbTop],
      [s % limbTop, s / limbTop], [u, bo], [t % limbTop, t / limbTop], [u, bo]])
  }

  action init = {
    nondet w = oneOf(NS)
    val zeros = range(0, NREG).foldl([], (l, i) => l.append(0))
    all { n' = w, regs' = zeros, obs' = { ...noObs, args: [[w]] } }
  }
  // Limb patterns: a run of limbs of one kind, another run, the rest.
  pure def kinds(r: int): List[int] = [0, 1, limbTop - 1, limbTop - 2, limbTop / 2, 2^(LIMB / 2), r, 2^(LIMB / 2) - 1]
  action loads(k: int): bool = {
    nondet r1 = oneOf(0.to(limbTop - 1))
    nondet r2 = oneOf(0.to(limbTop - 1))
    nondet r3 = oneOf(0.to(limbTop - 1))
    nondet p = oneOf(0.to(n))
    nondet q = oneOf(0.to(n))
    nondet x = oneOf(0.to(7))
    nondet y = oneOf(0.to(7))
    nondet z = oneOf(0.to(7))
    load(k, range(0, n).foldl([], (l, i) => l.append(if (i < p) kinds(r1)[x] else if (i <= q) kinds(r2)[y] else kinds(r3)[z])))
  }
  // A value a little off a power of two, or off another register.
  action near(i: int, k: int): bool = {
    nondet e = oneOf(0.to(nbits))
    nondet d = oneOf((-2).to(2))
    val a = (2^e + d + cap) % cap
    val b = (regs[i] + d + cap) % cap
    nondet v = oneOf(Set(a, b))
    load(k, digits(v, limbTop, n))
  }
  pure def widths: List[int] = [8, 16, 32, 64, 128, 64]
  action prims(k: int): bool = {
    nondet ty = oneOf(0.to(5))
    nondet r = oneOf(0.to(2^(widths[ty]) - 1))
    nondet e = oneOf(0.to(widths[ty]))
    nondet d = oneOf(0.to(2))
    val t = 2^(widths[ty])
    nondet v = oneOf(Set(r, (2^e + t - d) % t, d))
    any { fromPrim(k, ty, v), primBits(ty, widths[ty], v) }
  }
  action byteStrings(k: int): bool = {
    nondet v = oneOf(0.to(cap - 1))
    nondet len = oneOf(Set(8 * n, 8 * n, 8 * n - 1, 8 * n + 1, 0, 8, 8 * n + 8))
    fromBytes(k, digits(v, 256, len))
  }
  // Strings of a value near the top, or of a register, perhaps with zeros in
  // front (never more digits than a value at the top needs) or a bad digit.
  pure def lg(radix: int): int = if (radix < 4) 1 else if (radix < 8) 2 else if (radix < 16) 3 else if (radix < 32) 4 else 5
  pure def string(v: int, radix: int, len: int): List[int] = trimmed(reversed(digits(v, radix, len)))
  pure def spoil(s: List[int], wrong: int, at: int): List[int] = if (s.length() == 0) s else s.replaceAt(at % s.length(), wrong)
  pure def pad(s: List[int], full: int, how: int): List[int] = {
    val z = maxOf(full - s.length(), 0)
    range(0, if (how == 0) z else if (how == 1) minOf(z, 1) else 0).foldl([], (l, j) => l.append(0)).concat(s)
  }
  action parses(i: int, k: int): bool = {
    nondet radix = oneOf(Set(2, 3, 7, 8, 10, 15, 16, 20, 32, 35, 36))
    nondet rad = oneOf(if (nbits <= 256) Set(radix, 10, 16) else Set(10, 16))
    nondet r = oneOf(0.to(cap - 1))
    nondet d = oneOf(0.to(3))
    nondet v = oneOf(Set(cap - 1 - d, cap + d, cap * rad + d, r, regs[i], d))
    nondet wrong = oneOf(Set(rad, 36, 37, 38))
    nondet good = oneOf(0.to(3))
    nondet form = oneOf(0.to(1))
    nondet how = oneOf(0.to(4))
    nondet pos = oneOf(0.to(1000))
    parseText(k, rad, v, how, good > 0, wrong, pos, if (rad == 16) form else 0)
  }
  action parseText(k: int, rad: int, v: int, how: int, good: bool, wrong: int, pos: int, form: int): bool =
    parsePad(k, rad, string(v, rad, nbits / lg(rad) + 8), string(cap - 1, rad, nbits / lg(rad) + 8).length(), how, good, wrong, pos, form)
  action parsePad(k: int, rad: int, s: List[int], full: int, how: int, good: bool, wrong: int, pos: int, form: int): bool =
    parse(k, rad, if (good) pad(s, full, how) else spoil(pad(s, full, how), wrong, pos), form)
  action limbOps: bool = {
    nondet r = oneOf(0.to(limbTop - 1))
    nondet s = oneOf(0.to(limbTop - 1))
    nondet a = oneOf(0.to(7))
    nondet b = oneOf(0.to(7))
    nondet c = oneOf(0.to(7))
    nondet d = oneOf(0.to(7))
    limbs(kinds(r)[a], kinds(s)[b], kinds(r)[c], kinds(s)[d])
  }
  action step = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet l = oneOf(0.to(NREG - 1))
    nondet at = oneOf(0.to(nbits + 3))
    nondet at2 = oneOf(0.to(2 * nbits + 2))
    nondet c = oneOf(0.to(limbTop - 1))
    nondet c1 = oneOf(Set(0, 1, 1, limbTop - 1, c))
    nondet d = oneOf(Set(0, 1, nbits - 1, nbits, nbits + 1, nbits - LIMB, nbits - LIMB + 1))
    any {
      loads(k), loads(k), loads(k), loads(l), near(i, k), near(l, k), add(i, j, k, c1), add(i, j, k, c1), sub(i, j, k), sub(i, j, k), mul(i, j, k), mul(i, j, k),
      mul2(i, k), div2(i, k), rem(i, j, l, k, at2), rem(i, j, l, k, at2), logic(i, j, k), compare(i, j), compare(i, j), inspect(i, at), inspect(i, d),
      bytes(i), bits(i), prims(k), byteStrings(k), parses(i, k), parses(i, k), limbOps, limbOps, constants(k),
    }
  }
  action stepAll = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet v = oneOf(0.to(cap - 1))
    any { load(k, digits(v, limbTop, n)), add(i, j, k, v % limbTop), sub(i, j, k), mul(i, j, k), mul2(i, k), div2(i, k), rem(i, j, 0, k, 1), logic(i, j, k) }
  }
  val inRange = range(0, regs.length()).foldl(true, (a, i) => a and regs[i] >= 0 and regs[i] < cap)
  // or + and = sum, or - and = xor; a remainder is below its divisor (recorded as bound in rem's definition)
  val logical = obs.op == "logic" implies obs.ret[1][0] - obs.ret[0][0] == obs.ret[2][0]
  val safety = inRange and logical
}
module main {
  import uint(NS = 1.to(13), LIMB = 64, NREG = 4).*
}
module small {
  import uint(NS = Set(1, 2), LIMB = 2, NREG = 2).*
}
