// Points of short Weierstrass curves y^2 = x^3 + a x + b as a register machine.
// A point is [x, y], the identity is []. Sums follow the chord-and-tangent law;
// multiples are computed in homogeneous coordinates.
module curve {
  import cryptobs.* from "./cryptobs"
  const IDS: Set[int]
  const CURVES: List[List[int]]             // p, a, b, order, cofactor, generator x, y, limbs of the base and scalar field
  const POINTS: List[List[List[int]]]       // points to start from
  const LIMB: int
  const NREG: int

  var id: int
  var regs: List[List[int]]
  var obs: Obs

  type Pt = List[int]
  type Hom = { x: int, y: int, z: int }
  pure def pos(x: int, p: int): int = (x % p + p) % p
  pure def inv(x: int, p: int, n: int): int = powmod(x, p - 2, p, n)
  def p: int = CURVES[id][0]
  def a: int = CURVES[id][1]
  def b: int = CURVES[id][2]
  def order: int = CURVES[id][3]
  def cofactor: int = CURVES[id][4]
  def nb: int = LIMB * CURVES[id][7]
  def ns: int = LIMB * CURVES[id][8]

  pure def onCurve(c: List[int], q: Pt): bool =
    q.length() == 0 or (q[1] * q[1]) % c[0] == (q[0] * q[0] * q[0] + c[1] * q[0] + c[2]) % c[0]
  pure def negate(c: List[int], q: Pt): Pt = if (q.length() == 0) q else [q[0], (c[0] - q[1]) % c[0]]
  // The third intersection, reflected; l is the slope.
  pure def along(c: List[int], q: Pt, r: Pt, l: int): Pt = {
    val x = pos(l * l - q[0] - r[0], c[0])
    [x, pos(l * (q[0] - x) - q[1], c[0])]
  }
  pure def plus(c: List[int], q: Pt, r: Pt, n: int): Pt =
    if (q.length() == 0) r else if (r.length() == 0) q
    else if (q[0] != r[0]) along(c, q, r, pos((r[1] - q[1]) * inv(pos(r[0] - q[0], c[0]), c[0], n), c[0]))
    else if ((q[1] + r[1]) % c[0] == 0) []
    else along(c, q, r, (3 * q[0] * q[0] + c[1]) * inv(2 * q[1] % c[0], c[0], n) % c[0])
  // Homogeneous coordinates (x = X/Z, y = Y/Z), identity at Z = 0.
  pure val none: Hom = { x: 0, y: 1, z: 0 }
  pure def twice(c: List[int], h: Hom): Hom = {
    val w = (c[1] * h.z * h.z + 3 * h.x * h.x) % c[0]
    val s = h.y * h.z % c[0]
    val t = h.x * h.y * s % c[0]
    val u = pos(w * w - 8 * t, c[0])
    { x: 2 * u * s % c[0], y: pos(w * (4 * t - u) - 8 * h.y * h.y * s * s, c[0]), z: 8 * s * s * s % c[0] }
  }
  pure def joined(c: List[int], h: Hom, g: Hom): Hom =
    if (h.z == 0) g else if (g.z == 0) h else {
      val u = pos(g.y * h.z - h.y * g.z, c[0])
      val v = pos(g.x * h.z - h.x * g.z, c[0])
      if (v == 0) (if (u == 0) twice(c, h) else none) else {
        val zz = h.z * g.z % c[0]
        val vv = v * v % c[0]
        val vvv = vv * v % c[0]
        val e = vv * h.x * g.z % c[0]
        val f = pos(u * u * zz - vvv - 2 * e, c[0])
        { x: v * f % c[0], y: pos(u * (e - f) - vvv * h.y * g.z, c[0]), z: vvv * zz % c[0] }
      }
    }
  pure def toPoint(c: List[int], h: Hom, n: int): Pt = if (h.z == 0) [] else {
    val i = inv(h.z, c[0], n)
    [h.x * i % c[0], h.y * i % c[0]]
  }
  // k times q, for k < 2^len.
  pure def times(c: List[int], k: int, q: Pt, len: int, n: int): Pt =
    if (q.length() == 0) [] else
    toPoint(c, range(0, bitlen(k, len)).foldl({ acc: none, base: { x: q[0], y: q[1], z: 1 }, k: k }, (s, i) => {
      acc: if (s.k % 2 == 1) joined(c, s.acc, s.base) else s.acc, base: twice(c, s.base), k: s.k / 2 }).acc, n)
  pure def inSubgroup(c: List[int], q: Pt, n: int, len: int): bool = c[4] == 1 or times(c, c[3], q, len, n) == []
  pure def list(q: Pt): Pt = q

  action write(op: str, args: List[List[int]], k: int, v: Pt): bool = all {
    obs' = { op: op, args: args, ret: [v], bad: "" }, regs' = regs.replaceAt(k, v), id' = id }
  action see(op: str, args: List[List[int]], ret: List[List[int]]): bool = all {
    obs' = { op: op, args: args, ret: ret, bad: "" }, regs' = regs, id' = id }

  action load(k: int, q: Pt): bool = write("load", [[k], q], k, q)
  action generator(k: int): bool = write("generator", [[k]], k, [CURVES[id][5], CURVES[id][6]])
  action zero(k: int): bool = write("zero", [[k]], k, [])
  action zeroize(k: int): bool = write("zeroize", [[k]], k, [])
  // The checked constructors refuse what is not a point of the subgroup.
  action create(k: int, q: Pt, ok: bool): bool = all {
    obs' = { op: "create", args: [[k], q], ret: if (ok) [q] else [], bad: if (ok) "" else "panic" },
    regs' = if (ok) regs.replaceAt(k, q) else regs, id' = id,
  }
  action tryNew(k: int, q: Pt): bool = create(k, q, onCurve(CURVES[id], q) and inSubgroup(CURVES[id], q, nb, ns))
  // On the curve; if so, in the subgroup.
  action test(q: Pt): bool =
    see("test", [q], [[bit(onCurve(CURVES[id], q))], if (onCurve(CURVES[id], q)) [bit(inSubgroup(CURVES[id], q, nb, ns))] else []])
  action add(i: int, j: int, k: int): bool = write("add", [[i], [j], [k]], k, plus(CURVES[id], regs[i], regs[j], nb))
  action sub(i: int, j: int, k: int): bool = write("sub", [[i], [j], [k]], k, plus(CURVES[id], regs[i], negate(CURVES[id], regs[j]), nb))
  action neg(i: int, k: int): bool = write("neg", [[i], [k]], k, negate(CURVES[id], regs[i]))
  action double(i: int, k: int): bool = write("double", [[i], [k]], k, plus(CURVES[id], regs[i], regs[i], nb))
  // form: 0..5 u8 u16 u32 u64 u128 usize, 6 integer of the scalar field, 7 scalar, 8 bits, 10+l a slice of l limbs
  action mul(i: int, k: int, form: int, e: int, len: int): bool = write("mul", [[i], [k], [form], [e]], k, times(CURVES[id], e, regs[i], len, nb))
  action cofactorMul(i: int, k: int): bool = write("cofactor", [[i], [k]], k, times(CURVES[id], cofactor, regs[i], nb, nb))
  action cofactorInv(i: int, k: int): bool =
    write("cofactorInv", [[i], [k]], k, times(CURVES[id], inv(cofactor % order, order, ns), regs[i], ns, nb))
  action sum(l: List[int], k: int): bool = write("sum", [l, [k]], k, l.foldl([], (s, i) => plus(CURVES[id], s, regs[i], nb)))
  // into_affine, xy, x, y, is_zero and normalize_batch of a list of registers
  action normalize(l: List[int]): bool = see("normalize", [l], l.foldl([], (s, i) => s.append(regs[i])))
  action equal(i: int, j: int): bool = see("equal", [[i], [j]], [[bit(regs[i] == regs[j])]])
  action batchInversion(l: List[int]): bool =
    see("batchInversion", [l], [l.foldl([], (s, x) => s.append(if (x == 0) 0 else inv(x, p, nb)))])

  action start(i: int): bool = {
    val empty = range(0, NREG).foldl([], (l, k) => l.append(list([])))
    all { id' = i, regs' = empty, obs' = { ...noObs, args: [[i]] } }
  }
  action init = {
    nondet i = oneOf(IDS)
    start(i)
  }
  action starts(k: int): bool = {
    nondet i = oneOf(0.to(POINTS[id].length() - 1))
    nondet d = oneOf(0.to(2))
    nondet r = oneOf(0.to(p - 1))
    nondet x = oneOf(Set(r, r, 0, 1, p - 1))
    any {
      load(k, POINTS[id][i]), load(k, POINTS[id][i]), load(k, POINTS[id][i]), load(k, POINTS[id][i]), generator(k), generator(k), zero(k), if (d == 0) zeroize(k) else load(k, POINTS[id][i]),
      tryNew(k, POINTS[id][i]), tryNew(k, if (d == 0) [POINTS[id][i][0], (POINTS[id][i][1] + 1) % p] else POINTS[id][i]),
      test(POINTS[id][i]), test([x, POINTS[id][i][1]]), test([POINTS[id][i][0], x]),
    }
  }
  action scalars(i: int, k: int): bool = {
    nondet form = oneOf(0.to(12))
    val len = if (form < 6) [8, 16, 32, 64, 128, 64][form] else if (form < 8) ns else if (form == 8) nb else 64 * (form - 10 + 2)
    nondet r = oneOf(0.to(2^len - 1))
    nondet b1 = oneOf(0.to(len - 1))
    val top = if (form == 7) order else 2^len
    nondet e = oneOf(Set(r % top, r % top, 0, 1, 2, 3, order - 1, order, order + 1, (order + 1) / 2, 2 * order, cofactor, 2^b1, 2^b1 - 1, top - 1).filter(x => x < top))
    mul(i, k, if (form < 9) form else form + 1, e, len)
  }
  action inversions: bool = {
    nondet r = oneOf(0.to(p - 1))
    nondet s = oneOf(0.to(p - 1))
    nondet n = oneOf(0.to(5))
    nondet x = oneOf(Set(0, 1, p - 1, r))
    nondet y = oneOf(Set(0, 1, 2, s))
    batchInversion([x, y, r, s, 0].slice(0, n))
  }
  action step = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet l = oneOf(0.to(NREG - 1))
    nondet n = oneOf(0.to(5))
    any {
      starts(k), starts(k), starts(i), add(i, j, k), add(i, j, k), add(i, i, k), sub(i, j, k), sub(i, i, k), neg(i, k), neg(i, k), double(i, k), double(i, k),
      scalars(i, k), scalars(j, k), cofactorMul(i, k), cofactorInv(i, k), sum([i, j, k, l, i].slice(0, n), k), normalize([i, j, l, k, k].slice(0, n)),
      normalize([i]), equal(i, j), equal(i, j), inversions,
    }
  }
  action stepAll = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet q = oneOf(0.to(POINTS[id].length() - 1))
    nondet e = oneOf(0.to(7))
    any { load(k, POINTS[id][q]), add(i, j, k), sub(i, j, k), neg(i, k), double(i, k), mul(i, k, 0, e, 4), cofactorMul(i, k), tryNew(k, POINTS[id][q]), equal(i, j) }
  }
  val closed = range(0, regs.length()).foldl(true, (ok, i) => ok and onCurve(CURVES[id], regs[i]))
  val safety = closed
  // The group laws, over all points of a small curve.
  def laws3(q: Pt, r: Pt, s: Pt): bool = and {
    plus(CURVES[id], plus(CURVES[id], q, r, nb), s, nb) == plus(CURVES[id], q, plus(CURVES[id], r, s, nb), nb),
    plus(CURVES[id], q, r, nb) == plus(CURVES[id], r, q, nb),
    plus(CURVES[id], q, negate(CURVES[id], q), nb) == [],
    plus(CURVES[id], q, plus(CURVES[id], q, q, nb), nb) == times(CURVES[id], 3, q, 3, nb),
    times(CURVES[id], order * cofactor, q, nb + ns, nb) == [],
    inSubgroup(CURVES[id], times(CURVES[id], cofactor, q, nb, nb), nb, ns),
  }
  val laws = safety and (obs.op == "init" implies
    range(0, POINTS[id].length()).foldl(true, (x, i) => x and range(0, POINTS[id].length()).foldl(true, (y, j) => y and
      range(0, POINTS[id].length()).foldl(true, (z, k) => z and laws3(POINTS[id][i], POINTS[id][j], POINTS[id][k])))))
}
module main {
  import cryptodata.* from "./cryptodata"
  import curve(IDS = 0.to(ALL_CURVES.length() - 1), CURVES = ALL_CURVES, POINTS = ALL_POINTS, LIMB = 64, NREG = 4).*
}
module small {
  import curve(IDS = Set(0, 1), CURVES = [[5, 2, 1, 7, 1, 0, 1, 1, 1], [7, 0, 1, 3, 4, 0, 1, 1, 1]], LIMB = 4, NREG = 2,
    POINTS = [[[0, 1], [0, 4], [1, 2], [1, 3], [3, 2], [3, 3]], [[0, 1], [0, 6], [1, 3], [1, 4], [2, 3], [2, 4], [3, 0], [4, 3], [4, 4], [5, 0], [6, 0]]]).*
}
