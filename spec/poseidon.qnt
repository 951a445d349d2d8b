// The Poseidon2 permutation from its definition (matrices written out, not the
// addition chains of the code) inside a sponge.
module poseidon {
  import cryptobs.* from "./cryptobs"
  const IDS: Set[int]
  const SPONGES: List[List[int]]        // p, t, power, capacity, full rounds, partial rounds
  const DIAGS: List[List[int]]          // internal matrix minus all ones
  const RCS: List[List[List[int]]]

  var id: int
  var lanes: List[int]
  var squeezing: bool
  var index: int
  var obs: Obs

  def p: int = SPONGES[id][0]
  def t: int = SPONGES[id][1]
  def capacity: int = SPONGES[id][3]

  // External matrix: circ(2,1), circ(2,1,1), M4, or circ(2 M4, M4, ..., M4).
  pure val M4: List[List[int]] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]
  pure def ext(n: int, i: int, j: int): int =
    if (n < 4) (if (i == j) 2 else 1)
    else M4[i % 4][j % 4] * (if (n > 4 and i / 4 == j / 4) 2 else 1)
  pure def external(x: List[int], q: int): List[int] =
    range(0, x.length()).foldl([], (r, i) =>
      r.append(range(0, x.length()).foldl(0, (s, j) => s + ext(x.length(), i, j) * x[j]) % q))
  pure def internal(x: List[int], d: List[int], q: int): List[int] = {
    val total = x.foldl(0, (s, v) => s + v)
    range(0, x.length()).foldl([], (r, i) => r.append((total + d[i] * x[i]) % q))
  }
  pure def power(x: int, d: int, q: int): int = range(0, d).foldl(1, (s, i) => s * x % q)
  pure def permuted(x: List[int], sp: List[int], d: List[int], rc: List[List[int]]): List[int] =
    range(0, sp[4] + sp[5]).foldl(external(x, sp[0]), (s, r) =>
      if (r >= sp[4] / 2 and r < sp[4] / 2 + sp[5])
        internal(s.replaceAt(0, power((s[0] + rc[r][0]) % sp[0], sp[2], sp[0])), d, sp[0])
      else
        external(range(0, s.length()).foldl([], (l, i) => l.append(power((s[i] + rc[r][i]) % sp[0], sp[2], sp[0]))), sp[0]))
  type Sponge = { lanes: List[int], index: int }
  def perm(x: List[int]): List[int] = permuted(x, SPONGES[id], DIAGS[id], RCS[id])

  def absorbed(s: Sponge, x: int): Sponge = {
    val f = if (s.index == t) { lanes: perm(s.lanes), index: capacity } else s
    { lanes: f.lanes.replaceAt(f.index, (f.lanes[f.index] + x) % p), index: f.index + 1 }
  }
  def now: Sponge = { lanes: lanes, index: index }
  action become(op: str, args: List[List[int]], ret: List[List[int]], bad: bool, s: Sponge, sq: bool): bool = all {
    obs' = { op: op, args: args, ret: if (bad) [] else ret, bad: if (bad) "panic" else "" },
    lanes' = s.lanes, index' = s.index, squeezing' = sq, id' = id,
  }
  action fresh(op: str): bool =
    become(op, [], [[t]], false, { lanes: range(0, t).foldl([], (l, i) => l.append(0)), index: capacity }, false)
  action absorb(x: int): bool =
    if (squeezing) become("absorb", [[x]], [], true, now, true)
    else become("absorb", [[x]], [], false, absorbed(now, x), false)
  action absorbBatch(xs: List[int]): bool =
    if (squeezing and xs.length() > 0) become("absorbBatch", [xs], [], true, now, true)
    else become("absorbBatch", [xs], [], false, xs.foldl(now, (s, x) => absorbed(s, x)), squeezing)
  action permute: bool = become("permute", [], [], false, { lanes: perm(lanes), index: index }, squeezing)
  // Before the first output, and whenever the rate is used up, permute.
  type Out = { s: Sponge, sq: bool, out: List[int] }
  def squeezed(o: Out): Out = {
    val f = if (not(o.sq) or o.s.index == t) { lanes: perm(o.s.lanes), index: capacity } else o.s
    { s: { lanes: f.lanes, index: f.index + 1 }, sq: true, out: o.out.append(f.lanes[f.index]) }
  }
  action give(op: str, args: List[List[int]], o: Out): bool = become(op, args, [o.out], false, o.s, o.sq)
  action squeeze: bool = give("squeeze", [], squeezed({ s: now, sq: squeezing, out: [] }))
  action squeezeBatch(n: int): bool =
    give("squeezeBatch", [[n]], range(0, n).foldl({ s: now, sq: squeezing, out: [] }, (o, i) => squeezed(o)))

  action start(i: int, n: int, cap: int): bool = {
    val zeros = range(0, n).foldl([], (l, k) => l.append(0))
    all { id' = i, lanes' = zeros, index' = cap, squeezing' = false, obs' = { ...noObs, args: [[i]] } }
  }
  action init = {
    nondet i = oneOf(IDS)
    start(i, SPONGES[i][1], SPONGES[i][3])
  }
  def some(r: int, n: int): List[int] = range(0, n).foldl([], (l, k) => l.append((r * (k + 1) + k) % p))
  action step = {
    nondet r = oneOf(0.to(p - 1))
    nondet x = oneOf(Set(r, r, 0, 1, p - 1, p - 2))
    nondet n = oneOf(0.to(2 * t + 1))
    nondet m = oneOf(0.to(t))
    nondet z = oneOf(0.to(3))
    if (squeezing) any {
      squeeze, squeeze, squeeze, squeezeBatch(m), squeezeBatch(n), permute, absorb(x), absorbBatch(some(x, z)), fresh("fresh"), fresh("fresh") }
    else any {
      absorb(x), absorb(x), absorb(x), absorbBatch(some(x, m)), absorbBatch(some(x, n)), squeeze, squeezeBatch(m), permute, if (z == 0) fresh("fresh") else absorb(x) }
  }
  action stepAll = {
    nondet x = oneOf(0.to(p - 1))
    nondet n = oneOf(0.to(2))
    any { absorb(x), absorbBatch([x, 1].slice(0, n)), permute, squeeze, squeezeBatch(n), fresh("fresh") }
  }
  val inRange = range(0, lanes.length()).foldl(true, (a, i) => a and lanes[i] >= 0 and lanes[i] < p) and index >= capacity and index <= t
  val safety = inRange and lanes.length() == t
  // The permutation is one (small instances of two lanes only).
  val bijective = obs.op == "init" implies
    tuples(0.to(p - 1), 0.to(p - 1)).map(x => perm([x._1, x._2])).size() == p * p
  val laws = safety and bijective
}
module main {
  import cryptodata.* from "./cryptodata"
  import poseidon(IDS = 0.to(ALL_SPONGES.length() - 1), SPONGES = ALL_SPONGES, DIAGS = ALL_DIAGS, RCS = ALL_RCS).*
}
module small {
  import poseidon(IDS = Set(0, 1), SPONGES = [[17, 2, 3, 1, 2, 1], [11, 2, 3, 0, 2, 1]], DIAGS = [[1, 2], [1, 2]], RCS = [[[1, 4], [2, 0], [0, 3]], [[7, 4], [2, 0], [10, 3]]]).*
}
