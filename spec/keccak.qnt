// Keccak hashers as growing byte strings. A digest is denoted by the bytes it
// is the digest of; the conformance check evaluates it with its own Keccak-256.
module keccak {
  import cryptobs.* from "./cryptobs"
  const LENS: Set[int]
  const SLOTS: int
  const TOP: int            // bytes are 0..TOP

  var fed: List[List[int]]  // one live hasher per slot
  var obs: Obs

  action done(op: str, args: List[List[int]], ret: List[List[int]]): bool = all {
    obs' = { op: op, args: args, ret: ret, bad: "" }, fed' = fed }
  action update(s: int, x: List[int]): bool = all {
    obs' = { op: "update", args: [[s], x], ret: [], bad: "" }, fed' = fed.replaceAt(s, fed[s].concat(x)) }
  // Consumes the hasher; a new one takes its place.
  action finalize(s: int): bool = all {
    obs' = { op: "finalize", args: [[s]], ret: [fed[s]], bad: "" }, fed' = fed.replaceAt(s, []) }
  // hash_one of a value that feeds itself in pieces of c bytes (0: at once)
  action hashOne(x: List[int], c: int): bool = done("hashOne", [x, [c]], [x])
  // hash_pair and commutative_hash_pair, on a hasher that was already fed p
  action hashPair(p: List[int], x: List[int], y: List[int]): bool = done("hashPair", [p, x, y], [p.concat(x).concat(y)])
  pure def lessOrEq(x: List[int], y: List[int]): bool = {
    val n = minOf(x.length(), y.length())
    val d = range(0, n).foldl(0, (s, i) => if (s != 0) s else cmp(x[i], y[i]))
    d < 0 or (d == 0 and x.length() <= y.length())
  }
  action commutative(p: List[int], x: List[int], y: List[int]): bool =
    done("commutative", [p, x, y], [if (lessOrEq(x, y)) p.concat(x).concat(y) else p.concat(y).concat(x)])

  action init = {
    val none = range(0, SLOTS).foldl([], (l, i) => l.append([]))
    all { fed' = none, obs' = noObs }
  }
  pure def filled(len: int, kind: int, seed: int): List[int] =
    range(0, len).foldl({ l: [], x: seed }, (s, i) =>
      { l: s.l.append(if (kind == 0) 0 else if (kind == 1) TOP else s.x / 256 % (TOP + 1)), x: (s.x * 1103515 + 12345) % 16777216 }).l
  // x with byte `at` changed
  pure def touched(x: List[int], at: int, d: int): List[int] =
    if (x.length() == 0) [d] else x.replaceAt(at % x.length(), (x[at % x.length()] + d) % (TOP + 1))
  action pairs(p: List[int], x: List[int], y: List[int]): bool = any { hashPair(p, x, y), commutative(p, x, y), commutative(p, x, y) }
  action step = {
    nondet s = oneOf(0.to(SLOTS - 1))
    nondet len = oneOf(LENS)
    nondet len2 = oneOf(LENS)
    nondet kind = oneOf(0.to(4))
    nondet kind2 = oneOf(0.to(4))
    nondet seed = oneOf(0.to(16777215))
    nondet c = oneOf(0.to(40))
    nondet d = oneOf(1.to(TOP))
    nondet e = oneOf(1.to(TOP))
    any {
      update(s, filled(len, kind, seed)), update(s, filled(len % 9, kind, seed)), update(s, filled(len2, kind, seed)),
      finalize(s), finalize(s), hashOne(filled(len, kind, seed), c),
      pairs([], filled(len, kind, seed), filled(len2, kind2, seed)),
      pairs(filled(c % 3, 2, seed), filled(len, kind, seed), filled(len, kind, seed).slice(0, minOf(len, len2))),
      pairs([], filled(32, kind, seed), touched(filled(32, kind, seed), seed % 32, d)),
      pairs([], filled(32, kind, seed), touched(touched(filled(32, kind, seed), c, d), len, e)),
      pairs([], touched(filled(len, kind, seed), seed, d), touched(filled(len2, kind, seed), len + seed, e)),
      pairs([], filled(32, 2, seed), filled(32, 2, seed + 1)),
      pairs([], filled(32, kind, seed), filled(32, kind, seed)),
    }
  }
  action stepAll = {
    nondet s = oneOf(0.to(SLOTS - 1))
    nondet n = oneOf(0.to(2))
    nondet a = oneOf(0.to(TOP))
    nondet b = oneOf(0.to(TOP))
    any { all { fed[s].length() < 2, update(s, [a, b].slice(0, n)) }, finalize(s), hashOne([a, b], n),
      hashPair([], [a, b].slice(0, n), [b]), commutative([], [a, b].slice(0, n), [b, a]), commutative([], [a, b].slice(0, n), [b]) }
  }
  // The commutative hash denotes the same digest for both orders.
  val symmetric = obs.op == "commutative" implies {
    val x = obs.args[1]
    val y = obs.args[2]
    obs.ret == [obs.args[0].concat(if (lessOrEq(y, x)) y else x).concat(if (lessOrEq(y, x)) x else y)]
  }
  val safety = symmetric
}
module main {
  import keccak(LENS = Set(0, 1, 2, 31, 32, 33, 64, 134, 135, 136, 137, 138, 271, 272, 273), SLOTS = 3, TOP = 255).*
}
module small {
  import keccak(LENS = Set(0, 1, 2), SLOTS = 2, TOP = 1).*
}
