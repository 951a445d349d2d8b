// A trace of checkpoints (key, value) with keys never decreasing.
module checkpoints {
  import evm.* from "./evm"
  const KINDS: Set[int]                 // 0: 96/160 bits, 1: 48/208, 2: 32/224
  const KMAX: int -> int
  const VMAX: int -> int
  const EDGE: Set[int]
  const CHUNKS: Set[int]                // sizes of bulk insertions
  const LEN: int

  type Cp = { k: int, v: int }
  var kind: int
  var cps: List[Cp]
  var obs: Obs

  def len: int = cps.length()
  def lastCp: Cp = if (len == 0) { k: 0, v: 0 } else cps[len - 1]
  // Value of the last checkpoint whose key is at most x.
  pure def upper(l: List[Cp], x: int): int = l.foldl(0, (acc, c) => if (c.k <= x) c.v else acc)
  // Value of the first checkpoint whose key is at least x.
  pure def lower(l: List[Cp], x: int): int =
    l.foldl({ hit: false, v: 0 }, (acc, c) => if (not(acc.hit) and c.k >= x) { hit: true, v: c.v } else acc).v
  pure def place(l: List[Cp], k: int, v: int): List[Cp] =
    if (l.length() > 0 and l[l.length() - 1].k == k) l.replaceAt(l.length() - 1, { k: k, v: v }) else l.append({ k: k, v: v })

  action call(op: str, args: List[List[int]], ret: List[List[int]], errs: List[Err], l: List[Cp]): bool = all {
    obs' = { op: op, at: 0, by: 1, pay: 0, args: args, errs: errs, ret: ret, evs: [] },
    cps' = if (errs == []) l else cps,
    kind' = kind,
  }
  action push(k: int, v: int): bool =
    call("push(uint256,uint256)(uint256,uint256)", [[k], [v]], [[lastCp.v], [v]],
      guard(len > 0 and lastCp.k > k, "CheckpointUnorderedInsertion()", []), place(cps, k, v))
  // Several pushes in one call (only to build long histories quickly).
  action pushMany(ks: List[int], vs: List[int]): bool =
    val l = range(0, ks.length()).foldl(cps, (a, i) => place(a, ks[i], vs[i]))
    call("pushMany(uint256[],uint256[])()", [ks, vs], [], [], l)
  action lookups(xs: List[int]): bool =
    val up = xs.foldl([], (a, x) => a.append(upper(cps, x)))
    call("lookups(uint256[])(uint256[])", [xs],
      [xs.foldl([], (a, x) => a.append(lower(cps, x))).concat(up).concat(up)], [], cps)
  action readLatest: bool = call("latest()(uint256)", [], [[lastCp.v]], [], cps)
  action readLatestCp: bool = call("latestCheckpoint()(bool,uint256,uint256)", [], [[bit(len > 0)], [lastCp.k], [lastCp.v]], [], cps)
  action readAt(i: int): bool =
    call("at(uint32)(uint256,uint256)", [[i]], if (i < len) [[cps[i].k], [cps[i].v]] else [], guard(i >= len, "#empty", []), cps)

  action init = {
    nondet kd = oneOf(KINDS)
    all { kind' = kd, cps' = [], obs' = { ...initObs, args: [[kd]] } }
  }
  def kclip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= KMAX.get(kind))
  def vclip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= VMAX.get(kind))
  // All keys, their neighbours, and the extremes.
  def probes: List[int] =
    val l = cps.foldl([], (a, c) => a.concat([maxOf(c.k - 1, 0), c.k, minOf(c.k + 1, KMAX.get(kind))]))
    l.concat([0, 1, KMAX.get(kind)])
  action step = {
    nondet r = oneOf(0.to(2^224))
    nondet e = oneOf(EDGE)
    nondet c = oneOf(0.to(9))
    nondet n = oneOf(CHUNKS)
    nondet v = oneOf(vclip(Set(0, 1, e, VMAX.get(kind), r % (VMAX.get(kind) + 1))))
    nondet k = oneOf(kclip(Set(lastCp.k, lastCp.k + 1, lastCp.k - 1, lastCp.k + 2 + r % 5, lastCp.k + 3, if (c == 0) e else 0, if (c == 1) KMAX.get(kind) else lastCp.k + 7, r % (lastCp.k + 1))))
    nondet ahead = oneOf(kclip(Set(lastCp.k, lastCp.k + 1, lastCp.k + 2 + r % 5, lastCp.k + 1000)))
    nondet gap = oneOf(1.to(3))
    nondet i = oneOf(Set(0, 1, maxOf(len - 1, 0), len, len + 1, 2^32 - 1, r % (len + 1)))
    val room = lastCp.k + n * gap + 1 <= KMAX.get(kind)
    any {
      push(k, v), push(ahead, v), push(ahead, v),
      if (room and c < 4 and len < LEN) pushMany(
          range(0, n).foldl([], (a, j) => a.append(lastCp.k + 1 + j * gap)),
          range(0, n).foldl([], (a, j) => a.append((r + j * 977) % (VMAX.get(kind) + 1))))
        else push(ahead, v),
      lookups(probes), lookups(probes),
      readLatest, readLatestCp, readAt(i),
    }
  }
  action stepAll = {
    nondet k = oneOf(0.to(KMAX.get(kind)))
    nondet v = oneOf(0.to(VMAX.get(kind)))
    any { push(k, v), readAt(k) }
  }
  // Keys strictly increase, so "the" checkpoint of a key is unique, and the
  // two lookups agree exactly on the recorded keys.
  val ordered = range(0, cps.length()).foldl(true, (a, i) => a and (i == 0 or cps[i - 1].k < cps[i].k))
  val agree = range(0, cps.length()).foldl(true, (a, i) => a and upper(cps, cps[i].k) == cps[i].v and lower(cps, cps[i].k) == cps[i].v)
  val safety = ordered and (len <= 12 implies agree)
}
module main {
  import words.* from "./words"
  import checkpoints(KINDS = Set(0, 1, 2), KMAX = Map(0 -> 2^96 - 1, 1 -> 2^48 - 1, 2 -> 2^32 - 1),
    VMAX = Map(0 -> 2^160 - 1, 1 -> 2^208 - 1, 2 -> 2^224 - 1), EDGE = EDGES, CHUNKS = Set(1, 2, 3, 4, 5, 6, 9, 17), LEN = 70).*
}
module small {
  import checkpoints(KINDS = Set(0), KMAX = Map(0 -> 6), VMAX = Map(0 -> 2), EDGE = Set(0), CHUNKS = Set(1), LEN = 7).*
}
