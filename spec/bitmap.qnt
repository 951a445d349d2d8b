// A set of 256-bit indices.
module bitmap {
  import evm.* from "./evm"
  const UMAX: int
  const FIXED: Set[int]
  const BASES: Set[int]
  const OFFS: Set[int]

  var bits: int -> int
  var members: Set[int]
  var obs: Obs

  action call(op: str, args: List[List[int]], ret: List[List[int]], i: int, b: int): bool = all {
    obs' = { op: op, at: 0, by: 1, pay: 0, args: args, errs: [], ret: ret, evs: [] },
    bits' = bits.set(i, b),
    members' = if (b == 1) members.union(Set(i)) else members.exclude(Set(i)),
  }
  action insert(i: int): bool = call("set(uint256)()", [[i]], [], i, 1)
  action unset(i: int): bool = call("unset(uint256)()", [[i]], [], i, 0)
  action setTo(i: int, b: int): bool = call("setTo(uint256,bool)()", [[i], [b]], [], i, b)
  action lookup(i: int): bool = call("get(uint256)(bool)", [[i]], [[bits.get(i)]], i, bits.get(i))
  action start(is: Set[int]): bool = all { bits' = is.mapBy(_ => 0), members' = Set(), obs' = initObs }
  action init = {
    nondet r = oneOf(0.to(UMAX))
    nondet b = oneOf(BASES.union(Set(r)))
    start(FIXED.union(OFFS.map(o => (b + o) % (UMAX + 1))).union(Set(b)))
  }
  action step = {
    nondet i = oneOf(bits.keys())
    nondet j = oneOf(bits.keys())
    nondet b = oneOf(Set(0, 1))
    nondet c = oneOf(0.to(9))
    any { insert(i), if (c < 5) unset(i) else insert(j), setTo(i, b), if (c < 5) lookup(i) else unset(j) }
  }
  action initAll = start(FIXED)
  action stepAll = {
    nondet i = oneOf(bits.keys())
    nondet b = oneOf(Set(0, 1))
    any { insert(i), unset(i), setTo(i, b) }
  }
  val safety = bits.keys().forall(i => members.contains(i) iff bits.get(i) == 1)
}
module main {
  import words.* from "./words"
  import bitmap(UMAX = MAX, FIXED = Set(0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536, 2^128, 2^248, 2^255, MAX - 256, MAX - 255, MAX - 1, MAX),
    BASES = Set(2^64, 2^96 + 8, 2^200, 12345), OFFS = Set(1, 2, 3, 8, 16, 64, 128, 192, 255, 256, 257, 512, 2^16, 2^32, 2^64, 2^128, 2^192, 2^248, 2^255)).*
}
module small {
  import bitmap(UMAX = 8, FIXED = Set(0, 1, 2, 3, 4, 5, 6), BASES = Set(0), OFFS = Set(0)).*
}
