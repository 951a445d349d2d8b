// 256-bit arithmetic helpers, against unbounded integers.  Operands are built
// from the answer where that reaches the boundaries: x = r*r + d with d <= 2r
// has square root r, and products are placed next to multiples of a divisor.
module math {
  import evm.* from "./evm"
  const BITS: int
  const EDGE: Set[int]

  pure val UMAX: int = 2^BITS - 1
  var count: int
  var obs: Obs

  action call(op: str, args: List[List[int]], ret: List[List[int]], errs: List[Err]): bool = all {
    obs' = { op: op, at: 0, by: 1, pay: 0, args: args, errs: errs, ret: ret, evs: [] },
    count' = (count + 1) % 2,
  }
  action sqrts(xs: List[int], rs: List[int]): bool = call("sqrts(uint256[])(uint256[])", [xs], [rs], [])
  action averages(xs: List[int], ys: List[int]): bool =
    call("averages(uint256[],uint256[])(uint256[])", [xs, ys],
      [range(0, xs.length()).foldl([], (a, i) => a.append((xs[i] + ys[i]) / 2))], [])
  pure def quot(p: int, d: int, up: int): int = if (d == 0) 0 else (p + (if (up == 1) d - 1 else 0)) / d
  action mulDiv(x: int, y: int, d: int, up: int): bool =
    val q = quot(x * y, d, up)
    call("mulDiv(uint256,uint256,uint256,bool)(uint256)", [[x], [y], [d], [up]], [[q]], guard(d == 0 or q > UMAX, "#empty", []))

  action init = { nondet k = oneOf(Set(0, 1))  all { count' = k, obs' = initObs } }
  pure def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  // n numbers of every bit length, derived from a random seed.
  pure def spread(r: int, n: int, bits: int): List[int] =
    range(0, n).foldl({ s: r, l: [] }, (a, i) =>
      val s = (a.s * 6364136223846793005 + 1442695040888963407) % 2^BITS
      { s: s, l: a.l.append((s / 2^17) % 2^(1 + (s / 2^5) % bits)) }).l
  pure def rem(i: int, r: int, s: int): int =
    if (i % 6 == 0) 0 else if (i % 6 == 1) 2 * r else if (i % 6 == 2) r else if (i % 6 == 3) minOf(1, r) else if (i % 6 == 4) maxOf(2 * r - 1, 0) else s % (2 * r + 1)
  action step = {
    nondet s = oneOf(0.to(2^BITS - 1))
    nondet s2 = oneOf(0.to(2^BITS - 1))
    nondet k = oneOf(1.to(BITS))
    nondet k2 = oneOf(1.to(BITS))
    nondet k3 = oneOf(1.to(BITS))
    nondet e = oneOf(EDGE)
    nondet f = oneOf(EDGE)
    nondet g = oneOf(EDGE)
    nondet up = oneOf(Set(0, 1))
    nondet w = oneOf(0.to(5))
    val half = 2^(BITS / 2)
    val rs = spread(s, 12, BITS / 2).concat([half - 1, half - 2, 2^((k - 1) / 2), maxOf(2^((k - 1) / 2) - 1, 0), half - 1 - s % 1000, e % half])
    val xs = range(0, rs.length()).foldl([], (a, i) => a.append(rs[i] * rs[i] + rem(i + w, rs[i], s2)))
    val as_ = spread(s, 10, BITS).concat([e, f, UMAX, UMAX - 1, 0, s])
    val bs = spread(s2, 10, BITS).concat([f, g, UMAX, UMAX, UMAX, s2])
    val x = s % 2^k
    val y = maxOf(1, s2 % 2^k2)
    val d = maxOf(1, (s + s2) % 2^k3)
    any {
      sqrts(xs, rs),
      averages(as_, bs),
      mulDiv(e, f, g, up),
      mulDiv(x, y, d, up),
      // Quotient around a multiple of d: x = floor(q*d / y) + {-1, 0, 1}.
      { nondet q = oneOf(clip(Set(UMAX, UMAX - 1, s, x, 1, 2^k - 1)))
        nondet o = oneOf(Set(-1, 0, 1))
        val z = q * d / y + o
        if (z >= 0 and z <= UMAX) mulDiv(z, y, d, up) else mulDiv(x, d, d, up) },
      mulDiv(x, y, 0, up),
      { nondet p = oneOf(clip(Set(y - 1, y + 1, 2 * y, y / 2, x, e)))  mulDiv(UMAX - w, y, p, up) },
    }
  }
  action stepAll = {
    nondet x = oneOf(0.to(UMAX))
    nondet y = oneOf(0.to(UMAX))
    nondet d = oneOf(0.to(UMAX))
    nondet up = oneOf(Set(0, 1))
    mulDiv(x, y, d, up)
  }
  // What the answers mean.
  val isRoot = obs.op == "sqrts(uint256[])(uint256[])" implies
    range(0, obs.ret[0].length()).foldl(true, (a, i) =>
      a and obs.ret[0][i] * obs.ret[0][i] <= obs.args[0][i] and obs.args[0][i] < (obs.ret[0][i] + 1) * (obs.ret[0][i] + 1))
  val isQuot = (obs.op == "mulDiv(uint256,uint256,uint256,bool)(uint256)" and obs.errs == []) implies
    (val q = obs.ret[0][0]
     val p = obs.args[0][0] * obs.args[1][0]
     val d = obs.args[2][0]
     if (obs.args[3][0] == 1) q * d >= p and (q - 1) * d < p else q * d <= p and (q + 1) * d > p)
  val safety = isRoot and isQuot
}
module main {
  import words.* from "./words"
  import math(BITS = 256, EDGE = EDGES).*
}
module small {
  import math(BITS = 4, EDGE = Set(0)).*
}
