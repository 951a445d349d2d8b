// Observation of one call into the cryptographic library: arguments, result,
// and "" or the error it must end in ("panic" for a Rust panic).
module cryptobs {
  type Obs = { op: str, args: List[List[int]], ret: List[List[int]], bad: str }
  pure val noObs: Obs = { op: "init", args: [], ret: [], bad: "" }
  pure def bit(b: bool): int = if (b) 1 else 0
  pure def minOf(a: int, b: int): int = if (a < b) a else b
  pure def maxOf(a: int, b: int): int = if (a > b) a else b
  pure def cmp(a: int, b: int): int = if (a < b) 0 - 1 else if (a == b) 0 else 1
  // b^e mod p for e < 2^n.
  pure def powmod(b: int, e: int, p: int, n: int): int =
    range(0, n).foldl({ acc: 1 % p, base: b % p, e: e }, (s, i) => {
      acc: if (s.e % 2 == 1) s.acc * s.base % p else s.acc, base: s.base * s.base % p, e: s.e / 2 }).acc
  // Number of bits of x < 2^n.
  pure def bitlen(x: int, n: int): int = range(0, n).foldl({ x: x, k: 0 }, (s, i) =>
    if (s.x == 0) s else { x: s.x / 2, k: s.k + 1 }).k
}
