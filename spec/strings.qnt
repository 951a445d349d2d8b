// Byte strings as lists of integers.
module strings {
  type Str = List[int]
  // Decimal digits of n, most significant first.
  pure def decimal(n: int): Str =
    val r = range(0, 78).foldl({ rest: n, out: [] }, (a, i) =>
      if (i > 0 and a.rest == 0) a
      else { rest: a.rest / 10, out: [48 + a.rest % 10].concat(a.out) })
    r.out
  pure def fill(n: int, b: int): Str = range(0, n).foldl([], (l, i) => l.append(b + i % 7))
}
