// 256-bit machine words and their boundary values (kept apart from evm.qnt so
// that small instances never mention integers TLC cannot represent).
module words {
  pure val MAX: int = 2^256 - 1
  pure val U128MAX: int = 2^128 - 1

  pure val EDGES: Set[int] = Set(0, 1, 2, 3, 10, 100, 255, 256, 2^64 - 1, 2^64,
    2^96 - 1, 2^96, 2^127, 2^128 - 1, 2^128, 2^128 + 1, 2^160, 2^255 - 1, 2^255,
    2^255 + 1, 2^256 - 2, 2^256 - 1)
}
