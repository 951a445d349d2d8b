// -*- mode: Bluespec; -*-
// Vocabulary shared by every contract specification: 256-bit words, the
// observation recorded for each step (what was called, what must come back),
// and the choice sets from which a step's values are drawn.
module evm {
  // One log record.  `sig` is the Solidity event signature with its indexed
  // markers; every argument is a list so that arrays and bytes fit too.
  type Ev = { at: int, sig: str, args: List[List[int]] }

  // One revert reason: Solidity error signature and its arguments.
  // sig = "#empty" is a revert without data (a Rust panic, or a rejected call).
  type Err = { sig: str, args: List[List[int]] }

  // The observation a step makes.  `errs` holds the reasons of *all* violated
  // guards: the call must succeed exactly when the list is empty, and must
  // otherwise revert with one of them and leave no trace in the state.
  type Obs = {
    op: str, at: int, by: int, pay: int, args: List[List[int]],
    errs: List[Err], ret: List[List[int]], evs: List[Ev]
  }

  pure val noErrs: List[Err] = []
  pure val noRet: List[List[int]] = []
  pure val noEvs: List[Ev] = []

  pure val initObs: Obs = { op: "init", at: 0, by: 0, pay: 0, args: [], errs: [], ret: [], evs: [] }

  pure def guard(bad: bool, sig: str, args: List[List[int]]): List[Err] =
    if (bad) [{ sig: sig, args: args }] else []

  pure def bit(b: bool): int = if (b) 1 else 0
  pure def maxOf(a: int, b: int): int = if (a > b) a else b
  pure def minOf(a: int, b: int): int = if (a < b) a else b
}
