// The counterparty token of the wrapper, vault, vesting and SafeERC20
// specifications: a plain ledger (contract 1, address 101) whose answers can
// misbehave.  Modes (harness/src/mocks.rs):
//   0 answers true           1 answers nothing       2 refuses, answering false
//   3 reverts                4 answers 2             5 reverts on approve non-zero -> non-zero
//   6 as 5, answering false  7 answers true + 32 bytes   8 reverts, getters too
//   10 acts but answers false                        11 answers true with a stray high bit
//   12 as 0, and tells a receiving contract, which may call back
module mocktoken {
  import erc20core.* from "./erc20core"
  export erc20core.*

  pure val ASSET = 101
  pure val MODES: Set[int] = Set(0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12)
  pure val E_SAFE = "SafeErc20FailedOperation(address)"

  // Did the token act, and would a careful caller accept its answer?
  pure def acts(mode: int): bool = not(Set(2, 3, 8).contains(mode))
  pure def accepted(mode: int): bool = Set(0, 1, 5, 6, 7, 12).contains(mode)

  pure def safeErr(ok: bool): List[Err] = guard(not(ok), E_SAFE, [[ASSET]])

  // SafeERC20's transfer: all or nothing, whatever the reason of the failure.
  pure def sTransfer(u: Tok, mode: int, f: int, t: int, v: int): TokR =
    val r = tMove(u, 1, f, t, v)
    val ok = r.errs == [] and accepted(mode)
    { ...r, errs: safeErr(ok) }
  pure def sTransferFrom(u: Tok, mode: int, umax: int, by: int, f: int, t: int, v: int): TokR =
    val r = tTransferFrom(u, umax, 1, by, f, t, v)
    val ok = r.errs == [] and accepted(mode)
    { ...r, errs: safeErr(ok) }

  // A direct call by an outsider (the token may fail for any reason).
  pure def direct(u: Tok, mode: int, r: TokR): TokR =
    if (not(acts(mode))) { tok: u, errs: [{ sig: "#any", args: [] }], evs: [] }
    else { ...r, errs: if (r.errs == []) [] else [{ sig: "#any", args: [] }] }
}
