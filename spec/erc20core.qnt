// The ERC-20 ledger as pure functions over an explicit token state, shared by
// every specification that contains a token.  Each function returns the next
// ledger, the reasons of all violated guards, and the records emitted; the next
// ledger is meaningful only when there are no reasons.
module erc20core {
  import evm.* from "./evm"
  export evm.*

  type Tok = { bal: int -> int, allow: (int, int) -> int, supply: int }
  type TokR = { tok: Tok, errs: List[Err], evs: List[Ev] }

  pure val TRANSFER = "Transfer(address indexed,address indexed,uint256)"
  pure val APPROVAL = "Approval(address indexed,address indexed,uint256)"
  pure val E_BAL = "ERC20InsufficientBalance(address,uint256,uint256)"
  pure val E_ALLOW = "ERC20InsufficientAllowance(address,uint256,uint256)"
  pure val E_SENDER = "ERC20InvalidSender(address)"
  pure val E_RECV = "ERC20InvalidReceiver(address)"
  pure val E_SPENDER = "ERC20InvalidSpender(address)"
  pure val E_APPROVER = "ERC20InvalidApprover(address)"

  pure def emptyTok(addrs: Set[int]): Tok =
    { bal: addrs.mapBy(_ => 0), allow: tuples(addrs, addrs).mapBy(_ => 0), supply: 0 }

  pure def transferEv(at: int, f: int, t: int, v: int): Ev = { at: at, sig: TRANSFER, args: [[f], [t], [v]] }

  pure def tMove(k: Tok, at: int, f: int, t: int, v: int): TokR =
    val b1 = k.bal.set(f, k.bal.get(f) - v)
    { tok: { ...k, bal: b1.set(t, b1.get(t) + v) },
      errs: guard(f == 0, E_SENDER, [[0]]).concat(guard(t == 0, E_RECV, [[0]]))
        .concat(guard(k.bal.get(f) < v, E_BAL, [[f], [k.bal.get(f)], [v]])),
      evs: [transferEv(at, f, t, v)] }

  pure def tApprove(k: Tok, at: int, o: int, s: int, v: int): TokR =
    { tok: { ...k, allow: k.allow.set((o, s), v) },
      errs: guard(o == 0, E_APPROVER, [[0]]).concat(guard(s == 0, E_SPENDER, [[0]])),
      evs: [{ at: at, sig: APPROVAL, args: [[o], [s], [v]] }] }

  // An allowance of `umax` is infinite.
  pure def tSpend(k: Tok, umax: int, o: int, s: int, v: int): TokR =
    val a = k.allow.get((o, s))
    { tok: if (a == umax) k else { ...k, allow: k.allow.set((o, s), a - v) },
      errs: guard(a < v, E_ALLOW, [[s], [a], [v]])
        .concat(guard(a != umax and o == 0, E_APPROVER, [[0]]))
        .concat(guard(a != umax and s == 0, E_SPENDER, [[0]])),
      evs: [] }

  pure def tMint(k: Tok, umax: int, at: int, t: int, v: int): TokR =
    { tok: { ...k, bal: k.bal.set(t, k.bal.get(t) + v), supply: k.supply + v },
      errs: guard(t == 0, E_RECV, [[0]]).concat(guard(k.supply + v > umax, "#empty", [])),
      evs: [transferEv(at, 0, t, v)] }

  pure def tBurn(k: Tok, at: int, f: int, v: int): TokR =
    { tok: { ...k, bal: k.bal.set(f, k.bal.get(f) - v), supply: k.supply - v },
      errs: guard(f == 0, E_SENDER, [[0]])
        .concat(guard(k.bal.get(f) < v, E_BAL, [[f], [k.bal.get(f)], [v]])),
      evs: [transferEv(at, f, 0, v)] }

  // The internal move behind all others: from 0 mints, to 0 burns.
  pure def tUpdate(k: Tok, umax: int, at: int, f: int, t: int, v: int): TokR =
    val b1 = if (f == 0) k.bal else k.bal.set(f, k.bal.get(f) - v)
    { tok: { ...k, bal: if (t == 0) b1 else b1.set(t, b1.get(t) + v),
             supply: k.supply + (if (f == 0) v else 0) - (if (t == 0) v else 0) },
      errs: guard(f == 0 and k.supply + v > umax, "#empty", [])
        .concat(guard(f != 0 and k.bal.get(f) < v, E_BAL, [[f], [k.bal.get(f)], [v]])),
      evs: [transferEv(at, f, t, v)] }

  // Runs `b` after `a` (b was computed from a's ledger).
  pure def andThen(a: TokR, b: TokR): TokR =
    { tok: b.tok, errs: a.errs.concat(b.errs), evs: a.evs.concat(b.evs) }

  pure def tTransferFrom(k: Tok, umax: int, at: int, by: int, f: int, t: int, v: int): TokR =
    val s = tSpend(k, umax, f, by, v)
    andThen(s, tMove(s.tok, at, f, t, v))

  pure def tBurnFrom(k: Tok, umax: int, at: int, by: int, f: int, v: int): TokR =
    val s = tSpend(k, umax, f, by, v)
    andThen(s, tBurn(s.tok, at, f, v))

  pure def sumBal(k: Tok): int = k.bal.keys().fold(0, (acc, a) => acc + k.bal.get(a))
  pure def tokOk(k: Tok, umax: int): bool = and {
    sumBal(k) == k.supply,
    k.supply <= umax,
    k.bal.keys().forall(a => k.bal.get(a) >= 0),
    k.bal.get(0) == 0,
    k.bal.keys().forall(a => k.allow.get((a, 0)) == 0 and k.allow.get((0, a)) == 0),
  }
}
