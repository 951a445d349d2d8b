// The ERC-20 token with its mint, burn and burnFrom operations.
module erc20 {
  import erc20core.* from "./erc20core"

  const USERS: Set[int]     // externally callable accounts (1, 2, ...)
  const UMAX: int           // largest machine word
  const EDGE: Set[int]      // word values to try beside the state-derived ones

  var tok: Tok
  var obs: Obs

  pure val ADDRS: Set[int] = USERS.union(Set(0))

  // Every call is one of these: when a guard fails nothing but obs changes.
  action call(op: str, by: int, args: List[List[int]], ret: List[List[int]], r: TokR): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: r.errs, ret: ret, evs: r.evs },
    tok' = if (r.errs == []) r.tok else tok,
  }

  action transfer(by: int, t: int, v: int): bool =
    call("transfer(address,uint256)(bool)", by, [[t], [v]], [[1]], tMove(tok, 0, by, t, v))
  action approve(by: int, s: int, v: int): bool =
    call("approve(address,uint256)(bool)", by, [[s], [v]], [[1]], tApprove(tok, 0, by, s, v))
  action transferFrom(by: int, f: int, t: int, v: int): bool =
    call("transferFrom(address,address,uint256)(bool)", by, [[f], [t], [v]], [[1]],
      tTransferFrom(tok, UMAX, 0, by, f, t, v))
  action burn(by: int, v: int): bool = call("burn(uint256)()", by, [[v]], [], tBurn(tok, 0, by, v))
  action burnFrom(by: int, f: int, v: int): bool =
    call("burnFrom(address,uint256)()", by, [[f], [v]], [], tBurnFrom(tok, UMAX, 0, by, f, v))
  action mint(by: int, t: int, v: int): bool =
    call("mint(address,uint256)()", by, [[t], [v]], [], tMint(tok, UMAX, 0, t, v))
  // Internal entry points a derived contract may expose under its own policy.
  action update(by: int, f: int, t: int, v: int): bool =
    call("forceUpdate(address,address,uint256)()", by, [[f], [t], [v]], [], tUpdate(tok, UMAX, 0, f, t, v))
  action forceBurn(by: int, f: int, v: int): bool =
    call("forceBurn(address,uint256)()", by, [[f], [v]], [], tBurn(tok, 0, f, v))
  action spend(by: int, o: int, s: int, v: int): bool =
    call("spendAllowance(address,address,uint256)()", by, [[o], [s], [v]], [], tSpend(tok, UMAX, o, s, v))

  action init = all {
    tok' = emptyTok(ADDRS),
    obs' = initObs,
  }

  def around(xs: Set[int]): Set[int] =
    xs.union(xs.map(x => x + 1)).union(xs.map(x => x - 1)).filter(x => x >= 0 and x <= UMAX)
  def b(a: int): int = tok.bal.get(a)
  def al(o: int, s: int): int = tok.allow.get((o, s))
  def cover(o: int, s: int): int = minOf(b(o), al(o, s))

  action step = {
    nondet by = oneOf(USERS)
    nondet f = oneOf(ADDRS)
    nondet t = oneOf(ADDRS)
    nondet p = oneOf(USERS)
    nondet q = oneOf(USERS)
    nondet r = oneOf(0.to(UMAX))
    nondet e = oneOf(EDGE)
    any {
      { nondet v = oneOf(around(Set(b(by), b(by) / 2)).union(Set(r, e)))  transfer(by, t, v) },
      { nondet v = oneOf(Set(0, b(by), b(by) / 2, b(by) / 3))  transfer(by, q, v) },
      { nondet v = oneOf(around(Set(b(by))).union(Set(r, e)))  approve(by, t, v) },
      { nondet v = oneOf(Set(UMAX, UMAX - 1, b(by), b(by) / 2))  approve(by, q, v) },
      { nondet v = oneOf(around(Set(b(f), al(f, by))).union(Set(r, e)))  transferFrom(by, f, t, v) },
      { nondet v = oneOf(Set(0, 1, cover(p, by), cover(p, by) / 2))  transferFrom(by, p, q, v) },
      { nondet v = oneOf(around(Set(b(by))).union(Set(r, e)))  burn(by, v) },
      { nondet v = oneOf(around(Set(al(f, by))).union(Set(r, e)))  burnFrom(by, f, v) },
      { nondet v = oneOf(Set(0, 1, cover(p, by), cover(p, by) / 2))  burnFrom(by, p, v) },
      { nondet v = oneOf(around(Set(UMAX - tok.supply)).union(Set(r, e)))  mint(by, t, v) },
      { nondet v = oneOf(around(if (f == 0) Set(UMAX - tok.supply) else Set(b(f), b(f) / 2)).union(Set(e)))  update(by, f, t, v) },
      { nondet v = oneOf(around(Set(b(f))).union(Set(e)))  forceBurn(by, f, v) },
      { nondet v = oneOf(around(Set(al(f, t), b(f))).union(Set(e)))  spend(by, f, t, v) },
    }
  }

  // Every call with every argument: the next-state relation explored exhaustively.
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet v = oneOf(0.to(UMAX))
    any {
      burn(by, v),
      { nondet t = oneOf(ADDRS)
        any {
          transfer(by, t, v),
          approve(by, t, v),
          mint(by, t, v),
          burnFrom(by, t, v),
          forceBurn(by, t, v),
          { nondet f = oneOf(ADDRS)
            any { transferFrom(by, f, t, v), update(by, f, t, v), spend(by, f, t, v) } },
        } },
    }
  }

  // Conservation: the total supply is the sum of all balances and fits a word;
  // the zero address never holds or spends anything.
  val safety = tokOk(tok, UMAX)
}

module main {
  import words.* from "./words"
  import erc20(USERS = Set(1, 2, 3), UMAX = MAX, EDGE = EDGES).*
}

// Small instance for exhaustive checking (TLC): every amount of a tiny word.
module small {
  import erc20(USERS = Set(1, 2), UMAX = 2, EDGE = Set(0, 1, 2)).*
}
