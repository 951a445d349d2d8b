// SafeERC20: calls into a token that may answer anything.
module safeerc20 {
  import mocktoken.* from "./mocktoken"

  const USERS: Set[int]
  const UMAX: int
  const EDGE: Set[int]

  var und: Tok
  var mode: int
  var obs: Obs

  pure val SELF = 100
  pure val NOCODE = 103
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF))
  pure val E_DEC = "SafeErc20FailedDecreaseAllowance(address,uint256,uint256)"

  action call(op: str, by: int, token: int, rest: List[List[int]], r: TokR): bool = all {
    val errs = if (token == ASSET) r.errs else [{ sig: E_SAFE, args: [[token]] }]
    all {
      obs' = { op: op, at: 0, by: by, pay: 0, args: [[token]].concat(rest), errs: errs, ret: [], evs: r.evs },
      und' = if (errs == []) r.tok else und,
    },
    mode' = mode,
  }

  // The token's approve as seen by a careful caller.
  pure def refusesApprove(u: Tok, m: int, s: int, v: int): bool =
    (m == 5 or m == 6) and u.allow.get((SELF, s)) != 0 and v != 0
  pure def sApprove(u: Tok, m: int, s: int, v: int): TokR =
    val r = tApprove(u, 1, SELF, s, v)
    { ...r, errs: safeErr(r.errs == [] and accepted(m) and not(refusesApprove(u, m, s, v))) }
  // Direct approval if the token takes it; otherwise reset to zero and retry.
  pure def sForce(u: Tok, m: int, s: int, v: int): TokR =
    val d = sApprove(u, m, s, v)
    if (d.errs == []) d else
      val z = sApprove(u, m, s, 0)
      andThen(z, sApprove(z.tok, m, s, v))

  action safeTransfer(by: int, token: int, t: int, v: int): bool =
    call("safeTransfer(address,address,uint256)()", by, token, [[t], [v]], sTransfer(und, mode, SELF, t, v))
  action safeTransferFrom(by: int, token: int, f: int, t: int, v: int): bool =
    call("safeTransferFrom(address,address,address,uint256)()", by, token, [[f], [t], [v]],
      sTransferFrom(und, mode, UMAX, SELF, f, t, v))
  action forceApprove(by: int, token: int, s: int, v: int): bool =
    call("forceApprove(address,address,uint256)()", by, token, [[s], [v]], sForce(und, mode, s, v))
  action safeIncreaseAllowance(by: int, token: int, s: int, v: int): bool =
    val cur = und.allow.get((SELF, s))
    val r = sForce(und, mode, s, cur + v)
    call("safeIncreaseAllowance(address,address,uint256)()", by, token, [[s], [v]],
      { ...r, errs: guard(mode == 8, E_SAFE, [[ASSET]])
          .concat(guard(mode != 8 and cur + v > UMAX, "#empty", []))
          .concat(r.errs) })
  action safeDecreaseAllowance(by: int, token: int, s: int, v: int): bool =
    val cur = und.allow.get((SELF, s))
    val r = sForce(und, mode, s, cur - v)
    call("safeDecreaseAllowance(address,address,uint256)()", by, token, [[s], [v]],
      { ...r, errs: guard(mode == 8, E_SAFE, [[ASSET]])
          .concat(guard(mode != 8 and cur < v, E_DEC, [[s], [cur], [v]]))
          .concat(if (cur < v) [] else r.errs) })

  // Environment: fund accounts, approve the contract, change the token's manners.
  action env(op: str, by: int, args: List[List[int]], ret: List[List[int]], r: TokR): bool = all {
    obs' = { op: op, at: 1, by: by, pay: 0, args: args, errs: r.errs, ret: ret, evs: r.evs },
    und' = if (r.errs == []) r.tok else und,
    mode' = mode,
  }
  action fund(t: int, v: int): bool =
    val r = tMint(und, UMAX, 1, t, v)
    env("mint(address,uint256)()", 1, [[t], [v]], [], { ...r, evs: [], errs: if (r.errs == []) [] else [{ sig: "#any", args: [] }] })
  action allowSelf(by: int, v: int): bool = all {
    mode == 0,
    env("approve(address,uint256)(bool)", by, [[SELF], [v]], [[1]], direct(und, mode, tApprove(und, 1, by, SELF, v))),
  }
  action setMode(m: int): bool = all {
    obs' = { op: "!mode(uint256)()", at: 1, by: 1, pay: 0, args: [[m]], errs: [], ret: [], evs: [] },
    und' = und,
    mode' = m,
  }

  action init = all { und' = emptyTok(ADDRS), mode' = 0, obs' = initObs }

  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  action step = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    nondet f = oneOf(ADDRS)
    nondet u = oneOf(USERS)
    nondet e = oneOf(EDGE)
    nondet r = oneOf(0.to(UMAX))
    nondet k = oneOf(0.to(9))
    val token = if (k == 0) NOCODE else if (k == 1) u else ASSET
    val cur = und.allow.get((SELF, t))
    any {
      { nondet v = oneOf(clip(Set(0, und.bal.get(SELF), und.bal.get(SELF) / 2, und.bal.get(SELF) + 1, e)))  safeTransfer(by, token, t, v) },
      { nondet v = oneOf(clip(Set(0, und.allow.get((f, SELF)), und.bal.get(f), und.bal.get(f) / 2, e)))  safeTransferFrom(by, token, f, t, v) },
      { nondet v = oneOf(clip(Set(0, minOf(und.allow.get((u, SELF)), und.bal.get(u)), 1)))  safeTransferFrom(by, token, u, t, v) },
      { nondet v = oneOf(Set(0, 1, e, r))  forceApprove(by, token, t, v) },
      { nondet v = oneOf(Set(0, 1, e, r))  forceApprove(by, ASSET, u, v) },
      { nondet v = oneOf(clip(Set(0, 1, e, UMAX - cur, UMAX - cur + 1, r)))  safeIncreaseAllowance(by, token, t, v) },
      { nondet v = oneOf(clip(Set(0, 1, cur, cur - 1, cur + 1, e)))  safeDecreaseAllowance(by, token, t, v) },
      { nondet v = oneOf(clip(Set(1, 100, r, UMAX - und.supply)))  fund(if (k < 5) SELF else u, v) },
      { nondet v = oneOf(Set(UMAX, UMAX - 1, e, r))  allowSelf(u, v) },
      { nondet m = oneOf(MODES)  setMode(if (k < 5) k else m) },
    }
  }
  action stepAll = {
    nondet t = oneOf(ADDRS)
    nondet v = oneOf(0.to(UMAX))
    any {
      safeTransfer(1, ASSET, t, v),
      safeTransferFrom(1, ASSET, 1, t, v),
      forceApprove(1, ASSET, t, v),
      safeIncreaseAllowance(1, ASSET, t, v),
      safeDecreaseAllowance(1, ASSET, t, v),
      fund(t, v),
      allowSelf(1, v),
      { nondet m = oneOf(Set(0, 2, 5, 10))  setMode(m) },
    }
  }

  val safety = tokOk(und, UMAX)
}

module main {
  import words.* from "./words"
  import safeerc20(USERS = Set(1, 2), UMAX = MAX, EDGE = EDGES).*
}
module small {
  import safeerc20(USERS = Set(1), UMAX = 2, EDGE = Set(0, 1, 2)).*
}
