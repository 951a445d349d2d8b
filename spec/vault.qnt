// ERC-4626 vault (contract 0) over an asset token (contract 1).
module vault {
  import mocktoken.* from "./mocktoken"

  const USERS: Set[int]
  const UMAX: int
  const EDGE: Set[int]
  const BASE: int               // 10, or less in small instances
  const OFFSETS: Set[int]

  var tok: Tok                  // shares
  var und: Tok                  // assets
  var mode: int
  var offset: int
  var dec: int
  var diluted: bool             // some exchange made a share worth less
  var obs: Obs

  pure val SELF = 100
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF))
  pure val BAD = [{ sig: "#any", args: [] }]
  pure val DEPOSIT = "Deposit(address indexed,address indexed,uint256,uint256)"
  pure val WITHDRAW = "Withdraw(address indexed,address indexed,address indexed,uint256,uint256)"
  pure val E_MAXW = "ERC4626ExceededMaxWithdraw(address,uint256,uint256)"
  pure val E_MAXR = "ERC4626ExceededMaxRedeem(address,uint256,uint256)"

  pure def mulDiv(x: int, y: int, d: int, up: bool): int =
    if (up) (x * y + d - 1) / d else (x * y) / d

  // Virtual shares and assets: the vault always counts one extra asset and
  // 10^offset extra shares.
  def vs: int = tok.supply + BASE^offset
  def va: int = und.bal.get(SELF) + 1
  def toShares(a: int, up: bool): int = mulDiv(a, vs, va, up)
  def toAssets(s: int, up: bool): int = mulDiv(s, va, vs, up)
  // Reasons why a conversion with this result cannot be computed.
  def convErrs(res: int): List[Err] =
    guard(mode == 8, "InvalidAsset(address)", [[ASSET]])
      .concat(guard(BASE^offset > UMAX or vs > UMAX or va > UMAX or res > UMAX, "#empty", []))

  action commit(op: str, at: int, by: int, args: List[List[int]], ret: List[List[int]], errs: List[Err], t: Tok, u: Tok, evs: List[Ev]): bool = all {
    obs' = { op: op, at: at, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: evs },
    tok' = if (errs == []) t else tok,
    und' = if (errs == []) u else und,
    diluted' = diluted or (errs == [] and
      (u.bal.get(SELF) + 1) * vs < va * (t.supply + BASE^offset)),
    mode' = mode, offset' = offset, dec' = dec,
  }

  // Assets in, shares out.
  action paidIn(op: str, by: int, args: List[List[int]], recv: int, assets: int, shares: int, answer: int): bool =
    val u = sTransferFrom(und, mode, UMAX, SELF, by, SELF, assets)
    val t = tMint(tok, UMAX, 0, recv, shares)
    val ce = convErrs(answer)
    commit(op, 0, by, args, [[answer]], if (ce != []) ce else u.errs.concat(t.errs), t.tok, u.tok,
      u.evs.concat(t.evs).append({ at: 0, sig: DEPOSIT, args: [[by], [recv], [assets], [shares]] }))
  action deposit(by: int, a: int, recv: int): bool =
    paidIn("deposit(uint256,address)(uint256)", by, [[a], [recv]], recv, a, toShares(a, false), toShares(a, false))
  action mint(by: int, s: int, recv: int): bool =
    paidIn("mint(uint256,address)(uint256)", by, [[s], [recv]], recv, toAssets(s, true), s, toAssets(s, true))

  // Shares in, assets out.
  action paidOut(op: str, by: int, args: List[List[int]], recv: int, owner: int, assets: int, shares: int, answer: int, limit: List[Err], extra: List[Err]): bool =
    val sp = if (by == owner) { tok: tok, errs: [], evs: [] } else tSpend(tok, UMAX, owner, by, shares)
    val t = andThen(sp, tBurn(sp.tok, 0, owner, shares))
    val u = sTransfer(und, mode, SELF, recv, assets)
    val ce = extra.concat(limit)
    commit(op, 0, by, args, [[answer]], if (ce != []) ce else t.errs.concat(u.errs), t.tok, u.tok,
      t.evs.concat(u.evs).append({ at: 0, sig: WITHDRAW, args: [[by], [recv], [owner], [assets], [shares]] }))
  action withdraw(by: int, a: int, recv: int, owner: int): bool =
    val max = toAssets(tok.bal.get(owner), false)
    val over = guard(a > max, E_MAXW, [[owner], [a], [max]])
    paidOut("withdraw(uint256,address,address)(uint256)", by, [[a], [recv], [owner]], recv, owner, a, toShares(a, true),
      toShares(a, true), over, convErrs(max).concat(if (over == []) convErrs(toShares(a, true)) else []))
  action redeem(by: int, s: int, recv: int, owner: int): bool =
    val bal = tok.bal.get(owner)
    val over = guard(s > bal, E_MAXR, [[owner], [s], [bal]])
    paidOut("redeem(uint256,address,address)(uint256)", by, [[s], [recv], [owner]], recv, owner, toAssets(s, false), s,
      toAssets(s, false), over, if (over == []) convErrs(toAssets(s, false)) else [])

  action query(op: str, args: List[List[int]], res: int, errs: List[Err]): bool =
    commit(op, 0, 1, args, [[res]], errs, tok, und, [])
  action queries(v: int, a: int): bool = any {
    query("convertToShares(uint256)(uint256)", [[v]], toShares(v, false), convErrs(toShares(v, false))),
    query("convertToAssets(uint256)(uint256)", [[v]], toAssets(v, false), convErrs(toAssets(v, false))),
    query("previewDeposit(uint256)(uint256)", [[v]], toShares(v, false), convErrs(toShares(v, false))),
    query("previewMint(uint256)(uint256)", [[v]], toAssets(v, true), convErrs(toAssets(v, true))),
    query("previewWithdraw(uint256)(uint256)", [[v]], toShares(v, true), convErrs(toShares(v, true))),
    query("previewRedeem(uint256)(uint256)", [[v]], toAssets(v, false), convErrs(toAssets(v, false))),
    query("maxDeposit(address)(uint256)", [[a]], UMAX, []),
    query("maxMint(address)(uint256)", [[a]], UMAX, []),
    query("maxWithdraw(address)(uint256)", [[a]], toAssets(tok.bal.get(a), false), convErrs(toAssets(tok.bal.get(a), false))),
    query("maxRedeem(address)(uint256)", [[a]], tok.bal.get(a), []),
    query("totalAssets()(uint256)", [], und.bal.get(SELF), guard(mode == 8, "InvalidAsset(address)", [[ASSET]])),
    query("asset()(address)", [], ASSET, []),
    query("decimals()(uint8)", [], dec + offset, guard(dec + offset > 255, "#empty", [])),
  }

  action transfer(by: int, t: int, v: int): bool =
    val r = tMove(tok, 0, by, t, v)
    commit("transfer(address,uint256)(bool)", 0, by, [[t], [v]], [[1]], r.errs, r.tok, und, r.evs)
  action approve(by: int, s: int, v: int): bool =
    val r = tApprove(tok, 0, by, s, v)
    commit("approve(address,uint256)(bool)", 0, by, [[s], [v]], [[1]], r.errs, r.tok, und, r.evs)

  action fund(t: int, v: int): bool =
    val r = tMint(und, UMAX, 1, t, v)
    commit("mint(address,uint256)()", 1, 1, [[t], [v]], [], if (r.errs == []) [] else BAD, tok, r.tok, [])
  action uTransfer(by: int, t: int, v: int): bool = all {
    mode == 0,
    val r = direct(und, mode, tMove(und, 1, by, t, v))
    commit("transfer(address,uint256)(bool)", 1, by, [[t], [v]], [[1]], r.errs, tok, r.tok, r.evs),
  }
  action uApprove(by: int, v: int): bool = all {
    mode == 0,
    val r = direct(und, mode, tApprove(und, 1, by, SELF, v))
    commit("approve(address,uint256)(bool)", 1, by, [[SELF], [v]], [[1]], r.errs, tok, r.tok, r.evs),
  }
  action setMode(m: int): bool = all {
    obs' = { op: "!mode(uint256)()", at: 1, by: 1, pay: 0, args: [[m]], errs: [], ret: [], evs: [] },
    mode' = m,
    tok' = tok, und' = und, offset' = offset, dec' = dec, diluted' = diluted,
  }

  action init = {
    nondet o = oneOf(OFFSETS)
    nondet d = oneOf(Set(0, 6, 18, 200))
    all {
      tok' = emptyTok(ADDRS), und' = emptyTok(ADDRS), mode' = 0, offset' = o, dec' = d, diluted' = false,
      obs' = { ...initObs, args: [[o], [d]] },
    }
  }

  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  def near(x: int): Set[int] = clip(Set(x, x - 1, x + 1, x / 2, x / 3))
  def cover(a: int): int = minOf(und.bal.get(a), und.allow.get((a, SELF)))
  action step = {
    nondet by = oneOf(USERS)
    nondet o = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    nondet recv = oneOf(USERS)
    nondet e = oneOf(EDGE)
    nondet lim = oneOf(Set(100, 10000, 2^64, 2^128, UMAX))
    nondet r0 = oneOf(0.to(UMAX))
    nondet k = oneOf(0.to(9))
    val r = r0 % lim
    any {
      { nondet a = oneOf(near(cover(by)).union(Set(0, 1, e)))  deposit(by, a, recv) },
      { nondet a = oneOf(near(cover(by)).union(Set(0, 1, r)))  deposit(by, a, if (k == 0) t else recv) },
      { nondet s = oneOf(near(toShares(cover(by), false)).union(clip(Set(0, 1, e, r))))  mint(by, s, if (k == 0) t else recv) },
      { nondet s = oneOf(clip(Set(toShares(cover(by), false), toShares(cover(by) / 2, false), toShares(cover(by) / 3, false), 1)))  mint(by, s, recv) },
      { nondet a = oneOf(near(toAssets(tok.bal.get(o), false)).union(clip(Set(0, 1, e))))  withdraw(by, a, if (k == 0) t else recv, o) },
      { nondet a = oneOf(near(toAssets(tok.bal.get(by), false)))  withdraw(by, a, recv, by) },
      { nondet s = oneOf(near(tok.bal.get(o)).union(Set(0, 1, e)))  redeem(by, s, if (k == 0) t else recv, o) },
      { nondet s = oneOf(near(tok.bal.get(by)))  redeem(by, s, recv, by) },
      { nondet v = oneOf(clip(Set(0, 1, 7, e, r, r0, tok.supply, und.bal.get(SELF), UMAX)))  queries(v, t) },
      { nondet v = oneOf(near(tok.bal.get(by)).union(Set(e)))  transfer(by, t, v) },
      { nondet v = oneOf(Set(0, e, UMAX, tok.bal.get(by)))  approve(by, recv, v) },
      { nondet v = oneOf(clip(Set(1, 100, r, UMAX - und.supply)))  fund(if (k < 2) SELF else recv, v) },
      fund(recv, minOf(r, UMAX - und.supply)),
      { nondet v = oneOf(near(und.bal.get(by)))  uTransfer(by, if (k < 5) SELF else t, v) },
      { nondet v = oneOf(Set(UMAX, UMAX, UMAX - 1, e, r))  uApprove(by, v) },
      { nondet m = oneOf(MODES)  setMode(if (k < 7) 0 else m) },
    }
  }
  action initAll = {
    nondet o = oneOf(OFFSETS)
    all {
      tok' = emptyTok(ADDRS), und' = emptyTok(ADDRS), mode' = 0, offset' = o, dec' = 0, diluted' = false,
      obs' = { ...initObs, args: [[o], [0]] },
    }
  }
  action stepAll = {
    nondet v = oneOf(0.to(UMAX))
    any {
      deposit(1, v, 1), mint(1, v, 1), withdraw(1, v, 1, 1), redeem(1, v, 1, 1), redeem(SELF, v, 1, 1),
      fund(1, v), fund(SELF, v), uTransfer(1, SELF, v), uApprove(1, v), transfer(1, SELF, v),
      { nondet m = oneOf(Set(0, 10))  setMode(m) },
    }
  }

  // No exchange lowers the value of a share, and both ledgers stay consistent.
  val safety = not(diluted) and tokOk(tok, UMAX) and tokOk(und, UMAX)
}

module main {
  import words.* from "./words"
  import vault(USERS = Set(1, 2), UMAX = MAX, EDGE = EDGES, BASE = 10, OFFSETS = Set(0, 1, 2, 6, 18, 76, 77, 78, 255)).*
}
module small {
  import vault(USERS = Set(1), UMAX = 6, EDGE = Set(0, 1, 2), BASE = 2, OFFSETS = Set(0, 1)).*
}
