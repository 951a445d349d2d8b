// ERC-20 wrapper over an underlying token that may misbehave.
module wrapper20 {
  import mocktoken.* from "./mocktoken"

  const USERS: Set[int]
  const UMAX: int
  const EDGE: Set[int]

  var tok: Tok        // the wrapped token (contract 0, address 100)
  var und: Tok        // the underlying (contract 1, address 101)
  var mode: int
  var dec: int
  var obs: Obs

  pure val SELF = 100
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF))
  pure val BAD = [{ sig: "#any", args: [] }]

  action commit(op: str, at: int, by: int, args: List[List[int]], ret: List[List[int]], t: TokR, u: TokR): bool = all {
    val errs = t.errs.concat(u.errs)
    all {
      obs' = { op: op, at: at, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: u.evs.concat(t.evs) },
      tok' = if (errs == []) t.tok else tok,
      und' = if (errs == []) u.tok else und,
    },
    mode' = mode,
    dec' = dec,
  }
  def idle(k: Tok): TokR = { tok: k, errs: [], evs: [] }

  action depositFor(by: int, to_: int, v: int): bool =
    val t = tMint(tok, UMAX, 0, to_, v)
    commit("depositFor(address,uint256)(bool)", 0, by, [[to_], [v]], [[1]],
      { ...t, errs: guard(by == SELF, E_SENDER, [[by]]).concat(guard(to_ == SELF, E_RECV, [[to_]])).concat(t.errs) },
      sTransferFrom(und, mode, UMAX, SELF, by, SELF, v))
  action withdrawTo(by: int, to_: int, v: int): bool =
    val t = tBurn(tok, 0, by, v)
    val u = sTransfer(und, mode, SELF, to_, v)
    commit("withdrawTo(address,uint256)(bool)", 0, by, [[to_], [v]], [[1]],
      { ...t, errs: guard(to_ == SELF, E_RECV, [[to_]]).concat(t.errs), evs: u.evs }, { ...u, evs: t.evs })
  // Mints the surplus of underlying over supply.
  action recover(by: int, to_: int): bool =
    val surplus = und.bal.get(SELF) - tok.supply
    val t = if (surplus > 0) tMint(tok, UMAX, 0, to_, surplus) else idle(tok)
    commit("recover(address)(uint256)", 0, by, [[to_]], [[surplus]],
      { ...t, errs: guard(mode == 8, "ERC20InvalidUnderlying(address)", [[SELF]]).concat(t.errs) }, idle(und))
  action transfer(by: int, t: int, v: int): bool =
    commit("transfer(address,uint256)(bool)", 0, by, [[t], [v]], [[1]], tMove(tok, 0, by, t, v), idle(und))
  action approve(by: int, s: int, v: int): bool =
    commit("approve(address,uint256)(bool)", 0, by, [[s], [v]], [[1]], tApprove(tok, 0, by, s, v), idle(und))
  action transferFrom(by: int, f: int, t: int, v: int): bool =
    commit("transferFrom(address,address,uint256)(bool)", 0, by, [[f], [t], [v]], [[1]],
      tTransferFrom(tok, UMAX, 0, by, f, t, v), idle(und))
  action underlying(by: int): bool =
    commit("underlying()(address)", 0, by, [], [[ASSET]], idle(tok), idle(und))
  action decimals(by: int): bool =
    commit("decimals()(uint8)", 0, by, [], [[dec]], idle(tok), idle(und))

  // The underlying's own users.
  action fund(t: int, v: int): bool =
    val r = tMint(und, UMAX, 1, t, v)
    commit("mint(address,uint256)()", 1, 1, [[t], [v]], [], idle(tok), { ...r, evs: [], errs: if (r.errs == []) [] else BAD })
  action uTransfer(by: int, t: int, v: int): bool = all {
    mode == 0,
    commit("transfer(address,uint256)(bool)", 1, by, [[t], [v]], [[1]], idle(tok), direct(und, mode, tMove(und, 1, by, t, v))),
  }
  action uApprove(by: int, v: int): bool = all {
    mode == 0,
    commit("approve(address,uint256)(bool)", 1, by, [[SELF], [v]], [[1]], idle(tok), direct(und, mode, tApprove(und, 1, by, SELF, v))),
  }
  action setMode(m: int): bool = all {
    obs' = { op: "!mode(uint256)()", at: 1, by: 1, pay: 0, args: [[m]], errs: [], ret: [], evs: [] },
    mode' = m,
    tok' = tok, und' = und, dec' = dec,
  }

  action init = {
    nondet d = oneOf(Set(0, 6, 18, 255))
    all { tok' = emptyTok(ADDRS), und' = emptyTok(ADDRS), mode' = 0, dec' = d, obs' = { ...initObs, args: [[d]] } }
  }

  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  def near(x: int): Set[int] = clip(Set(x, x - 1, x + 1, x / 2))
  action step = {
    nondet by = oneOf(USERS.union(Set(1, 2, SELF)))
    nondet t = oneOf(ADDRS)
    nondet f = oneOf(ADDRS)
    nondet u = oneOf(USERS)
    nondet e = oneOf(EDGE)
    nondet r = oneOf(0.to(UMAX))
    nondet k = oneOf(0.to(9))
    any {
      { nondet v = oneOf(near(und.bal.get(by)).union(near(und.allow.get((by, SELF)))).union(Set(0, e)))  depositFor(by, t, v) },
      { nondet v = oneOf(Set(0, minOf(und.bal.get(by), und.allow.get((by, SELF))), minOf(und.bal.get(by), und.allow.get((by, SELF))) / 2))  depositFor(by, u, v) },
      { nondet v = oneOf(near(tok.bal.get(by)).union(Set(0, e)))  withdrawTo(by, t, v) },
      { nondet v = oneOf(Set(tok.bal.get(by), tok.bal.get(by) / 2))  withdrawTo(by, u, v) },
      recover(by, t),
      { nondet v = oneOf(near(tok.bal.get(by)).union(Set(e)))  transfer(by, t, v) },
      { nondet v = oneOf(Set(0, e, UMAX))  approve(by, t, v) },
      { nondet v = oneOf(clip(Set(0, tok.allow.get((f, by)), tok.bal.get(f))))  transferFrom(by, f, t, v) },
      { nondet v = oneOf(clip(Set(1, 100, r, UMAX - und.supply)))  fund(if (k < 3) SELF else u, v) },
      { nondet v = oneOf(near(und.bal.get(u)))  uTransfer(u, t, v) },
      { nondet v = oneOf(Set(UMAX, UMAX - 1, e, r))  uApprove(u, v) },
      { nondet m = oneOf(MODES)  setMode(if (k < 6) 0 else m) },
      underlying(by),
      decimals(by),
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    nondet v = oneOf(0.to(UMAX))
    any {
      depositFor(by, t, v), withdrawTo(by, t, v), recover(by, t), transfer(by, t, v),
      fund(t, v), uTransfer(by, t, v), uApprove(by, v),
      { nondet m = oneOf(Set(0, 2, 10))  setMode(m) },
    }
  }

  // Every wrapped token is backed by an underlying one.
  val backed = tok.supply <= und.bal.get(SELF)
  val safety = backed and tokOk(tok, UMAX) and tokOk(und, UMAX)
}

module main {
  import words.* from "./words"
  import wrapper20(USERS = Set(1, 2), UMAX = MAX, EDGE = EDGES).*
}
module small {
  import wrapper20(USERS = Set(1), UMAX = 2, EDGE = Set(0, 1, 2)).*
}
