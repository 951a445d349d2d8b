// ERC-3156 flash minting.  The borrower is an arbitrary contract: its callback
// runs a script of token calls (transfers, approvals, burns, nested loans) and
// then answers well or badly.
module flash {
  import erc20core.* from "./erc20core"

  const USERS: Set[int]
  const UMAX: int
  const EDGE: Set[int]

  var tok: Tok
  var fee: int
  var feeTo: int
  var obs: Obs
  var grew: bool                     // some loan left more supply behind than it found

  pure val TOKEN = 100               // the lender, contract 0
  pure val BORROWER = 101            // a scripted contract, contract 1
  pure val ADDRS: Set[int] = USERS.union(Set(0, TOKEN, BORROWER))

  pure val E_MAXLOAN = "ERC3156ExceededMaxLoan(uint256)"
  pure val E_TOKEN = "ERC3156UnsupportedToken(address)"
  pure val E_BORROWER = "ERC3156InvalidReceiver(address)"
  pure val LOAN = "flashLoan(address,address,uint256,bytes)(bool)"
  pure val ON_LOAN = "onFlashLoan(address,address,uint256,uint256,bytes)"

  // What the callback does: first `kind` (1 transfer, 2 approve, 3 burn,
  // 4 nested loan of `v`, 0 nothing), then approves `ok`, then answers `ans`.
  type Script = { kind: int, to: int, v: int, approve: int, ans: int, nestedAns: int }

  pure def goodAnswer(ans: int): bool = ans == 0

  // The outcome of a call made by a script: effects only if it succeeds.
  pure def tried(k: Tok, r: TokR): TokR =
    if (r.errs == []) r else { tok: k, errs: [], evs: [] }

  pure def maxLoan(k: Tok, token: int): int = if (token == TOKEN) UMAX - k.supply else 0

  // Conclusion of a loan once the callback has answered: collect what is due.
  pure def settle(k: Tok, f: int, ft: int, recv: int, v: int): TokR =
    val spend = tSpend(k, UMAX, recv, TOKEN, v + f)
    val burnt = if (f == 0 or ft == 0) tBurn(spend.tok, 0, recv, v + f) else tBurn(spend.tok, 0, recv, v)
    val paid = if (f == 0 or ft == 0) { tok: burnt.tok, errs: [], evs: [] } else tMove(burnt.tok, 0, recv, ft, f)
    val r = andThen(andThen(spend, burnt), paid)
    { ...r, errs: if (v + f > UMAX) [{ sig: "#empty", args: [] }] else r.errs }

  pure def early(k: Tok, recv: int, token: int, v: int): List[Err] =
    guard(v > maxLoan(k, token), E_MAXLOAN, [[maxLoan(k, token)]])
      .concat(guard(token != TOKEN, E_TOKEN, [[token]]))
      .concat(guard(recv != TOKEN and recv != BORROWER, E_BORROWER, [[recv]]))
      .concat(guard(recv == TOKEN, E_BORROWER, [[recv]]))

  pure def loanEv(by: int, token: int, v: int, f: int, data: List[int]): Ev =
    { at: 1, sig: ON_LOAN, args: [[by], [token], [v], [f], data] }

  // A loan is: early checks and minting; the callback; settling.  (Two copies of
  // the composition because the simulator cannot re-enter a definition.)
  pure def opening(k: Tok, by: int, recv: int, token: int, v: int, f: int, data: List[int]): TokR =
    val e = early(k, recv, token, v)
    if (e != []) { tok: k, errs: e, evs: [] } else
      val minted = tMint(k, UMAX, 0, recv, v)
      { ...minted, evs: minted.evs.append(loanEv(by, token, v, f, data)) }
  pure def closing(opened: TokR, cb: TokR, done: TokR, recv: int, ans: int): TokR =
    { tok: done.tok,
      errs: if (opened.errs != []) opened.errs
            else if (not(goodAnswer(ans))) [{ sig: E_BORROWER, args: [[recv]] }]
            else done.errs,
      evs: opened.evs.concat(cb.evs).concat(done.evs) }

  pure def nested(k: Tok, f: int, ft: int, v: int, ans: int): TokR =
    val o = opening(k, BORROWER, BORROWER, TOKEN, v, f, [])
    closing(o, { tok: o.tok, errs: [], evs: [] }, settle(o.tok, f, ft, BORROWER, v), BORROWER, ans)

  pure def callback(k: Tok, f: int, ft: int, s: Script): TokR =
    val first =
      if (s.kind == 1) tried(k, tMove(k, 0, BORROWER, s.to, s.v))
      else if (s.kind == 2) tried(k, tApprove(k, 0, BORROWER, s.to, s.v))
      else if (s.kind == 3) tried(k, tBurn(k, 0, BORROWER, s.v))
      else if (s.kind == 4) tried(k, nested(k, f, ft, s.v, s.nestedAns))
      else { tok: k, errs: [], evs: [] }
    if (s.approve < 0) first
    else andThen(first, tried(first.tok, tApprove(first.tok, 0, BORROWER, TOKEN, s.approve)))

  pure def loan(k: Tok, f: int, ft: int, by: int, recv: int, token: int, v: int, data: List[int], s: Script): TokR =
    val o = opening(k, by, recv, token, v, f, data)
    val cb = if (o.errs == []) callback(o.tok, f, ft, s) else o
    closing(o, cb, settle(cb.tok, f, ft, recv, v), recv, s.ans)

  pure def scriptArgs(s: Script): List[List[int]] =
    (if (s.kind == 1 or s.kind == 2) [[0, s.kind, 0, s.to, s.v]]
     else if (s.kind == 3) [[0, 3, 0, s.v]]
     else if (s.kind == 4) [[0, 4, 0, BORROWER, TOKEN, s.v], [1, 99, s.nestedAns]]
     else [])
      .concat(if (s.approve < 0) [] else [[0, 2, 0, TOKEN, s.approve]])
      .concat([[0, 99, s.ans]])

  action call(op: str, by: int, args: List[List[int]], ret: List[List[int]], r: TokR): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: r.errs, ret: ret, evs: r.evs },
    tok' = if (r.errs == []) r.tok else tok,
    fee' = fee,
    feeTo' = feeTo,
    grew' = grew or (op == LOAN and r.errs == [] and r.tok.supply > tok.supply),
  }
  pure def readOnly(k: Tok, errs: List[Err]): TokR = { tok: k, errs: errs, evs: [] }

  action flashLoan(by: int, recv: int, token: int, v: int, data: List[int], s: Script): bool =
    call(LOAN, by,
      [[recv], [token], [v], data].concat(scriptArgs(s)), [[1]],
      loan(tok, fee, feeTo, by, recv, token, v, data, s))
  action flashFee(by: int, token: int, v: int): bool =
    call("flashFee(address,uint256)(uint256)", by, [[token], [v]], [[fee]],
      readOnly(tok, guard(token != TOKEN, E_TOKEN, [[token]])))
  action maxFlashLoan(by: int, token: int): bool =
    call("maxFlashLoan(address)(uint256)", by, [[token]], [[maxLoan(tok, token)]], readOnly(tok, []))
  action transfer(by: int, t: int, v: int): bool =
    call("transfer(address,uint256)(bool)", by, [[t], [v]], [[1]], tMove(tok, 0, by, t, v))
  action approve(by: int, s: int, v: int): bool =
    call("approve(address,uint256)(bool)", by, [[s], [v]], [[1]], tApprove(tok, 0, by, s, v))
  action mint(by: int, t: int, v: int): bool =
    call("mint(address,uint256)()", by, [[t], [v]], [], tMint(tok, UMAX, 0, t, v))

  action initWith(f: int, ft: int): bool = all {
    tok' = emptyTok(ADDRS),
    fee' = f,
    feeTo' = ft,
    grew' = false,
    obs' = { ...initObs, args: [[f], [ft]] },
  }
  action init = {
    nondet f = oneOf(EDGE)
    nondet g = oneOf(Set(0, 0, 1, 5))
    nondet ft = oneOf(ADDRS)
    nondet small = oneOf(Set(true, true, false))
    initWith(if (small) g else f, ft)
  }

  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  action step = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    nondet e = oneOf(EDGE)
    nondet r = oneOf(0.to(UMAX))
    any {
      { nondet v = oneOf(clip(Set(0, 1, 7, e, r, UMAX - tok.supply, UMAX - tok.supply + 1)))
        nondet good = oneOf(Set(1, 2, 3, 4))
        nondet token = oneOf(Set(TOKEN, TOKEN, TOKEN, t))
        nondet recv = oneOf(ADDRS)
        nondet kind = oneOf(0.to(4))
        nondet w = oneOf(clip(Set(0, 1, fee, v, tok.bal.get(BORROWER), v + fee, e)))
        nondet ap = oneOf(clip(Set(v + fee, v + fee - 1, v, UMAX, fee, v + w + fee + fee)).union(Set(-1)))
        nondet ans = oneOf(Set(0, 1, 2, 3, 4, 5, 7, 8, 9))
        nondet nans = oneOf(Set(0, 1, 3))
        nondet data = oneOf(Set([], [1, 2, 3]))
        flashLoan(by, if (good == 1) recv else BORROWER, if (good <= 2) token else TOKEN, v, data,
          { kind: kind, to: t, v: w, approve: ap, ans: if (good <= 2) ans else 0, nestedAns: nans }) },
      { nondet v = oneOf(clip(Set(0, 1, 7, e, UMAX - tok.supply)))
        nondet kind = oneOf(0.to(4))
        nondet w = oneOf(clip(Set(0, 1, fee, v, e)))
        nondet ap = oneOf(clip(Set(v + fee, UMAX, v + w + 2 * fee)))
        flashLoan(by, BORROWER, TOKEN, v, [], { kind: kind, to: t, v: w, approve: ap, ans: 0, nestedAns: 0 }) },
      { nondet v = oneOf(clip(Set(0, 1, fee, 3 * fee, e, r)))  mint(by, if (t == 0) BORROWER else t, v) },
      { nondet v = oneOf(clip(Set(0, 1, fee, 10 * fee, UMAX / 4)))  mint(by, BORROWER, v) },
      { nondet v = oneOf(clip(Set(0, tok.bal.get(by), tok.bal.get(by) / 2)))  transfer(by, t, v) },
      { nondet v = oneOf(clip(Set(0, fee, UMAX, e)))  approve(by, t, v) },
      { nondet v = oneOf(clip(Set(0, fee, UMAX, e, 7 + fee)))  approve(BORROWER, TOKEN, v) },
      { nondet v = oneOf(Set(0, e, r))  flashFee(by, t, v) },
      maxFlashLoan(by, t),
    }
  }

  action initAll = {
    nondet f = oneOf(0.to(1))
    nondet ft = oneOf(Set(0, 1, BORROWER))
    initWith(f, ft)
  }
  action stepAll = {
    nondet v = oneOf(0.to(UMAX))
    any {
      { nondet recv = oneOf(Set(1, BORROWER))
        nondet kind = oneOf(0.to(4))
        nondet d = oneOf(Set(1, TOKEN))
        nondet w = oneOf(0.to(UMAX))
        nondet ap = oneOf(Set(-1, UMAX, UMAX - 1))
        nondet ans = oneOf(Set(0, 1))
        flashLoan(1, recv, TOKEN, v, [], { kind: kind, to: d, v: w, approve: ap, ans: ans, nestedAns: ans }) },
      { nondet t = oneOf(Set(1, BORROWER))
        any { mint(1, t, v), transfer(1, t, v), approve(BORROWER, TOKEN, v) } },
    }
  }

  // Whatever the borrower does, the ledger stays consistent and a completed loan
  // never leaves more supply than there was.
  val safety = tokOk(tok, UMAX) and not(grew)
}

module main {
  import words.* from "./words"
  import flash(USERS = Set(1, 2), UMAX = MAX, EDGE = EDGES).*
}

module small {
  import flash(USERS = Set(1), UMAX = 2, EDGE = Set(0, 1, 2)).*
}
