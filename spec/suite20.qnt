// A complete fungible token: the ledger with name and symbol, a supply cap,
// pausing, and an owner who mints and pauses, all in one contract.
module suite20 {
  import erc20core.* from "./erc20core"

  const USERS: Set[int]
  const UMAX: int
  const CAPS: Set[int]
  const NAMES: Set[List[int]]
  const EDGE: Set[int]

  var tok: Tok
  var paused: int
  var owner: int
  var cap: int
  var name: List[int]
  var symbol: List[int]
  var obs: Obs
  // Ghost: the balances when the contract was paused (none while it runs).
  var frozen: List[int -> int]

  pure val ADDRS: Set[int] = USERS.union(Set(0))
  pure val E_RUN = "EnforcedPause()"
  pure val E_HALT = "ExpectedPause()"
  pure val E_OWNER = "OwnableUnauthorizedAccount(address)"
  pure val E_NEW = "OwnableInvalidOwner(address)"
  pure val E_CAP = "ERC20ExceededCap(uint256,uint256)"
  def whenRunning: List[Err] = guard(paused == 1, E_RUN, [])
  def whenHalted: List[Err] = guard(paused == 0, E_HALT, [])
  def byOwner(by: int): List[Err] = guard(by != owner, E_OWNER, [[by]])

  action call(op: str, by: int, args: List[List[int]], ret: List[List[int]], r: TokR, p: int, o: int): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: r.errs, ret: ret, evs: r.evs },
    tok' = if (r.errs == []) r.tok else tok,
    paused' = if (r.errs == []) p else paused,
    owner' = if (r.errs == []) o else owner,
    frozen' = if (r.errs != [] or p == paused) frozen else if (p == 1) [tok.bal] else [],
    cap' = cap, name' = name, symbol' = symbol,
  }
  // A change of the ledger.
  action ledger(op: str, by: int, args: List[List[int]], ret: List[List[int]], pre: List[Err], r: TokR): bool =
    call(op, by, args, ret, { ...r, errs: pre.concat(r.errs) }, paused, owner)
  // A change of anything else.
  action admin(op: str, by: int, args: List[List[int]], pre: List[Err], evs: List[Ev], p: int, o: int): bool =
    call(op, by, args, [], { tok: tok, errs: pre, evs: evs }, p, o)

  action transfer(by: int, t: int, v: int): bool =
    ledger("transfer(address,uint256)(bool)", by, [[t], [v]], [[1]], whenRunning, tMove(tok, 0, by, t, v))
  action transferFrom(by: int, f: int, t: int, v: int): bool =
    ledger("transferFrom(address,address,uint256)(bool)", by, [[f], [t], [v]], [[1]], whenRunning,
      tTransferFrom(tok, UMAX, 0, by, f, t, v))
  // Approvals stay possible while paused: they move nothing.
  action approve(by: int, s: int, v: int): bool =
    ledger("approve(address,uint256)(bool)", by, [[s], [v]], [[1]], [], tApprove(tok, 0, by, s, v))
  action burn(by: int, v: int): bool =
    ledger("burn(uint256)()", by, [[v]], [], whenRunning, tBurn(tok, 0, by, v))
  action burnFrom(by: int, f: int, v: int): bool =
    ledger("burnFrom(address,uint256)()", by, [[f], [v]], [], whenRunning, tBurnFrom(tok, UMAX, 0, by, f, v))
  action mint(by: int, t: int, v: int): bool =
    ledger("mint(address,uint256)()", by, [[t], [v]], [],
      whenRunning.concat(byOwner(by)).concat(guard(tok.supply + v > cap and tok.supply + v <= UMAX, E_CAP, [[tok.supply + v], [cap]])),
      tMint(tok, UMAX, 0, t, v))
  action pause(by: int): bool =
    admin("pause()()", by, [], byOwner(by).concat(whenRunning), [{ at: 0, sig: "Paused(address)", args: [[by]] }], 1, owner)
  action unpause(by: int): bool =
    admin("unpause()()", by, [], byOwner(by).concat(whenHalted), [{ at: 0, sig: "Unpaused(address)", args: [[by]] }], 0, owner)
  pure val E_MOVED = "OwnershipTransferred(address indexed,address indexed)"
  action hand(by: int, o: int): bool =
    admin("transferOwnership(address)()", by, [[o]], byOwner(by).concat(guard(o == 0, E_NEW, [[0]])),
      [{ at: 0, sig: E_MOVED, args: [[owner], [o]] }], paused, o)
  action renounce(by: int): bool =
    admin("renounceOwnership()()", by, [], byOwner(by), [{ at: 0, sig: E_MOVED, args: [[owner], [0]] }], paused, 0)

  action init = {
    nondet c = oneOf(CAPS)
    nondet n = oneOf(NAMES)
    nondet s = oneOf(NAMES)
    nondet o = oneOf(USERS)
    all {
      tok' = emptyTok(ADDRS), frozen' = [], paused' = 0, owner' = o, cap' = c, name' = n, symbol' = s,
      obs' = { ...initObs, args: [[o], [c], n, s] },
    }
  }

  def around(xs: Set[int]): Set[int] =
    xs.union(xs.map(x => x + 1)).union(xs.map(x => x - 1)).filter(x => x >= 0 and x <= UMAX)
  def b(a: int): int = tok.bal.get(a)
  def al(o: int, s: int): int = tok.allow.get((o, s))
  def boss(by: int, often: int): int = if (often < 6 and owner != 0) owner else by

  action step = {
    nondet by = oneOf(USERS)
    nondet f = oneOf(ADDRS)
    nondet t = oneOf(ADDRS)
    nondet q = oneOf(USERS)
    nondet e = oneOf(EDGE)
    nondet coin = oneOf(0.to(7))
    any {
      // mostly minting below the cap, by the owner
      { nondet v = oneOf(around(Set(if (cap > tok.supply) cap - tok.supply else 0)).union(Set(e)))
        mint(boss(by, coin), t, v) },
      { nondet v = oneOf(if (cap > tok.supply) Set(0, 1, (cap - tok.supply) / 2, (cap - tok.supply) / 5) else Set(0, 1))
        mint(boss(by, coin), q, v) },
      { nondet v = oneOf(around(Set(b(by), b(by) / 2)).union(Set(e)))  transfer(by, t, v) },
      { nondet v = oneOf(Set(0, b(by), b(by) / 2, b(by) / 3))  transfer(by, q, v) },
      { nondet v = oneOf(Set(UMAX, UMAX - 1, b(by), b(by) / 2, e))  approve(by, if (coin == 0) t else q, v) },
      { nondet v = oneOf(around(Set(minOf(b(f), al(f, by)))).union(Set(e)))  transferFrom(by, f, t, v) },
      { nondet v = oneOf(Set(0, 1, minOf(b(q), al(q, by)), minOf(b(q), al(q, by)) / 2))  transferFrom(by, q, if (coin == 0) t else by, v) },
      { nondet v = oneOf(around(Set(b(by) / 2)).union(Set(0, e)))  burn(by, v) },
      { nondet v = oneOf(Set(0, 1, minOf(b(q), al(q, by)), minOf(b(q), al(q, by)) / 2, e))  burnFrom(by, if (coin == 0) f else q, v) },
      all { coin < 4 or paused == 1, pause(boss(by, coin)) },
      unpause(boss(by, coin)),
      unpause(boss(by, coin)),
      all { coin < 4, hand(boss(by, if (coin == 0) 7 else 0), if (coin == 1) t else q) },
      all { coin == 7, renounce(by) },
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet v = oneOf(0.to(UMAX))
    any {
      pause(by), unpause(by), renounce(by), burn(by, v),
      { nondet t = oneOf(ADDRS)
        any {
          transfer(by, t, v), approve(by, t, v), mint(by, t, v), burnFrom(by, t, v), hand(by, t),
          { nondet f = oneOf(ADDRS)  transferFrom(by, f, t, v) },
        } },
    }
  }

  // Nothing moves while paused, the cap is never passed, the ledger adds up.
  val safety = and {
    tokOk(tok, UMAX),
    tok.supply <= cap,
    paused == 0 or tok.bal == frozen[0],
    CAPS.contains(cap) and NAMES.contains(name) and NAMES.contains(symbol),
  }
}
module main {
  import words.* from "./words"
  import suite20(USERS = Set(1, 2, 3), UMAX = MAX, CAPS = Set(0, 1, 1000, 2^128, MAX - 1, MAX),
    NAMES = Set([], [84], [84, 111, 107, 101, 110], 0.to(30).fold([], (l, i) => l.append(97)),
      0.to(31).fold([], (l, i) => l.append(98)), 0.to(69).fold([], (l, i) => l.append(65 + i % 26))),
    EDGE = EDGES).*
}
module small {
  import suite20(USERS = Set(1, 2), UMAX = 2, CAPS = Set(1), NAMES = Set([]), EDGE = Set(0, 1, 2)).*
}
