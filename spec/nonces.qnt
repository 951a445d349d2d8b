// Per-account nonces.
module nonces {
  import evm.* from "./evm"
  const USERS: Set[int]
  const UMAX: int
  const EDGE: Set[int]
  const NMAX: int

  var nonce: int -> int
  var start: int -> int
  var uses: int -> int          // successful uses per account
  var obs: Obs

  action call(op: str, by: int, who: int, args: List[List[int]], ret: List[List[int]], errs: List[Err], consume: bool): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: [] },
    nonce' = if (errs == [] and consume) nonce.set(who, nonce.get(who) + 1) else nonce,
    uses' = if (errs == [] and consume) uses.set(who, uses.get(who) + 1) else uses,
    start' = start,
  }
  def full(who: int): List[Err] = guard(nonce.get(who) == UMAX, "#empty", [])
  action useNonce(by: int, who: int): bool =
    call("useNonce(address)(uint256)", by, who, [[who]], [[nonce.get(who)]], full(who), true)
  action useChecked(by: int, who: int, n: int): bool =
    call("useCheckedNonce(address,uint256)()", by, who, [[who], [n]], [],
      guard(n != nonce.get(who), "InvalidAccountNonce(address,uint256)", [[who], [nonce.get(who)]]).concat(full(who)), true)
  action read(by: int, who: int): bool =
    call("nonces(address)(uint256)", by, who, [[who]], [[nonce.get(who)]], [], false)

  action initWith(m: int -> int): bool = all {
    nonce' = m, start' = m, uses' = USERS.mapBy(_ => 0),
    obs' = { ...initObs, args: [[m.get(0)], [m.get(1)], [m.get(2)]] },
  }
  action init = {
    nondet hi = oneOf(Set(0, 0, 2^64 - 1, UMAX - 2))
    initWith(USERS.mapBy(a => if (a == 1) hi else 0))
  }
  action step = {
    nondet by = oneOf(USERS)
    nondet who = oneOf(USERS)
    nondet e = oneOf(EDGE)
    nondet n = oneOf(Set(nonce.get(who), nonce.get(who) + 1, maxOf(nonce.get(who) - 1, 0), nonce.get(by), e).filter(x => x <= UMAX))
    any { useNonce(by, who), useChecked(by, who, n), useChecked(by, who, nonce.get(who)), read(by, who) }
  }
  action initAll = initWith(USERS.mapBy(_ => 0))
  action stepAll = {
    nondet who = oneOf(USERS)
    nondet n = oneOf(0.to(UMAX))
    any { useNonce(1, who), useChecked(1, who, n) }
  }
  // A nonce is its start plus the number of successful uses, so no value repeats.
  val safety = USERS.forall(a => nonce.get(a) == start.get(a) + uses.get(a) and nonce.get(a) <= UMAX)
}
module main {
  import words.* from "./words"
  import nonces(USERS = Set(0, 1, 2), UMAX = MAX, EDGE = EDGES, NMAX = 0).*
}
module small {
  import nonces(USERS = Set(0, 1, 2), UMAX = 6, EDGE = Set(0), NMAX = 0).*
}
