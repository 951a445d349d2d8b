// Two-step ownership.
module ownable2 {
  import evm.* from "./evm"
  const USERS: Set[int]
  const HITS: int

  var owner: int
  var pending: int
  var hits: int
  // Ghosts: the account most recently nominated by an owner who is still owner.
  var nominee: int
  var fresh: bool
  var obs: Obs

  pure val ADDRS: Set[int] = USERS.union(Set(0))
  pure val E_AUTH = "OwnableUnauthorizedAccount(address)"
  pure val MOVED = "OwnershipTransferred(address indexed,address indexed)"
  pure val STARTED = "OwnershipTransferStarted(address indexed,address indexed)"

  def only(by: int): List[Err] = guard(by != owner, E_AUTH, [[by]])
  action finish(op: str, by: int, args: List[List[int]], ret: List[List[int]], errs: List[Err], evs: List[Ev], o: int, p: int, h: int): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: evs },
    owner' = if (errs == []) o else owner,
    pending' = if (errs == []) p else pending,
    hits' = if (errs == []) h else hits,
  }
  def moved(t: int): List[Ev] = [{ at: 0, sig: MOVED, args: [[owner], [t]] }]
  action transferOwnership(by: int, t: int): bool = all {
    finish("transferOwnership(address)()", by, [[t]], [], only(by),
      [{ at: 0, sig: STARTED, args: [[owner], [t]] }], owner, t, hits),
    nominee' = if (by == owner) t else nominee,
    fresh' = (fresh or by == owner),
  }
  action acceptOwnership(by: int): bool = all {
    finish("acceptOwnership()()", by, [], [], guard(by != pending, E_AUTH, [[by]]), moved(by), by, 0, hits),
    nominee' = nominee,
    fresh' = (fresh and by != pending),
  }
  action renounceOwnership(by: int): bool = all {
    finish("renounceOwnership()()", by, [], [], only(by), moved(0), 0, 0, hits),
    nominee' = nominee,
    fresh' = (fresh and by != owner),
  }
  action restricted(by: int): bool = all {
    finish("restricted()()", by, [], [], only(by), [], owner, pending, hits + 1), nominee' = nominee, fresh' = fresh,
  }
  action readOwner(by: int): bool = all {
    finish("owner()(address)", by, [], [[owner]], [], [], owner, pending, hits), nominee' = nominee, fresh' = fresh,
  }
  action readPending(by: int): bool = all {
    finish("pendingOwner()(address)", by, [], [[pending]], [], [], owner, pending, hits), nominee' = nominee, fresh' = fresh,
  }
  action init = {
    nondet o = oneOf(ADDRS)
    all { owner' = o, pending' = 0, hits' = 0, nominee' = 0, fresh' = false, obs' = { ...initObs, args: [[o]] } }
  }
  action step = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    nondet k = oneOf(0.to(9))
    val who = if (owner != 0 and k < 6) owner else by
    val nom = if (pending != 0 and k < 3) pending else by
    any {
      transferOwnership(who, t),
      transferOwnership(by, t),
      acceptOwnership(nom),
      acceptOwnership(by),
      if (k < 9) restricted(who) else renounceOwnership(by),
      restricted(by),
      readOwner(by),
      readPending(by),
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    any { all { hits < HITS, restricted(by) }, transferOwnership(by, t), acceptOwnership(by), renounceOwnership(by) }
  }
  // Only the nominee of the present owner's present nomination can ever accept.
  val noStaleNominee = pending == if (fresh) nominee else 0
  val noOwnerNoNominee = owner == 0 implies pending == 0
  val safety = noStaleNominee and noOwnerNoNominee
}
module main {
  import ownable2(USERS = Set(1, 2, 3, 4), HITS = 0).*
}
module small {
  import ownable2(USERS = Set(1, 2, 3), HITS = 2).*
}
