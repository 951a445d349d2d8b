// Single-step ownership.
module ownable {
  import evm.* from "./evm"
  const USERS: Set[int]
  const HITS: int

  var owner: int
  var hits: int                 // guarded calls that went through
  var gone: bool                // renounced, and not re-assigned internally since
  var obs: Obs

  pure val ADDRS: Set[int] = USERS.union(Set(0))
  pure val E_AUTH = "OwnableUnauthorizedAccount(address)"
  pure val E_OWNER = "OwnableInvalidOwner(address)"
  pure val MOVED = "OwnershipTransferred(address indexed,address indexed)"

  def only(by: int): List[Err] = guard(by != owner, E_AUTH, [[by]])
  action finish(op: str, by: int, args: List[List[int]], ret: List[List[int]], errs: List[Err], moved: bool, o: int, h: int): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: ret,
             evs: if (moved) [{ at: 0, sig: MOVED, args: [[owner], [o]] }] else [] },
    owner' = if (errs == [] and moved) o else owner,
    hits' = if (errs == []) h else hits,
  }
  action transferOwnership(by: int, t: int): bool = all {
    finish("transferOwnership(address)()", by, [[t]], [], only(by).concat(guard(t == 0, E_OWNER, [[0]])), true, t, hits),
    gone' = gone,
  }
  action renounceOwnership(by: int): bool = all {
    finish("renounceOwnership()()", by, [], [], only(by), true, 0, hits),
    gone' = (gone or by == owner),
  }
  action restricted(by: int): bool = all {
    finish("restricted()()", by, [], [], only(by), false, owner, hits + 1), gone' = gone,
  }
  action readOwner(by: int): bool = all {
    finish("owner()(address)", by, [], [[owner]], [], false, owner, hits), gone' = gone,
  }
  // The internal, unguarded assignment an inheriting contract may expose.
  action setOwner(by: int, t: int): bool = all {
    finish("assign(address)()", by, [[t]], [], [], true, t, hits), gone' = (t == 0),
  }
  action init = {
    nondet o = oneOf(ADDRS)
    all { owner' = o, hits' = 0, gone' = (o == 0), obs' = { ...initObs, args: [[o]] } }
  }
  action step = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    nondet k = oneOf(0.to(9))
    val who = if (owner != 0 and k < 4) owner else by
    any {
      transferOwnership(who, t),
      transferOwnership(by, t),
      if (k < 6) restricted(who) else renounceOwnership(by),
      restricted(by),
      readOwner(by),
      if (k < 3) setOwner(by, t) else restricted(who),
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(ADDRS)
    any { all { hits < HITS, restricted(by) }, transferOwnership(by, t), renounceOwnership(by), setOwner(by, t) }
  }
  // Whoever has renounced stays without owner, and nobody is ever somebody unknown.
  val renouncedForGood = gone implies owner == 0
  val safety = renouncedForGood and ADDRS.contains(owner)
}
module main {
  import ownable(USERS = Set(1, 2, 3, 4), HITS = 0).*
}
module small {
  import ownable(USERS = Set(1, 2, 3), HITS = 2).*
}
