// Role-based access control.
module control {
  import evm.* from "./evm"
  const USERS: Set[int]
  const ROLES: Set[int]
  const HITS: int

  var has: (int, int) -> int     // (role, account) -> 0/1
  var adminOf: int -> int
  var hits: int
  var obs: Obs

  pure val ADDRS: Set[int] = USERS.union(Set(0))
  pure val E_AUTH = "AccessControlUnauthorizedAccount(address,bytes32)"
  pure val GRANTED = "RoleGranted(bytes32 indexed,address indexed,address indexed)"
  pure val REVOKED = "RoleRevoked(bytes32 indexed,address indexed,address indexed)"
  pure val ADMIN = "RoleAdminChanged(bytes32 indexed,bytes32 indexed,bytes32 indexed)"

  def holds(r: int, a: int): bool = has.get((r, a)) == 1
  def need(r: int, a: int): List[Err] = guard(not(holds(r, a)), E_AUTH, [[a], [r]])

  action call(op: str, by: int, args: List[List[int]], ret: List[List[int]], errs: List[Err], evs: List[Ev],
              hs: (int, int) -> int, ad: int -> int, h: int): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: evs },
    has' = if (errs == []) hs else has,
    adminOf' = if (errs == []) ad else adminOf,
    hits' = if (errs == []) h else hits,
  }
  def given(by: int, r: int, a: int): List[Ev] = if (holds(r, a)) [] else [{ at: 0, sig: GRANTED, args: [[r], [a], [by]] }]
  def taken(by: int, r: int, a: int): List[Ev] = if (holds(r, a)) [{ at: 0, sig: REVOKED, args: [[r], [a], [by]] }] else []

  action grantRole(by: int, r: int, a: int): bool =
    call("grantRole(bytes32,address)()", by, [[r], [a]], [], need(adminOf.get(r), by), given(by, r, a), has.set((r, a), 1), adminOf, hits)
  action revokeRole(by: int, r: int, a: int): bool =
    call("revokeRole(bytes32,address)()", by, [[r], [a]], [], need(adminOf.get(r), by), taken(by, r, a), has.set((r, a), 0), adminOf, hits)
  action renounceRole(by: int, r: int, a: int): bool =
    call("renounceRole(bytes32,address)()", by, [[r], [a]], [], guard(by != a, "AccessControlBadConfirmation()", []),
      taken(by, r, a), has.set((r, a), 0), adminOf, hits)
  action onlyRole(by: int, r: int): bool =
    call("onlyRole(bytes32)()", by, [[r]], [], need(r, by), [], has, adminOf, hits)
  action checkRole(by: int, r: int, a: int): bool =
    call("checkRole(bytes32,address)()", by, [[r], [a]], [], need(r, a), [], has, adminOf, hits)
  action restricted(by: int, r: int): bool =
    call("restricted(bytes32)()", by, [[r]], [], need(r, by), [], has, adminOf, hits + 1)
  // Internal, unguarded operations.
  action forceGrant(by: int, r: int, a: int): bool =
    call("forceGrant(bytes32,address)(bool)", by, [[r], [a]], [[bit(not(holds(r, a)))]], [], given(by, r, a), has.set((r, a), 1), adminOf, hits)
  action forceRevoke(by: int, r: int, a: int): bool =
    call("forceRevoke(bytes32,address)(bool)", by, [[r], [a]], [[bit(holds(r, a))]], [], taken(by, r, a), has.set((r, a), 0), adminOf, hits)
  action setAdmin(by: int, r: int, d: int): bool =
    call("setRoleAdmin(bytes32,bytes32)()", by, [[r], [d]], [], [],
      [{ at: 0, sig: ADMIN, args: [[r], [adminOf.get(r)], [d]] }], has, adminOf.set(r, d), hits)
  action readHas(by: int, r: int, a: int): bool =
    call("hasRole(bytes32,address)(bool)", by, [[r], [a]], [[has.get((r, a))]], [], [], has, adminOf, hits)

  action start(hs: (int, int) -> int): bool = all {
    has' = hs, adminOf' = ROLES.mapBy(_ => 0), hits' = 0, obs' = initObs,
  }
  action init = start(tuples(ROLES, ADDRS).mapBy(_ => 0))
  action step = {
    nondet by = oneOf(USERS)
    nondet r = oneOf(ROLES)
    nondet a = oneOf(ADDRS)
    nondet d = oneOf(ROLES)
    nondet k = oneOf(0.to(9))
    // An account entitled to act, if there is one.
    val able = USERS.filter(u => holds(adminOf.get(r), u))
    any {
      { nondet w = oneOf(if (able != Set()) able else USERS)  grantRole(w, r, a) },
      { nondet w = oneOf(if (able != Set()) able else USERS)  revokeRole(w, r, a) },
      grantRole(by, r, a),
      revokeRole(by, r, a),
      renounceRole(by, r, if (k < 6) by else a),
      onlyRole(by, r),
      checkRole(by, r, a),
      restricted(by, r),
      forceGrant(by, if (k < 4) 0 else r, a),
      forceGrant(by, adminOf.get(r), if (k < 5) by else a),
      if (k < 4) forceRevoke(by, r, a) else readHas(by, r, a),
      if (k < 4) setAdmin(by, r, d) else setAdmin(by, r, 0),
    }
  }
  // Small instance: no internal operations, so privilege can only flow from an admin.
  action initAll = {
    nondet d = oneOf(ROLES)
    all {
      has' = tuples(ROLES, ADDRS).mapBy(p => if (p._1 == 0 and p._2 == 1) 1 else 0),
      adminOf' = ROLES.mapBy(r => if (r == 0) 0 else d), hits' = 0, obs' = initObs,
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet r = oneOf(ROLES)
    nondet a = oneOf(ADDRS)
    any { grantRole(by, r, a), revokeRole(by, r, a), renounceRole(by, r, a), all { hits < HITS, restricted(by, r) } }
  }
  // Once nobody holds a role's admin role, and nobody holds that one's admin
  // role and so on, the role can no longer be granted: checked by TLC as the
  // step property that a role is gained only by a call of a holder of its admin.
  val safety = and {
    has.keys().forall(k => Set(0, 1).contains(has.get(k))),
    adminOf.keys().forall(r => ROLES.contains(adminOf.get(r))),
    (obs.op == "grantRole(bytes32,address)()" and obs.errs == []) implies
      has.get((obs.args[0][0], obs.args[1][0])) == 1,
    (Set("revokeRole(bytes32,address)()", "renounceRole(bytes32,address)()").contains(obs.op) and obs.errs == []) implies
      has.get((obs.args[0][0], obs.args[1][0])) == 0,
  }
}
module main {
  import words.* from "./words"
  import control(USERS = Set(1, 2, 3), ROLES = Set(0, 1, 2^255, MAX), HITS = 0).*
}
module small {
  import control(USERS = Set(1, 2), ROLES = Set(0, 1, 2), HITS = 1).*
}
