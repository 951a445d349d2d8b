// A complete multi-token: balances with supply counters, URIs, royalties,
// pausing, and an owner (two-step) who mints and administers, in one contract.
module suite1155 {
  import erc1155core.* from "./erc1155core"
  import strings.* from "./strings"

  const USERS: Set[int]
  const IDS: Set[int]
  const UMAX: int
  const EDGE: Set[int]
  const STRS: Set[List[int]]
  const FRACS: Set[int]
  const DENOM: int

  type Info = { to_: int, frac: int }
  type Kit = { paused: int, owner: int, pending: int, dflt: Info, own: int -> Info, base: Str, uri: int -> Str }

  var ml: Multi
  var kit: Kit
  var common: Str
  var shown: int -> Str
  var obs: Obs
  // Ghost: the balances when the contract was paused (none while it runs).
  var frozen: List[(int, int) -> int]

  pure val SELF = 100
  pure val RECV = 101
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF, RECV))
  pure val PEOPLE: Set[int] = USERS.union(Set(0))
  pure val NONE: Info = { to_: 0, frac: 0 }
  pure val ON_SINGLE = "onERC1155Received(address,address,uint256,uint256,bytes)"
  pure val ON_BATCH = "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)"
  pure val E_OWNER = "OwnableUnauthorizedAccount(address)"
  pure val MOVED = "OwnershipTransferred(address indexed,address indexed)"
  pure val STARTED = "OwnershipTransferStarted(address indexed,address indexed)"
  pure def resolve(c: Str, b: Str, o: Str): Str = if (o == []) c else b.concat(o)

  def whenRunning: List[Err] = guard(kit.paused == 1, "EnforcedPause()", [])
  def whenHalted: List[Err] = guard(kit.paused == 0, "ExpectedPause()", [])
  def byOwner(by: int): List[Err] = guard(by != kit.owner, E_OWNER, [[by]])
  pure def still(m: Multi, evs: List[Ev]): MultiR = { m: m, errs: [], evs: evs }

  action call(op: str, by: int, args: List[List[int]], ret: List[List[int]], pre: List[Err], r: MultiR, k: Kit): bool =
    val errs = pre.concat(r.errs)
    val after = if (errs == []) k else kit
    all {
      obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: r.evs },
      ml' = if (errs == []) r.m else ml,
      kit' = after,
      shown' = IDS.mapBy(i => resolve(common, after.base, after.uri.get(i))),
      frozen' = if (after.paused == kit.paused) frozen else if (after.paused == 1) [ml.bal] else [],
      common' = common,
    }

  // The consent of a receiving contract, asked after the move.
  pure def accepted(r: MultiR, by: int, src: int, dst: int, ids: List[int], vals: List[int], data: List[int], ans: int): MultiR =
    if (r.errs != [] or dst == 0) r
    else if (dst == SELF) { ...r, errs: [{ sig: M_RECEIVER, args: [[SELF]] }] }
    else if (dst == RECV)
      val told = if (ids.length() == 1) { at: 1, sig: ON_SINGLE, args: [[by], [src], [ids[0]], [vals[0]], data] }
                 else { at: 1, sig: ON_BATCH, args: [[by], [src], ids, vals, data] }
      { m: r.m, errs: if (ans == 0) [] else [{ sig: M_RECEIVER, args: [[RECV]] }], evs: r.evs.append(told) }
    else r
  def moves(by: int, src: int, dst: int, ids: List[int], vals: List[int], data: List[int], ans: int): MultiR =
    accepted(mMove(ml, UMAX, true, by, src, dst, ids, vals), by, src, dst, ids, vals, data, ans)
  def mintPre(by: int, dst: int): List[Err] =
    whenRunning.concat(byOwner(by)).concat(guard(dst == 0, M_RECEIVER, [[0]]))
  def burnPre(by: int, src: int): List[Err] =
    whenRunning.concat(mConsent(ml, by, src)).concat(guard(src == 0, M_SENDER, [[0]]))
  def transferPre(by: int, src: int, dst: int): List[Err] = burnPre(by, src).concat(guard(dst == 0, M_RECEIVER, [[0]]))

  action mint(by: int, dst: int, id: int, v: int, data: List[int], ans: int): bool =
    call("mint(address,uint256,uint256,bytes)()", by, [[dst], [id], [v], data, [0, 99, ans]], [], mintPre(by, dst),
      moves(by, 0, dst, [id], [v], data, ans), kit)
  action mintBatch(by: int, dst: int, ids: List[int], vals: List[int], data: List[int], ans: int): bool =
    call("mintBatch(address,uint256[],uint256[],bytes)()", by, [[dst], ids, vals, data, [0, 99, ans]], [], mintPre(by, dst),
      moves(by, 0, dst, ids, vals, data, ans), kit)
  action transfer(by: int, src: int, dst: int, id: int, v: int, data: List[int], ans: int): bool =
    call("safeTransferFrom(address,address,uint256,uint256,bytes)()", by, [[src], [dst], [id], [v], data, [0, 99, ans]], [],
      transferPre(by, src, dst), moves(by, src, dst, [id], [v], data, ans), kit)
  action transferBatch(by: int, src: int, dst: int, ids: List[int], vals: List[int], data: List[int], ans: int): bool =
    call("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)()", by, [[src], [dst], ids, vals, data, [0, 99, ans]], [],
      transferPre(by, src, dst), moves(by, src, dst, ids, vals, data, ans), kit)
  action burn(by: int, src: int, id: int, v: int): bool =
    call("burn(address,uint256,uint256)()", by, [[src], [id], [v]], [], burnPre(by, src),
      mMove(ml, UMAX, true, by, src, 0, [id], [v]), kit)
  action burnBatch(by: int, src: int, ids: List[int], vals: List[int]): bool =
    call("burnBatch(address,uint256[],uint256[])()", by, [[src], ids, vals], [], burnPre(by, src),
      mMove(ml, UMAX, true, by, src, 0, ids, vals), kit)
  action setAll(by: int, op: int, on: bool): bool =
    call("setApprovalForAll(address,bool)()", by, [[op], [bit(on)]], [], [], mSetAll(ml, by, op, on), kit)

  action setUri(by: int, id: int, s: Str): bool =
    call("setTokenUri(uint256,string)()", by, [[id], s], [], byOwner(by),
      still(ml, [{ at: 0, sig: "URI(string,uint256 indexed)", args: [resolve(common, kit.base, s), [id]] }]),
      { ...kit, uri: kit.uri.set(id, s) })
  action setBase(by: int, s: Str): bool =
    call("setBaseUri(string)()", by, [s], [], byOwner(by), still(ml, []), { ...kit, base: s })
  action setDefault(by: int, t: int, f: int): bool =
    call("setDefaultRoyalty(address,uint96)()", by, [[t], [f]], [],
      byOwner(by).concat(guard(f > DENOM, "ERC2981InvalidDefaultRoyalty(uint256,uint256)", [[f], [DENOM]]))
        .concat(guard(t == 0, "ERC2981InvalidDefaultRoyaltyReceiver(address)", [[0]])),
      still(ml, []), { ...kit, dflt: { to_: t, frac: f } })
  action setToken(by: int, id: int, t: int, f: int): bool =
    call("setTokenRoyalty(uint256,address,uint96)()", by, [[id], [t], [f]], [],
      byOwner(by).concat(guard(f > DENOM, "ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)", [[id], [f], [DENOM]]))
        .concat(guard(t == 0, "ERC2981InvalidTokenRoyaltyReceiver(uint256,address)", [[id], [0]])),
      still(ml, []), { ...kit, own: kit.own.set(id, { to_: t, frac: f }) })
  action resetToken(by: int, id: int): bool =
    call("resetTokenRoyalty(uint256)()", by, [[id]], [], byOwner(by), still(ml, []), { ...kit, own: kit.own.set(id, NONE) })
  action pause(by: int): bool =
    call("pause()()", by, [], [], byOwner(by).concat(whenRunning),
      still(ml, [{ at: 0, sig: "Paused(address)", args: [[by]] }]), { ...kit, paused: 1 })
  action unpause(by: int): bool =
    call("unpause()()", by, [], [], byOwner(by).concat(whenHalted),
      still(ml, [{ at: 0, sig: "Unpaused(address)", args: [[by]] }]), { ...kit, paused: 0 })
  action nominate(by: int, t: int): bool =
    call("transferOwnership(address)()", by, [[t]], [], byOwner(by),
      still(ml, [{ at: 0, sig: STARTED, args: [[kit.owner], [t]] }]), { ...kit, pending: t })
  action accept(by: int): bool =
    call("acceptOwnership()()", by, [], [], guard(by != kit.pending, E_OWNER, [[by]]),
      still(ml, [{ at: 0, sig: MOVED, args: [[kit.owner], [by]] }]), { ...kit, owner: by, pending: 0 })
  action renounce(by: int): bool =
    call("renounceOwnership()()", by, [], [], byOwner(by),
      still(ml, [{ at: 0, sig: MOVED, args: [[kit.owner], [0]] }]), { ...kit, owner: 0, pending: 0 })
  action readBatch(by: int, accts: List[int], ids: List[int]): bool =
    val errs = guard(accts.length() != ids.length(), M_LENGTH, [[ids.length()], [accts.length()]])
    call("balanceOfBatch(address[],uint256[])(uint256[])", by, [accts, ids],
      [if (errs == []) range(0, ids.length()).foldl([], (l, i) => l.append(ml.bal.get((ids[i], accts[i])))) else []],
      errs, still(ml, []), kit)

  action init = {
    nondet c = oneOf(STRS)
    nondet o = oneOf(USERS)
    all {
      ml' = emptyMulti(ADDRS, IDS), frozen' = [], common' = c, shown' = IDS.mapBy(_ => c),
      kit' = { paused: 0, owner: o, pending: 0, dflt: NONE, own: IDS.mapBy(_ => NONE), base: [], uri: IDS.mapBy(_ => []) },
      obs' = { ...initObs, args: [[o], [DENOM], c] },
    }
  }
  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  action step = {
    nondet any_ = oneOf(USERS)
    nondet x = oneOf(ADDRS)
    nondet q = oneOf(PEOPLE)
    nondet i = oneOf(IDS)
    nondet j = oneOf(IDS)
    nondet e = oneOf(EDGE)
    nondet u = oneOf(STRS)
    nondet f = oneOf(FRACS)
    nondet small = oneOf(0.to(50))
    nondet coin = oneOf(0.to(9))
    nondet dice = oneOf(0.to(9))
    val holders = USERS.filter(a => ml.bal.get((i, a)) > 0)
    nondet h = oneOf(if (holders == Set()) USERS else holders)
    val src = if (coin == 9) x else h
    val ops = USERS.filter(a => ml.oper.get((src, a)))
    nondet o = oneOf(if (ops == Set()) USERS else ops)
    val by = if (dice < 6 and USERS.contains(src)) src else if (dice < 9) o else any_
    val boss = if (coin < 8 and kit.owner != 0) kit.owner else any_
    val dst = if (dice < 3) RECV else x
    val have = ml.bal.get((i, src))
    nondet v = oneOf(clip(Set(0, small, have, have / 2, have - 1, have + 1)))
    nondet w = oneOf(clip(Set(0, 1, ml.bal.get((j, src)), ml.bal.get((j, src)) / 2)))
    val data = if (coin % 2 == 0) [] else [1, 255, 3]
    val ans = if (coin < 7) 0 else 1
    val ids = if (coin == 0) [] else if (coin < 3) [i] else if (coin < 8) [i, j] else [i, j, i]
    val vals = if (coin == 0) [] else if (coin < 3) [v] else if (coin < 8) [v, w] else [v, w, 0]
    any {
      mint(boss, any_, i, small, data, 0),
      mint(boss, dst, i, if (dice < 6) small else e, data, ans),
      mintBatch(boss, if (coin < 5) any_ else dst, ids, if (coin == 0) [] else if (coin < 3) [small] else if (coin < 8) [small, e] else [small, 1], data, ans),
      mintBatch(boss, any_, [i, j], [small, 7], data, 0),
      transfer(by, src, dst, i, v, data, ans),
      transfer(by, src, any_, i, v, data, 0),
      transferBatch(by, src, dst, ids, vals, data, ans),
      transferBatch(by, src, any_, ids, vals, data, 0),
      burn(by, src, i, v),
      burnBatch(by, src, ids, vals),
      setAll(h, if (coin < 6) any_ else x, dice < 7),
      setUri(boss, i, if (dice < 2) [] else u),
      setBase(boss, if (dice < 2) [] else u),
      setDefault(boss, q, f),
      if (dice < 7) setToken(boss, i, q, f) else resetToken(boss, i),
      if (dice < 3) pause(boss) else all { kit.paused == 1 or coin == 0, unpause(boss) },
      all { kit.paused == 1 or coin == 1, unpause(boss) },
      if (dice < 5) nominate(boss, q) else accept(if (coin < 6 and kit.pending != 0) kit.pending else any_),
      if (dice == 0) renounce(any_) else readBatch(any_, [x, q, h], if (coin == 0) [i, j] else [i, j, i]),
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet t = oneOf(USERS)
    nondet i = oneOf(IDS)
    any {
      mint(by, t, i, 1, [], 0), transfer(by, 1, t, i, 1, [], 0), burn(by, t, i, 1), mintBatch(by, t, [1, 2], [1, 1], [], 0),
      pause(by), unpause(by), nominate(by, t), accept(by), setAll(by, 3 - by, true), setToken(by, i, t, 1),
    }
  }
  val totalOfSupplies = IDS.fold(0, (a, i) => a + ml.sup.get(i))
  // Supplies are sums of balances, and nothing moves while paused.
  val safety = and {
    IDS.forall(i => ml.sup.get(i) == ADDRS.fold(0, (a, x) => a + ml.bal.get((i, x)))),
    ml.total == totalOfSupplies,
    ml.total <= UMAX,
    tuples(IDS, ADDRS).forall(p => ml.bal.get(p) >= 0),
    IDS.forall(i => ml.bal.get((i, 0)) == 0),
    kit.paused == 0 or ml.bal == frozen[0],
    kit.dflt.frac <= DENOM and IDS.forall(i => kit.own.get(i).frac <= DENOM),
    IDS.forall(i => shown.get(i) == resolve(common, kit.base, kit.uri.get(i))),
  }
}
module main {
  import words.* from "./words"
  import strings.* from "./strings"
  import suite1155(USERS = Set(1, 2, 3), IDS = Set(0, 1, 2^200, MAX), UMAX = MAX, EDGE = EDGES, DENOM = 10000,
    STRS = Set([], [97], fill(31, 65), fill(32, 66), [47, 120], fill(70, 48)),
    FRACS = Set(0, 1, 250, 5000, 9999, 10000, 10001, 2^96 - 1)).*
}
module small {
  import suite1155(USERS = Set(1, 2), IDS = Set(1, 2), UMAX = 2, EDGE = Set(0), DENOM = 2, STRS = Set([]), FRACS = Set(0)).*
}
