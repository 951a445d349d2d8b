// A complete collection: ownership ledger, lists of tokens, names and URIs,
// royalties, pausing, and roles that mint and administer, all in one contract.
module suite721 {
  import erc721core.* from "./erc721core"
  import strings.* from "./strings"

  const USERS: Set[int]
  const IDS: Set[int]
  const STRS: Set[List[int]]
  const FRACS: Set[int]
  const DENOM: int
  const MINTER: int

  type Info = { to_: int, frac: int }
  type Coll = { has: (int, int) -> int, dflt: Info, own: int -> Info, uri: int -> Str, paused: int }

  var nft: Nft
  var coll: Coll
  var base: Str
  var name: Str
  var symbol: Str
  var shown: int -> Str        // what tokenURI must answer for existing tokens
  var obs: Obs
  // Ghost: the owners when the contract was paused (none while it runs).
  var frozen: List[int -> int]

  pure val SELF = 100
  pure val RECV = 101
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF, RECV))
  pure val HOLDERS: Set[int] = USERS.union(Set(0))
  pure val ROLES: Set[int] = Set(0, MINTER)
  pure val NONE: Info = { to_: 0, frac: 0 }
  pure val ON_RECEIVED = "onERC721Received(address,address,uint256,bytes)"
  pure val UPDATED = "MetadataUpdate(uint256)"
  pure val GRANTED = "RoleGranted(bytes32 indexed,address indexed,address indexed)"
  pure val REVOKED = "RoleRevoked(bytes32 indexed,address indexed,address indexed)"
  pure def resolve(b: Str, o: Str, id: int): Str =
    if (b == []) o else if (o == []) b.concat(decimal(id)) else b.concat(o)

  def whenRunning: List[Err] = guard(coll.paused == 1, "EnforcedPause()", [])
  def whenHalted: List[Err] = guard(coll.paused == 0, "ExpectedPause()", [])
  def holds(r: int, a: int): bool = coll.has.get((r, a)) == 1
  def need(r: int, a: int): List[Err] = guard(not(holds(r, a)), "AccessControlUnauthorizedAccount(address,bytes32)", [[a], [r]])

  action call(op: str, by: int, args: List[List[int]], pre: List[Err], r: NftR, k: Coll): bool =
    val errs = pre.concat(r.errs)
    val after = if (errs == []) k else coll
    all {
      obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: [], evs: r.evs },
      nft' = if (errs == []) r.nft else nft,
      coll' = after,
      shown' = IDS.mapBy(i => resolve(base, after.uri.get(i), i)),
      frozen' = if (after.paused == coll.paused) frozen else if (after.paused == 1) [nft.owner] else [],
      base' = base, name' = name, symbol' = symbol,
    }
  pure def quiet(n: Nft, evs: List[Ev]): NftR = { nft: n, errs: [], evs: evs }

  pure def checked(moved: NftR, by: int, src: int, dst: int, id: int, data: List[int], ans: int): NftR =
    if (moved.errs != []) moved
    else if (dst == SELF) { ...moved, errs: [{ sig: N_RECEIVER, args: [[SELF]] }] }
    else if (dst == RECV)
      { nft: moved.nft,
        errs: if (ans == 0) [] else [{ sig: N_RECEIVER, args: [[RECV]] }],
        evs: moved.evs.append({ at: 1, sig: ON_RECEIVED, args: [[by], [src], [id], data] }) }
    else moved

  action mint(by: int, dst: int, id: int, u: Str): bool =
    val r = nMint(nft, 0, dst, id)
    call("mint(address,uint256,string)()", by, [[dst], [id], u], whenRunning.concat(need(MINTER, by)),
      { ...r, evs: r.evs.append({ at: 0, sig: UPDATED, args: [[id]] }) }, { ...coll, uri: coll.uri.set(id, u) })
  action safeMint(by: int, dst: int, id: int, data: List[int], ans: int): bool =
    call("safeMint(address,uint256,bytes)()", by, [[dst], [id], data, [0, 99, ans]], whenRunning.concat(need(MINTER, by)),
      checked(nMint(nft, 0, dst, id), by, 0, dst, id, data, ans), coll)
  // Burning forgets the token's own royalty.
  action burn(by: int, id: int): bool =
    call("burn(uint256)()", by, [[id]], whenRunning, nBurn(nft, 0, by, id), { ...coll, own: coll.own.set(id, NONE) })
  action transferFrom(by: int, src: int, dst: int, id: int): bool =
    call("transferFrom(address,address,uint256)()", by, [[src], [dst], [id]], whenRunning, nTransferFrom(nft, 0, by, src, dst, id), coll)
  action safeTransfer(by: int, src: int, dst: int, id: int, ans: int): bool =
    call("safeTransferFrom(address,address,uint256)()", by, [[src], [dst], [id], [0, 99, ans]], whenRunning,
      checked(nTransferFrom(nft, 0, by, src, dst, id), by, src, dst, id, [], ans), coll)
  action safeTransferData(by: int, src: int, dst: int, id: int, data: List[int], ans: int): bool =
    call("safeTransferFrom(address,address,uint256,bytes)()", by, [[src], [dst], [id], data, [0, 99, ans]], whenRunning,
      checked(nTransferFrom(nft, 0, by, src, dst, id), by, src, dst, id, data, ans), coll)
  action approve(by: int, t: int, id: int): bool =
    call("approve(address,uint256)()", by, [[t], [id]], [], nApprove(nft, 0, by, t, id), coll)
  action setAll(by: int, op: int, on: bool): bool =
    call("setApprovalForAll(address,bool)()", by, [[op], [bit(on)]], [], nSetAll(nft, 0, by, op, on), coll)

  action setUri(by: int, id: int, u: Str): bool =
    call("setTokenUri(uint256,string)()", by, [[id], u], need(MINTER, by),
      quiet(nft, [{ at: 0, sig: UPDATED, args: [[id]] }]), { ...coll, uri: coll.uri.set(id, u) })
  action setDefault(by: int, t: int, f: int): bool =
    call("setDefaultRoyalty(address,uint96)()", by, [[t], [f]],
      need(0, by).concat(guard(f > DENOM, "ERC2981InvalidDefaultRoyalty(uint256,uint256)", [[f], [DENOM]]))
        .concat(guard(t == 0, "ERC2981InvalidDefaultRoyaltyReceiver(address)", [[0]])),
      quiet(nft, []), { ...coll, dflt: { to_: t, frac: f } })
  action deleteDefault(by: int): bool =
    call("deleteDefaultRoyalty()()", by, [], need(0, by), quiet(nft, []), { ...coll, dflt: NONE })
  action setToken(by: int, id: int, t: int, f: int): bool =
    call("setTokenRoyalty(uint256,address,uint96)()", by, [[id], [t], [f]],
      need(0, by).concat(guard(f > DENOM, "ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)", [[id], [f], [DENOM]]))
        .concat(guard(t == 0, "ERC2981InvalidTokenRoyaltyReceiver(uint256,address)", [[id], [0]])),
      quiet(nft, []), { ...coll, own: coll.own.set(id, { to_: t, frac: f }) })
  action pause(by: int): bool =
    call("pause()()", by, [], need(0, by).concat(whenRunning),
      quiet(nft, [{ at: 0, sig: "Paused(address)", args: [[by]] }]), { ...coll, paused: 1 })
  action unpause(by: int): bool =
    call("unpause()()", by, [], need(0, by).concat(whenHalted),
      quiet(nft, [{ at: 0, sig: "Unpaused(address)", args: [[by]] }]), { ...coll, paused: 0 })
  action grantRole(by: int, r: int, a: int): bool =
    call("grantRole(bytes32,address)()", by, [[r], [a]], need(0, by),
      quiet(nft, if (holds(r, a)) [] else [{ at: 0, sig: GRANTED, args: [[r], [a], [by]] }]), { ...coll, has: coll.has.set((r, a), 1) })
  def taken(by: int, r: int, a: int): NftR =
    quiet(nft, if (holds(r, a)) [{ at: 0, sig: REVOKED, args: [[r], [a], [by]] }] else [])
  action revokeRole(by: int, r: int, a: int): bool =
    call("revokeRole(bytes32,address)()", by, [[r], [a]], need(0, by), taken(by, r, a), { ...coll, has: coll.has.set((r, a), 0) })
  action renounceRole(by: int, r: int, a: int): bool =
    call("renounceRole(bytes32,address)()", by, [[r], [a]], guard(by != a, "AccessControlBadConfirmation()", []),
      taken(by, r, a), { ...coll, has: coll.has.set((r, a), 0) })

  action init = {
    nondet b = oneOf(STRS)
    nondet n = oneOf(STRS)
    nondet s = oneOf(STRS)
    nondet a = oneOf(USERS)
    all {
      nft' = emptyNft(ADDRS, IDS), frozen' = [], base' = b, name' = n, symbol' = s,
      coll' = { has: tuples(ROLES, HOLDERS).mapBy(p => bit(p._2 == a)), dflt: NONE, own: IDS.mapBy(_ => NONE),
                uri: IDS.mapBy(_ => []), paused: 0 },
      shown' = IDS.mapBy(i => resolve(b, [], i)),
      obs' = { ...initObs, args: [[a], [DENOM], b, n, s] },
    }
  }

  action step = {
    nondet any_ = oneOf(USERS)
    nondet fresh = oneOf(IDS)
    nondet held = oneOf(if (IDS.exists(i => nft.owner.get(i) != 0)) IDS.filter(i => nft.owner.get(i) != 0) else IDS)
    nondet x = oneOf(ADDRS)
    nondet q = oneOf(HOLDERS)
    nondet u = oneOf(STRS)
    nondet f = oneOf(FRACS)
    nondet r = oneOf(ROLES)
    nondet coin = oneOf(0.to(9))
    nondet dice = oneOf(0.to(9))
    nondet boss = oneOf(if (USERS.exists(a => coll.has.get((0, a)) == 1)) USERS.filter(a => coll.has.get((0, a)) == 1) else USERS)
    nondet maker = oneOf(if (USERS.exists(a => coll.has.get((MINTER, a)) == 1)) USERS.filter(a => coll.has.get((MINTER, a)) == 1) else USERS)
    val adm = if (coin < 7) boss else any_
    val mnt = if (coin < 8) maker else any_
    val id = if (dice == 9) fresh else held
    val o = nft.owner.get(id)
    val by = if (coin < 5 and USERS.contains(o)) o
             else if (coin < 7 and USERS.contains(nft.appr.get(id))) nft.appr.get(id) else any_
    val from_ = if (dice != 8 and o != 0) o else x
    val data = if (dice < 5) [] else [1, 2, 3]
    val ans = if (dice < 7) 0 else 1
    any {
      mint(mnt, if (dice < 6) any_ else x, fresh, if (dice < 3) [] else u),
      mint(mnt, any_, fresh, u),
      safeMint(mnt, if (coin < 4) RECV else x, fresh, data, ans),
      burn(by, id),
      transferFrom(by, from_, x, id),
      transferFrom(by, from_, any_, id),
      safeTransfer(by, from_, if (coin < 5) RECV else x, id, ans),
      safeTransferData(by, from_, if (coin < 5) RECV else x, id, data, ans),
      approve(by, if (dice < 6) any_ else x, id),
      setAll(any_, x, dice < 7),
      setUri(mnt, id, u),
      if (dice < 7) setDefault(adm, q, f) else deleteDefault(adm),
      setToken(adm, id, q, f),
      if (dice < 4) pause(adm) else all { coll.paused == 1 or coin == 0, unpause(adm) },
      all { coll.paused == 1 or coin == 1, unpause(adm) },
      grantRole(adm, r, q),
      if (dice < 4) revokeRole(adm, r, q) else grantRole(adm, MINTER, q),
      if (dice < 2) renounceRole(any_, r, if (coin < 7) any_ else q) else all { coll.paused == 1, unpause(boss) },
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet x = oneOf(USERS)
    nondet id = oneOf(IDS)
    any {
      mint(by, x, id, [97]), burn(by, id), transferFrom(by, nft.owner.get(id), x, id), approve(by, x, id),
      setToken(by, id, x, 1), setDefault(by, x, 2), pause(by), unpause(by),
      { nondet r = oneOf(ROLES)
        any { revokeRole(by, r, x), grantRole(by, r, x) } },
    }
  }
  // One owner each, nothing moves while paused, no royalty above the price or
  // left behind by a burnt token unless set again.
  val safety = and {
    nftOk(nft, ADDRS, IDS),
    coll.paused == 0 or nft.owner == frozen[0],
    coll.dflt.frac <= DENOM and IDS.forall(i => coll.own.get(i).frac <= DENOM),
    IDS.forall(i => shown.get(i) == resolve(base, coll.uri.get(i), i)),
    (obs.op == "burn(uint256)()" and obs.errs == []) implies coll.own.get(obs.args[0][0]) == NONE,
  }
}
module main {
  import words.* from "./words"
  import strings.* from "./strings"
  import suite721(USERS = Set(1, 2, 3), IDS = Set(0, 1, 2, 3, 10, 2^128, MAX), DENOM = 10000, MINTER = 2^255 + 77,
    STRS = Set([], [97], fill(31, 65), fill(32, 66), [47, 120], fill(70, 48)),
    FRACS = Set(0, 1, 250, 5000, 9999, 10000, 10001, 2^96 - 1)).*
}
module small {
  import suite721(USERS = Set(1, 2), IDS = Set(0, 1), DENOM = 2, MINTER = 1, STRS = Set([]), FRACS = Set(0, 1, 2)).*
}
