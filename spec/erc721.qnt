// ERC-721: ownership, approvals, safe transfers into arbitrary contracts.
module erc721 {
  import erc721core.* from "./erc721core"

  const USERS: Set[int]
  const IDS: Set[int]
  const DATA: Set[List[int]]
  const NESTED: bool               // receivers may call back into the contract

  var nft: Nft
  var obs: Obs
  // Ghosts: who last agreed to the current single approval of a token, and
  // whether a token ever moved without its owner's consent.
  var given: int -> int
  var stolen: bool

  pure val SELF = 100              // the NFT contract: has code, is no receiver
  pure val RECV = 101              // a scripted receiver
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF, RECV))
  pure val ON_RECEIVED = "onERC721Received(address,address,uint256,bytes)"

  // What the receiver does in its callback: `kind` (0 nothing, 5 transferFrom,
  // 2 approve, 6 setApprovalForAll, 3 burn, all of token/operator below), then
  // its answer (0 agrees; 1.. see mocks.rs).
  type Script = { kind: int, to_: int, id: int, ans: int }

  pure def scripted(n: Nft, s: Script): NftR =
    val r =
      if (s.kind == 5) nTransferFrom(n, 0, RECV, RECV, s.to_, s.id)
      else if (s.kind == 2) nApprove(n, 0, RECV, s.to_, s.id)
      else if (s.kind == 6) nSetAll(n, 0, RECV, s.to_, true)
      else if (s.kind == 3) nBurn(n, 0, RECV, s.id)
      else { nft: n, errs: [], evs: [] }
    if (r.errs == []) r else { nft: n, errs: [], evs: [] }
  pure def scriptArgs(s: Script): List[List[int]] =
    (if (s.kind == 5) [[0, 5, 0, RECV, s.to_, s.id]]
     else if (s.kind == 2) [[0, 2, 0, s.to_, s.id]]
     else if (s.kind == 6) [[0, 6, 0, s.to_, 1]]
     else if (s.kind == 3) [[0, 3, 0, s.id]]
     else []).append([0, 99, s.ans])

  // The check that follows a safe move of `id` from `src` to `dst`.
  pure def refusal(dst: int, ans: int): List[Err] =
    if (dst == SELF) [{ sig: N_RECEIVER, args: [[SELF]] }]
    else if (dst != RECV or ans == 0) []
    else if (ans == 4) [{ sig: "#raw", args: [[222, 173, 190, 239, 1, 2, 3, 4]] }]
    else [{ sig: N_RECEIVER, args: [[RECV]] }]
  pure def checked(moved: NftR, by: int, src: int, dst: int, id: int, data: List[int], s: Script): NftR =
    if (moved.errs != []) moved
    else if (dst == RECV)
      val cb = scripted(moved.nft, s)
      { nft: cb.nft, errs: refusal(dst, s.ans),
        evs: moved.evs.append({ at: 1, sig: ON_RECEIVED, args: [[by], [src], [id], data] }).concat(cb.evs) }
    else { ...moved, errs: refusal(dst, s.ans) }

  // Tokens whose approval the script renews.
  pure def renews(s: Script): Set[int] = if (s.kind == 2) Set(s.id) else Set()
  action call(op: str, by: int, args: List[List[int]], r: NftR, renewed: Set[int]): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: r.errs, ret: [], evs: r.evs },
    nft' = if (r.errs == []) r.nft else nft,
    given' = IDS.mapBy(i => if (r.errs == [] and renewed.contains(i)) r.nft.owner.get(i) else given.get(i)),
    stolen' = stolen,
  }
  // As `call`, for operations that need the holder's consent.
  action consented(op: str, by: int, id: int, args: List[List[int]], r: NftR, renewed: Set[int]): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: r.errs, ret: [], evs: r.evs },
    nft' = if (r.errs == []) r.nft else nft,
    given' = IDS.mapBy(i => if (r.errs == [] and renewed.contains(i)) r.nft.owner.get(i) else given.get(i)),
    stolen' = stolen or (r.errs == [] and nft.owner.get(id) != by and not(nft.oper.get((nft.owner.get(id), by)))
      and not(nft.appr.get(id) == by and given.get(id) == nft.owner.get(id))),
  }

  action mint(by: int, dst: int, id: int): bool =
    call("mint(address,uint256)()", by, [[dst], [id]], nMint(nft, 0, dst, id), Set())
  action burn(by: int, id: int): bool =
    consented("burn(uint256)()", by, id, [[id]], nBurn(nft, 0, by, id), Set())
  action transferFrom(by: int, src: int, dst: int, id: int): bool =
    consented("transferFrom(address,address,uint256)()", by, id, [[src], [dst], [id]], nTransferFrom(nft, 0, by, src, dst, id), Set())
  action safeTransfer(by: int, src: int, dst: int, id: int, s: Script): bool =
    consented("safeTransferFrom(address,address,uint256)()", by, id, [[src], [dst], [id]].concat(scriptArgs(s)),
      checked(nTransferFrom(nft, 0, by, src, dst, id), by, src, dst, id, [], s), renews(s))
  action safeTransferData(by: int, src: int, dst: int, id: int, data: List[int], s: Script): bool =
    consented("safeTransferFrom(address,address,uint256,bytes)()", by, id, [[src], [dst], [id], data].concat(scriptArgs(s)),
      checked(nTransferFrom(nft, 0, by, src, dst, id), by, src, dst, id, data, s), renews(s))
  action safeMint(by: int, dst: int, id: int, data: List[int], s: Script): bool =
    call("safeMint(address,uint256,bytes)()", by, [[dst], [id], data].concat(scriptArgs(s)),
      checked(nMint(nft, 0, dst, id), by, 0, dst, id, data, s), renews(s))
  // Internal entry points a derived contract may expose under its own policy.
  action forceBurn(by: int, id: int): bool =
    call("forceBurn(uint256)()", by, [[id]], nForceBurn(nft, 0, id), Set())
  action forceMove(by: int, src: int, dst: int, id: int): bool =
    call("forceTransfer(address,address,uint256)()", by, [[src], [dst], [id]], nForceMove(nft, 0, src, dst, id), Set())
  action forceSafeMove(by: int, src: int, dst: int, id: int, data: List[int], s: Script): bool =
    call("forceSafeTransfer(address,address,uint256,bytes)()", by, [[src], [dst], [id], data].concat(scriptArgs(s)),
      checked(nForceMove(nft, 0, src, dst, id), by, src, dst, id, data, s), renews(s))
  action forceUpdate(by: int, dst: int, id: int, auth: int): bool = all {
    obs' = { op: "forceUpdate(address,uint256,address)(address)", at: 0, by: by, pay: 0, args: [[dst], [id], [auth]],
             errs: nUpdate(nft, 0, dst, id, auth).errs, ret: [[nft.owner.get(id)]], evs: nUpdate(nft, 0, dst, id, auth).evs },
    nft' = if (nUpdate(nft, 0, dst, id, auth).errs == []) nUpdate(nft, 0, dst, id, auth).nft else nft,
    given' = given, stolen' = stolen,
  }
  action forceApprove(by: int, to_: int, id: int, auth: int, emit: bool): bool = all {
    emit or auth != 0 or nft.owner.get(id) != 0,
    call("forceApprove(address,uint256,address,bool)()", by, [[to_], [id], [auth], [bit(emit)]],
      nForceApprove(nft, 0, to_, id, auth, emit), Set(id)),
  }
  action forceSetAll(by: int, owner: int, op: int, on: bool): bool =
    call("forceSetAll(address,address,bool)()", by, [[owner], [op], [bit(on)]], nSetAll(nft, 0, owner, op, on), Set())
  // What the authorisation helpers answer.
  action readMay(by: int, o: int, sp: int, id: int): bool = all {
    obs' = { op: "isAuthorized(address,address,uint256)(bool)", at: 0, by: by, pay: 0, args: [[o], [sp], [id]], errs: [],
             ret: [[bit(nMayFor(nft, o, sp, id))]], evs: [] },
    nft' = nft, given' = given, stolen' = stolen,
  }
  action checkMay(by: int, o: int, sp: int, id: int): bool =
    call("checkAuthorized(address,address,uint256)()", by, [[o], [sp], [id]],
      { nft: nft, evs: [], errs: if (nMayFor(nft, o, sp, id)) [] else if (o == 0) [{ sig: N_MISSING, args: [[id]] }]
        else [{ sig: N_UNAUTH, args: [[sp], [id]] }] }, Set())
  // Enumerable collections cannot mint in bulk.
  action grow(by: int, n: int): bool =
    call("checkIncreaseBalance(uint128)()", by, [[n]],
      { nft: nft, evs: [], errs: guard(n > 0, "ERC721EnumerableForbiddenBatchMint()", []) }, Set())
  action approve(by: int, to_: int, id: int): bool =
    val r = nApprove(nft, 0, by, to_, id)
    call("approve(address,uint256)()", by, [[to_], [id]], r, Set(id))
  action setAll(by: int, op: int, on: bool): bool =
    call("setApprovalForAll(address,bool)()", by, [[op], [bit(on)]], nSetAll(nft, 0, by, op, on), Set())

  action init = all {
    nft' = emptyNft(ADDRS, IDS), obs' = initObs, given' = IDS.mapBy(_ => 0), stolen' = false,
  }

  action step = {
    nondet any_ = oneOf(USERS.union(Set(RECV)))
    nondet fresh = oneOf(IDS)
    nondet id2 = oneOf(IDS)
    nondet held = oneOf(if (IDS.exists(i => nft.owner.get(i) != 0)) IDS.filter(i => nft.owner.get(i) != 0) else IDS)
    nondet x = oneOf(ADDRS)
    nondet src = oneOf(ADDRS)
    nondet data = oneOf(DATA)
    nondet kind = oneOf(if (NESTED) Set(0, 2, 3, 5, 6) else Set(0))
    nondet ans = oneOf(Set(0, 1, 2, 3, 4, 5, 7, 8, 9))
    nondet coin = oneOf(0.to(9))
    nondet on = oneOf(Set(true, false))
    // mostly tokens that exist
    val id = if (coin == 9) fresh else held
    val o = nft.owner.get(id)
    // often the owner, often someone approved, sometimes anyone
    val by = if (coin < 4 and o != 0 and o != SELF) o
             else if (coin < 6 and nft.appr.get(id) != 0 and nft.appr.get(id) != SELF) nft.appr.get(id) else any_
    val from_ = if (coin != 5 and o != 0) o else src
    // usually into the receiver, which usually agrees
    val dst = if (coin == 1 or coin == 7) RECV else x
    val s = { kind: kind, to_: src, id: if (coin < 7) id else id2, ans: if (coin < 8) 0 else ans }
    val s2 = { ...s, ans: if (coin < 5) 0 else ans }
    any {
      mint(any_, if (x == 0 and coin < 5) any_ else x, fresh),
      safeMint(any_, if (on) any_ else dst, fresh, data, s2),
      burn(by, id),
      transferFrom(by, from_, x, id),
      transferFrom(by, from_, x, id),
      safeTransfer(by, from_, dst, id, s),
      safeTransferData(by, from_, if (on) RECV else dst, id, data, s2),
      approve(by, x, id),
      approve(any_, x, id),
      setAll(by, if (on) any_ else x, coin < 6),
      setAll(any_, x, on),
      if (NESTED) {
        if (coin < 4) readMay(any_, if (on and o != 0) o else src, if (coin < 2) nft.appr.get(id) else x, id)
        else checkMay(any_, if (on and o != 0) o else src, if (coin < 6) nft.appr.get(id) else if (coin < 8) by else x, id)
      } else grow(any_, if (coin == 0) 0 else if (coin == 1) 1 else if (coin == 2) 2^128 - 1 else coin - 3),
      all { NESTED,
        if (coin < 3) forceUpdate(any_, x, id, if (on) 0 else by)
        else if (coin < 6) forceUpdate(any_, x, fresh, if (on) 0 else src)
        else if (coin < 8) forceApprove(any_, x, id, if (on) 0 else if (o == 0) src else o, coin == 6)
        else if (coin < 9) forceApprove(any_, x, id, src, on)
        else forceSetAll(any_, if (src == 0) any_ else src, x, on) },
      if (coin == 0) forceBurn(any_, id)
      else if (coin < 5) forceMove(any_, from_, x, id)
      else forceSafeMove(any_, from_, dst, id, data, s),
    }
  }

  pure val QUIET: Script = { kind: 0, to_: 0, id: 0, ans: 0 }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet id = oneOf(IDS)
    any {
      { nondet x = oneOf(USERS.union(Set(0, RECV)))
        any { mint(by, x, id), approve(by, x, id), forceMove(by, nft.owner.get(id), x, id) } },
      burn(by, id),
      { nondet x = oneOf(USERS.union(Set(0, RECV)))
        nondet src = oneOf(USERS.union(Set(RECV)))
        transferFrom(by, src, x, id) },
      { nondet y = oneOf(USERS)
        nondet kind = oneOf(Set(0, 2, 3, 5))
        nondet id2 = oneOf(IDS)
        safeTransfer(by, nft.owner.get(id), RECV, id, { kind: kind, to_: y, id: id2, ans: 0 }) },
      safeTransfer(by, nft.owner.get(id), RECV, id, { ...QUIET, ans: 1 }),
      { nondet y = oneOf(USERS)
        nondet on = oneOf(Set(true, false))
        setAll(by, y, on) },
    }
  }

  val safety = nftOk(nft, ADDRS, IDS) and not(stolen)
}

module main {
  import words.* from "./words"
  import erc721(USERS = Set(1, 2, 3), IDS = Set(0, 1, 2, 2^128, MAX - 1, MAX),
    DATA = Set([], [7], [1, 2, 3], 0.to(32).fold([], (l, i) => l.append(i))), NESTED = true).*
}
// The enumerable extension adds no state of its own to the specification: the
// lists are a function of the ownership ledger.  The replayer reads them back
// in full after every step and compares them, as sets, with that ledger.
module enumerable {
  import words.* from "./words"
  import erc721(USERS = Set(1, 2, 3), IDS = Set(0, 1, 2, 3, 4, 2^128, MAX - 1, MAX),
    DATA = Set([], [1, 2, 3]), NESTED = false).*
}
module small {
  import erc721(USERS = Set(1, 2), IDS = Set(0, 1), DATA = Set([]), NESTED = true).*
}
