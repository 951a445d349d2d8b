// ERC-2309 consecutive batches on top of ERC-721.  Owners are modelled for a
// growing set of watched ids (all boundaries of every batch, their neighbours,
// and the edges of the id space); the other tokens of a batch only count
// towards the balance of its receiver.
module consecutive {
  import erc721core.* from "./erc721core"
  const USERS: Set[int]
  const FIRSTS: Set[int]
  const LIMITS: Set[int]
  const IDMAX: int                // largest consecutive id (2^96 - 1)
  const EXTRA: Set[int]           // ids outside every batch
  const SIZES: Set[int]

  var nft: Nft                    // over the watched ids
  var first: int
  var limit: int
  var nextId: int
  var rest: int -> int            // tokens of an account that are not watched
  var sealed: bool                // a single mint has been made
  var obs: Obs

  pure val SELF = 100
  pure val RECV = 101
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF, RECV))
  pure val ON_RECEIVED = "onERC721Received(address,address,uint256,bytes)"
  pure val CONSECUTIVE = "ConsecutiveTransfer(uint256 indexed,uint256,address indexed,address indexed)"

  action frame = all { first' = first, limit' = limit }
  action call(op: str, by: int, args: List[List[int]], r: NftR, single: bool): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: r.errs, ret: [], evs: r.evs },
    nft' = if (r.errs == []) r.nft else nft,
    nextId' = nextId, rest' = rest, sealed' = (sealed or (single and r.errs == [])), frame,
  }
  pure def marks(lo: int, hi: int): Set[int] =
    Set(lo, lo + 1, (lo + hi) / 2, hi - 1, hi).filter(i => lo <= i and i <= hi)

  // Batch minting belongs to construction: never after a single mint.
  action batch(by: int, dst: int, cnt: int): bool =
    val hi = nextId + cnt - 1
    val w = nft.owner.keys().filter(i => nextId <= i and i <= hi).union(marks(nextId, hi))
    val dom = nft.owner.keys().union(w).union(Set(hi + 1))
    val errs = if (cnt == 0) [] else
      guard(dst == 0, N_RECEIVER, [[0]])
        .concat(guard(cnt > limit, "ERC721ExceededMaxBatchMint(uint256,uint256)", [[cnt], [limit]]))
        .concat(guard(hi > IDMAX, "#empty", []))
        .concat(guard(hi > IDMAX, "CheckpointUnorderedInsertion()", []))
    all {
      not(sealed), cnt > 0 or nextId <= IDMAX,
      obs' = { op: "mintConsecutive(address,uint96)(uint96)", at: 0, by: by, pay: 0, args: [[dst], [cnt]], errs: errs,
               ret: [[nextId]], evs: if (cnt == 0) [] else [{ at: 0, sig: CONSECUTIVE, args: [[nextId], [hi], [0], [dst]] }] },
      if (errs == [] and cnt > 0) all {
        nft' = { ...nft,
          owner: dom.mapBy(i => if (w.contains(i)) dst else if (nft.owner.keys().contains(i)) nft.owner.get(i) else 0),
          appr: dom.mapBy(i => if (nft.appr.keys().contains(i)) nft.appr.get(i) else 0),
          bal: nft.bal.set(dst, nft.bal.get(dst) + cnt) },
        rest' = rest.set(dst, rest.get(dst) + cnt - w.size()),
        nextId' = hi + 1,
      } else all { nft' = nft, rest' = rest, nextId' = nextId },
      sealed' = sealed, frame,
    }

  // A safe move into the scripted receiver, which answers `ans`.
  pure def checked(moved: NftR, by: int, src: int, dst: int, id: int, data: List[int], ans: int): NftR =
    if (moved.errs != []) moved
    else if (dst == SELF) { ...moved, errs: [{ sig: N_RECEIVER, args: [[SELF]] }] }
    else if (dst == RECV)
      { nft: moved.nft,
        errs: if (ans == 0) [] else if (ans == 4) [{ sig: "#raw", args: [[222, 173, 190, 239, 1, 2, 3, 4]] }]
              else [{ sig: N_RECEIVER, args: [[RECV]] }],
        evs: moved.evs.append({ at: 1, sig: ON_RECEIVED, args: [[by], [src], [id], data] }) }
    else moved

  action mint(by: int, dst: int, id: int): bool =
    call("mint(address,uint256)()", by, [[dst], [id]], nMint(nft, 0, dst, id), true)
  action safeMint(by: int, dst: int, id: int, data: List[int], ans: int): bool =
    call("safeMint(address,uint256,bytes)()", by, [[dst], [id], data, [0, 99, ans]],
      checked(nMint(nft, 0, dst, id), by, 0, dst, id, data, ans), true)
  action burn(by: int, id: int): bool =
    call("burn(uint256)()", by, [[id]], nForceBurn(nft, 0, id), false)
  // Burning on the holder's behalf, as _update(0, id, msg.sender).
  action burnAuth(by: int, id: int): bool =
    call("burnAuthorized(uint256)()", by, [[id]], nBurn(nft, 0, by, id), false)
  action transferFrom(by: int, src: int, dst: int, id: int): bool =
    call("transferFrom(address,address,uint256)()", by, [[src], [dst], [id]], nTransferFrom(nft, 0, by, src, dst, id), false)
  action safeTransfer(by: int, src: int, dst: int, id: int, ans: int): bool =
    call("safeTransferFrom(address,address,uint256)()", by, [[src], [dst], [id], [0, 99, ans]],
      checked(nTransferFrom(nft, 0, by, src, dst, id), by, src, dst, id, [], ans), false)
  action safeTransferData(by: int, src: int, dst: int, id: int, data: List[int], ans: int): bool =
    call("safeTransferFrom(address,address,uint256,bytes)()", by, [[src], [dst], [id], data, [0, 99, ans]],
      checked(nTransferFrom(nft, 0, by, src, dst, id), by, src, dst, id, data, ans), false)
  action forceMove(by: int, src: int, dst: int, id: int): bool =
    call("forceTransfer(address,address,uint256)()", by, [[src], [dst], [id]], nForceMove(nft, 0, src, dst, id), false)
  action forceSafeMove(by: int, src: int, dst: int, id: int, data: List[int], ans: int): bool =
    call("forceSafeTransfer(address,address,uint256,bytes)()", by, [[src], [dst], [id], data, [0, 99, ans]],
      checked(nForceMove(nft, 0, src, dst, id), by, src, dst, id, data, ans), false)
  action approve(by: int, to_: int, id: int): bool =
    call("approve(address,uint256)()", by, [[to_], [id]], nApprove(nft, 0, by, to_, id), false)
  action forceApprove(by: int, to_: int, id: int, auth: int, emit: bool): bool = all {
    emit or auth != 0 or nft.owner.get(id) != 0,
    call("forceApprove(address,uint256,address,bool)()", by, [[to_], [id], [auth], [bit(emit)]], nForceApprove(nft, 0, to_, id, auth, emit), false),
  }
  action forceUpdate(by: int, dst: int, id: int, auth: int): bool =
    call("forceUpdate(address,uint256,address)()", by, [[dst], [id], [auth]], nUpdate(nft, 0, dst, id, auth), nft.owner.get(id) == 0)
  action setAll(by: int, op: int, on: bool): bool =
    call("setApprovalForAll(address,bool)()", by, [[op], [bit(on)]], nSetAll(nft, 0, by, op, on), false)

  action initWith(f: int, m: int): bool = all {
    first' = f, limit' = m, nextId' = f, sealed' = false, rest' = ADDRS.mapBy(_ => 0),
    nft' = emptyNft(ADDRS, EXTRA.union(Set(f, f + 1, maxOf(f - 1, 0)))),
    obs' = { ...initObs, args: [[f], [m]] },
  }
  action init = {
    nondet f = oneOf(FIRSTS)
    nondet m = oneOf(LIMITS)
    initWith(f, m)
  }
  action step = {
    nondet any_ = oneOf(USERS.union(Set(RECV)))
    nondet fresh = oneOf(nft.owner.keys())
    nondet held = oneOf(if (nft.owner.keys().exists(i => nft.owner.get(i) != 0))
      nft.owner.keys().filter(i => nft.owner.get(i) != 0) else nft.owner.keys())
    nondet x = oneOf(ADDRS)
    nondet src = oneOf(ADDRS)
    nondet ans = oneOf(Set(1, 3, 4))
    nondet coin = oneOf(0.to(9))
    nondet on = oneOf(Set(true, false))
    nondet sz = oneOf(SIZES.union(Set(limit - 1, limit, limit + 1, IDMAX - nextId, IDMAX - nextId + 1, IDMAX - nextId + 2))
      .filter(i => 0 <= i and i <= IDMAX))
    val id = if (coin == 9) fresh else held
    val o = nft.owner.get(id)
    val by = if (coin < 5 and o != 0 and o != SELF) o
             else if (coin < 6 and nft.appr.get(id) != 0 and nft.appr.get(id) != SELF) nft.appr.get(id) else any_
    val from_ = if (coin != 5 and o != 0) o else src
    val dst = if (coin == 1) RECV else x
    val a = if (coin < 7) 0 else ans
    val data = if (on) [] else [1, 2, 3]
    any {
      batch(any_, if (coin == 0) x else any_, sz),
      batch(any_, if (coin == 0) x else any_, if (coin < 5) 3 else sz),
      transferFrom(by, from_, x, id),
      forceMove(any_, from_, x, id),
      burn(any_, id),
      burnAuth(by, id),
      approve(by, x, id),
      approve(any_, any_, id),
      setAll(if (on) by else any_, x, coin < 7),
      if (coin < 5) safeTransfer(by, from_, if (on) RECV else x, id, a)
      else if (coin < 7) safeTransferData(by, from_, dst, id, data, a)
      else forceSafeMove(any_, from_, if (on) RECV else x, id, if (coin == 8) [] else [1, 2, 3], if (coin == 7) ans else 0),
      if (coin < 3) forceApprove(any_, x, id, if (on) by else 0, coin == 0)
      else if (coin < 5) forceApprove(any_, x, id, src, on)
      else all { sealed or o != 0, dst != 0 or o != 0, forceUpdate(any_, dst, id, if (on) by else 0) },
      // keep construction going for a while
      all { sealed or coin < 2, mint(any_, x, fresh) },
      all { sealed or coin < 2, safeMint(any_, if (on) any_ else dst, fresh, data, a) },
    }
  }
  action initAll = {
    nondet f = oneOf(FIRSTS)
    initWith(f, 2)
  }
  action stepAll = {
    nondet id = oneOf(nft.owner.keys())
    nondet by = oneOf(USERS)
    any {
      { nondet cnt = oneOf(0.to(3))
        batch(1, by, cnt) },
      { nondet dst = oneOf(USERS)
        transferFrom(by, nft.owner.get(id), dst, id) },
      burn(1, id),
      approve(by, 1, id),
      mint(1, by, id),
    }
  }
  // Balances count the watched tokens plus the untouched rest of each batch.
  val safety = and {
    ADDRS.forall(a => a == 0 or nft.bal.get(a) ==
      rest.get(a) + nft.owner.keys().filter(i => nft.owner.get(i) == a).size()),
    nft.bal.get(0) == 0,
    ADDRS.forall(a => rest.get(a) >= 0),
    nft.owner.keys().forall(i => nft.owner.get(i) != 0 or nft.appr.get(i) == 0),
    first <= nextId and nextId <= IDMAX + 1,
  }
}
module main {
  import words.* from "./words"
  import consecutive(USERS = Set(1, 2, 3), FIRSTS = Set(0, 1, 7, 255, 256, 2^64 - 2, 2^96 - 9), LIMITS = Set(3, 4, 5000, 2^96 - 1),
    IDMAX = 2^96 - 1, EXTRA = Set(0, 2^96 - 1, 2^96, MAX), SIZES = Set(0, 1, 1, 2, 3, 3, 5, 250, 300)).*
}
module small {
  import consecutive(USERS = Set(1, 2), FIRSTS = Set(0, 1), LIMITS = Set(2), IDMAX = 4, EXTRA = Set(0), SIZES = Set(0)).*
}
