// ERC-721 wrapper over an underlying collection whose calls may fail, with a
// scripted receiver contract.
module wrapper721 {
  import erc721core.* from "./erc721core"
  const USERS: Set[int]
  const IDS: Set[int]

  var wr: Nft         // wrapped tokens (contract 0)
  var und: Nft        // underlying tokens (contract 2)
  // 0: failures of the underlying carry a reason; 2: they carry none;
  // 3: every transfer fails with a reason; 4: every transfer fails without one.
  var mode: int
  var obs: Obs

  pure val SELF = 100
  pure val RECV = 101
  pure val UND = 102
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF, RECV, UND))
  pure val ON_RECEIVED = "onERC721Received(address,address,uint256,bytes)"
  pure val N_UNSUPPORTED = "ERC721UnsupportedToken(address)"
  pure val N_FAILED = "Erc721FailedOperation(address)"
  pure val REASON: Err = { sig: "#raw", args: [[222, 173, 190, 239, 1, 2, 3, 4]] }

  // Everything one call does, element by element.
  type Acc = { wr: Nft, und: Nft, errs: List[Err], evs: List[Ev], calls: int }
  pure def start(w: Nft, u: Nft): Acc = { wr: w, und: u, errs: [], evs: [], calls: 0 }

  // How a failure of the underlying (not of a receiver it calls) shows.
  pure def failed(m: int): Err =
    if (m == 2 or m == 4) { sig: N_FAILED, args: [[UND]] } else REASON

  // The receiver's answers, one per callback.
  pure def answer(script: List[int], n: int): int =
    if (n < script.length()) script[n] else 0

  // Calls onERC721Received of `dst` on behalf of contract `who` (SELF or UND).
  pure def deliver(a: Acc, m: int, who: int, operator: int, src: int, dst: int, id: int, data: List[int], script: List[int]): Acc =
    if (a.errs != []) a
    else if (dst == RECV)
      val ans = answer(script, a.calls)
      { ...a, calls: a.calls + 1,
        errs: if (ans == 0) [] else if (ans == 4) [REASON]
              else if (who == SELF) [{ sig: N_RECEIVER, args: [[RECV]] }] else [failed(m)],
        evs: a.evs.append({ at: 1, sig: ON_RECEIVED, args: [[operator], [src], [id], data] }) }
    else if (dst == SELF)
      // Only the underlying may announce tokens to the wrapper; sending it
      // a wrapped token of its own would have to be announced by itself.
      { ...a, errs: [{ sig: N_UNSUPPORTED, args: [[SELF]] }] }
    else if (dst == UND)
      { ...a, errs: if (who == SELF) [{ sig: N_RECEIVER, args: [[UND]] }] else [failed(m)] }
    else a

  pure def wrapMint(a: Acc, m: int, operator: int, dst: int, id: int, script: List[int]): Acc =
    val r = nMint(a.wr, 0, dst, id)
    deliver({ ...a, wr: r.nft, errs: a.errs.concat(r.errs), evs: a.evs.concat(r.evs) }, m, SELF, operator, 0, dst, id, [], script)

  pure def depositOne(a: Acc, m: int, by: int, dst: int, id: int, script: List[int]): Acc =
    if (a.errs != []) a else
      val u = nTransferFrom(a.und, 2, SELF, by, SELF, id)
      wrapMint({ ...a, und: u.nft, errs: if (u.errs != [] or m >= 3) [failed(m)] else [] }, m, by, dst, id, script)
  pure def withdrawOne(a: Acc, m: int, by: int, dst: int, id: int, script: List[int]): Acc =
    if (a.errs != []) a else
      val w = nBurn(a.wr, 0, by, id)
      val u = nTransferFrom(a.und, 2, SELF, SELF, dst, id)
      val b = { ...a, wr: w.nft, und: u.nft, evs: a.evs.concat(w.evs),
                errs: if (w.errs != []) w.errs else if (u.errs != [] or m >= 3) [failed(m)] else [] }
      deliver(b, m, UND, SELF, SELF, dst, id, [], script)

  action finish(op: str, at: int, by: int, args: List[List[int]], ret: List[List[int]], r: Acc): bool = all {
    obs' = { op: op, at: at, by: by, pay: 0, args: args, errs: r.errs, ret: ret, evs: r.evs },
    wr' = if (r.errs == []) r.wr else wr,
    und' = if (r.errs == []) r.und else und,
    mode' = mode,
  }
  pure def scripted(script: List[int]): List[List[int]] =
    script.indices().fold([], (l, i) => l.append([i, 99, script[i]]))

  action depositFor(by: int, dst: int, ids: List[int], script: List[int]): bool =
    finish("depositFor(address,uint256[])(bool)", 0, by, [[dst], ids].concat(scripted(script)), [[1]],
      ids.foldl(start(wr, und), (a, id) => depositOne(a, mode, by, dst, id, script)))
  action withdrawTo(by: int, dst: int, ids: List[int], script: List[int]): bool =
    finish("withdrawTo(address,uint256[])(bool)", 0, by, [[dst], ids].concat(scripted(script)), [[1]],
      ids.foldl(start(wr, und), (a, id) => withdrawOne(a, mode, by, dst, id, script)))
  // A safe transfer of an underlying token straight into the wrapper.
  action send(by: int, src: int, id: int, data: List[int], script: List[int]): bool =
    val u = nTransferFrom(und, 2, by, src, SELF, id)
    val fails = u.errs != [] or mode >= 3
    val a = wrapMint({ ...start(wr, und), und: u.nft }, mode, UND, src, id, script)
    finish("safeTransferFrom(address,address,uint256,bytes)()", 2, by, [[src], [SELF], [id], data].concat(scripted(script)), [],
      if (fails) { ...start(wr, und), errs: [{ sig: "#any", args: [] }] } else a)
  // Anyone else announcing a token.
  action announce(by: int, operator: int, src: int, id: int): bool =
    finish("onERC721Received(address,address,uint256,bytes)(bytes4)", 0, by, [[operator], [src], [id], [1]], [[0]],
      { ...start(wr, und), errs: [{ sig: N_UNSUPPORTED, args: [[by]] }] })
  action getUnderlying(by: int): bool =
    finish("underlying()(address)", 0, by, [], [[UND]], start(wr, und))

  // Ordinary use of the wrapped tokens.
  pure def onWr(w: Nft, u: Nft, r: NftR): Acc = { wr: r.nft, und: u, errs: r.errs, evs: r.evs, calls: 0 }
  action transferFrom(by: int, src: int, dst: int, id: int): bool =
    finish("transferFrom(address,address,uint256)()", 0, by, [[src], [dst], [id]], [], onWr(wr, und, nTransferFrom(wr, 0, by, src, dst, id)))
  action approve(by: int, x: int, id: int): bool =
    finish("approve(address,uint256)()", 0, by, [[x], [id]], [], onWr(wr, und, nApprove(wr, 0, by, x, id)))
  action setAll(by: int, x: int, on: bool): bool =
    finish("setApprovalForAll(address,bool)()", 0, by, [[x], [bit(on)]], [], onWr(wr, und, nSetAll(wr, 0, by, x, on)))

  // Ordinary use of the underlying.
  pure def onUnd(w: Nft, u: Nft, m: int, r: NftR): Acc =
    { wr: w, und: r.nft, errs: if (r.errs != [] or m >= 3) [{ sig: "#any", args: [] }] else [], evs: [], calls: 0 }
  action uMint(dst: int, id: int): bool =
    finish("mint(address,uint256)()", 2, 1, [[dst], [id]], [], onUnd(wr, und, 0, nMint(und, 2, dst, id)))
  action uTransfer(by: int, src: int, dst: int, id: int): bool =
    finish("transferFrom(address,address,uint256)()", 2, by, [[src], [dst], [id]], [], onUnd(wr, und, mode, nTransferFrom(und, 2, by, src, dst, id)))
  action uApprove(by: int, x: int, id: int): bool =
    finish("approve(address,uint256)()", 2, by, [[x], [id]], [], onUnd(wr, und, 0, nApprove(und, 2, by, x, id)))
  action uSetAll(by: int, x: int, on: bool): bool =
    finish("setApprovalForAll(address,bool)()", 2, by, [[x], [bit(on)]], [], onUnd(wr, und, 0, nSetAll(und, 2, by, x, on)))
  action setMode(m: int): bool = all {
    obs' = { op: "!mode(uint256)()", at: 2, by: 1, pay: 0, args: [[m]], errs: [], ret: [], evs: [] },
    mode' = m, wr' = wr, und' = und,
  }

  action init = all {
    wr' = emptyNft(ADDRS, IDS), und' = emptyNft(ADDRS, IDS), mode' = 0, obs' = initObs,
  }
  def human(a: int): bool = USERS.contains(a) or a == RECV
  def orAll(s: Set[int]): Set[int] = if (s == Set()) IDS else s
  def ownedBy(n: Nft, a: int): Set[int] = IDS.filter(i => n.owner.get(i) == a)
  action step = {
    nondet u = oneOf(USERS.union(Set(RECV)))
    nondet v = oneOf(USERS.union(Set(RECV)))
    nondet x = oneOf(ADDRS)
    nondet y = oneOf(ADDRS)
    nondet id1 = oneOf(IDS)
    nondet id2 = oneOf(IDS)
    nondet d = oneOf(orAll(IDS.filter(i => human(und.owner.get(i)))))
    nondet w = oneOf(orAll(IDS.filter(i => human(wr.owner.get(i)))))
    val du = if (human(und.owner.get(d))) und.owner.get(d) else u    // has underlying tokens
    val wu = if (human(wr.owner.get(w))) wr.owner.get(w) else u      // has wrapped tokens
    nondet mine = oneOf(orAll(ownedBy(und, du)))
    nondet mine2 = oneOf(orAll(ownedBy(und, du)))
    nondet held = oneOf(orAll(ownedBy(wr, wu)))
    nondet held2 = oneOf(orAll(ownedBy(wr, wu)))
    nondet coin = oneOf(0.to(9))
    nondet ans = oneOf(Set([], [], [], [4], [3], [1], [0, 1], [0, 4], [0, 3]))
    nondet m = oneOf(Set(2, 3, 4))
    val some = ownedBy(wr, wu) != Set()
    val dst = if (coin < 4) v else if (coin < 6) RECV else x
    val mines = if (coin == 0) [] else if (coin < 5) [mine] else if (coin < 7 and mine != mine2) [mine, mine2] else if (coin < 9) [mine, id1, id2] else [mine, mine]
    val helds = if (coin == 0) [] else if (coin < 5) [held] else if (coin < 7 and held != held2) [held, held2] else if (coin < 9) [held, id1] else [held, held]
    any {
      uMint(if (coin < 8) v else x, id1),
      uSetAll(du, SELF, coin < 9),
      uApprove(du, SELF, mine),
      uTransfer(du, du, if (coin < 2) SELF else v, mine),
      depositFor(du, dst, mines, ans),
      depositFor(du, du, mines, []),
      depositFor(if (coin < 8) du else v, v, [mine], ans),
      all { some or coin == 0, withdrawTo(wu, dst, helds, ans) },
      all { some or coin == 0, withdrawTo(wu, v, helds, []) },
      all { some or coin == 0, withdrawTo(wu, if (coin < 4) RECV else v, [held], ans) },
      all { some or coin == 0, withdrawTo(v, x, [held], ans) },
      all { some or coin == 0, transferFrom(if (coin < 6) wu else v, if (coin < 9) wu else x, y, held) },
      all { some or coin == 0, approve(wu, x, held) },
      all { some, approve(wu, v, held) },
      send(if (coin < 8) du else v, if (coin < 9) du else x, mine, if (coin < 5) [] else [1, 2, 3], ans),
      send(du, du, mine, [], []),
      all { coin < 3, announce(v, x, y, id1) },
      setAll(wu, v, coin < 7),
      setMode(if (coin < 8) 0 else m),
      all { coin < 2, getUnderlying(u) },
    }
  }
  action stepAll = {
    nondet id = oneOf(IDS)
    nondet u = oneOf(USERS)
    any {
      uMint(u, id),
      uSetAll(u, SELF, true),
      { nondet dst = oneOf(Set(u, SELF, RECV))
        nondet ids = oneOf(Set([id], [id, id], IDS.fold([], (l, i) => l.append(i))))
        any { depositFor(u, dst, ids, []), withdrawTo(u, dst, ids, []), withdrawTo(u, dst, ids, [0, 1]) } },
      send(u, u, id, [], []),
      { nondet dst = oneOf(USERS.union(Set(SELF)))
        any { transferFrom(u, u, dst, id), uTransfer(u, u, dst, id) } },
      approve(u, 1, id),
      setMode(3 - mode),
    }
  }
  // A wrapped token exists only while the wrapper holds the underlying one.
  val backed = IDS.forall(i => wr.owner.get(i) == 0 or und.owner.get(i) == SELF)
  val safety = backed and nftOk(wr, ADDRS, IDS) and nftOk(und, ADDRS, IDS)
}
module main {
  import words.* from "./words"
  import wrapper721(USERS = Set(1, 2), IDS = Set(0, 1, 7, 255, 256, 2^64, 2^128, MAX)).*
}
module small {
  import wrapper721(USERS = Set(1, 2), IDS = Set(1, 2)).*
}
