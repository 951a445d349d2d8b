// ERC-1155 with single and batch moves, operators, receivers that answer or
// re-enter, burning, and (COUNTED) the supply extension.
module erc1155 {
  import erc1155core.* from "./erc1155core"
  const USERS: Set[int]
  const IDS: Set[int]
  const UMAX: int
  const EDGE: Set[int]
  const COUNTED: bool

  var ml: Multi
  var logged: (int, int) -> int     // balances rebuilt from the emitted records alone
  var obs: Obs

  pure val SELF = 100
  pure val RECV = 101
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF, RECV))
  pure val ON_SINGLE = "onERC1155Received(address,address,uint256,uint256,bytes)"
  pure val ON_BATCH = "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)"

  // What a receiver contract does in its callback: transfer on (or not), then answer.
  type Script = { ans: int, go: bool, dst: int, id: int, v: int }
  pure val OKAY: Script = { ans: 0, go: false, dst: 0, id: 0, v: 0 }
  pure def scripted(s: Script): List[List[int]] =
    [[0, 99, s.ans]].concat(if (s.go) [[0, 10, 0, RECV, s.dst, s.id, s.v]] else [])

  // The consent of a receiving contract, asked after the move.
  pure def accepted(r: MultiR, by: int, src: int, dst: int, ids: List[int], vals: List[int], data: List[int], s: Script): MultiR =
    if (r.errs != [] or dst == 0) r
    else if (dst == SELF) { ...r, errs: [{ sig: M_RECEIVER, args: [[SELF]] }] }
    else if (dst == RECV)
      val call = if (ids.length() == 1) { at: 1, sig: ON_SINGLE, args: [[by], [src], [ids[0]], [vals[0]], data] }
                 else { at: 1, sig: ON_BATCH, args: [[by], [src], ids, vals, data] }
      val inner = mMove(r.m, UMAX, COUNTED, RECV, RECV, s.dst, [s.id], [s.v])
      val went = s.go and s.dst != 0 and s.dst != SELF and inner.errs == []
      val again = if (s.dst == RECV) [{ at: 1, sig: ON_SINGLE, args: [[RECV], [RECV], [s.id], [s.v], []] }] else []
      { m: if (went) inner.m else r.m,
        errs: if (s.ans == 0) [] else if (s.ans == 4) [{ sig: "#raw", args: [[222, 173, 190, 239, 1, 2, 3, 4]] }]
              else [{ sig: M_RECEIVER, args: [[RECV]] }],
        evs: r.evs.append(call).concat(if (went) inner.evs.concat(again) else []) }
    else r

  // Balances as an observer of the records reconstructs them.
  pure def replayLog(l: (int, int) -> int, evs: List[Ev]): (int, int) -> int =
    evs.foldl(l, (a, e) =>
      if (e.sig != M_SINGLE and e.sig != M_BATCH) a else
        val src = e.args[1][0]
        val dst = e.args[2][0]
        range(0, e.args[3].length()).foldl(a, (b, i) =>
          val id = e.args[3][i]
          val v = e.args[4][i]
          val b1 = if (src == 0) b else b.set((id, src), b.get((id, src)) - v)
          if (dst == 0) b1 else b1.set((id, dst), b1.get((id, dst)) + v)))

  action finish(op: str, by: int, args: List[List[int]], ret: List[List[int]], r: MultiR): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: r.errs, ret: ret, evs: r.evs },
    ml' = if (r.errs == []) r.m else ml,
    logged' = if (r.errs == []) replayLog(logged, r.evs) else logged,
  }
  def addErrs(extra: List[Err], r: MultiR): MultiR = { ...r, errs: extra.concat(r.errs) }

  def performed(by: int, src: int, dst: int, ids: List[int], vals: List[int], data: List[int], s: Script, pre: List[Err]): MultiR =
    addErrs(pre, accepted(mMove(ml, UMAX, COUNTED, by, src, dst, ids, vals), by, src, dst, ids, vals, data, s))

  def mintPre(dst: int): List[Err] = guard(dst == 0, M_RECEIVER, [[0]])
  def burnPre(src: int): List[Err] = guard(src == 0, M_SENDER, [[0]])
  def transferPre(by: int, src: int, dst: int): List[Err] =
    mConsent(ml, by, src).concat(mintPre(dst)).concat(burnPre(src))

  action mint(by: int, dst: int, id: int, v: int, data: List[int], s: Script): bool =
    finish("mint(address,uint256,uint256,bytes)()", by, [[dst], [id], [v], data].concat(scripted(s)), [],
      performed(by, 0, dst, [id], [v], data, s, mintPre(dst)))
  action mintBatch(by: int, dst: int, ids: List[int], vals: List[int], data: List[int], s: Script): bool =
    finish("mintBatch(address,uint256[],uint256[],bytes)()", by, [[dst], ids, vals, data].concat(scripted(s)), [],
      performed(by, 0, dst, ids, vals, data, s, mintPre(dst)))
  action transfer(by: int, src: int, dst: int, id: int, v: int, data: List[int], s: Script): bool =
    finish("safeTransferFrom(address,address,uint256,uint256,bytes)()", by, [[src], [dst], [id], [v], data].concat(scripted(s)), [],
      performed(by, src, dst, [id], [v], data, s, transferPre(by, src, dst)))
  action transferBatch(by: int, src: int, dst: int, ids: List[int], vals: List[int], data: List[int], s: Script): bool =
    finish("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)()", by, [[src], [dst], ids, vals, data].concat(scripted(s)), [],
      performed(by, src, dst, ids, vals, data, s, transferPre(by, src, dst)))
  action burn(by: int, src: int, id: int, v: int): bool = all {
    not(COUNTED),
    finish("burn(address,uint256,uint256)()", by, [[src], [id], [v]], [],
      performed(by, src, 0, [id], [v], [], OKAY, mConsentBurn(ml, by, src).concat(burnPre(src)))),
  }
  action burnBatch(by: int, src: int, ids: List[int], vals: List[int]): bool = all {
    not(COUNTED),
    finish("burnBatch(address,uint256[],uint256[])()", by, [[src], ids, vals], [],
      performed(by, src, 0, ids, vals, [], OKAY, mConsentBurn(ml, by, src).concat(burnPre(src)))),
  }
  action forceBurn(by: int, src: int, id: int, v: int): bool =
    finish("forceBurn(address,uint256,uint256)()", by, [[src], [id], [v]], [],
      performed(by, src, 0, [id], [v], [], OKAY, burnPre(src)))
  action forceBurnBatch(by: int, src: int, ids: List[int], vals: List[int]): bool =
    finish("forceBurnBatch(address,uint256[],uint256[])()", by, [[src], ids, vals], [],
      performed(by, src, 0, ids, vals, [], OKAY, burnPre(src)))
  action setAll(by: int, op: int, on: bool): bool =
    finish("setApprovalForAll(address,bool)()", by, [[op], [bit(on)]], [], mSetAll(ml, by, op, on))
  action readBatch(by: int, accts: List[int], ids: List[int]): bool =
    val errs = guard(accts.length() != ids.length(), M_LENGTH, [[ids.length()], [accts.length()]])
    finish("balanceOfBatch(address[],uint256[])(uint256[])", by, [accts, ids],
      [if (errs == []) range(0, ids.length()).foldl([], (l, i) => l.append(ml.bal.get((ids[i], accts[i])))) else []],
      { m: ml, errs: errs, evs: [] })

  action init = all {
    ml' = emptyMulti(ADDRS, IDS), logged' = tuples(IDS, ADDRS).mapBy(_ => 0), obs' = initObs,
  }
  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  def near(x: int): Set[int] = clip(Set(x, x - 1, x + 1, x / 2))
  action step = {
    nondet by0 = oneOf(USERS.union(Set(RECV)))
    nondet x = oneOf(ADDRS)
    nondet y = oneOf(ADDRS)
    nondet u = oneOf(USERS)
    nondet i = oneOf(IDS)
    nondet j = oneOf(IDS)
    nondet l = oneOf(IDS)
    nondet e = oneOf(EDGE)
    nondet f = oneOf(EDGE)
    nondet small = oneOf(0.to(50))
    nondet coin = oneOf(0.to(9))
    nondet dice = oneOf(0.to(9))
    nondet badAns = oneOf(Set(1, 2, 3, 4, 5, 7, 9, 10))
    // Prefer holders as sources.
    val holders = ADDRS.filter(a => a != SELF and a != 0 and ml.bal.get((i, a)) > 0)
    nondet h = oneOf(if (holders == Set()) USERS else holders)
    val src = if (coin == 9) x else h
    val ops = ADDRS.filter(a => a != SELF and a != 0 and ml.oper.get((src, a)))
    nondet o = oneOf(if (ops == Set()) USERS else ops)
    val by = if (dice < 5 and src != 0 and src != SELF) src else if (dice < 8) o else by0
    val dst = if (coin < 3) RECV else y
    nondet v1 = oneOf(near(ml.bal.get((i, src))).union(Set(0, small)))
    nondet v2 = oneOf(clip(Set(0, 1, ml.bal.get((j, src)), ml.bal.get((j, src)) / 2)))
    nondet v3 = oneOf(clip(Set(0, ml.bal.get((l, src)), ml.bal.get((i, src)) - v1)))
    val s = { ans: if (dice < 7) 0 else badAns, go: coin == 1 or coin == 2, dst: y, id: j,
              v: if (dice < 6) v1 / 2 else v2 }
    val data = if (dice % 2 == 0) [] else [1, 255, 3]
    val ids = if (coin == 0) [] else if (coin < 3) [i] else if (coin < 6) [i, j] else if (coin < 8) [i, j, l] else if (coin == 8) [i, i] else [i, j]
    val vals = if (coin == 0) [] else if (coin < 3) [v1] else if (coin < 6) [v1, v2] else if (coin < 8) [v1, v2, v3] else if (coin == 8) [v1, v3] else [v1]
    val mvals = if (coin == 0) [] else if (coin < 3) [small] else if (coin < 6) [small, e] else if (coin < 8) [e, small, f] else if (coin == 8) [small, small] else [e, f, small]
    any {
      mint(by0, if (coin < 8) u else y, i, small, data, OKAY),
      mint(by0, dst, i, if (coin < 6) small else e, data, s),
      mint(by0, u, i, if (dice < 7) small else UMAX - ml.bal.get((i, u)) + (if (dice == 8) 0 else minOf(1, ml.bal.get((i, u)))), data, OKAY),
      mintBatch(by0, if (dice < 6) u else dst, ids, mvals, data, s),
      mintBatch(by0, u, if (dice < 4) [i, j, l] else [i, i], if (dice < 4) [small, 1, small] else [small, 2], data, OKAY),
      transfer(by, src, dst, i, v1, data, s),
      transfer(by, src, if (dice < 2) src else u, i, v1, data, OKAY),
      transferBatch(by, src, dst, ids, vals, data, s),
      transferBatch(by, src, if (dice < 2) src else u, ids, vals, data, OKAY),
      all { not(COUNTED), burn(by, src, i, v1) },
      all { not(COUNTED), burnBatch(by, src, ids, vals) },
      all { COUNTED or dice < 3, forceBurn(by0, src, i, v1) },
      all { COUNTED or dice < 3, forceBurnBatch(by0, src, ids, vals) },
      setAll(if (coin < 6) h else by0, if (coin < 2) by0 else x, dice < 7),
      readBatch(by0, if (coin < 8) [x, y, u] else [x, y], if (coin == 7) [] else [i, j, l]),
    }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    nondet i = oneOf(IDS)
    any {
      { nondet v = oneOf(0.to(UMAX))
        nondet dst = oneOf(USERS)
        any { mint(1, dst, i, v, [], OKAY), transfer(by, 1, dst, i, v, [], OKAY), forceBurn(1, dst, i, v), burn(by, 1, i, v) } },
      { nondet j = oneOf(IDS)
        nondet v = oneOf(Set([1, 1], [2, 1], [1, 2]))
        any { mintBatch(1, by, [i, j], v, [], OKAY), transferBatch(by, 1, 2, [i, j], v, [], OKAY), forceBurnBatch(1, by, [i, j], v),
              burnBatch(by, 2, [i, j], v) } },
      setAll(by, 3 - by, true),
    }
  }
  val totalOfSupplies = IDS.fold(0, (a, i) => a + ml.sup.get(i))
  val safety = and {
    // the records tell the balances
    logged == ml.bal,
    tuples(IDS, ADDRS).forall(p => ml.bal.get(p) >= 0 and ml.bal.get(p) <= UMAX),
    IDS.forall(i => ml.bal.get((i, 0)) == 0),
    // supply counters equal the sums of balances
    IDS.forall(i => ml.sup.get(i) == ADDRS.fold(0, (a, x) => a + ml.bal.get((i, x)))),
    ml.total == totalOfSupplies,
    not(COUNTED) or (ml.total <= UMAX and IDS.forall(i => ml.sup.get(i) <= UMAX)),
    ADDRS.forall(a => not(ml.oper.get((a, 0)))),
  }
}
module main {
  import words.* from "./words"
  import erc1155(USERS = Set(1, 2, 3), IDS = Set(0, 1, 2^200, MAX), UMAX = MAX, EDGE = EDGES, COUNTED = false).*
}
module supply {
  import words.* from "./words"
  import erc1155(USERS = Set(1, 2, 3), IDS = Set(0, 1, 2^200, MAX), UMAX = MAX, EDGE = EDGES, COUNTED = true).*
}
module small {
  import erc1155(USERS = Set(1, 2), IDS = Set(1, 2), UMAX = 2, EDGE = Set(0), COUNTED = true).*
}
