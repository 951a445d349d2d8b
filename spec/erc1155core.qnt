// The ERC-1155 ledger as pure functions, with the optional supply counters.
module erc1155core {
  import evm.* from "./evm"
  export evm.*

  type Multi = { bal: (int, int) -> int, oper: (int, int) -> bool, sup: int -> int, total: int }
  type MultiR = { m: Multi, errs: List[Err], evs: List[Ev] }

  pure val M_SINGLE = "TransferSingle(address indexed,address indexed,address indexed,uint256,uint256)"
  pure val M_BATCH = "TransferBatch(address indexed,address indexed,address indexed,uint256[],uint256[])"
  pure val M_FORALL = "ApprovalForAll(address indexed,address indexed,bool)"
  pure val M_RECEIVER = "ERC1155InvalidReceiver(address)"
  pure val M_SENDER = "ERC1155InvalidSender(address)"
  pure val M_LENGTH = "ERC1155InvalidArrayLength(uint256,uint256)"
  pure val M_BALANCE = "ERC1155InsufficientBalance(address,uint256,uint256,uint256)"
  pure val M_UNAUTH = "ERC1155MissingApprovalForAll(address,address)"
  pure val M_OPERATOR = "ERC1155InvalidOperator(address)"

  pure def emptyMulti(addrs: Set[int], ids: Set[int]): Multi = {
    bal: tuples(ids, addrs).mapBy(_ => 0), oper: tuples(addrs, addrs).mapBy(_ => false),
    sup: ids.mapBy(_ => 0), total: 0,
  }

  // Moves one value of one id; 0 as source mints, 0 as destination burns.
  pure def mOne(r: MultiR, umax: int, counted: bool, src: int, dst: int, id: int, v: int): MultiR =
    if (r.errs != []) r else
      val have = r.m.bal.get((id, src))
      val b1 = if (src == 0) r.m.bal else r.m.bal.set((id, src), have - v)
      val b2 = if (dst == 0) b1 else b1.set((id, dst), b1.get((id, dst)) + v)
      val ds = (if (src == 0) v else 0) - (if (dst == 0) v else 0)
      val short = src != 0 and have < v
      val over = or {
        dst != 0 and b1.get((id, dst)) + v > umax,
        counted and r.m.sup.get(id) + ds > umax,
        counted and r.m.total + ds > umax,
      }
      { ...r, m: { ...r.m, bal: b2, sup: r.m.sup.set(id, r.m.sup.get(id) + ds), total: r.m.total + ds },
        errs: guard(short, M_BALANCE, [[src], [have], [v], [id]]).concat(guard(not(short) and over, "#empty", [])) }

  // The whole list, or nothing; one record either way.
  pure def mMove(m: Multi, umax: int, counted: bool, by: int, src: int, dst: int, ids: List[int], vals: List[int]): MultiR =
    if (ids.length() != vals.length())
      { m: m, errs: [{ sig: M_LENGTH, args: [[ids.length()], [vals.length()]] }], evs: [] }
    else
      val r = ids.length()
      val moved = range(0, r).foldl({ m: m, errs: [], evs: [] }, (a, i) => mOne(a, umax, counted, src, dst, ids[i], vals[i]))
      { ...moved, evs:
        if (r == 1) [{ at: 0, sig: M_SINGLE, args: [[by], [src], [dst], [ids[0]], [vals[0]]] }]
        else [{ at: 0, sig: M_BATCH, args: [[by], [src], [dst], ids, vals] }] }

  pure def mConsent(m: Multi, by: int, src: int): List[Err] =
    guard(by != src and not(m.oper.get((src, by))), M_UNAUTH, [[by], [src]])
  pure def mConsentBurn(m: Multi, by: int, src: int): List[Err] =
    guard(by != src and not(m.oper.get((src, by))), M_UNAUTH, [[by], [src]])
  pure def mSetAll(m: Multi, by: int, op: int, on: bool): MultiR =
    { m: { ...m, oper: m.oper.set((by, op), on) }, errs: guard(op == 0, M_OPERATOR, [[0]]),
      evs: [{ at: 0, sig: M_FORALL, args: [[by], [op], [bit(on)]] }] }
}
