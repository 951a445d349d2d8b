// The ERC-721 ownership ledger as pure functions, shared by every
// specification that contains one (core, enumerable, wrapper, ...).
module erc721core {
  import evm.* from "./evm"
  export evm.*

  type Nft = { owner: int -> int, bal: int -> int, appr: int -> int, oper: (int, int) -> bool }
  type NftR = { nft: Nft, errs: List[Err], evs: List[Ev] }

  pure val N_TRANSFER = "Transfer(address indexed,address indexed,uint256 indexed)"
  pure val N_APPROVAL = "Approval(address indexed,address indexed,uint256 indexed)"
  pure val N_FORALL = "ApprovalForAll(address indexed,address indexed,bool)"
  pure val N_RECEIVER = "ERC721InvalidReceiver(address)"
  pure val N_SENDER = "ERC721InvalidSender(address)"
  pure val N_MISSING = "ERC721NonexistentToken(uint256)"
  pure val N_INCORRECT = "ERC721IncorrectOwner(address,uint256,address)"
  pure val N_UNAUTH = "ERC721InsufficientApproval(address,uint256)"
  pure val N_APPROVER = "ERC721InvalidApprover(address)"
  pure val N_OPERATOR = "ERC721InvalidOperator(address)"

  pure def emptyNft(addrs: Set[int], ids: Set[int]): Nft = {
    owner: ids.mapBy(_ => 0), bal: addrs.mapBy(_ => 0), appr: ids.mapBy(_ => 0),
    oper: tuples(addrs, addrs).mapBy(_ => false),
  }

  pure def nMay(n: Nft, by: int, id: int): bool =
    n.owner.get(id) == by or n.oper.get((n.owner.get(id), by)) or n.appr.get(id) == by

  // The same question for a claimed owner; nobody acts as the zero account.
  pure def nMayFor(n: Nft, o: int, sp: int, id: int): bool =
    sp != 0 and (o == sp or n.oper.get((o, sp)) or n.appr.get(id) == sp)

  // Hands token `id` to `dst` (0 destroys it), whoever has it.
  pure def nPut(n: Nft, dst: int, id: int): Nft =
    val src = n.owner.get(id)
    val b1 = if (src == 0) n.bal else n.bal.set(src, n.bal.get(src) - 1)
    val b2 = if (dst == 0) b1 else b1.set(dst, b1.get(dst) + 1)
    { ...n, owner: n.owner.set(id, dst), bal: b2, appr: n.appr.set(id, 0) }
  pure def nMoved(n: Nft, at: int, dst: int, id: int): Ev =
    { at: at, sig: N_TRANSFER, args: [[n.owner.get(id)], [dst], [id]] }

  pure def nConsent(n: Nft, by: int, id: int): List[Err] =
    guard(n.owner.get(id) == 0, N_MISSING, [[id]])
      .concat(guard(n.owner.get(id) != 0 and not(nMay(n, by, id)), N_UNAUTH, [[by], [id]]))
  // Guards of an (unauthorised) move of `id` out of `src` into `dst`.
  pure def nFromTo(n: Nft, src: int, dst: int, id: int): List[Err] =
    guard(dst == 0, N_RECEIVER, [[0]])
      .concat(guard(n.owner.get(id) == 0, N_MISSING, [[id]]))
      .concat(guard(n.owner.get(id) != 0 and n.owner.get(id) != src, N_INCORRECT, [[src], [id], [n.owner.get(id)]]))

  pure def nTransferFrom(n: Nft, at: int, by: int, src: int, dst: int, id: int): NftR =
    { nft: nPut(n, dst, id), errs: nConsent(n, by, id).concat(nFromTo(n, src, dst, id)), evs: [nMoved(n, at, dst, id)] }
  pure def nForceMove(n: Nft, at: int, src: int, dst: int, id: int): NftR =
    { nft: nPut(n, dst, id), errs: nFromTo(n, src, dst, id), evs: [nMoved(n, at, dst, id)] }
  pure def nMint(n: Nft, at: int, dst: int, id: int): NftR =
    { nft: nPut(n, dst, id),
      errs: guard(dst == 0, N_RECEIVER, [[0]]).concat(guard(n.owner.get(id) != 0, N_SENDER, [[0]])),
      evs: [nMoved(n, at, dst, id)] }
  pure def nBurn(n: Nft, at: int, by: int, id: int): NftR =
    { nft: nPut(n, 0, id), errs: nConsent(n, by, id), evs: [nMoved(n, at, 0, id)] }
  pure def nForceBurn(n: Nft, at: int, id: int): NftR =
    { nft: nPut(n, 0, id), errs: guard(n.owner.get(id) == 0, N_MISSING, [[id]]), evs: [nMoved(n, at, 0, id)] }
  pure def nApprove(n: Nft, at: int, by: int, to_: int, id: int): NftR =
    val o = n.owner.get(id)
    { nft: { ...n, appr: n.appr.set(id, to_) },
      errs: guard(o == 0, N_MISSING, [[id]])
        .concat(guard(o != 0 and o != by and not(n.oper.get((o, by))), N_APPROVER, [[by]])),
      evs: [{ at: at, sig: N_APPROVAL, args: [[o], [to_], [id]] }] }
  // The hooks below the public calls: an authority of 0 stands for "already checked".
  pure def nUpdate(n: Nft, at: int, dst: int, id: int, auth: int): NftR =
    { nft: nPut(n, dst, id), errs: if (auth == 0) [] else nConsent(n, auth, id), evs: [nMoved(n, at, dst, id)] }
  // Approves with or without the event (existing tokens only, if neither checked nor announced).
  pure def nForceApprove(n: Nft, at: int, to_: int, id: int, auth: int, emit: bool): NftR =
    val r = nApprove(n, at, if (auth == 0) n.owner.get(id) else auth, to_, id)
    if (emit) r else { ...r, evs: [] }
  pure def nSetAll(n: Nft, at: int, by: int, op: int, on: bool): NftR =
    { nft: { ...n, oper: n.oper.set((by, op), on) }, errs: guard(op == 0, N_OPERATOR, [[0]]),
      evs: [{ at: at, sig: N_FORALL, args: [[by], [op], [bit(on)]] }] }

  // Exactly one owner each, balances count them, no approval without a token.
  pure def nftOk(n: Nft, addrs: Set[int], ids: Set[int]): bool = and {
    addrs.forall(a => a == 0 or n.bal.get(a) == ids.filter(i => n.owner.get(i) == a).size()),
    n.bal.get(0) == 0,
    ids.forall(i => n.owner.get(i) != 0 or n.appr.get(i) == 0),
    addrs.forall(a => not(n.oper.get((a, 0))) and not(n.oper.get((0, a)))),
  }
}
