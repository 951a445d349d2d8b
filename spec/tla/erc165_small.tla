\* generated by tools/export_tla.py from erc165.qnt a25ba8376c57dbbe29193211a448e8787af757b0adca2a8ca801b6bfdc4f403c
--------------------------------- MODULE erc165_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Str;
  *)
  contract

VARIABLE
  (*
    @type: Set(Str);
  *)
  query

(*
  @type: (() => Set(Str));
*)
ERC165 == {"supportsInterface(bytes4)"}

VARIABLE
  (*
    @type: Int;
  *)
  noise

VARIABLE
  (*
    @type: Int;
  *)
  answer

VARIABLE
  (*
    @type: (Str -> Int);
  *)
  totals

(*
  @type: (() => Set(Str));
*)
ERC20 ==
  { "totalSupply()",
    "balanceOf(address)",
    "transfer(address,uint256)",
    "allowance(address,address)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)" }

(*
  @type: (() => Set(Str));
*)
ERC20META == { "name()", "symbol()", "decimals()" }

(*
  @type: (() => Set(Str));
*)
ERC4626 ==
  { "asset()",
    "totalAssets()",
    "convertToShares(uint256)",
    "convertToAssets(uint256)",
    "maxDeposit(address)",
    "previewDeposit(uint256)",
    "deposit(uint256,address)",
    "maxMint(address)",
    "previewMint(uint256)",
    "mint(uint256,address)",
    "maxWithdraw(address)",
    "previewWithdraw(uint256)",
    "withdraw(uint256,address,address)",
    "maxRedeem(address)",
    "previewRedeem(uint256)",
    "redeem(uint256,address,address)" }

(*
  @type: (() => Set(Str));
*)
LENDER ==
  { "maxFlashLoan(address)",
    "flashFee(address,uint256)",
    "flashLoan(address,address,uint256,bytes)" }

(*
  @type: (() => Set(Str));
*)
WRAPPER ==
  { "decimals()",
    "underlying()",
    "depositFor(address,uint256)",
    "withdrawTo(address,uint256)" }

(*
  @type: (() => Set(Str));
*)
SAFE ==
  { "safeTransfer(address,address,uint256)",
    "safeTransferFrom(address,address,address,uint256)",
    "safeIncreaseAllowance(address,address,uint256)",
    "safeDecreaseAllowance(address,address,uint256)",
    "forceApprove(address,address,uint256)" }

(*
  @type: (() => Set(Str));
*)
ERC721 ==
  { "balanceOf(address)",
    "ownerOf(uint256)",
    "safeTransferFrom(address,address,uint256)",
    "safeTransferFrom(address,address,uint256,bytes)",
    "transferFrom(address,address,uint256)",
    "approve(address,uint256)",
    "setApprovalForAll(address,bool)",
    "getApproved(uint256)",
    "isApprovedForAll(address,address)" }

(*
  @type: (() => Set(Str));
*)
ERC721META == { "name()", "symbol()", "tokenURI(uint256)" }

(*
  @type: (() => Set(Str));
*)
ERC721ENUM ==
  { "totalSupply()",
    "tokenOfOwnerByIndex(address,uint256)",
    "tokenByIndex(uint256)" }

(*
  @type: (() => Set(Str));
*)
ERC1155 ==
  { "balanceOf(address,uint256)",
    "balanceOfBatch(address[],uint256[])",
    "setApprovalForAll(address,bool)",
    "isApprovedForAll(address,address)",
    "safeTransferFrom(address,address,uint256,uint256,bytes)",
    "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)" }

(*
  @type: (() => Set(Str));
*)
ERC1155URI == {"uri(uint256)"}

(*
  @type: (() => Set(Str));
*)
ERC1155SUPPLY == { "totalSupply(uint256)", "totalSupply()", "exists(uint256)" }

(*
  @type: (() => Set(Str));
*)
ROYALTY == {"royaltyInfo(uint256,uint256)"}

(*
  @type: (() => Set(Str));
*)
OWNABLE == { "owner()", "transferOwnership(address)", "renounceOwnership()" }

(*
  @type: (() => Set(Str));
*)
CONTROL ==
  { "hasRole(bytes32,address)",
    "onlyRole(bytes32)",
    "getRoleAdmin(bytes32)",
    "grantRole(bytes32,address)",
    "revokeRole(bytes32,address)",
    "renounceRole(bytes32,address)" }

(*
  @type: (() => Set(Str));
*)
OWN1 ==
  { "plainName()",
    "renamedByAttribute(uint8,bytes32,bool)",
    "withNumber2Inside(address[],string)",
    "overloaded(uint256)",
    "overloaded(uint256,bytes)" }

(*
  @type: (() => Set(Str));
*)
OWN2 == {"only(int256)"}

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: ((Bool) => Int);
*)
bit(b_661) == IF b_661 THEN 1 ELSE 0

(*
  @type: (() => Set(Str));
*)
OWNABLE2 == OWNABLE \union { "pendingOwner()", "acceptOwnership()" }

(*
  @type: (() => Set(Str));
*)
VESTING ==
  OWNABLE
    \union { "start()",
      "duration()",
      "end()",
      "released()",
      "released(address)",
      "releasable()",
      "releasable(address)",
      "release()",
      "release(address)",
      "vestedAmount(uint64)",
      "vestedAmount(address,uint64)" }

(*
  @type: (() => Bool);
*)
safety ==
  (query = {} => answer = 0)
    /\ (((query = ERC165 /\ noise = 0) /\ contract /= "Own1")
      /\ contract /= "Own2"
      => answer = 1)

(*
  @type: (() => (Str -> Set(Set(Str))));
*)
CONTRACTS ==
  SetAsFun({ <<"Erc165", {(ERC165)}>>,
    <<"Erc20", { (ERC165), (ERC20) }>>,
    <<"Erc20Metadata", { (ERC165), (ERC20META) }>>,
    <<"Erc4626", { (ERC165), (ERC4626) }>>,
    <<"Erc20FlashMint", { (ERC165), (LENDER) }>>,
    <<"Erc20Wrapper", { (ERC165), (WRAPPER) }>>,
    <<"SafeErc20", { (ERC165), (SAFE) }>>,
    <<"Erc721", { (ERC165), (ERC721) }>>,
    <<"Erc721Metadata", { (ERC165), (ERC721META) }>>,
    <<"Erc721Enumerable", { (ERC165), (ERC721ENUM) }>>,
    <<"Erc721Consecutive", { (ERC165), (ERC721) }>>,
    <<"Erc1155", { (ERC165), (ERC1155) }>>,
    <<"Erc1155MetadataUri", { (ERC165), (ERC1155URI) }>>,
    <<"Erc1155Supply", { (ERC165), (ERC1155), (ERC1155SUPPLY) }>>,
    <<"Erc2981", { (ERC165), (ROYALTY) }>>,
    <<"Ownable", { (ERC165), (OWNABLE) }>>,
    <<"Ownable2Step", { (ERC165), (OWNABLE), (OWNABLE2) }>>,
    <<"AccessControl", { (ERC165), (CONTROL) }>>,
    <<"VestingWallet", { (ERC165), (VESTING) }>>,
    <<"Own1", {(OWN1)}>>,
    <<"Own2", {(OWN2)}>> })

(*
  @type: (() => Bool);
*)
q_inv == safety

(*
  @type: (() => Set(Str));
*)
NAMES == DOMAIN CONTRACTS

(*
  @type: (() => Bool);
*)
init ==
  contract = "Erc165"
    /\ query = ERC165
    /\ noise = 0
    /\ answer = 1
    /\ totals = [ x_400 \in NAMES |-> Cardinality((CONTRACTS)[x_400]) ]
    /\ obs = initObs

(*
  @type: (() => Set(Set(Str)));
*)
IFACES == UNION ({ (CONTRACTS)[n_283]: n_283 \in NAMES })

(*
  @type: ((Str, Str, Set(Str), Int) => Bool);
*)
ask(op_380, n_380, q_380, m_380) ==
  contract' := n_380
    /\ query' := q_380
    /\ noise' := m_380
    /\ answer' := (bit((m_380 = 0 /\ q_380 \in (CONTRACTS)[n_380])))
    /\ totals' := [ x_356 \in NAMES |-> Cardinality((CONTRACTS)[x_356]) ]
    /\ obs'
      := [op |-> op_380,
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |-> <<>>,
        errs |-> <<>>,
        ret |-> <<>>,
        evs |-> <<>>]

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
stepAll == \E n \in NAMES: \E i \in IFACES: ask("!ask()()", n, i, 0)

(*
  @type: (() => Bool);
*)
q_step == stepAll


View == <<contract, query, noise, answer, totals>>

==============================================================================
