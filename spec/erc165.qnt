// ERC-165 introspection.  An interface is a set of function signatures; its id
// is the xor of their selectors (computed by the replayer).  A contract supports
// exactly the interfaces listed here.
module erc165 {
  import evm.* from "./evm"

  type Iface = Set[str]
  pure val ERC165: Iface = Set("supportsInterface(bytes4)")
  pure val ERC20: Iface = Set("totalSupply()", "balanceOf(address)", "transfer(address,uint256)", "allowance(address,address)",
    "approve(address,uint256)", "transferFrom(address,address,uint256)")
  pure val ERC20META: Iface = Set("name()", "symbol()", "decimals()")
  pure val ERC4626: Iface = Set("asset()", "totalAssets()", "convertToShares(uint256)", "convertToAssets(uint256)", "maxDeposit(address)",
    "previewDeposit(uint256)", "deposit(uint256,address)", "maxMint(address)", "previewMint(uint256)", "mint(uint256,address)",
    "maxWithdraw(address)", "previewWithdraw(uint256)", "withdraw(uint256,address,address)", "maxRedeem(address)",
    "previewRedeem(uint256)", "redeem(uint256,address,address)")
  pure val LENDER: Iface = Set("maxFlashLoan(address)", "flashFee(address,uint256)", "flashLoan(address,address,uint256,bytes)")
  pure val WRAPPER: Iface = Set("decimals()", "underlying()", "depositFor(address,uint256)", "withdrawTo(address,uint256)")
  pure val SAFE: Iface = Set("safeTransfer(address,address,uint256)", "safeTransferFrom(address,address,address,uint256)",
    "safeIncreaseAllowance(address,address,uint256)", "safeDecreaseAllowance(address,address,uint256)", "forceApprove(address,address,uint256)")
  pure val ERC721: Iface = Set("balanceOf(address)", "ownerOf(uint256)", "safeTransferFrom(address,address,uint256)",
    "safeTransferFrom(address,address,uint256,bytes)", "transferFrom(address,address,uint256)", "approve(address,uint256)",
    "setApprovalForAll(address,bool)", "getApproved(uint256)", "isApprovedForAll(address,address)")
  pure val ERC721META: Iface = Set("name()", "symbol()", "tokenURI(uint256)")
  pure val ERC721ENUM: Iface = Set("totalSupply()", "tokenOfOwnerByIndex(address,uint256)", "tokenByIndex(uint256)")
  pure val ERC1155: Iface = Set("balanceOf(address,uint256)", "balanceOfBatch(address[],uint256[])", "setApprovalForAll(address,bool)",
    "isApprovedForAll(address,address)", "safeTransferFrom(address,address,uint256,uint256,bytes)",
    "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)")
  pure val ERC1155URI: Iface = Set("uri(uint256)")
  pure val ERC1155SUPPLY: Iface = Set("totalSupply(uint256)", "totalSupply()", "exists(uint256)")
  pure val ROYALTY: Iface = Set("royaltyInfo(uint256,uint256)")
  pure val OWNABLE: Iface = Set("owner()", "transferOwnership(address)", "renounceOwnership()")
  pure val OWNABLE2: Iface = OWNABLE.union(Set("pendingOwner()", "acceptOwnership()"))
  pure val CONTROL: Iface = Set("hasRole(bytes32,address)", "onlyRole(bytes32)", "getRoleAdmin(bytes32)", "grantRole(bytes32,address)",
    "revokeRole(bytes32,address)", "renounceRole(bytes32,address)")
  pure val VESTING: Iface = OWNABLE.union(Set("start()", "duration()", "end()", "released()", "released(address)", "releasable()",
    "releasable(address)", "release()", "release(address)", "vestedAmount(uint64)", "vestedAmount(address,uint64)"))
  // Traits of the harness, for the interface_id attribute itself.
  pure val OWN1: Iface = Set("plainName()", "renamedByAttribute(uint8,bytes32,bool)", "withNumber2Inside(address[],string)", "overloaded(uint256)", "overloaded(uint256,bytes)")
  pure val OWN2: Iface = Set("only(int256)")

  pure val CONTRACTS: str -> Set[Iface] = Map(
    "Erc165" -> Set(ERC165), "Erc20" -> Set(ERC165, ERC20), "Erc20Metadata" -> Set(ERC165, ERC20META),
    "Erc4626" -> Set(ERC165, ERC4626), "Erc20FlashMint" -> Set(ERC165, LENDER), "Erc20Wrapper" -> Set(ERC165, WRAPPER),
    "SafeErc20" -> Set(ERC165, SAFE), "Erc721" -> Set(ERC165, ERC721), "Erc721Metadata" -> Set(ERC165, ERC721META),
    "Erc721Enumerable" -> Set(ERC165, ERC721ENUM), "Erc721Consecutive" -> Set(ERC165, ERC721),
    "Erc1155" -> Set(ERC165, ERC1155), "Erc1155MetadataUri" -> Set(ERC165, ERC1155URI),
    "Erc1155Supply" -> Set(ERC165, ERC1155, ERC1155SUPPLY), "Erc2981" -> Set(ERC165, ROYALTY),
    "Ownable" -> Set(ERC165, OWNABLE), "Ownable2Step" -> Set(ERC165, OWNABLE, OWNABLE2),
    "AccessControl" -> Set(ERC165, CONTROL), "VestingWallet" -> Set(ERC165, VESTING),
    "Own1" -> Set(OWN1), "Own2" -> Set(OWN2))
  pure val NAMES: Set[str] = CONTRACTS.keys()
  pure val IFACES: Set[Iface] = NAMES.map(n => CONTRACTS.get(n)).flatten()
  pure val FUNS: Set[str] = IFACES.flatten()

  var contract: str
  var query: Iface        // the functions whose selectors are xored
  var noise: int          // further bits flipped in the id
  var answer: int
  var totals: str -> int  // how many of the 2^32 ids each contract supports (checked by sweeps)
  var obs: Obs

  pure def xor(a: Iface, b: Iface): Iface = a.exclude(b).union(b.exclude(a))
  action ask(op: str, n: str, q: Iface, m: int): bool = all {
    contract' = n, query' = q, noise' = m,
    answer' = bit(m == 0 and CONTRACTS.get(n).contains(q)),
    totals' = NAMES.mapBy(x => CONTRACTS.get(x).size()),
    obs' = { op: op, at: 0, by: 1, pay: 0, args: [], errs: [], ret: [], evs: [] },
  }
  action init = all {
    contract' = "Erc165", query' = ERC165, noise' = 0, answer' = 1,
    totals' = NAMES.mapBy(x => CONTRACTS.get(x).size()), obs' = initObs,
  }
  action step = {
    nondet n = oneOf(NAMES)
    nondet i = oneOf(IFACES)
    nondet j = oneOf(IFACES)
    nondet f = oneOf(FUNS)
    nondet g = oneOf(FUNS)
    nondet mine = oneOf(CONTRACTS.get(n))
    nondet b = oneOf(0.to(31))
    nondet r = oneOf(1.to(2^32 - 1))
    any {
      ask("!ask()()", n, mine, 0),
      ask("!ask()()", n, i, 0),
      ask("!ask()()", n, xor(mine, Set(f)), 0),
      ask("!ask()()", n, xor(i, j), 0),
      ask("!ask()()", n, Set(f), 0),
      ask("!ask()()", n, xor(Set(f), Set(g)), 0),
      ask("!ask()()", n, mine, 2^b),
      // No function at all: random ids, 0 and 0xffffffff.
      ask("!ask()()", n, Set(), r),
      ask("!ask()()", n, Set(), if (b < 16) 0 else 2^32 - 1),
    }
  }
  // All 2^32 ids of every contract.
  action sweep = ask("!sweep()()", "Erc165", Set(), 1)
  action stepAll = {
    nondet n = oneOf(NAMES)
    nondet i = oneOf(IFACES)
    ask("!ask()()", n, i, 0)
  }
  val safety = and {
    query == Set() implies answer == 0,
    (query == ERC165 and noise == 0 and contract != "Own1" and contract != "Own2") implies answer == 1,
  }
}
module main { import erc165.* }
module small { import erc165.* }
