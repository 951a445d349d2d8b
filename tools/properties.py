#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
T20 = "contracts/src/token/erc20/"
T721 = "contracts/src/token/erc721/"
T1155 = "contracts/src/token/erc1155/"
CR = "lib/crypto/src/"

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

H, I, F, C = "histories", "inputs", "fault_sequences", "configurations"

p("C01", "ERC-20 conserves value",
  "After every sequence of ERC-20 calls (transfer, transferFrom, mint, burn, burnFrom) the total supply equals the sum of all balances, never exceeds 2^256-1, and only mint and burn change it. A transfer of v moves exactly v from sender to receiver (a self-transfer changes nothing) and succeeds exactly when the receiver is not the zero address and the sender holds at least v. Every successful movement emits exactly one Transfer record with those parties and that amount, and a rejected call changes nothing and names the offending account, balance and amount.",
  [H, I], "all call histories, all callers, all 256-bit amounts including 0 and boundary values",
  "the unit tests run two or three calls on one or two accounts with small amounts; conservation is a statement over every history and every amount",
  [T20 + "mod.rs", T20 + "extensions/burnable.rs", "contracts/src/utils/math/storage/"],
  [("_update is the only writer of balances and supply", T20 + "mod.rs"), ("checked total-supply addition bounds every unchecked balance addition", T20 + "mod.rs")],
  ["balanceOf", "totalSupply", "Transfer events", "revert data"],
  [("balances", "units held per account", T20 + "mod.rs"), ("total_supply", "units in existence", T20 + "mod.rs")])

p("C02", "ERC-20 tokens move only by holder or within allowance",
  "An account's tokens decrease only by its own call or by a spender's transferFrom/burnFrom, and over any history a spender can move at most what the owner approved since the last approve: every such move reduces the allowance by exactly the amount, except that an allowance of 2^256-1 is never reduced. approve sets the caller's allowance for that spender to exactly the given value, changes no other allowance, and emits one Approval; spending emits none. A move beyond the allowance, an approval of the zero address, or a move from the zero address is rejected and changes nothing.",
  [H, I], "all histories of approve/transferFrom/burnFrom by all callers, all amounts including exactly the allowance, one above it, and 2^256-1",
  "tests check one approve and one spend; the bound is over every interleaving of approvals and spends by all spenders",
  [T20 + "mod.rs", T20 + "extensions/burnable.rs"],
  [("_spend_allowance before _transfer/_burn", T20 + "mod.rs")],
  ["allowance", "balanceOf", "Approval events", "revert data"],
  [("allowances", "remaining spend per owner and spender", T20 + "mod.rs")])

p("C03", "Flash mint always returns principal and fee",
  "A flash loan of this token succeeds only if, when it returns, the borrower has been debited the principal plus the fee: the principal is burned again and the fee is burned or credited to the configured receiver, so the total supply afterwards is unchanged (or lower by the fee). This holds whatever the borrower does in its callback; a loan above 2^256-1 minus the supply, of another token, to a borrower without code, whose callback fails or returns anything but the agreed value, or which has not approved principal plus fee, reverts and leaves no trace. maxFlashLoan and flashFee report exactly those limits.",
  [H, I, F], "all loan amounts, fees, fee receivers, borrower behaviours (including failing, lying and re-entering ones) and token states",
  "unit tests cover a handful of borrowers with fixed small amounts; the guarantee is over every callback behaviour",
  [T20 + "extensions/flash_mint.rs"],
  [("callback return value check, then allowance spend, then burn of value + fee", T20 + "extensions/flash_mint.rs")],
  ["balanceOf", "totalSupply", "allowance", "maxFlashLoan", "flashFee", "revert data"])

p("C04", "Wrapped ERC-20 is always fully backed",
  "For every history of deposits, withdrawals, transfers, direct donations and recoveries, the wrapper's total supply never exceeds the underlying tokens it holds. depositFor pulls exactly v underlying from the caller and mints exactly v to the named account; withdrawTo burns exactly v from the caller and sends exactly v underlying to the named account; recovery mints exactly the surplus. If the underlying transfer fails, or the wrapper itself is caller or beneficiary, the whole call reverts with no effect.",
  [H, I, F], "all histories over several accounts, all amounts, an underlying that succeeds, returns false, or reverts",
  "tests use mocks for one deposit or withdrawal at a time; backing is an invariant of interleaved histories",
  [T20 + "extensions/wrapper.rs", T20 + "utils/safe_erc20.rs"],
  [("transfer in before mint, burn before transfer out", T20 + "extensions/wrapper.rs")],
  ["balanceOf", "totalSupply", "underlying balanceOf"])

p("C05", "ERC-4626 vault never rounds against its depositors' pool",
  "For every vault state (any assets, supply, decimals offset, donations), deposit, mint, withdraw and redeem exchange exactly what their previews announced in the same state, with conversions equal to assets*(supply+10^offset)/(assets_held+1) and its inverse, rounded down for shares paid out and assets paid out, and up for assets charged and shares burned. Hence no sequence of operations by one account extracts more assets than it put in. An exchange above the advertised maximum, without share allowance or assets, or whose result does not fit 256 bits reverts with no effect.",
  [H, I], "all histories of deposits/mints/withdrawals/redemptions/donations by several accounts, all amounts and offsets",
  "rounding errors show only for particular ratios of assets and shares; tests use an empty or one-to-one vault",
  [T20 + "extensions/erc4626.rs", "contracts/src/utils/math/alloy.rs"],
  [("mul_div with explicit rounding direction", "contracts/src/utils/math/alloy.rs"), ("effects ordered around the external transfer", T20 + "extensions/erc4626.rs")],
  ["deposit", "mint", "withdraw", "redeem", "previews", "max*", "convertTo*", "Deposit/Withdraw events"])

p("C06", "SafeERC20 succeeds only if the token call succeeded",
  "safeTransfer, safeTransferFrom, safeIncreaseAllowance, safeDecreaseAllowance and forceApprove succeed exactly when the target has code, the underlying call did not revert, and it returned either nothing or true; in every other case the whole call reverts and names the token. Exactly the requested token call is made with the caller-chosen arguments; increase/decrease add to or subtract from the current allowance exactly and reject overflow or underflow, and forceApprove first resets the allowance to zero only when the direct approval is refused.",
  [I, F, H], "all token behaviours (true, false, empty, short, long, garbage, reverting, missing code) and all amounts and current allowances",
  "tests fix a few mock tokens; the statement is over every answer a token can give",
  [T20 + "utils/safe_erc20.rs"],
  [("code check, success flag and return-data check", T20 + "utils/safe_erc20.rs")],
  ["calls the token receives", "revert data"])

p("C07", "A permit is valid once, in time, and for exactly what was signed",
  "permit sets the allowance of exactly the signed owner, spender and value if and only if the block time is at most the deadline and the signature is the owner's EIP-712 signature over those fields, the owner's current nonce, and this contract's domain (name, version, chain id, address). Success consumes the nonce, so no signature works twice or on another contract, chain, or owner; failure changes neither nonce nor allowance. The domain separator and the nonce are readable and equal to the values signatures must commit to.",
  [H, I], "all sequences of permits with fresh, replayed, expired, foreign-domain, tampered and malleated signatures",
  "tests never exercise replay across nonces, domains and chains on histories",
  [T20 + "extensions/permit.rs", "contracts/src/utils/nonces.rs", "contracts/src/utils/cryptography/eip712.rs"],
  [("deadline check, struct hash with use_nonce, recovered signer compared with owner", T20 + "extensions/permit.rs")],
  ["allowance", "nonces", "DOMAIN_SEPARATOR", "Approval events"])

p("C08", "Nonces only ever count up by one",
  "Each account's nonce starts at zero and increases by exactly one per use, which returns the value before the increase; no operation decreases it, repeats a value, or touches another account's nonce. A checked use succeeds only with exactly the current value and otherwise reverts, reporting the account and its current nonce, with no effect.",
  [H, I], "all histories of uses and checked uses over several accounts and all proposed values",
  "tests use one account and one or two uses", ["contracts/src/utils/nonces.rs"],
  [("use_nonce / use_checked_nonce", "contracts/src/utils/nonces.rs")], ["nonces", "useNonce results"])

p("C09", "Every ERC-721 token has exactly one owner and balances count it",
  "After every history of mint, burn, transfer and safe transfer, each existing token has exactly one non-zero owner, each account's balance is the number of tokens it owns, and a token exists from its mint until its burn. Transfers deliver only from the current owner to a non-zero receiver, minting an existing token or burning/reading a missing one is rejected, and every change of ownership emits exactly one Transfer record naming old owner, new owner and token.",
  [H, I], "all call histories over several accounts and all 256-bit token ids",
  "tests examine single calls from a fresh contract; ownership counting is a global invariant over histories",
  [T721 + "mod.rs", T721 + "extensions/burnable.rs"],
  [("_update is the only writer of owners and balances", T721 + "mod.rs")],
  ["ownerOf", "balanceOf", "Transfer events", "revert data"])

p("C10", "An ERC-721 token moves only with its owner's consent",
  "A token is transferred, burned or approved only by its owner, an operator the owner currently approves for all, or (transfer and burn) the single address currently approved for that token; any other caller is rejected with no effect. Moving or burning a token clears its single approval, an approval never survives into a later ownership or a re-mint, and approve/setApprovalForAll record exactly what was asked, only for the owner concerned, with exactly one Approval/ApprovalForAll record.",
  [H, I], "all interleavings of approvals, revocations, transfers, burns and re-mints by all callers",
  "stale approvals appear only after sequences of approve, transfer, and transfer back",
  [T721 + "mod.rs", T721 + "extensions/burnable.rs"],
  [("_check_authorized inside _update; _approve(zero) on ownership change", T721 + "mod.rs")],
  ["getApproved", "isApprovedForAll", "ownerOf", "events"])

p("C11", "Safe ERC-721 transfers never strand tokens in a refusing contract",
  "safeTransferFrom, safeMint and their data variants to an account with code succeed only if that account's onERC721Received, called exactly once with the operator, previous owner, token id and data, returns the agreed value; otherwise the whole call reverts (with the receiver's own reason when it gave one) and the token has not moved. Receivers without code are not called.",
  [F, H, I], "all receiver behaviours (accepting, wrong value, empty, short, reverting with or without reason, re-entering) in all token states",
  "tests use one accepting and one or two failing mocks in a fresh state", [T721 + "mod.rs", T721 + "receiver.rs"],
  [("_check_on_erc721_received after the transfer", T721 + "mod.rs")], ["ownerOf", "receiver's recorded calls", "revert data"])

p("C12", "ERC-721 enumeration lists exactly the existing and owned tokens",
  "After every history of mints, transfers and burns, the global index enumerates each existing token exactly once and nothing else, each owner's index enumerates exactly that owner's tokens once each, totalSupply and balances equal the lengths, and an index at or beyond the length is rejected.",
  [H, I], "all histories of mints, burns and transfers (including to self and of the last, first or middle token) over several owners",
  "swap-and-pop index bookkeeping breaks only after particular removal orders", [T721 + "extensions/enumerable.rs"],
  [("swap-and-pop on both index tables", T721 + "extensions/enumerable.rs")], ["tokenByIndex", "tokenOfOwnerByIndex", "totalSupply"])

p("C13", "Consecutive ERC-721 batches attribute every token to one owner",
  "Tokens minted in consecutive batches get consecutive ids starting at the configured first id, are owned by their batch's receiver until individually transferred or burned, and never come back after a burn; balances equal the number of tokens owned. Batches above the maximum size, beyond id 2^96-1 or to the zero address are rejected; each batch emits one ConsecutiveTransfer covering exactly its range.",
  [H, I, C], "all sequences of batch sizes and receivers, then all histories of transfers, burns and single mints around the batch boundaries",
  "ownership is resolved by search over checkpoints and a burn bitmap; only particular boundary tokens after particular burns reveal errors",
  [T721 + "extensions/consecutive.rs", "contracts/src/utils/structs/checkpoints/mod.rs", "contracts/src/utils/structs/bitmap.rs"],
  [("sequential ownership trace + burn bitmap + individual owner map", T721 + "extensions/consecutive.rs")],
  ["ownerOf", "balanceOf", "ConsecutiveTransfer/Transfer events"])

p("C14", "Every wrapped ERC-721 token is held by the wrapper",
  "For every history, a wrapped token exists only while the wrapper owns the underlying token of the same id. depositFor takes each listed token from the caller and mints it to the named account; withdrawTo burns each listed token only if the caller is authorised for it and delivers the underlying to the named account; a direct safe transfer of the underlying mints to its previous owner, and only the underlying contract may trigger that. Any failing element reverts the whole batch.",
  [H, I, F], "all histories of batched deposits, withdrawals, wrapped transfers, approvals and direct sends, including failing underlying calls",
  "tests exercise one deposit or withdrawal with a scripted mock", [T721 + "extensions/wrapper.rs"],
  [("transfer in before mint; authorised burn before transfer out", T721 + "extensions/wrapper.rs")],
  ["ownerOf", "underlying ownerOf", "revert data"])

p("C15", "Token URIs resolve to base, suffix or id for existing tokens only",
  "For every existing ERC-721 token, tokenURI is: the token's own URI when there is no base; base followed by the token's own URI when both are set; base followed by the decimal token id when only the base is set; empty when there is no base and no own URI. Setting a token's URI affects only that token and emits a metadata update, and a missing token is rejected.",
  [H, I], "all histories of URI settings, base URIs, mints and burns, all strings (empty, short, longer than one storage word) and ids",
  "tests check a few literal strings; string storage has length-dependent layouts", [T721 + "extensions/uri_storage.rs", T721 + "extensions/metadata.rs", "contracts/src/utils/metadata.rs"],
  [("token_uri composition", T721 + "extensions/uri_storage.rs")], ["tokenURI", "name", "symbol", "MetadataUpdate events"])

p("C16", "ERC-1155 balances change exactly as the events say",
  "Every mint, burn, single and batch transfer adds and subtracts exactly the listed values for exactly the listed ids and parties, with repeated ids in one batch accumulating, and nothing else changes; replaying the emitted TransferSingle/TransferBatch records reconstructs every balance. Insufficient balance, an overflow, a zero sender or receiver, or lists of different length reject the whole call with no effect; one record is emitted per call, single when one id is moved and batch otherwise.",
  [H, I], "all histories of single and batch operations with duplicate and empty lists over several accounts, ids and all amounts",
  "tests avoid duplicate ids in a batch, self transfers and boundary amounts", [T1155 + "mod.rs", T1155 + "extensions/burnable.rs"],
  [("_update loop over id/value pairs", T1155 + "mod.rs")], ["balanceOf", "balanceOfBatch", "TransferSingle/TransferBatch events"])

p("C17", "ERC-1155 tokens move only by holder or approved operator",
  "safeTransferFrom, safeBatchTransferFrom, burn and burnBatch by anyone but the holder or an operator the holder currently approves are rejected with no effect, and no one's approval covers another holder. setApprovalForAll records exactly the requested flag for the caller and that operator, rejects the zero operator, and emits one ApprovalForAll.",
  [H, I], "all interleavings of approvals, revocations and operations by all callers",
  "tests check single callers in a fresh state", [T1155 + "mod.rs", T1155 + "extensions/burnable.rs"],
  [("authorize before every movement", T1155 + "mod.rs")], ["isApprovedForAll", "balanceOf", "revert data"])

p("C18", "ERC-1155 transfers into contracts need their consent",
  "A mint or transfer to an account with code succeeds only if onERC1155Received (single) or onERC1155BatchReceived (batch), called exactly once with the operator, source, ids, values and data, returns the agreed value; otherwise the whole call reverts, with the receiver's own reason when it gave one, and no balance changed. Accounts without code and burns trigger no call.",
  [F, H, I], "all receiver behaviours in all states, single and batch forms",
  "tests use one accepting and a few failing mocks", [T1155 + "mod.rs", T1155 + "receiver.rs"],
  [("_check_on_erc1155_received after the update", T1155 + "mod.rs")], ["receiver's recorded calls", "balanceOf", "revert data"])

p("C19", "ERC-1155 supply counters equal the sum of balances",
  "After every history of single and batch mints, burns and transfers, totalSupply(id) equals the sum of all balances of that id, the global total equals the sum over all ids, and exists(id) holds exactly when that supply is non-zero. A mint that would take any counter beyond 2^256-1 is rejected with no effect.",
  [H, I], "all histories with duplicate ids in batches and boundary amounts",
  "overflow and duplicate-id accounting appear only for particular batches", [T1155 + "extensions/supply.rs"],
  [("supply update in _update for mint and burn", T1155 + "extensions/supply.rs")], ["totalSupply", "exists", "balanceOf"])

p("C20", "ERC-1155 URIs resolve per token or to the common one",
  "uri(id) is the base followed by the token's own URI when that is set, and the contract-wide URI otherwise, for every id; setting one token's URI affects only that token and emits one URI record with its resolved value.",
  [H, I], "all histories of base, common and per-token URI settings, all strings and ids",
  "tests check a few literals", [T1155 + "extensions/uri_storage.rs", T1155 + "extensions/metadata_uri.rs"],
  [("uri composition", T1155 + "extensions/uri_storage.rs")], ["uri", "URI events"])

p("C21", "Royalties are the configured fraction of the sale price",
  "royaltyInfo(id, price) returns the token's own receiver and price*fraction/denominator rounded down when a token royalty is set, and the default ones otherwise, exactly as integer arithmetic and rejecting only products beyond 256 bits. Setting a fraction above the denominator or a zero receiver is rejected with no effect; deleting or resetting one royalty affects only that one, so a token royalty always takes precedence until it is reset.",
  [H, I], "all histories of setting, resetting and deleting royalties and all prices, fractions and denominators",
  "tests use a few round numbers", ["contracts/src/token/common/erc2981.rs"],
  [("token royalty falls back to default", "contracts/src/token/common/erc2981.rs")], ["royaltyInfo", "revert data"])

p("C22", "Only the owner exercises ownership",
  "At every point of every history exactly one account (or nobody, after renouncing) is owner, and only a call by that account can transfer or renounce ownership or pass the owner check. Transfer takes effect immediately to the named non-zero account with one OwnershipTransferred record; after renouncing, no call ever restores an owner; every other attempt is rejected naming the caller and changes nothing.",
  [H, I], "all histories of transfers, renouncements and guarded calls by all callers",
  "tests check one step from a fresh contract", ["contracts/src/access/ownable.rs"],
  [("only_owner before every change", "contracts/src/access/ownable.rs")], ["owner", "OwnershipTransferred events", "revert data"])

p("C23", "Two-step ownership moves only when the nominee accepts",
  "Ownership passes only from the current owner to the account that owner most recently nominated, and only by that account's own acceptance; nominating replaces the previous nominee, and any completed transfer or renouncement clears the nomination, so no earlier nominee can ever accept later. Only the owner may nominate or renounce, every other attempt is rejected with no effect, and exactly the corresponding start/transfer records are emitted.",
  [H, I], "all histories of nominations, acceptances, renouncements by all callers",
  "stale nominations need multi-step histories", ["contracts/src/access/ownable_two_step.rs", "contracts/src/access/ownable.rs"],
  [("pending owner cleared inside ownership transfer", "contracts/src/access/ownable_two_step.rs")], ["owner", "pendingOwner", "events"])

p("C24", "Roles are granted only by the role's admin",
  "An account has a role exactly when the last effective grant, revoke or renounce of that role for it was a grant; grants and revokes take effect only when the caller holds the role's current admin role, and renouncing only for the caller itself. Every other attempt, and every guarded call by an account lacking the role, is rejected naming account and role and changes nothing; RoleGranted/RoleRevoked/RoleAdminChanged are emitted exactly when something changed.",
  [H, I], "all histories of grants, revokes, renouncements and admin changes over several roles and accounts",
  "privilege depends on the admin relation at each moment of a history", ["contracts/src/access/control.rs"],
  [("only_role(admin) before grant/revoke", "contracts/src/access/control.rs")], ["hasRole", "getRoleAdmin", "events"])

p("C25", "Vesting releases exactly the linear schedule and never more",
  "At every time, the vested amount of ETH or of a token is (current balance + already released) times elapsed over duration rounded down, 0 before start and everything from start+duration on, exactly as integer arithmetic. Releasing pays the current owner exactly vested minus already released, adds it to the released counter and emits one record, so the total paid never exceeds the vested amount at that time, for any mix of releases, deposits, tokens and ownership changes; a failed payment reverts with no effect.",
  [H, I, F], "all histories of deposits, releases, time steps and ownership changes, all starts, durations, amounts and tokens",
  "tests check a few times on one deposit", ["contracts/src/finance/vesting_wallet.rs"],
  [("vesting_schedule and release", "contracts/src/finance/vesting_wallet.rs")], ["releasable", "released", "vestedAmount", "balances", "events"])

p("C26", "Pausing blocks exactly what it guards and the cap is reported",
  "Guarded-when-running calls succeed exactly while not paused and guarded-when-paused calls exactly while paused; pause succeeds only when running and unpause only when paused, each flipping the state with exactly one Paused/Unpaused record naming the caller, and every rejected call changes nothing. The capped extension always reports exactly the cap configured at construction.",
  [H, C], "all histories of pause, unpause and guarded calls, all caps",
  "tests take one step each way", ["contracts/src/utils/pausable.rs", T20 + "extensions/capped.rs"],
  [("when_paused / when_not_paused", "contracts/src/utils/pausable.rs")], ["paused", "events", "revert data"])

p("C27", "Checkpoint lookups answer for any time in the recorded history",
  "For every history of pushes, lookups at a key return the value of the last checkpoint with key at most it (upper lookup, recent-optimised or not), or of the first checkpoint with key at least it (lower lookup), and zero when there is none; keys never decrease (a smaller key is rejected with no effect), an equal key replaces the last value, and push returns the previous and new value. latest, latest checkpoint, length and positional access agree with that history, for all three key/value widths.",
  [H, I], "all push histories (short, long, with repeated keys and boundary keys) and all lookup keys",
  "the recent-optimised search has a length-dependent shortcut that small examples miss", ["contracts/src/utils/structs/checkpoints/mod.rs", "contracts/src/utils/structs/checkpoints/generic_size.rs"],
  [("binary search with sqrt-sized recent window", "contracts/src/utils/structs/checkpoints/mod.rs")], ["push", "lower_lookup", "upper_lookup", "upper_lookup_recent", "latest", "length", "at"])

p("C28", "A bitmap is a set of 256-bit indices",
  "For every history, get(i) is true exactly when the last set, unset or set-to operation on exactly index i made it so, for all 2^256 indices; operations on one index never affect another.",
  [H, I], "all histories of set/unset/set_to over indices sharing a word, adjacent words, and boundary indices",
  "tests touch a few indices", ["contracts/src/utils/structs/bitmap.rs"],
  [("bucket and mask split of the index", "contracts/src/utils/structs/bitmap.rs")], ["get"])

p("C29", "256-bit math is exact",
  "For all 256-bit inputs, mul_div returns floor or ceiling of x*y/d using the full 512-bit product and fails exactly when d is zero or the result does not fit; sqrt returns the largest r with r*r at most x; average returns floor of (a+b)/2 without overflow.",
  [I], "all 256-bit inputs",
  "tests and fuzzing sample random points; boundary neighbours of squares and of 2^256 are rarely hit", ["contracts/src/utils/math/alloy.rs"],
  [("Newton iteration / 512-bit product", "contracts/src/utils/math/alloy.rs")], ["return values"])

p("C30", "ECDSA recovery yields the signer or an error, never a forgery",
  "For every digest and (v, r, s), recovery returns the unique address whose key produced that signature when s is in the lower half of the curve order and v is 27 or 28, and otherwise fails with the matching error: a high s is always rejected (no malleability) naming s, and an invalid signature never yields an address, not even the zero address.",
  [I, F], "all digests, v, r, s including malleated, zero, out-of-range and non-curve values",
  "tests have a few vectors and a test host that hides the precompile's real failure answer", ["contracts/src/utils/cryptography/ecdsa.rs"],
  [("s bound check, precompile call, zero check", "contracts/src/utils/cryptography/ecdsa.rs")], ["recover result and errors"])

p("C31", "EIP-712 hashes commit to every field of the domain and message",
  "The domain separator is the EIP-712 hash of exactly name, version, chain id and contract address, and the digest of a struct hash is keccak256(0x1901 || separator || struct hash); the reported EIP-712 domain returns exactly those fields with the bitmap of used fields. Two contracts differing in any of these fields never share a digest.",
  [I, C], "all names, versions, chain ids, addresses and struct hashes",
  "tests check one literal domain", ["contracts/src/utils/cryptography/eip712.rs"],
  [("domain_separator_v4 / hash_typed_data_v4", "contracts/src/utils/cryptography/eip712.rs")], ["domain separator", "typed-data digest", "eip712Domain"])

p("C32", "Contracts declare exactly the interfaces they implement",
  "supportsInterface answers true exactly for the ERC-165 id and the ids (xor of function selectors) of the interfaces the contract implements, and false for every other id including 0xffffffff, in every contract of the library.",
  [I, C], "all 2^32 interface ids for each contract",
  "tests check one or two ids per contract", ["contracts/src/utils/introspection/erc165.rs", "contracts-proc/src/interface_id.rs", T20 + "mod.rs", T721 + "mod.rs", T1155 + "mod.rs", "contracts/src/token/common/erc2981.rs", "contracts/src/access/control.rs"],
  [("interface_id attribute macro", "contracts-proc/src/interface_id.rs")], ["supportsInterface"])

p("C33", "A Merkle proof verifies exactly for leaves of the tree",
  "verify accepts a proof exactly when folding the sorted-pair hash over it from the leaf gives the root; for every tree, each leaf with its sibling path is accepted, and any change of leaf, root, or any proof element, and any missing or extra element, is rejected. The hash of a pair does not depend on the order of its two elements.",
  [I], "all trees, leaves, proofs and tampered variants, for any hash builder",
  "tests have a few fixed trees", [CR + "merkle.rs", CR + "hash.rs", CR + "keccak.rs"],
  [("commutative_hash_pair fold", CR + "merkle.rs")], ["verify"])

p("C34", "A Merkle multi-proof verifies exactly the claimed leaves",
  "A multi-proof is accepted exactly when consuming leaves, computed nodes and proof elements as the flags direct rebuilds the root with every element consumed; for every tree and every subset of leaves the honest multi-proof is accepted, and no malformed combination of lengths and flags is accepted or crashes: it yields the matching error or false.",
  [I], "all leaf subsets, proofs and flag sequences, well-formed or not",
  "malformed proofs form a huge space of length/flag combinations", [CR + "merkle.rs"],
  [("length check and guarded queue processing", CR + "merkle.rs")], ["verify_multi_proof"])

p("C35", "Field arithmetic is exact modulo the prime",
  "For every element of every supported field, addition, subtraction, negation, doubling, multiplication, squaring, exponentiation, inversion and division agree with integer arithmetic modulo the field's prime and return canonical elements; only zero has no inverse. Conversions from and to integers of every width, signed and unsigned, reduce modulo the prime and round-trip, ordering and equality are those of the canonical integers, and each field's published modulus, modulus bit size and generator are right.",
  [I, C], "all elements and exponents of all fields, with and without a spare modulus bit, of 1 to 13 limbs",
  "tests sample random elements of two fields; carries and final subtractions trigger only near the modulus", [CR + "field/fp.rs", CR + "field/mod.rs", CR + "field/prime.rs", CR + "field/instance.rs"],
  [("Montgomery multiplication and reduction", CR + "field/fp.rs")], ["operator results as integers"])

p("C36", "Curve points form the group of the curve",
  "For every short-Weierstrass curve configuration, addition (affine and projective, mixed), doubling, negation, subtraction and scalar multiplication agree with the chord-and-tangent group law, including identity, equal, opposite and order-two points and every projective representation; results stay on the curve. On-curve and subgroup tests accept exactly the right points, and batch normalisation agrees with single conversion.",
  [I, C], "all points, scalars and projective representations of several small curves, exhaustively, and of a cryptographic one",
  "special cases of the formulas need particular point pairs", [CR + "curve/sw/affine.rs", CR + "curve/sw/projective.rs", CR + "curve/sw/mod.rs", CR + "curve/mod.rs"],
  [("complete case analysis in add/double", CR + "curve/sw/projective.rs")], ["point coordinates"])

p("C37", "Big unsigned integers behave as integers modulo 2^(64N)",
  "For all N-limb operands, comparison, addition, subtraction, doubling, halving, widening multiplication, remainder, bit access, bit length, byte and string conversion agree with unbounded integers, with exact carry and borrow flags, and panicking variants panic exactly on overflow.",
  [I], "all operands of 1 to 13 limbs, particularly all-ones and power-of-two neighbourhoods of every limb",
  "carry chains across limbs need particular operands", [CR + "arithmetic/uint.rs", CR + "arithmetic/limb.rs", CR + "bits.rs"],
  [("carry/borrow propagation", CR + "arithmetic/limb.rs")], ["return values and flags"])

p("C38", "Poseidon2 is the specified permutation in a specified sponge",
  "For every supported state size and instance, the permutation equals the Poseidon2 definition (external and internal linear layers, S-box power and round constants in the defined order), and absorbing then squeezing any number of elements equals the sponge over that permutation with the configured capacity; absorbing after squeezing is refused. Different chunkings of the same input give the same output.",
  [H, I, C], "all input sequences and chunkings for every state size (2,3,4,8,12,16,20,24) and field",
  "tests hold one vector per instance and cover only instances' state sizes", [CR + "poseidon2/mod.rs", CR + "poseidon2/params.rs", CR + "poseidon2/instance/"],
  [("external/internal rounds and sponge index", CR + "poseidon2/mod.rs")], ["state after permute", "squeezed elements"])

p("C39", "Keccak hashing depends only on the concatenated bytes",
  "The hash builder's digest equals Keccak-256 of the concatenation of everything fed to it, however it is split over updates, with a fresh builder each time; hashing a pair equals hashing the concatenation in order, and the commutative pair hash equals hashing the smaller element first.",
  [I, H], "all byte strings and all ways of splitting them",
  "tests compare a few inputs", [CR + "keccak.rs", CR + "hash.rs"],
  [("tiny-keccak wrapper", CR + "keccak.rs")], ["digest"])

p("C40", "A token put together from the extensions keeps all their promises at once",
  "In one contract combining ERC-20 with metadata, cap, pausing, burning and ownership: name and symbol are always exactly what they were set to at construction and decimals is 18; no balance and no supply changes while paused (allowances may); the supply never exceeds the cap; only the current owner mints, pauses, unpauses or hands over ownership; and no call on one part changes the state of another.",
  [H, I, C], "all call histories, callers, amounts, caps and names (short and long)",
  "each extension is unit-tested alone, with its own storage starting at slot 0", [T20 + "mod.rs", T20 + "extensions/metadata.rs", T20 + "extensions/capped.rs", T20 + "extensions/burnable.rs", "contracts/src/utils/metadata.rs", "contracts/src/utils/pausable.rs", "contracts/src/access/ownable.rs"],
  [("parts composed by storage inheritance", T20 + "extensions/")], ["name, symbol, decimals, cap, paused, owner, balanceOf, totalSupply", "events", "revert data"])

p("C41", "A collection put together from the extensions keeps all their promises at once",
  "In one contract combining ERC-721 with enumeration, metadata, URI storage, royalties, pausing, burning and roles: after every history the ownership ledger, the list of all tokens and every owner's list agree; no token changes hands while paused; only holders of the minter role mint or set URIs and only admins set royalties, pause or hand out roles, effective from the very next call; burning forgets the token's own royalty; and no call on one part changes the state of another.",
  [H, I, C], "all call histories, callers, tokens, roles, strings (short and long), fractions and receiver answers",
  "each extension is unit-tested alone, with its own storage starting at slot 0", ["contracts/src/token/erc721/mod.rs", "contracts/src/token/erc721/extensions/enumerable.rs", "contracts/src/token/erc721/extensions/uri_storage.rs", "contracts/src/token/erc721/extensions/metadata.rs", "contracts/src/token/common/erc2981.rs", "contracts/src/utils/pausable.rs", "contracts/src/access/control.rs"],
  [("parts composed by storage inheritance", "contracts/src/token/erc721/extensions/")], ["ownerOf, balanceOf, tokenByIndex, tokenOfOwnerByIndex, tokenURI, royaltyInfo, hasRole, paused", "events", "revert data"])
p("C42", "A multi-token put together from the extensions keeps their promises at once",
  "In one contract combining ERC-1155 with supply counters, URI storage, royalties, pausing and two-step ownership: each id's supply and the total always equal the sums of balances; no balance changes while paused; only the current owner mints, sets URIs or royalties, or pauses, and a nominee gains nothing before accepting; each URI and royalty is exactly what was last set for that token (or the common one); and no call on one part changes the state of another.",
  [H, I, C], "all call histories, callers, ids, amounts, batches, strings, fractions and receiver answers",
  "each extension is unit-tested alone, with its own storage starting at slot 0", ["contracts/src/token/erc1155/mod.rs", "contracts/src/token/erc1155/extensions/supply.rs", "contracts/src/token/erc1155/extensions/uri_storage.rs", "contracts/src/token/erc1155/extensions/metadata_uri.rs", "contracts/src/token/common/erc2981.rs", "contracts/src/utils/pausable.rs", "contracts/src/access/ownable_two_step.rs"],
  [("parts composed by storage inheritance", "contracts/src/token/erc1155/extensions/")], ["balanceOf, balanceOfBatch, totalSupply, uri, royaltyInfo, owner, pendingOwner, paused", "events", "revert data"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
