// EIP-712: a digest commits to every field.  A digest is modelled by the tuple
// it commits to; the harness checks that equal tuples give equal digests,
// different tuples different ones, and that each is the standard's formula.
module eip712 {
  import evm.* from "./evm"
  const CONTRACTS: Set[int]     // deployed contracts 0.. ; two per (name, version) pair
  const CHAINS: Set[int]
  const STRUCTS: Set[int]

  var chain: int
  var seen: Set[(int, int, int)]
  var obs: Obs

  pure def code(c: int, ch: int, s: int): int = (c * 100 + ch) * 1000000 + s

  action digest(c: int, s: int): bool = all {
    obs' = { op: "!digest(bytes32)(uint256)", at: c, by: 1, pay: 0, args: [[s]], errs: [], ret: [[code(c, chain, s)]], evs: [] },
    seen' = seen.union(Set((c, chain, s))),
    chain' = chain,
  }
  action separator(c: int): bool = all {
    obs' = { op: "!separator()(uint256)", at: c, by: 1, pay: 0, args: [], errs: [], ret: [[code(c, chain, 0)]], evs: [] },
    seen' = seen, chain' = chain,
  }
  action domain(c: int): bool = all {
    obs' = { op: "!domain()()", at: c, by: 1, pay: 0, args: [], errs: [], ret: [], evs: [] },
    seen' = seen, chain' = chain,
  }
  // to_typed_data_hash on arbitrary separator and struct hash
  action typedHash(a: int, b: int): bool = all {
    obs' = { op: "!typed(bytes32,bytes32)(uint256)", at: 0, by: 1, pay: 0, args: [[a], [b]], errs: [], ret: [[code(a, 99, b)]], evs: [] },
    seen' = seen, chain' = chain,
  }
  action setChain(c: int): bool = all {
    obs' = { ...initObs, op: "!chain(uint256)()", args: [[c]] },
    chain' = c, seen' = seen,
  }
  action init = all { chain' = 1, seen' = Set(), obs' = { ...initObs, args: [[1]] } }
  action step = {
    nondet c = oneOf(CONTRACTS)
    nondet s = oneOf(STRUCTS)
    nondet t = oneOf(STRUCTS)
    nondet ch = oneOf(CHAINS)
    any { digest(c, s), digest(c, s), separator(c), domain(c), typedHash(s, t), setChain(ch) }
  }
  action stepAll = {
    nondet c = oneOf(CONTRACTS)
    nondet s = oneOf(STRUCTS)
    nondet ch = oneOf(CHAINS)
    any { digest(c, s), separator(c), setChain(ch) }
  }
  // Distinct commitments have distinct codes (the model's digest is injective).
  val safety = seen.forall(x => seen.forall(y =>
    x == y or code(x._1, x._2, x._3) != code(y._1, y._2, y._3)))
}
module main { import eip712(CONTRACTS = 0.to(11), CHAINS = 1.to(6), STRUCTS = 1.to(6)).* }
module small { import eip712(CONTRACTS = 0.to(1), CHAINS = 1.to(2), STRUCTS = 1.to(3)).* }
