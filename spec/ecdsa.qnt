// Signature recovery over classes of signatures.  The harness realises each
// class with real secp256k1 material and a real ecrecover.
//   0 genuine, 27/28                 -> the signer
//   1 high-s twin of a genuine one   -> ECDSAInvalidSignatureS(s)
//   2 genuine with v = 0 or 1        -> ECDSAInvalidSignature
//   3 genuine with another bad v     -> ECDSAInvalidSignature
//   4 r = 0   5 s = 0   6 r >= n     -> ECDSAInvalidSignature
//   7 genuine but v flipped, or another digest -> some other address, never the signer
//   8 s at the upper bound, r on the curve  -> that address
//   9 s just above the bound         -> ECDSAInvalidSignatureS(s)
//  10 r not on the curve             -> ECDSAInvalidSignature
//  11 high s and bad v               -> either error
module ecdsa {
  import evm.* from "./evm"
  const KEYS: Set[int]
  const DIGESTS: Set[int]
  var forged: bool            // an address came out of something its key never signed
  var obs: Obs

  pure val INVALID = "ECDSAInvalidSignature()"
  pure val HIGH = "ECDSAInvalidSignatureS(bytes32)"
  pure val OTHER = 240        // whatever address independent recovery gives

  pure def errsOf(class: int): List[Err] =
    if (class == 1 or class == 9) [{ sig: HIGH, args: [[7]] }]
    else if (Set(2, 3, 4, 5, 6, 10).contains(class)) [{ sig: INVALID, args: [] }]
    else if (class == 11) [{ sig: HIGH, args: [[7]] }, { sig: INVALID, args: [] }]
    else []
  pure def answer(class: int, key: int): int = if (class == 0) key else OTHER

  action recover(key: int, digest: int, class: int, salt: int): bool = all {
    obs' = { op: "!recover(uint256)(address)", at: 0, by: 1, pay: 0, args: [[key], [digest], [class], [salt]],
             errs: errsOf(class), ret: [[answer(class, key)]], evs: [] },
    forged' = forged or (class != 0 and errsOf(class) == [] and answer(class, key) == key),
  }
  action init = all { forged' = false, obs' = initObs }
  action step = {
    nondet k = oneOf(KEYS)
    nondet d = oneOf(DIGESTS)
    nondet c = oneOf(0.to(11))
    nondet s = oneOf(0.to(2^32 - 1))
    recover(k, d, c, s)
  }
  action stepAll = {
    nondet k = oneOf(KEYS)
    nondet d = oneOf(DIGESTS)
    nondet c = oneOf(0.to(11))
    recover(k, d, c, 0)
  }
  val safety = not(forged)
}
module main { import ecdsa(KEYS = Set(1, 2, 3, 4, 5), DIGESTS = 0.to(1000)).* }
module small { import ecdsa(KEYS = Set(1, 2), DIGESTS = Set(0, 1)).* }
