// ERC-2612 permits.  A signature is modelled by what its signer committed to;
// the harness turns it into a real secp256k1 signature over the EIP-712 digest
// it computes itself.
module permit {
  import erc20core.* from "./erc20core"

  const USERS: Set[int]
  const UMAX: int
  const EDGE: Set[int]
  const NMAX: int
  const KEEP: int              // signatures remembered for replay

  // What was signed, by whom, for which domain, and how the signature was
  // mangled afterwards: 0 intact, 1 malleated (high s, flipped v), 2 v = 0 or 1,
  // 3 v out of range, 4 r = 0, 5 s = 0, 6 v flipped only, 7 r changed.
  type Sig = { signer: int, owner: int, spender: int, value: int, nonce: int, deadline: int,
               chain: int, contract: int, name: int, mangle: int }

  var tok: Tok
  var nonce: int -> int
  var time: int
  var chain: int
  var made: List[Sig]          // signatures in circulation
  var used: Set[Sig]           // signatures that have succeeded
  var twice: bool              // one of them succeeded again
  var obs: Obs

  pure val ADDRS: Set[int] = USERS.union(Set(0))
  pure val E_EXPIRED = "ERC2612ExpiredSignature(uint256)"
  pure val E_SIGNER = "ERC2612InvalidSigner(address,address)"

  action commit(o: Obs, t: Tok, n: int -> int): bool = all {
    obs' = o,
    tok' = if (o.errs == []) t else tok,
    nonce' = if (o.errs == []) n else nonce,
    time' = time, chain' = chain,
  }

  def authentic(s: Sig, owner: int, spender: int, v: int, deadline: int): bool = and {
    s.owner == owner, s.spender == spender, s.value == v, s.deadline == deadline,
    s.nonce == nonce.get(owner), s.chain == chain, s.contract == 0, s.name == 0,
  }
  def sigErrs(s: Sig, owner: int, spender: int, v: int, deadline: int): List[Err] =
    if (s.mangle == 1) [{ sig: "~ECDSAInvalidSignatureS(bytes32)", args: [[0]] }]
    else if (Set(2, 3, 4, 5).contains(s.mangle)) [{ sig: "ECDSAInvalidSignature()", args: [] }]
    else if (s.mangle == 7) [{ sig: "~ERC2612InvalidSigner(address,address)", args: [[0], [0]] }, { sig: "ECDSAInvalidSignature()", args: [] }]
    else if (s.mangle == 6) [{ sig: "~ERC2612InvalidSigner(address,address)", args: [[0], [0]] }, { sig: "ECDSAInvalidSignature()", args: [] }]
    else if (not(authentic(s, owner, spender, v, deadline)))
      [{ sig: "~ERC2612InvalidSigner(address,address)", args: [[0], [0]] }]
    else guard(s.signer != owner, E_SIGNER, [[s.signer], [owner]])

  action permit(by: int, owner: int, spender: int, v: int, deadline: int, s: Sig): bool =
    val r = tApprove(tok, 0, owner, spender, v)
    val se = sigErrs(s, owner, spender, v, deadline)
    val errs = guard(time > deadline, E_EXPIRED, [[deadline]]).concat(se).concat(r.errs)
    all {
      commit({ op: "!permit(address,address,uint256,uint256)()", at: 0, by: by, pay: 0,
          args: [[owner], [spender], [v], [deadline],
                 [s.signer, s.owner, s.spender, s.value, s.nonce, s.deadline, s.chain, s.contract, s.name, s.mangle]],
          errs: errs, ret: [], evs: r.evs },
        r.tok, nonce.set(owner, nonce.get(owner) + 1)),
      used' = if (errs == []) used.union(Set(s)) else used,
      twice' = twice or (errs == [] and used.contains(s)),
      made' = if (made.length() < KEEP) made.append(s) else made,
    }
  action plain(o: Obs, r: TokR): bool = all {
    commit({ ...o, errs: r.errs, evs: r.evs }, r.tok, nonce),
    used' = used, twice' = twice, made' = made,
  }
  action approve(by: int, s: int, v: int): bool =
    plain({ op: "approve(address,uint256)(bool)", at: 0, by: by, pay: 0, args: [[s], [v]], errs: [], ret: [[1]], evs: [] },
      tApprove(tok, 0, by, s, v))
  action transferFrom(by: int, f: int, t: int, v: int): bool =
    plain({ op: "transferFrom(address,address,uint256)(bool)", at: 0, by: by, pay: 0, args: [[f], [t], [v]], errs: [], ret: [[1]], evs: [] },
      tTransferFrom(tok, UMAX, 0, by, f, t, v))
  action mint(by: int, t: int, v: int): bool =
    plain({ op: "mint(address,uint256)()", at: 0, by: by, pay: 0, args: [[t], [v]], errs: [], ret: [], evs: [] },
      tMint(tok, UMAX, 0, t, v))
  action env(op: str, x: int, t: int, c: int): bool = all {
    obs' = { ...initObs, op: op, args: [[x]] },
    time' = t, chain' = c,
    tok' = tok, nonce' = nonce, used' = used, twice' = twice, made' = made,
  }
  action advance(t: int): bool = env("!time(uint256)()", t, t, chain)
  action setChain(c: int): bool = env("!chain(uint256)()", c, time, c)

  action init = all {
    tok' = emptyTok(ADDRS), nonce' = ADDRS.mapBy(_ => 0), time' = 1000, chain' = 1,
    made' = [], used' = Set(), twice' = false,
    obs' = { ...initObs, args: [[1000], [1]] },
  }

  // The owner's honest signature for these terms.
  def honest(owner: int, spender: int, v: int, deadline: int): Sig =
    { signer: owner, owner: owner, spender: spender, value: v, nonce: nonce.get(owner), deadline: deadline,
      chain: chain, contract: 0, name: 0, mangle: 0 }

  action step = {
    nondet by = oneOf(USERS)
    nondet o = oneOf(USERS)
    nondet s = oneOf(ADDRS)
    nondet x = oneOf(ADDRS)
    nondet v = oneOf(EDGE)
    nondet v2 = oneOf(EDGE)
    nondet d = oneOf(Set(time - 1, time, time + 1, time + 100, UMAX, 0))
    nondet twist = oneOf(0.to(18))
    nondet d2 = oneOf(Set(time - 1, time, time + 1, UMAX))
    nondet mg = oneOf(1.to(7))
    val h = honest(o, s, v, d)
    any {
      permit(by, o, s, v, d, h),
      permit(by, o, s, v, d, h),
      // one thing is off
      permit(by, o, s, v, d,
        if (twist == 0) { ...h, signer: if (x == 0) by else x }
        else if (twist == 1) { ...h, owner: x }
        else if (twist == 2) { ...h, spender: x }
        else if (twist == 3) { ...h, value: v2 }
        else if (twist == 4) { ...h, nonce: h.nonce + 1 }
        else if (twist == 5) { ...h, nonce: maxOf(h.nonce - 1, 0) }
        else if (twist == 6) { ...h, deadline: d2 }
        else if (twist == 7) { ...h, chain: h.chain + 1 }
        else if (twist == 8) { ...h, contract: 1 }
        else if (twist == 9) { ...h, name: 1 }
        else if (twist == 10) { ...h, name: 2 }
        else if (twist == 11) { ...h, name: 3 }
        else { ...h, mangle: mg }),
      permit(by, 0, s, v, d, { ...honest(0, s, v, d), signer: by, mangle: if (twist < 8) twist else 0 }),
      // replay a signature already seen, as is
      { nondet i = oneOf(made.indices().union(Set(0)))
        all {
          made.length() > 0,
          val m = made[i]
          permit(by, m.owner, m.spender, m.value, m.deadline, m),
        } },
      approve(by, s, v),
      transferFrom(by, o, x, if (twist < 9) 1 else v),
      mint(by, o, v),
      advance(time + (if (twist < 9) 1 else 100)),
      setChain(if (twist < 9) 1 else twist),
    }
  }
  action stepAll = {
    nondet o = oneOf(USERS)
    nondet by = oneOf(USERS)
    nondet n = oneOf(0.to(NMAX))
    nondet d = oneOf(Set(1000, 1001))
    nondet mg = oneOf(Set(0, 1))
    nondet c = oneOf(Set(1, 2))
    any {
      all { nonce.get(o) < NMAX,
        permit(1, o, 1, 1, d, { signer: by, owner: o, spender: 1, value: 1, nonce: n, deadline: d, chain: c, contract: 0, name: 0, mangle: mg }) },
      all { time < 1002, advance(time + 1) },
      setChain(c),
    }
  }

  // No signature ever succeeds twice.
  val safety = not(twice)
}

module main {
  import words.* from "./words"
  import permit(USERS = Set(1, 2, 3), UMAX = MAX, EDGE = EDGES, NMAX = 1000, KEEP = 6).*
}
module small {
  import permit(USERS = Set(1, 2), UMAX = 2, EDGE = Set(0, 1, 2), NMAX = 2, KEEP = 0).*
}
