// Vesting wallet: ETH and ERC-20 tokens released linearly to the current owner.
module vesting {
  import mocktoken.* from "./mocktoken"
  const USERS: Set[int]
  const UMAX: int
  const TMAX: int              // largest time stamp
  const STARTS: Set[int]
  const DURS: Set[int]
  const EDGE: Set[int]

  pure val SELF = 100
  pure val TOKENS: Set[int] = Set(101, 102)
  pure val PAYEE = 103         // a scripted contract that may own the wallet
  pure val ADDRS: Set[int] = USERS.union(Set(0, SELF, PAYEE))
  pure val EVERYONE: Set[int] = USERS.union(Set(0, PAYEE))

  var owner: int
  var start: int
  var dur: int
  var now: int
  var eth: int -> int
  var rel: int
  var und: int -> Tok
  var relT: int -> int
  var mode: int                // of token 101; 102 is always honest
  // Ghosts: everything ever put in and taken by others than the wallet itself.
  var dep: int
  var slashed: Set[int]
  var obs: Obs

  pure val E_TOKEN = "InvalidToken(address)"
  pure val E_AUTH = "OwnableUnauthorizedAccount(address)"
  pure val EMPTY: List[Err] = [{ sig: "#empty", args: [] }]

  pure def vestedOf(total: int, t: int, s: int, d: int): int =
    if (t < s) 0 else if (t >= s + d) total else total * (t - s) / d
  pure def tooBig(total: int, t: int, s: int, d: int): bool =
    total > UMAX or (t >= s and t < s + d and total * (t - s) > UMAX)

  def totalE: int = eth.get(SELF) + rel
  def knows(k: int): bool = TOKENS.contains(k) and not(k == 101 and mode == 8)
  def balT(k: int): int = und.get(k).bal.get(SELF)
  def totalT(k: int): int = balT(k) + relT.get(k)
  def vestedE(t: int): int = vestedOf(totalE, t, start, dur)
  def badE(t: int): List[Err] = guard(tooBig(totalE, t, start, dur), "#empty", [])
  def vestedT(k: int, t: int): int = vestedOf(totalT(k), t, start, dur)
  def badT(k: int, t: int): List[Err] =
    if (not(knows(k))) [{ sig: E_TOKEN, args: [[k]] }] else guard(tooBig(totalT(k), t, start, dur), "#empty", [])
  // More was released than is vested now: possible only if a token took some back.
  def behindT(k: int): List[Err] = guard(knows(k) and relT.get(k) > vestedT(k, now), "#empty", [])
  def behindE: List[Err] = guard(rel > vestedE(now), "#empty", [])

  action same = all { start' = start, dur' = dur }
  action look(op: str, by: int, args: List[List[int]], ret: List[List[int]], errs: List[Err]): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: [] },
    owner' = owner, now' = now, eth' = eth, rel' = rel, und' = und, relT' = relT, mode' = mode, dep' = dep, slashed' = slashed, same,
  }
  def okT(k: int, r: int, errs: List[Err]): List[List[int]] = if (errs == []) [[r]] else []

  action readVested(by: int, t: int): bool = look("vestedAmount(uint64)(uint256)", by, [[t]], [[vestedE(t)]], badE(t))
  action readReleasable(by: int): bool = look("releasable()(uint256)", by, [], [[vestedE(now) - rel]], badE(now).concat(behindE))
  action readVestedT(by: int, k: int, t: int): bool =
    val errs = badT(k, t)
    look("vestedAmount(address,uint64)(uint256)", by, [[k], [t]], if (errs == []) [[vestedT(k, t)]] else [], errs)
  action readReleasableT(by: int, k: int): bool =
    val errs = badT(k, now).concat(behindT(k))
    look("releasable(address)(uint256)", by, [[k]], if (errs == []) [[vestedT(k, now) - relT.get(k)]] else [], errs)
  action readStart(by: int): bool = look("start()(uint256)", by, [], [[start]], [])
  action readDuration(by: int): bool = look("duration()(uint256)", by, [], [[dur]], [])
  action readEnd(by: int): bool = look("end()(uint256)", by, [], [[start + dur]], [])

  // Paying a contract: it may refuse (ans 3, 4) or re-enter first (again).
  action releaseE(by: int, again: bool, ans: int): bool =
    val amt = vestedE(now) - rel
    val refused = owner == PAYEE and ans >= 3
    val errs = badE(now).concat(behindE).concat(guard(refused, "#any", []))
    val got = [{ at: 3, sig: "received(uint256)", args: [[amt]] }]
    val inner = if (again) [{ at: 3, sig: "received(uint256)", args: [[0]] }, { at: 0, sig: "EtherReleased(uint256)", args: [[0]] }] else []
    val ok = errs == []
    all {
      obs' = { op: "release()()", at: 0, by: by, pay: 0,
               args: (if (again) [[0, 8, 0]] else []).concat(if (ans > 0) [[0, 99, ans]] else []),
               errs: errs, ret: [],
               evs: (if (owner == PAYEE) got.concat(inner) else []).append({ at: 0, sig: "EtherReleased(uint256)", args: [[amt]] }) },
      rel' = if (ok) rel + amt else rel,
      eth' = if (ok) eth.set(SELF, eth.get(SELF) - amt).setBy(owner, x => x + amt) else eth,
      owner' = owner, now' = now, und' = und, relT' = relT, mode' = mode, dep' = dep, slashed' = slashed, same,
    }
  pure val GOT = "tokensReceived()"
  // A token may tell the receiver, which may ask for another release (again).
  action releaseT(by: int, k: int, again: bool): bool =
    val early = badT(k, now).concat(behindT(k))
    val amt = if (early == []) vestedT(k, now) - relT.get(k) else 0
    val r = if (TOKENS.contains(k)) tMove(und.get(k), k - SELF, SELF, owner, amt) else { tok: emptyTok(ADDRS), errs: [], evs: [] }
    val paid = r.errs == [] and (k != 101 or accepted(mode))
    val errs = early.concat(guard(early == [] and not(paid), E_SAFE, [[k]]))
    val told = mode == 12 and k == 101 and owner == PAYEE
    val got = [{ at: 3, sig: GOT, args: [] }]
    val inner = [transferEv(1, SELF, PAYEE, 0)].concat(got).append({ at: 0, sig: "ERC20Released(address indexed,uint256)", args: [[101], [0]] })
    all {
      obs' = { op: "release(address)()", at: 0, by: by, pay: 0, args: if (told and again) [[k], [0, 11, 0, 101]] else [[k]], errs: errs, ret: [],
               evs: r.evs.concat(if (told) got else []).concat(if (told and again) inner else []).append({ at: 0, sig: "ERC20Released(address indexed,uint256)", args: [[k], [amt]] }) },
      und' = if (errs == []) und.set(k, r.tok) else und,
      relT' = if (errs == []) relT.set(k, relT.get(k) + amt) else relT,
      owner' = owner, now' = now, eth' = eth, rel' = rel, mode' = mode, dep' = dep, slashed' = slashed, same,
    }
  action transferOwnership(by: int, t: int): bool =
    val errs = guard(by != owner, E_AUTH, [[by]]).concat(guard(t == 0, "OwnableInvalidOwner(address)", [[0]]))
    all {
      obs' = { op: "transferOwnership(address)()", at: 0, by: by, pay: 0, args: [[t]], errs: errs, ret: [],
               evs: [{ at: 0, sig: "OwnershipTransferred(address indexed,address indexed)", args: [[owner], [t]] }] },
      owner' = if (errs == []) t else owner,
      now' = now, eth' = eth, rel' = rel, und' = und, relT' = relT, mode' = mode, dep' = dep, slashed' = slashed, same,
    }
  action renounceOwnership(by: int): bool =
    val errs = guard(by != owner, E_AUTH, [[by]])
    all {
      obs' = { op: "renounceOwnership()()", at: 0, by: by, pay: 0, args: [], errs: errs, ret: [],
               evs: [{ at: 0, sig: "OwnershipTransferred(address indexed,address indexed)", args: [[owner], [0]] }] },
      owner' = if (errs == []) 0 else owner,
      now' = now, eth' = eth, rel' = rel, und' = und, relT' = relT, mode' = mode, dep' = dep, slashed' = slashed, same,
    }
  // The world around the wallet.
  action outside(op: str, args: List[List[int]]): bool = all {
    obs' = { op: op, at: 0, by: 1, pay: 0, args: args, errs: [], ret: [], evs: [] },
    owner' = owner, rel' = rel, relT' = relT, same,
  }
  action tick(t: int): bool = all {
    t >= now,
    outside("!time(uint256)()", [[t]]), now' = t, eth' = eth, und' = und, mode' = mode, dep' = dep, slashed' = slashed,
  }
  action pay(v: int): bool = all {
    eth.get(SELF) + v <= UMAX,
    outside("!eth(uint256)()", [[v]]), eth' = eth.set(SELF, eth.get(SELF) + v), dep' = dep + v,
    now' = now, und' = und, mode' = mode, slashed' = slashed,
  }
  action fund(k: int, v: int): bool = all {
    und.get(k).supply + v <= UMAX,
    outside("!mint(address,uint256)()", [[k], [v]]),
    und' = und.set(k, tMint(und.get(k), UMAX, 0, SELF, v).tok), eth' = eth, dep' = dep, now' = now, mode' = mode, slashed' = slashed,
  }
  // A token that takes some back (a rebase).
  action slash(k: int, v: int): bool = all {
    v <= balT(k),
    outside("!slash(address,uint256)()", [[k], [v]]),
    und' = und.set(k, tBurn(und.get(k), 0, SELF, v).tok), slashed' = slashed.union(Set(k)), eth' = eth, dep' = dep, now' = now, mode' = mode,
  }
  action setMode(m: int): bool = all {
    outside("!mode(uint256)()", [[m]]), mode' = m, eth' = eth, und' = und, dep' = dep, now' = now, slashed' = slashed,
  }

  action begin(s: int, d: int, o: int, t: int): bool = all {
    owner' = o, start' = s, dur' = d, now' = t, eth' = ADDRS.mapBy(_ => 0), rel' = 0,
    und' = TOKENS.mapBy(_ => emptyTok(ADDRS)), relT' = TOKENS.mapBy(_ => 0), mode' = 0, dep' = 0, slashed' = Set(),
    obs' = { ...initObs, args: [[s], [d], [o], [t]] },
  }
  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  def clipT(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= TMAX)
  action init = {
    nondet s = oneOf(STARTS)
    nondet d = oneOf(DURS)
    nondet o = oneOf(USERS.union(Set(PAYEE)))
    begin(s, d, o, if (s > 0) s - 1 else 0)
  }
  action step = {
    nondet by = oneOf(USERS)
    nondet o = oneOf(EVERYONE)
    nondet k = oneOf(TOKENS)
    nondet kk = oneOf(TOKENS.union(Set(2)))
    nondet e = oneOf(EDGE)
    nondet r = oneOf(0.to(UMAX))
    nondet c = oneOf(0.to(9))
    nondet fr = oneOf(0.to(TMAX))
    // Times near the interesting ones, or a little later than now.
    val soon = now + 1 + fr % (dur / 3 + 2)
    nondet q = oneOf(clipT(Set(start, start - 1, start + 1, start + dur, start + dur - 1, start + dur + 1, start + dur / 2, start + fr % (dur + 1), now, 0, TMAX)))
    nondet ans = oneOf(Set(0, 0, 1, 2, 3, 4))
    any {
      tick(maxOf(now, minOf(TMAX, soon))),
      if (c < 3) tick(maxOf(now, q)) else tick(minOf(TMAX, now + 1)),
      { nondet v = oneOf(clip(Set(1, 7, 100, e, 2^64 + 1, if (c == 0) UMAX - eth.get(SELF) else 3)))
        pay(if (eth.get(SELF) + v <= UMAX) v else 0) },
      { nondet v = oneOf(clip(Set(1, 7, 100, e, r / (TMAX + 1), if (c == 0) UMAX - und.get(k).supply else 3)))
        fund(k, if (und.get(k).supply + v <= UMAX) v else 0) },
      releaseE(by, c < 5, ans),
      releaseE(by, false, 0),
      releaseT(by, k, c < 7),
      releaseT(by, kk, c < 7),
      readVested(by, q),
      readReleasable(by),
      readVestedT(by, kk, q),
      readReleasableT(by, kk),
      if (c < 4 and owner != 0) transferOwnership(owner, o) else transferOwnership(by, o),
      if (c == 0) renounceOwnership(by) else if (c < 4) readStart(by) else if (c < 7) readDuration(by) else readEnd(by),
      { nondet m = oneOf(MODES)  setMode(if (c < 4) 0 else if (c < 7) 12 else m) },
      { nondet v = oneOf(clip(Set(1, balT(k), balT(k) / 2)))  if (c < 3 and v <= balT(k)) slash(k, v) else readReleasableT(by, k) },
    }
  }
  action initAll = {
    nondet s = oneOf(STARTS)
    nondet d = oneOf(DURS)
    begin(s, d, 1, 0)
  }
  action stepAll = {
    nondet v = oneOf(0.to(UMAX))
    nondet t = oneOf(0.to(TMAX))
    any {
      tick(t), all { dep + v <= UMAX, pay(v) }, all { relT.get(102) + balT(102) + v <= UMAX, fund(102, v) }, slash(102, v),
      releaseE(1, false, 0), releaseE(1, true, 3), releaseT(1, 102, false), transferOwnership(1, 2), transferOwnership(2, PAYEE), renounceOwnership(2),
    }
  }

  // Everything deposited is either still here or counted as released, and no
  // more is released than is vested.
  val conserved = eth.get(SELF) + rel == dep
  val neverAheadE = totalE <= UMAX implies rel <= vestedE(now)
  val neverAheadT = TOKENS.forall(k => (not(slashed.contains(k)) and totalT(k) <= UMAX) implies relT.get(k) <= vestedT(k, now))
  val ledgers = TOKENS.forall(k => tokOk(und.get(k), UMAX))
  val safety = conserved and neverAheadE and neverAheadT and ledgers
}
module main {
  import words.* from "./words"
  import vesting(USERS = Set(1, 2), UMAX = MAX, TMAX = 2^64 - 1,
    STARTS = Set(0, 1, 1000, 1700000000, 2^63, 2^64 - 1),
    DURS = Set(0, 1, 2, 3, 7, 1000, 31536000, 2^63, 2^64 - 1), EDGE = EDGES).*
}
module small {
  import vesting(USERS = Set(1, 2), UMAX = 2, TMAX = 3, STARTS = Set(0, 1), DURS = Set(0, 2), EDGE = Set(0)).*
}
module deep {
  import vesting(USERS = Set(1, 2), UMAX = 3, TMAX = 4, STARTS = Set(0, 1), DURS = Set(0, 2, 3), EDGE = Set(0)).*
}
