// ERC-2981 royalties.
module royalty {
  import evm.* from "./evm"
  const ACCTS: Set[int]
  const IDS: Set[int]
  const UMAX: int
  const FMAX: int        // largest representable fraction
  const FRACS: Set[int]
  const PRICES: Set[int]

  type Info = { to_: int, frac: int }
  var dflt: Info
  var own: int -> Info
  var denom: int
  var obs: Obs

  pure val NONE: Info = { to_: 0, frac: 0 }
  pure val ADDRS: Set[int] = ACCTS.union(Set(0))

  def info(id: int): Info = if (own.get(id).to_ == 0) dflt else own.get(id)
  action call(op: str, args: List[List[int]], ret: List[List[int]], errs: List[Err], d: Info, o: int -> Info): bool = all {
    obs' = { op: op, at: 0, by: 1, pay: 0, args: args, errs: errs, ret: ret, evs: [] },
    dflt' = if (errs == []) d else dflt,
    own' = if (errs == []) o else own,
    denom' = denom,
  }
  action setDefault(t: int, f: int): bool =
    call("setDefaultRoyalty(address,uint96)()", [[t], [f]], [],
      guard(f > denom, "ERC2981InvalidDefaultRoyalty(uint256,uint256)", [[f], [denom]])
        .concat(guard(t == 0, "ERC2981InvalidDefaultRoyaltyReceiver(address)", [[0]])),
      { to_: t, frac: f }, own)
  action deleteDefault: bool = call("deleteDefaultRoyalty()()", [], [], [], NONE, own)
  action setToken(id: int, t: int, f: int): bool =
    call("setTokenRoyalty(uint256,address,uint96)()", [[id], [t], [f]], [],
      guard(f > denom, "ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)", [[id], [f], [denom]])
        .concat(guard(t == 0, "ERC2981InvalidTokenRoyaltyReceiver(uint256,address)", [[id], [0]])),
      dflt, own.set(id, { to_: t, frac: f }))
  action resetToken(id: int): bool = call("resetTokenRoyalty(uint256)()", [[id]], [], [], dflt, own.set(id, NONE))
  action royaltyInfo(id: int, p: int): bool =
    val i = info(id)
    call("royaltyInfo(uint256,uint256)(address,uint256)", [[id], [p]],
      [[i.to_], [if (denom == 0) 0 else p * i.frac / denom]],
      guard(p * i.frac > UMAX or denom == 0, "#empty", []), dflt, own)
  action start(d: int): bool = all {
    dflt' = NONE, own' = IDS.mapBy(_ => NONE), denom' = d, obs' = { ...initObs, args: [[d]] },
  }
  action init = { nondet d = oneOf(FRACS)  start(d) }
  def clip(xs: Set[int]): Set[int] = xs.filter(x => x >= 0 and x <= UMAX)
  action step = {
    nondet id = oneOf(IDS)
    nondet t = oneOf(ADDRS)
    nondet u = oneOf(ACCTS)
    nondet e = oneOf(FRACS)
    nondet f = oneOf(clip(Set(0, 1, denom, denom - 1, denom + 1, denom / 2, e)).filter(x => x <= FMAX))
    nondet g = oneOf(clip(Set(1, denom, denom - 1, denom / 2, minOf(e, denom))).filter(x => x <= FMAX))
    nondet r = oneOf(0.to(UMAX))
    nondet r2 = oneOf(0.to(2^64))
    nondet e2 = oneOf(PRICES)
    val top = if (info(id).frac > 0) UMAX / info(id).frac else UMAX
    nondet p = oneOf(clip(Set(e2, r2, denom, denom - 1, top, top + 1, r / maxOf(1, info(id).frac))))
    any {
      setDefault(t, f), setDefault(u, g), setToken(id, t, f), setToken(id, u, g),
      deleteDefault, resetToken(id), royaltyInfo(id, p), royaltyInfo(id, r2),
    }
  }
  action initAll = { nondet d = oneOf(0.to(3))  start(d) }
  action stepAll = {
    nondet id = oneOf(IDS)
    nondet t = oneOf(ADDRS)
    nondet f = oneOf(0.to(FMAX))
    nondet p = oneOf(0.to(UMAX))
    any { setDefault(t, f), deleteDefault, setToken(id, t, f), resetToken(id), royaltyInfo(id, p) }
  }
  def sound(i: Info): bool = i.frac <= denom and (i.to_ == 0 implies i.frac == 0)
  // A royalty never exceeds the price.
  val bounded = (obs.op == "royaltyInfo(uint256,uint256)(address,uint256)" and obs.errs == []) implies obs.ret[1][0] <= obs.args[1][0]
  val safety = sound(dflt) and IDS.forall(i => sound(own.get(i))) and bounded
}
module main {
  import words.* from "./words"
  import royalty(ACCTS = Set(1, 2, 3), IDS = Set(0, 1, 2^128, MAX), UMAX = MAX, FMAX = 2^96 - 1,
    FRACS = Set(0, 1, 3, 100, 9999, 10000, 2^32, 2^64 - 1, 2^64, 2^96 - 2, 2^96 - 1), PRICES = EDGES).*
}
module small {
  import royalty(ACCTS = Set(1, 2), IDS = Set(0, 1), UMAX = 7, FMAX = 3, FRACS = Set(0), PRICES = Set(0)).*
}
