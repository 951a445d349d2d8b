// Token URIs of ERC-721: base, per-token suffix, decimal id.
module uri721 {
  import evm.* from "./evm"
  import strings.* from "./strings"
  const IDS: Set[int]
  const STRS: Set[List[int]]

  var alive: Set[int]
  var base: Str
  var name: Str
  var symbol: Str
  var own: int -> Str
  var shown: int -> Str       // what tokenURI must answer for existing tokens
  var plain: int -> Str       // what the metadata extension alone must answer
  var obs: Obs

  pure val MISSING = "ERC721NonexistentToken(uint256)"
  pure def resolve(b: Str, o: Str, id: int): Str =
    if (b == []) o else if (o == []) b.concat(decimal(id)) else b.concat(o)

  action finish(op: str, by: int, args: List[List[int]], errs: List[Err], ret: List[List[int]], evs: List[Ev],
                al: Set[int], o: int -> Str): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: errs, ret: ret, evs: evs },
    alive' = if (errs == []) al else alive,
    own' = if (errs == []) o else own,
    base' = base, name' = name, symbol' = symbol,
    shown' = IDS.mapBy(i => resolve(base, if (errs == []) o.get(i) else own.get(i), i)),
    plain' = plain,
  }
  action mint(id: int): bool =
    finish("mint(address,uint256)()", 1, [[1], [id]], guard(alive.contains(id), "ERC721InvalidSender(address)", [[0]]), [],
      [{ at: 0, sig: "Transfer(address indexed,address indexed,uint256 indexed)", args: [[0], [1], [id]] }],
      alive.union(Set(id)), own)
  action burn(id: int): bool =
    finish("burn(uint256)()", 1, [[id]], guard(not(alive.contains(id)), MISSING, [[id]]), [],
      [{ at: 0, sig: "Transfer(address indexed,address indexed,uint256 indexed)", args: [[1], [0], [id]] }],
      alive.exclude(Set(id)), own)
  // Like the library, does not require the token to exist.
  action setUri(by: int, id: int, s: Str): bool =
    finish("setTokenUri(uint256,string)()", by, [[id], s], [], [],
      [{ at: 0, sig: "MetadataUpdate(uint256)", args: [[id]] }], alive, own.set(id, s))
  action readUri(by: int, id: int): bool =
    finish("tokenUri(uint256)(string)", by, [[id]], guard(not(alive.contains(id)), MISSING, [[id]]),
      [resolve(base, own.get(id), id)], [], alive, own)

  action init = {
    nondet b = oneOf(STRS)
    nondet n = oneOf(STRS)
    nondet s = oneOf(STRS)
    nondet k = oneOf(0.to(2))
    val bb = if (k == 0) [] else b
    all {
      alive' = Set(), base' = bb, name' = n, symbol' = s, own' = IDS.mapBy(_ => []),
      shown' = IDS.mapBy(i => resolve(bb, [], i)), plain' = IDS.mapBy(i => resolve(bb, [], i)),
      obs' = { ...initObs, args: [bb, n, s] },
    }
  }
  action step = {
    nondet id = oneOf(IDS)
    nondet s = oneOf(STRS)
    nondet t = oneOf(STRS)
    nondet by = oneOf(Set(1, 2))
    nondet k = oneOf(0.to(9))
    any {
      mint(id),
      all { k < 4, burn(id) },
      setUri(by, id, if (k < 3) [] else s),
      setUri(by, id, t),
      readUri(by, id),
    }
  }
  action stepAll = {
    nondet id = oneOf(IDS)
    nondet s = oneOf(STRS)
    any { mint(id), burn(id), setUri(1, id, s), readUri(1, id) }
  }
  // No URI of one token depends on another; without base only the own one shows.
  val safety = and {
    IDS.forall(i => shown.get(i) == resolve(base, own.get(i), i)),
    IDS.forall(i => base != [] or shown.get(i) == own.get(i)),
    IDS.forall(i => own.get(i) != [] or shown.get(i) == plain.get(i)),
    IDS.forall(i => own.get(i) == [] or base == [] or shown.get(i).length() == base.length() + own.get(i).length()),
  }
}
module main {
  import words.* from "./words"
  import strings.* from "./strings"
  import uri721(IDS = Set(0, 1, 9, 10, 1234567890, 2^128, 10^77, MAX - 1, MAX),
    STRS = Set([], [97], [47], fill(30, 65), fill(31, 65), fill(32, 65), fill(33, 97), fill(64, 48), fill(65, 48), fill(130, 97), [195, 169, 47], [48])).*
}
module small {
  import uri721(IDS = Set(0, 12), STRS = Set([], [97], [48, 49])).*
}
