// Token URIs of ERC-1155: per-token suffix on a base, or the common URI.
module uri1155 {
  import evm.* from "./evm"
  import strings.* from "./strings"
  const IDS: Set[int]
  const STRS: Set[List[int]]

  var common: Str
  var base: Str
  var own: int -> Str
  var shown: int -> Str
  var obs: Obs

  pure def resolve(c: Str, b: Str, o: Str): Str = if (o == []) c else b.concat(o)
  action finish(op: str, by: int, args: List[List[int]], ret: List[List[int]], evs: List[Ev], b: Str, o: int -> Str): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: args, errs: [], ret: ret, evs: evs },
    base' = b, own' = o, common' = common,
    shown' = IDS.mapBy(i => resolve(common, b, o.get(i))),
  }
  action setUri(by: int, id: int, s: Str): bool =
    finish("setTokenUri(uint256,string)()", by, [[id], s], [],
      [{ at: 0, sig: "URI(string,uint256 indexed)", args: [resolve(common, base, s), [id]] }], base, own.set(id, s))
  action setBase(by: int, s: Str): bool =
    finish("setBaseUri(string)()", by, [s], [], [], s, own)
  action readUri(by: int, id: int): bool =
    finish("uri(uint256)(string)", by, [[id]], [resolve(common, base, own.get(id))], [], base, own)
  action init = {
    nondet c = oneOf(STRS)
    all { common' = c, base' = [], own' = IDS.mapBy(_ => []), shown' = IDS.mapBy(_ => c), obs' = { ...initObs, args: [c] } }
  }
  action step = {
    nondet id = oneOf(IDS)
    nondet s = oneOf(STRS)
    nondet by = oneOf(Set(1, 2))
    nondet k = oneOf(0.to(9))
    any {
      setUri(by, id, if (k < 2) [] else s),
      setUri(by, id, s),
      setBase(by, if (k < 2) [] else s),
      readUri(by, id),
    }
  }
  action stepAll = {
    nondet id = oneOf(IDS)
    nondet s = oneOf(STRS)
    any { setUri(1, id, s), setBase(1, s), readUri(1, id) }
  }
  val safety = IDS.forall(i => shown.get(i) == resolve(common, base, own.get(i)))
}
module main {
  import words.* from "./words"
  import strings.* from "./strings"
  import uri1155(IDS = Set(0, 1, 255, 256, 2^128, MAX),
    STRS = Set([], [97], [47], fill(30, 65), fill(31, 65), fill(32, 65), fill(33, 97), fill(64, 48), fill(65, 48), fill(130, 97), [195, 169, 47])).*
}
module small {
  import uri1155(IDS = Set(0, 12), STRS = Set([], [97], [48, 49])).*
}
