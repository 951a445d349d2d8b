// Pausing, and the reported cap.
module pausable {
  import evm.* from "./evm"
  const USERS: Set[int]
  const CAPS: Set[int]
  const HITS: int

  var paused: int
  var running: int     // calls guarded by "when not paused" that went through
  var halted: int      // calls guarded by "when paused" that went through
  var cap: int
  var flips: int
  var obs: Obs

  pure val E_RUN = "EnforcedPause()"
  pure val E_HALT = "ExpectedPause()"
  def whenRunning: List[Err] = guard(paused == 1, E_RUN, [])
  def whenHalted: List[Err] = guard(paused == 0, E_HALT, [])

  action call(op: str, by: int, ret: List[List[int]], errs: List[Err], evs: List[Ev], p: int, r: int, h: int): bool = all {
    obs' = { op: op, at: 0, by: by, pay: 0, args: [], errs: errs, ret: ret, evs: evs },
    paused' = if (errs == []) p else paused,
    running' = if (errs == []) r else running,
    halted' = if (errs == []) h else halted,
    flips' = if (errs == [] and p != paused) 1 - flips else flips,
    cap' = cap,
  }
  action pause(by: int): bool =
    call("pause()()", by, [], whenRunning, [{ at: 0, sig: "Paused(address)", args: [[by]] }], 1, running, halted)
  action unpause(by: int): bool =
    call("unpause()()", by, [], whenHalted, [{ at: 0, sig: "Unpaused(address)", args: [[by]] }], 0, running, halted)
  action work(by: int): bool = call("work()()", by, [], whenRunning, [], paused, running + 1, halted)
  action rescue(by: int): bool = call("rescue()()", by, [], whenHalted, [], paused, running, halted + 1)
  action readCap(by: int): bool = call("cap()(uint256)", by, [[cap]], [], [], paused, running, halted)
  action init = {
    nondet c = oneOf(CAPS)
    all { paused' = 0, running' = 0, halted' = 0, flips' = 0, cap' = c, obs' = { ...initObs, args: [[c]] } }
  }
  action step = {
    nondet by = oneOf(USERS)
    any { pause(by), unpause(by), work(by), rescue(by), readCap(by) }
  }
  action stepAll = {
    nondet by = oneOf(USERS)
    any { pause(by), unpause(by), all { running < HITS, work(by) }, all { halted < HITS, rescue(by) } }
  }
  val safety = paused == flips and CAPS.contains(cap)
}
module main {
  import words.* from "./words"
  import pausable(USERS = Set(1, 2, 3), CAPS = EDGES, HITS = 0).*
}
module small {
  import pausable(USERS = Set(1, 2), CAPS = Set(0, 1), HITS = 2).*
}
