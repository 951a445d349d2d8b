\* generated by tools/export_tla.py from pausable.qnt f8e3b8e1224bc81bbeab9c9e21d2404b1c8a61d513b447eab8621522bcfa56b5
--------------------------------- MODULE pausable_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_pausable_CAPS == { 0, 1 }

VARIABLE
  (*
    @type: Int;
  *)
  small_pausable_paused

VARIABLE
  (*
    @type: Int;
  *)
  small_pausable_running

VARIABLE
  (*
    @type: Int;
  *)
  small_pausable_halted

VARIABLE
  (*
    @type: Int;
  *)
  small_pausable_flips

VARIABLE
  (*
    @type: Int;
  *)
  small_pausable_cap

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_pausable_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_pausable_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Set(Int));
*)
small_pausable_USERS == { 1, 2 }

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_pausable_guard(small_pausable_bad_402, small_pausable_sig_402, small_pausable_args_402) ==
  IF small_pausable_bad_402
  THEN <<[sig |-> small_pausable_sig_402, args |-> small_pausable_args_402]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_pausable_E_RUN == "EnforcedPause()"

(*
  @type: (() => Str);
*)
small_pausable_E_HALT == "ExpectedPause()"

(*
  @type: (() => Int);
*)
small_pausable_HITS == 2

(*
  @type: (() => Bool);
*)
small_pausable_init ==
  \E small_pausable_c \in small_pausable_CAPS:
    small_pausable_paused = 0
      /\ small_pausable_running = 0
      /\ small_pausable_halted = 0
      /\ small_pausable_flips = 0
      /\ small_pausable_cap = small_pausable_c
      /\ small_pausable_obs
        = [
          (small_pausable_initObs) EXCEPT
            !["args"] = <<<<small_pausable_c>>>>
        ]

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), Int, Int, Int) => Bool);
*)
small_pausable_call(small_pausable_op_126, small_pausable_by_126, small_pausable_ret_126,
small_pausable_errs_126, small_pausable_evs_126, small_pausable_p_126, small_pausable_r_126,
small_pausable_h_126) ==
  small_pausable_obs'
      := [op |-> small_pausable_op_126,
        at |-> 0,
        by |-> small_pausable_by_126,
        pay |-> 0,
        args |-> <<>>,
        errs |-> small_pausable_errs_126,
        ret |-> small_pausable_ret_126,
        evs |-> small_pausable_evs_126]
    /\ small_pausable_paused'
      := (IF small_pausable_errs_126 = <<>>
      THEN small_pausable_p_126
      ELSE small_pausable_paused)
    /\ small_pausable_running'
      := (IF small_pausable_errs_126 = <<>>
      THEN small_pausable_r_126
      ELSE small_pausable_running)
    /\ small_pausable_halted'
      := (IF small_pausable_errs_126 = <<>>
      THEN small_pausable_h_126
      ELSE small_pausable_halted)
    /\ small_pausable_flips'
      := (IF small_pausable_errs_126 = <<>>
        /\ small_pausable_p_126 /= small_pausable_paused
      THEN 1 - small_pausable_flips
      ELSE small_pausable_flips)
    /\ small_pausable_cap' := small_pausable_cap

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_pausable_whenRunning ==
  small_pausable_guard((small_pausable_paused = 1), (small_pausable_E_RUN), <<>>)

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_pausable_whenHalted ==
  small_pausable_guard((small_pausable_paused = 0), (small_pausable_E_HALT), <<
    
  >>)

(*
  @type: (() => Bool);
*)
small_pausable_safety ==
  small_pausable_paused = small_pausable_flips
    /\ small_pausable_cap \in small_pausable_CAPS

(*
  @type: (() => Bool);
*)
q_init == small_pausable_init

(*
  @type: ((Int) => Bool);
*)
small_pausable_pause(small_pausable_by_149) ==
  small_pausable_call("pause()()", small_pausable_by_149, <<>>, (small_pausable_whenRunning),
  <<
    [at |-> 0,
      sig |-> "Paused(address)",
      args |-> <<<<small_pausable_by_149>>>>]
  >>, 1, small_pausable_running, small_pausable_halted)

(*
  @type: ((Int) => Bool);
*)
small_pausable_unpause(small_pausable_by_172) ==
  small_pausable_call("unpause()()", small_pausable_by_172, <<>>, (small_pausable_whenHalted),
  <<
    [at |-> 0,
      sig |-> "Unpaused(address)",
      args |-> <<<<small_pausable_by_172>>>>]
  >>, 0, small_pausable_running, small_pausable_halted)

(*
  @type: ((Int) => Bool);
*)
small_pausable_work(small_pausable_by_188) ==
  small_pausable_call("work()()", small_pausable_by_188, <<>>, (small_pausable_whenRunning),
  <<>>, small_pausable_paused, (small_pausable_running + 1), small_pausable_halted)

(*
  @type: ((Int) => Bool);
*)
small_pausable_rescue(small_pausable_by_204) ==
  small_pausable_call("rescue()()", small_pausable_by_204, <<>>, (small_pausable_whenHalted),
  <<>>, small_pausable_paused, small_pausable_running, (small_pausable_halted
    + 1))

(*
  @type: (() => Bool);
*)
q_inv == small_pausable_safety

(*
  @type: (() => Bool);
*)
small_pausable_stepAll ==
  \E small_pausable_by \in small_pausable_USERS:
    small_pausable_pause(small_pausable_by)
      \/ small_pausable_unpause(small_pausable_by)
      \/ (small_pausable_running < small_pausable_HITS
        /\ small_pausable_work(small_pausable_by))
      \/ (small_pausable_halted < small_pausable_HITS
        /\ small_pausable_rescue(small_pausable_by))

(*
  @type: (() => Bool);
*)
q_step == small_pausable_stepAll


View == <<small_pausable_paused, small_pausable_running, small_pausable_halted, small_pausable_flips, small_pausable_cap>>

==============================================================================
