\* generated by tools/export_tla.py from math.qnt 521fa868f8721d0a851c759cbbd39454ffcb152df8f4cec751a03ee1287fa4b6
--------------------------------- MODULE math_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  small_math_count

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_math_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_math_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_math_BITS == 4

(*
  @type: ((Int, Int, Int) => Int);
*)
small_math_quot(small_math_p_137, small_math_d_137, small_math_up_137) ==
  IF small_math_d_137 = 0
  THEN 0
  ELSE (small_math_p_137
    + (IF small_math_up_137 = 1 THEN small_math_d_137 - 1 ELSE 0))
    \div small_math_d_137

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_math_guard(small_math_bad_923, small_math_sig_923, small_math_args_923) ==
  IF small_math_bad_923
  THEN <<[sig |-> small_math_sig_923, args |-> small_math_args_923]>>
  ELSE <<>>

(*
  @type: (() => Bool);
*)
small_math_init ==
  \E small_math_k \in { 0, 1 }:
    small_math_count = small_math_k /\ small_math_obs = small_math_initObs

(*
  @type: (() => Int);
*)
small_math_UMAX == 2 ^ small_math_BITS - 1

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str })) => Bool);
*)
small_math_call(small_math_op_59, small_math_args_59, small_math_ret_59, small_math_errs_59) ==
  small_math_obs'
      := [op |-> small_math_op_59,
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |-> small_math_args_59,
        errs |-> small_math_errs_59,
        ret |-> small_math_ret_59,
        evs |-> <<>>]
    /\ small_math_count' := ((small_math_count + 1) % 2)

(*
  @type: (() => Bool);
*)
small_math_isRoot ==
  small_math_obs["op"] = "sqrts(uint256[])(uint256[])"
    => LET (*
      @type: ((Bool, Int) => Bool);
    *)
    __QUINT_LAMBDA1(small_math_a_736, small_math_i_736) ==
      (small_math_a_736
          /\ small_math_obs["ret"][(0 + 1)][(small_math_i_736 + 1)]
            * small_math_obs["ret"][(0 + 1)][(small_math_i_736 + 1)]
            <= small_math_obs["args"][(0 + 1)][(small_math_i_736 + 1)])
        /\ small_math_obs["args"][(0 + 1)][(small_math_i_736 + 1)]
          < (small_math_obs["ret"][(0 + 1)][(small_math_i_736 + 1)] + 1)
            * (small_math_obs["ret"][(0 + 1)][(small_math_i_736 + 1)] + 1)
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, TRUE, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((Len(small_math_obs["ret"][(0 + 1)]) - 0), __QUINT_LAMBDA0)))

(*
  @type: (() => Bool);
*)
small_math_isQuot ==
  small_math_obs["op"] = "mulDiv(uint256,uint256,uint256,bool)(uint256)"
    /\ small_math_obs["errs"] = <<>>
    => (LET (*
      @type: (() => Int);
    *)
    small_math_q == small_math_obs["ret"][(0 + 1)][(0 + 1)]
    IN
    LET (*
      @type: (() => Int);
    *)
    small_math_p ==
      small_math_obs["args"][(0 + 1)][(0 + 1)]
        * small_math_obs["args"][(1 + 1)][(0 + 1)]
    IN
    LET (*
      @type: (() => Int);
    *)
    small_math_d == small_math_obs["args"][(2 + 1)][(0 + 1)]
    IN
    IF small_math_obs["args"][(3 + 1)][(0 + 1)] = 1
    THEN small_math_q * small_math_d >= small_math_p
      /\ (small_math_q - 1) * small_math_d < small_math_p
    ELSE small_math_q * small_math_d <= small_math_p
      /\ (small_math_q + 1) * small_math_d > small_math_p)

(*
  @type: (() => Bool);
*)
q_init == small_math_init

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_math_mulDiv(small_math_x_180, small_math_y_180, small_math_d_180, small_math_up_180) ==
  LET (*
    @type: (() => Int);
  *)
  small_math_q ==
    small_math_quot((small_math_x_180 * small_math_y_180), small_math_d_180, small_math_up_180)
  IN
  small_math_call("mulDiv(uint256,uint256,uint256,bool)(uint256)", <<
    <<small_math_x_180>>, <<small_math_y_180>>, <<small_math_d_180>>, <<
      small_math_up_180
    >>
  >>, <<<<(small_math_q)>>>>, (small_math_guard((small_math_d_180 = 0
    \/ small_math_q > small_math_UMAX), "#empty", <<>>)))

(*
  @type: (() => Bool);
*)
small_math_safety == small_math_isRoot /\ small_math_isQuot

(*
  @type: (() => Bool);
*)
small_math_stepAll ==
  \E small_math_x \in 0 .. small_math_UMAX:
    \E small_math_y \in 0 .. small_math_UMAX:
      \E small_math_d \in 0 .. small_math_UMAX:
        \E small_math_up \in { 0, 1 }:
          small_math_mulDiv(small_math_x, small_math_y, small_math_d, small_math_up)

(*
  @type: (() => Bool);
*)
q_inv == small_math_safety

(*
  @type: (() => Bool);
*)
q_step == small_math_stepAll


View == <<small_math_count>>

==============================================================================
