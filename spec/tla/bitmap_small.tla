\* generated by tools/export_tla.py from bitmap.qnt 46f8c43225f5cba66d7d565b421848d5c8b127ac2661ba241262748c636036ff
--------------------------------- MODULE bitmap_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_bitmap_bits

VARIABLE
  (*
    @type: Set(Int);
  *)
  small_bitmap_members

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_bitmap_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_bitmap_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Set(Int));
*)
small_bitmap_FIXED == { 0, 1, 2, 3, 4, 5, 6 }

(*
  @type: ((Set(Int)) => Bool);
*)
small_bitmap_start(small_bitmap_is_159) ==
  small_bitmap_bits = [ small_bitmap___148 \in small_bitmap_is_159 |-> 0 ]
    /\ small_bitmap_members = {}
    /\ small_bitmap_obs = small_bitmap_initObs

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int)), Int, Int) => Bool);
*)
small_bitmap_call(small_bitmap_op_77, small_bitmap_args_77, small_bitmap_ret_77,
small_bitmap_i_77, small_bitmap_b_77) ==
  small_bitmap_obs'
      := [op |-> small_bitmap_op_77,
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |-> small_bitmap_args_77,
        errs |-> <<>>,
        ret |-> small_bitmap_ret_77,
        evs |-> <<>>]
    /\ small_bitmap_bits'
      := [ small_bitmap_bits EXCEPT ![small_bitmap_i_77] = small_bitmap_b_77 ]
    /\ small_bitmap_members'
      := (IF small_bitmap_b_77 = 1
      THEN small_bitmap_members \union {small_bitmap_i_77}
      ELSE small_bitmap_members \ {small_bitmap_i_77})

(*
  @type: (() => Bool);
*)
small_bitmap_safety ==
  \A small_bitmap_i_272 \in DOMAIN small_bitmap_bits:
    small_bitmap_i_272 \in small_bitmap_members
      <=> small_bitmap_bits[small_bitmap_i_272] = 1

(*
  @type: (() => Bool);
*)
small_bitmap_initAll == small_bitmap_start((small_bitmap_FIXED))

(*
  @type: ((Int) => Bool);
*)
small_bitmap_insert(small_bitmap_i_90) ==
  small_bitmap_call("set(uint256)()", <<<<small_bitmap_i_90>>>>, <<>>, small_bitmap_i_90,
  1)

(*
  @type: ((Int) => Bool);
*)
small_bitmap_unset(small_bitmap_i_103) ==
  small_bitmap_call("unset(uint256)()", <<<<small_bitmap_i_103>>>>, <<>>, small_bitmap_i_103,
  0)

(*
  @type: ((Int, Int) => Bool);
*)
small_bitmap_setTo(small_bitmap_i_120, small_bitmap_b_120) ==
  small_bitmap_call("setTo(uint256,bool)()", <<
    <<small_bitmap_i_120>>, <<small_bitmap_b_120>>
  >>, <<>>, small_bitmap_i_120, small_bitmap_b_120)

(*
  @type: (() => Bool);
*)
q_inv == small_bitmap_safety

(*
  @type: (() => Bool);
*)
q_init == small_bitmap_initAll

(*
  @type: (() => Bool);
*)
small_bitmap_stepAll ==
  \E small_bitmap_i \in DOMAIN small_bitmap_bits:
    \E small_bitmap_b \in { 0, 1 }:
      small_bitmap_insert(small_bitmap_i)
        \/ small_bitmap_unset(small_bitmap_i)
        \/ small_bitmap_setTo(small_bitmap_i, small_bitmap_b)

(*
  @type: (() => Bool);
*)
q_step == small_bitmap_stepAll


View == <<small_bitmap_bits, small_bitmap_members>>

==============================================================================
