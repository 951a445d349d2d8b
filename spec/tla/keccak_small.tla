\* generated by tools/export_tla.py from keccak.qnt ef08423194c48471de329f3b464dc5135efd40093e84058ecfdd2cc137943e56
--------------------------------- MODULE keccak_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
small_keccak_SLOTS == 2

VARIABLE
  (*
    @type: Seq(Seq(Int));
  *)
  small_keccak_fed

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) };
  *)
  small_keccak_obs

(*
  @type: (() => { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) });
*)
small_keccak_noObs == [op |-> "init", args |-> <<>>, ret |-> <<>>, bad |-> ""]

(*
  @type: (() => Int);
*)
small_keccak_TOP == 1

(*
  @type: ((Int, Int) => Int);
*)
small_keccak_minOf(small_keccak_a_758, small_keccak_b_758) ==
  IF small_keccak_a_758 < small_keccak_b_758
  THEN small_keccak_a_758
  ELSE small_keccak_b_758

(*
  @type: ((Int, Int) => Int);
*)
small_keccak_cmp(small_keccak_a_791, small_keccak_b_791) ==
  IF small_keccak_a_791 < small_keccak_b_791
  THEN 0 - 1
  ELSE IF small_keccak_a_791 = small_keccak_b_791 THEN 0 ELSE 1

(*
  @type: (() => Bool);
*)
small_keccak_init ==
  LET (*
    @type: (() => Seq(Seq(a)));
  *)
  small_keccak_none ==
    LET (*
      @type: ((Seq(Seq(a)), Int) => Seq(Seq(a)));
    *)
    __QUINT_LAMBDA1(small_keccak_l_237, small_keccak_i_237) ==
      Append(small_keccak_l_237, <<>>)
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((small_keccak_SLOTS - 0), __QUINT_LAMBDA0)))
  IN
  small_keccak_fed = small_keccak_none /\ small_keccak_obs = small_keccak_noObs

(*
  @type: ((Int, Seq(Int)) => Bool);
*)
small_keccak_update(small_keccak_s_74, small_keccak_x_74) ==
  small_keccak_obs'
      := [op |-> "update",
        args |-> <<<<small_keccak_s_74>>, small_keccak_x_74>>,
        ret |-> <<>>,
        bad |-> ""]
    /\ small_keccak_fed'
      := [
        small_keccak_fed EXCEPT
          ![small_keccak_s_74 + 1] =
            small_keccak_fed[(small_keccak_s_74 + 1)] \o small_keccak_x_74
      ]

(*
  @type: ((Int) => Bool);
*)
small_keccak_finalize(small_keccak_s_102) ==
  small_keccak_obs'
      := [op |-> "finalize",
        args |-> <<<<small_keccak_s_102>>>>,
        ret |-> <<small_keccak_fed[(small_keccak_s_102 + 1)]>>,
        bad |-> ""]
    /\ small_keccak_fed'
      := [ small_keccak_fed EXCEPT ![small_keccak_s_102 + 1] = <<>> ]

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int))) => Bool);
*)
small_keccak_done(small_keccak_op_41, small_keccak_args_41, small_keccak_ret_41) ==
  small_keccak_obs'
      := [op |-> small_keccak_op_41,
        args |-> small_keccak_args_41,
        ret |-> small_keccak_ret_41,
        bad |-> ""]
    /\ small_keccak_fed' := small_keccak_fed

(*
  @type: ((Seq(Int), Seq(Int)) => Bool);
*)
small_keccak_lessOrEq(small_keccak_x_193, small_keccak_y_193) ==
  LET (*
    @type: (() => Int);
  *)
  small_keccak_n ==
    small_keccak_minOf((Len(small_keccak_x_193)), (Len(small_keccak_y_193)))
  IN
  LET (*
    @type: (() => Int);
  *)
  small_keccak_d ==
    LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA3(small_keccak_s_175, small_keccak_i_175) ==
      IF small_keccak_s_175 /= 0
      THEN small_keccak_s_175
      ELSE small_keccak_cmp(small_keccak_x_193[(small_keccak_i_175 + 1)], small_keccak_y_193[
        (small_keccak_i_175 + 1)
      ])
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA3, 0, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
    IN
    MkSeq((small_keccak_n - 0), __QUINT_LAMBDA2)))
  IN
  small_keccak_d < 0
    \/ (small_keccak_d = 0 /\ Len(small_keccak_x_193) <= Len(small_keccak_y_193))

(*
  @type: (() => Bool);
*)
q_init == small_keccak_init

(*
  @type: ((Seq(Int), Int) => Bool);
*)
small_keccak_hashOne(small_keccak_x_118, small_keccak_c_118) ==
  small_keccak_done("hashOne", <<small_keccak_x_118, <<small_keccak_c_118>>>>, <<
    small_keccak_x_118
  >>)

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int)) => Bool);
*)
small_keccak_hashPair(small_keccak_p_142, small_keccak_x_142, small_keccak_y_142) ==
  small_keccak_done("hashPair", <<
    small_keccak_p_142, small_keccak_x_142, small_keccak_y_142
  >>, <<((small_keccak_p_142 \o small_keccak_x_142) \o small_keccak_y_142)>>)

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int)) => Bool);
*)
small_keccak_commutative(small_keccak_p_226, small_keccak_x_226, small_keccak_y_226) ==
  small_keccak_done("commutative", <<
    small_keccak_p_226, small_keccak_x_226, small_keccak_y_226
  >>, <<
    (IF small_keccak_lessOrEq(small_keccak_x_226, small_keccak_y_226)
    THEN (small_keccak_p_226 \o small_keccak_x_226) \o small_keccak_y_226
    ELSE (small_keccak_p_226 \o small_keccak_y_226) \o small_keccak_x_226)
  >>)

(*
  @type: (() => Bool);
*)
small_keccak_symmetric ==
  small_keccak_obs["op"] = "commutative"
    => (LET (*
      @type: (() => Seq(Int));
    *)
    small_keccak_x == small_keccak_obs["args"][(1 + 1)]
    IN
    LET (*
      @type: (() => Seq(Int));
    *)
    small_keccak_y == small_keccak_obs["args"][(2 + 1)]
    IN
    small_keccak_obs["ret"]
      = <<
        ((small_keccak_obs["args"][(0 + 1)]
          \o (IF small_keccak_lessOrEq((small_keccak_y), (small_keccak_x))
          THEN small_keccak_y
          ELSE small_keccak_x))
          \o (IF small_keccak_lessOrEq((small_keccak_y), (small_keccak_x))
          THEN small_keccak_x
          ELSE small_keccak_y))
      >>)

(*
  @type: (() => Bool);
*)
small_keccak_stepAll ==
  \E small_keccak_s \in 0 .. small_keccak_SLOTS - 1:
    \E small_keccak_n \in 0 .. 2:
      \E small_keccak_a \in 0 .. small_keccak_TOP:
        \E small_keccak_b \in 0 .. small_keccak_TOP:
          (Len(small_keccak_fed[(small_keccak_s + 1)]) < 2
              /\ small_keccak_update(small_keccak_s, (SubSeq(<<
                small_keccak_a, small_keccak_b
              >>, (0 + 1), small_keccak_n))))
            \/ small_keccak_finalize(small_keccak_s)
            \/ small_keccak_hashOne(<<small_keccak_a, small_keccak_b>>, small_keccak_n)
            \/ small_keccak_hashPair(<<>>, (SubSeq(<<
              small_keccak_a, small_keccak_b
            >>, (0 + 1), small_keccak_n)), <<small_keccak_b>>)
            \/ small_keccak_commutative(<<>>, (SubSeq(<<
              small_keccak_a, small_keccak_b
            >>, (0 + 1), small_keccak_n)), <<small_keccak_b, small_keccak_a>>)
            \/ small_keccak_commutative(<<>>, (SubSeq(<<
              small_keccak_a, small_keccak_b
            >>, (0 + 1), small_keccak_n)), <<small_keccak_b>>)

(*
  @type: (() => Bool);
*)
small_keccak_safety == small_keccak_symmetric

(*
  @type: (() => Bool);
*)
q_step == small_keccak_stepAll

(*
  @type: (() => Bool);
*)
q_inv == small_keccak_safety


View == <<small_keccak_fed>>

==============================================================================
