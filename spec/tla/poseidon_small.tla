\* generated by tools/export_tla.py from poseidon.qnt d992214cfe8696a92fd2c4c5dedc346ae2143aa08b4c864109550188c25628f6
--------------------------------- MODULE poseidon_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_poseidon_IDS == { 0, 1 }

VARIABLE
  (*
    @type: Int;
  *)
  small_poseidon_id

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_poseidon_lanes

VARIABLE
  (*
    @type: Int;
  *)
  small_poseidon_index

VARIABLE
  (*
    @type: Bool;
  *)
  small_poseidon_squeezing

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) };
  *)
  small_poseidon_obs

(*
  @type: (() => { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) });
*)
small_poseidon_noObs == [op |-> "init", args |-> <<>>, ret |-> <<>>, bad |-> ""]

(*
  @type: (() => Seq(Seq(Int)));
*)
small_poseidon_SPONGES == <<<<17, 2, 3, 1, 2, 1>>, <<11, 2, 3, 0, 2, 1>>>>

(*
  @type: (() => Seq(Seq(Int)));
*)
small_poseidon_M4 ==
  <<<<5, 7, 1, 3>>, <<4, 6, 1, 1>>, <<1, 3, 5, 7>>, <<1, 1, 4, 6>>>>

(*
  @type: ((Seq(Int), Seq(Int), Int) => Seq(Int));
*)
small_poseidon_internal(small_poseidon_x_203, small_poseidon_d_203, small_poseidon_q_203) ==
  LET (*
    @type: (() => Int);
  *)
  small_poseidon_total ==
    LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA6(small_poseidon_s_177, small_poseidon_v_177) ==
      small_poseidon_s_177 + small_poseidon_v_177
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA6, 0, small_poseidon_x_203)
  IN
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA8(small_poseidon_r_200, small_poseidon_i_200) ==
    Append(small_poseidon_r_200, ((small_poseidon_total
      + small_poseidon_d_203[(small_poseidon_i_200 + 1)]
        * small_poseidon_x_203[(small_poseidon_i_200 + 1)])
      % small_poseidon_q_203))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA8, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA7(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq((Len(small_poseidon_x_203) - 0), __QUINT_LAMBDA7)))

(*
  @type: ((Int, Int, Int) => Int);
*)
small_poseidon_power(small_poseidon_x_225, small_poseidon_d_225, small_poseidon_q_225) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA10(small_poseidon_s_223, small_poseidon_i_223) ==
    small_poseidon_s_223 * small_poseidon_x_225 % small_poseidon_q_225
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA10, 1, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA9(__quint_var4) == (0 + __quint_var4) - 1
  IN
  MkSeq((small_poseidon_d_225 - 0), __QUINT_LAMBDA9)))

(*
  @type: (() => Seq(Seq(Int)));
*)
small_poseidon_DIAGS == <<<<1, 2>>, <<1, 2>>>>

(*
  @type: (() => Seq(Seq(Seq(Int))));
*)
small_poseidon_RCS ==
  <<<<<<1, 4>>, <<2, 0>>, <<0, 3>>>>, <<<<7, 4>>, <<2, 0>>, <<10, 3>>>>>>

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_poseidon_start(small_poseidon_i_755, small_poseidon_n_755, small_poseidon_cap_755) ==
  LET (*
    @type: (() => Seq(Int));
  *)
  small_poseidon_zeros ==
    LET (*
      @type: ((Seq(Int), Int) => Seq(Int));
    *)
    __QUINT_LAMBDA1(small_poseidon_l_730, small_poseidon_k_730) ==
      Append(small_poseidon_l_730, 0)
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((small_poseidon_n_755 - 0), __QUINT_LAMBDA0)))
  IN
  small_poseidon_id = small_poseidon_i_755
    /\ small_poseidon_lanes = small_poseidon_zeros
    /\ small_poseidon_index = small_poseidon_cap_755
    /\ small_poseidon_squeezing = FALSE
    /\ small_poseidon_obs
      = [
        (small_poseidon_noObs) EXCEPT
          !["args"] = <<<<small_poseidon_i_755>>>>
      ]

(*
  @type: (() => Int);
*)
small_poseidon_p == (small_poseidon_SPONGES)[(small_poseidon_id + 1)][(0 + 1)]

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int)), Bool, { index: Int, lanes: Seq(Int) }, Bool) => Bool);
*)
small_poseidon_become(small_poseidon_op_476, small_poseidon_args_476, small_poseidon_ret_476,
small_poseidon_bad_476, small_poseidon_s_476, small_poseidon_sq_476) ==
  small_poseidon_obs'
      := [op |-> small_poseidon_op_476,
        args |-> small_poseidon_args_476,
        ret |-> IF small_poseidon_bad_476 THEN <<>> ELSE small_poseidon_ret_476,
        bad |-> IF small_poseidon_bad_476 THEN "panic" ELSE ""]
    /\ small_poseidon_lanes' := small_poseidon_s_476["lanes"]
    /\ small_poseidon_index' := small_poseidon_s_476["index"]
    /\ small_poseidon_squeezing' := small_poseidon_sq_476
    /\ small_poseidon_id' := small_poseidon_id

(*
  @type: (() => { index: Int, lanes: Seq(Int) });
*)
small_poseidon_now ==
  [lanes |-> small_poseidon_lanes, index |-> small_poseidon_index]

(*
  @type: (() => Int);
*)
small_poseidon_t == (small_poseidon_SPONGES)[(small_poseidon_id + 1)][(1 + 1)]

(*
  @type: ((Int, Int, Int) => Int);
*)
small_poseidon_ext(small_poseidon_n_116, small_poseidon_i_116, small_poseidon_j_116) ==
  IF small_poseidon_n_116 < 4
  THEN IF small_poseidon_i_116 = small_poseidon_j_116 THEN 2 ELSE 1
  ELSE (small_poseidon_M4)[((small_poseidon_i_116 % 4) + 1)][
    ((small_poseidon_j_116 % 4) + 1)
  ]
    * (IF small_poseidon_n_116 > 4
      /\ small_poseidon_i_116 \div 4 = small_poseidon_j_116 \div 4
    THEN 2
    ELSE 1)

(*
  @type: (() => Int);
*)
small_poseidon_capacity ==
  (small_poseidon_SPONGES)[(small_poseidon_id + 1)][(3 + 1)]

(*
  @type: (() => Bool);
*)
small_poseidon_init ==
  \E small_poseidon_i \in small_poseidon_IDS:
    small_poseidon_start(small_poseidon_i, (small_poseidon_SPONGES)[
      (small_poseidon_i + 1)
    ][
      (1 + 1)
    ], (small_poseidon_SPONGES)[(small_poseidon_i + 1)][(3 + 1)])

(*
  @type: ((Seq(Int), Int) => Seq(Int));
*)
small_poseidon_external(small_poseidon_x_158, small_poseidon_q_158) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA5(small_poseidon_r_156, small_poseidon_i_156) ==
    Append(small_poseidon_r_156, (LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA4(small_poseidon_s_151, small_poseidon_j_151) ==
      small_poseidon_s_151
        + small_poseidon_ext((Len(small_poseidon_x_158)), small_poseidon_i_156, small_poseidon_j_151)
          * small_poseidon_x_158[(small_poseidon_j_151 + 1)]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA4, 0, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA3(__quint_var2) == (0 + __quint_var2) - 1
    IN
    MkSeq((Len(small_poseidon_x_158) - 0), __QUINT_LAMBDA3)))
      % small_poseidon_q_158))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((Len(small_poseidon_x_158) - 0), __QUINT_LAMBDA2)))

(*
  @type: ((Str, Seq(Seq(Int)), { out: Seq(Int), s: { index: Int, lanes: Seq(Int) }, sq: Bool }) => Bool);
*)
small_poseidon_give(small_poseidon_op_673, small_poseidon_args_673, small_poseidon_o_673) ==
  small_poseidon_become(small_poseidon_op_673, small_poseidon_args_673, <<
    small_poseidon_o_673["out"]
  >>, FALSE, small_poseidon_o_673["s"], small_poseidon_o_673["sq"])

(*
  @type: ((Str) => Bool);
*)
small_poseidon_fresh(small_poseidon_op_504) ==
  small_poseidon_become(small_poseidon_op_504, <<>>, <<<<(small_poseidon_t)>>>>,
  FALSE, [lanes |->
      LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA19(small_poseidon_l_496, small_poseidon_i_496) ==
        Append(small_poseidon_l_496, 0)
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA19, <<>>, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA18(__quint_var8) == (0 + __quint_var8) - 1
      IN
      MkSeq((small_poseidon_t - 0), __QUINT_LAMBDA18))),
    index |-> small_poseidon_capacity], FALSE)

(*
  @type: (() => Bool);
*)
small_poseidon_inRange ==
  (LET (*
        @type: ((Bool, Int) => Bool);
      *)
      __QUINT_LAMBDA21(small_poseidon_a_945, small_poseidon_i_945) ==
        (small_poseidon_a_945
            /\ small_poseidon_lanes[(small_poseidon_i_945 + 1)] >= 0)
          /\ small_poseidon_lanes[(small_poseidon_i_945 + 1)] < small_poseidon_p
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA21, TRUE, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA20(__quint_var9) == (0 + __quint_var9) - 1
      IN
      MkSeq((Len(small_poseidon_lanes) - 0), __QUINT_LAMBDA20)))
      /\ small_poseidon_index >= small_poseidon_capacity)
    /\ small_poseidon_index <= small_poseidon_t

(*
  @type: (() => Bool);
*)
q_init == small_poseidon_init

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int), Seq(Seq(Int))) => Seq(Int));
*)
small_poseidon_permuted(small_poseidon_x_343, small_poseidon_sp_343, small_poseidon_d_343,
small_poseidon_rc_343) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA14(small_poseidon_s_341, small_poseidon_r_341) ==
    IF small_poseidon_r_341 >= small_poseidon_sp_343[(4 + 1)] \div 2
      /\ small_poseidon_r_341
        < small_poseidon_sp_343[(4 + 1)] \div 2 + small_poseidon_sp_343[(5 + 1)]
    THEN small_poseidon_internal([
      small_poseidon_s_341 EXCEPT
        ![0 + 1] =
          small_poseidon_power(((small_poseidon_s_341[(0 + 1)]
            + small_poseidon_rc_343[(small_poseidon_r_341 + 1)][(0 + 1)])
            % small_poseidon_sp_343[(0 + 1)]), small_poseidon_sp_343[(2 + 1)], small_poseidon_sp_343[
            (0 + 1)
          ])
    ], small_poseidon_d_343, small_poseidon_sp_343[(0 + 1)])
    ELSE small_poseidon_external(LET (*
      @type: ((Seq(Int), Int) => Seq(Int));
    *)
    __QUINT_LAMBDA13(small_poseidon_l_334, small_poseidon_i_334) ==
      Append(small_poseidon_l_334, (small_poseidon_power(((small_poseidon_s_341[
        (small_poseidon_i_334 + 1)
      ]
        + small_poseidon_rc_343[(small_poseidon_r_341 + 1)][
          (small_poseidon_i_334 + 1)
        ])
        % small_poseidon_sp_343[(0 + 1)]), small_poseidon_sp_343[(2 + 1)], small_poseidon_sp_343[
        (0 + 1)
      ])))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA13, <<>>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA12(__quint_var6) == (0 + __quint_var6) - 1
    IN
    MkSeq((Len(small_poseidon_s_341) - 0), __QUINT_LAMBDA12))), small_poseidon_sp_343[
      (0 + 1)
    ])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA14, (small_poseidon_external(small_poseidon_x_343,
  small_poseidon_sp_343[(0 + 1)])), (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA11(__quint_var5) == (0 + __quint_var5) - 1
  IN
  MkSeq(((small_poseidon_sp_343[(4 + 1)] + small_poseidon_sp_343[(5 + 1)]) - 0),
  __QUINT_LAMBDA11)))

(*
  @type: (() => Bool);
*)
small_poseidon_safety ==
  small_poseidon_inRange /\ Len(small_poseidon_lanes) = small_poseidon_t

(*
  @type: ((Seq(Int)) => Seq(Int));
*)
small_poseidon_perm(small_poseidon_x_366) ==
  small_poseidon_permuted(small_poseidon_x_366, (small_poseidon_SPONGES)[
    (small_poseidon_id + 1)
  ], (small_poseidon_DIAGS)[(small_poseidon_id + 1)], (small_poseidon_RCS)[
    (small_poseidon_id + 1)
  ])

(*
  @type: (({ index: Int, lanes: Seq(Int) }, Int) => { index: Int, lanes: Seq(Int) });
*)
small_poseidon_absorbed(small_poseidon_s_416, small_poseidon_x_416) ==
  LET (*
    @type: (() => { index: Int, lanes: Seq(Int) });
  *)
  small_poseidon_f ==
    IF small_poseidon_s_416["index"] = small_poseidon_t
    THEN [lanes |-> small_poseidon_perm(small_poseidon_s_416["lanes"]),
      index |-> small_poseidon_capacity]
    ELSE small_poseidon_s_416
  IN
  [lanes |->
      [
        (small_poseidon_f)["lanes"] EXCEPT
          ![(small_poseidon_f)["index"] + 1] =
            ((small_poseidon_f)["lanes"][((small_poseidon_f)["index"] + 1)]
              + small_poseidon_x_416)
              % small_poseidon_p
      ],
    index |-> (small_poseidon_f)["index"] + 1]

(*
  @type: (() => Bool);
*)
small_poseidon_permute ==
  small_poseidon_become("permute", <<>>, <<>>, FALSE, [lanes |->
      small_poseidon_perm(small_poseidon_lanes),
    index |-> small_poseidon_index], small_poseidon_squeezing)

(*
  @type: (({ out: Seq(Int), s: { index: Int, lanes: Seq(Int) }, sq: Bool }) => { out: Seq(Int), s: { index: Int, lanes: Seq(Int) }, sq: Bool });
*)
small_poseidon_squeezed(small_poseidon_o_648) ==
  LET (*
    @type: (() => { index: Int, lanes: Seq(Int) });
  *)
  small_poseidon_f ==
    IF ~(small_poseidon_o_648["sq"])
      \/ small_poseidon_o_648["s"]["index"] = small_poseidon_t
    THEN [lanes |-> small_poseidon_perm(small_poseidon_o_648["s"]["lanes"]),
      index |-> small_poseidon_capacity]
    ELSE small_poseidon_o_648["s"]
  IN
  [s |->
      [lanes |-> (small_poseidon_f)["lanes"],
        index |-> (small_poseidon_f)["index"] + 1],
    sq |-> TRUE,
    out |->
      Append(small_poseidon_o_648["out"], (small_poseidon_f)["lanes"][
        ((small_poseidon_f)["index"] + 1)
      ])]

(*
  @type: (() => Bool);
*)
small_poseidon_bijective ==
  small_poseidon_obs["op"] = "init"
    => Cardinality({
      small_poseidon_perm(<<small_poseidon_x_988[1], small_poseidon_x_988[2]>>):
        small_poseidon_x_988 \in
          (0 .. small_poseidon_p - 1) \X (0 .. small_poseidon_p - 1)
    })
      = small_poseidon_p * small_poseidon_p

(*
  @type: ((Int) => Bool);
*)
small_poseidon_absorb(small_poseidon_x_531) ==
  IF small_poseidon_squeezing
  THEN small_poseidon_become("absorb", <<<<small_poseidon_x_531>>>>, <<>>, TRUE,
  (small_poseidon_now), TRUE)
  ELSE small_poseidon_become("absorb", <<<<small_poseidon_x_531>>>>, <<>>, FALSE,
  (small_poseidon_absorbed((small_poseidon_now), small_poseidon_x_531)), FALSE)

(*
  @type: ((Seq(Int)) => Bool);
*)
small_poseidon_absorbBatch(small_poseidon_xs_568) ==
  IF small_poseidon_squeezing /\ Len(small_poseidon_xs_568) > 0
  THEN small_poseidon_become("absorbBatch", <<small_poseidon_xs_568>>, <<>>, TRUE,
  (small_poseidon_now), TRUE)
  ELSE small_poseidon_become("absorbBatch", <<small_poseidon_xs_568>>, <<>>, FALSE,
  LET (*
    @type: (({ index: Int, lanes: Seq(Int) }, Int) => { index: Int, lanes: Seq(Int) });
  *)
  __QUINT_LAMBDA15(small_poseidon_s_563, small_poseidon_x_563) ==
    small_poseidon_absorbed(small_poseidon_s_563, small_poseidon_x_563)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA15, (small_poseidon_now), small_poseidon_xs_568),
  small_poseidon_squeezing)

(*
  @type: (() => Bool);
*)
small_poseidon_squeeze ==
  small_poseidon_give("squeeze", <<>>, (small_poseidon_squeezed([s |->
      small_poseidon_now,
    sq |-> small_poseidon_squeezing,
    out |-> <<>>])))

(*
  @type: ((Int) => Bool);
*)
small_poseidon_squeezeBatch(small_poseidon_n_712) ==
  small_poseidon_give("squeezeBatch", <<<<small_poseidon_n_712>>>>, LET (*
    @type: (({ out: Seq(Int), s: { index: Int, lanes: Seq(Int) }, sq: Bool }, Int) => { out: Seq(Int), s: { index: Int, lanes: Seq(Int) }, sq: Bool });
  *)
  __QUINT_LAMBDA17(small_poseidon_o_709, small_poseidon_i_709) ==
    small_poseidon_squeezed(small_poseidon_o_709)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA17, [s |-> small_poseidon_now,
    sq |-> small_poseidon_squeezing,
    out |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA16(__quint_var7) == (0 + __quint_var7) - 1
  IN
  MkSeq((small_poseidon_n_712 - 0), __QUINT_LAMBDA16))))

(*
  @type: (() => Bool);
*)
small_poseidon_laws == small_poseidon_safety /\ small_poseidon_bijective

(*
  @type: (() => Bool);
*)
small_poseidon_stepAll ==
  \E small_poseidon_x \in 0 .. small_poseidon_p - 1:
    \E small_poseidon_n \in 0 .. 2:
      small_poseidon_absorb(small_poseidon_x)
        \/ small_poseidon_absorbBatch((SubSeq(<<small_poseidon_x, 1>>, (0 + 1), small_poseidon_n)))
        \/ small_poseidon_permute
        \/ small_poseidon_squeeze
        \/ small_poseidon_squeezeBatch(small_poseidon_n)
        \/ small_poseidon_fresh("fresh")

(*
  @type: (() => Bool);
*)
q_inv == small_poseidon_laws

(*
  @type: (() => Bool);
*)
q_step == small_poseidon_stepAll


View == <<small_poseidon_id, small_poseidon_lanes, small_poseidon_index, small_poseidon_squeezing>>

==============================================================================
