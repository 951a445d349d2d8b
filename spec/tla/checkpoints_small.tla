\* generated by tools/export_tla.py from checkpoints.qnt efc01b84dc4d6f4162def2e0f98a79ae87b70d74fdfde838b7f79ee647770f27
--------------------------------- MODULE checkpoints_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_checkpoints_KINDS == {0}

VARIABLE
  (*
    @type: Int;
  *)
  small_checkpoints_kind

VARIABLE
  (*
    @type: Seq({ k: Int, v: Int });
  *)
  small_checkpoints_cps

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_checkpoints_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_checkpoints_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => (Int -> Int));
*)
small_checkpoints_KMAX == SetAsFun({<<0, 6>>})

(*
  @type: (() => (Int -> Int));
*)
small_checkpoints_VMAX == SetAsFun({<<0, 2>>})

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_checkpoints_guard(small_checkpoints_bad_1007, small_checkpoints_sig_1007, small_checkpoints_args_1007) ==
  IF small_checkpoints_bad_1007
  THEN <<
    [sig |-> small_checkpoints_sig_1007, args |-> small_checkpoints_args_1007]
  >>
  ELSE <<>>

(*
  @type: ((Seq({ k: Int, v: Int }), Int, Int) => Seq({ k: Int, v: Int }));
*)
small_checkpoints_place(small_checkpoints_l_158, small_checkpoints_k_158, small_checkpoints_v_158) ==
  IF Len(small_checkpoints_l_158) > 0
    /\ small_checkpoints_l_158[(Len(small_checkpoints_l_158) - 1 + 1)]["k"]
      = small_checkpoints_k_158
  THEN [
    small_checkpoints_l_158 EXCEPT
      ![Len(small_checkpoints_l_158) - 1 + 1] =
        [k |-> small_checkpoints_k_158, v |-> small_checkpoints_v_158]
  ]
  ELSE Append(small_checkpoints_l_158, [k |-> small_checkpoints_k_158,
    v |-> small_checkpoints_v_158])

(*
  @type: ((Seq({ k: Int, v: Int }), Int) => Int);
*)
small_checkpoints_upper(small_checkpoints_l_74, small_checkpoints_x_74) ==
  LET (*
    @type: ((Int, { k: Int, v: Int }) => Int);
  *)
  __QUINT_LAMBDA2(small_checkpoints_acc_72, small_checkpoints_c_72) ==
    IF small_checkpoints_c_72["k"] <= small_checkpoints_x_74
    THEN small_checkpoints_c_72["v"]
    ELSE small_checkpoints_acc_72
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, 0, small_checkpoints_l_74)

(*
  @type: ((Seq({ k: Int, v: Int }), Int) => Int);
*)
small_checkpoints_lower(small_checkpoints_l_113, small_checkpoints_x_113) ==
  LET (*
    @type: (({ hit: Bool, v: Int }, { k: Int, v: Int }) => { hit: Bool, v: Int });
  *)
  __QUINT_LAMBDA3(small_checkpoints_acc_109, small_checkpoints_c_109) ==
    IF ~(small_checkpoints_acc_109["hit"])
      /\ small_checkpoints_c_109["k"] >= small_checkpoints_x_113
    THEN [hit |-> TRUE, v |-> small_checkpoints_c_109["v"]]
    ELSE small_checkpoints_acc_109
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, [hit |-> FALSE, v |-> 0], small_checkpoints_l_113)[
    "v"
  ]

(*
  @type: (() => Bool);
*)
small_checkpoints_init ==
  \E small_checkpoints_kd \in small_checkpoints_KINDS:
    small_checkpoints_kind = small_checkpoints_kd
      /\ small_checkpoints_cps = <<>>
      /\ small_checkpoints_obs
        = [
          (small_checkpoints_initObs) EXCEPT
            !["args"] = <<<<small_checkpoints_kd>>>>
        ]

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Seq({ k: Int, v: Int })) => Bool);
*)
small_checkpoints_call(small_checkpoints_op_208, small_checkpoints_args_208, small_checkpoints_ret_208,
small_checkpoints_errs_208, small_checkpoints_l_208) ==
  small_checkpoints_obs'
      := [op |-> small_checkpoints_op_208,
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |-> small_checkpoints_args_208,
        errs |-> small_checkpoints_errs_208,
        ret |-> small_checkpoints_ret_208,
        evs |-> <<>>]
    /\ small_checkpoints_cps'
      := (IF small_checkpoints_errs_208 = <<>>
      THEN small_checkpoints_l_208
      ELSE small_checkpoints_cps)
    /\ small_checkpoints_kind' := small_checkpoints_kind

(*
  @type: (() => Int);
*)
small_checkpoints_len == Len(small_checkpoints_cps)

(*
  @type: (() => Bool);
*)
small_checkpoints_ordered ==
  LET (*
    @type: ((Bool, Int) => Bool);
  *)
  __QUINT_LAMBDA1(small_checkpoints_a_785, small_checkpoints_i_785) ==
    small_checkpoints_a_785
      /\ (small_checkpoints_i_785 = 0
        \/ small_checkpoints_cps[(small_checkpoints_i_785 - 1 + 1)]["k"]
          < small_checkpoints_cps[(small_checkpoints_i_785 + 1)]["k"])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, TRUE, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((Len(small_checkpoints_cps) - 0), __QUINT_LAMBDA0)))

(*
  @type: (() => Bool);
*)
small_checkpoints_agree ==
  LET (*
    @type: ((Bool, Int) => Bool);
  *)
  __QUINT_LAMBDA5(small_checkpoints_a_824, small_checkpoints_i_824) ==
    (small_checkpoints_a_824
        /\ small_checkpoints_upper(small_checkpoints_cps, small_checkpoints_cps[
          (small_checkpoints_i_824 + 1)
        ][
          "k"
        ])
          = small_checkpoints_cps[(small_checkpoints_i_824 + 1)]["v"])
      /\ small_checkpoints_lower(small_checkpoints_cps, small_checkpoints_cps[
        (small_checkpoints_i_824 + 1)
      ][
        "k"
      ])
        = small_checkpoints_cps[(small_checkpoints_i_824 + 1)]["v"]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, TRUE, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((Len(small_checkpoints_cps) - 0), __QUINT_LAMBDA4)))

(*
  @type: (() => Bool);
*)
q_init == small_checkpoints_init

(*
  @type: (() => { k: Int, v: Int });
*)
small_checkpoints_lastCp ==
  IF small_checkpoints_len = 0
  THEN [k |-> 0, v |-> 0]
  ELSE small_checkpoints_cps[(small_checkpoints_len - 1 + 1)]

(*
  @type: ((Int) => Bool);
*)
small_checkpoints_readAt(small_checkpoints_i_390) ==
  small_checkpoints_call("at(uint32)(uint256,uint256)", <<
    <<small_checkpoints_i_390>>
  >>, (IF small_checkpoints_i_390 < small_checkpoints_len
  THEN <<
    <<small_checkpoints_cps[(small_checkpoints_i_390 + 1)]["k"]>>, <<
      small_checkpoints_cps[(small_checkpoints_i_390 + 1)]["v"]
    >>
  >>
  ELSE <<>>), (small_checkpoints_guard((small_checkpoints_i_390
    >= small_checkpoints_len), "#empty", <<>>)), small_checkpoints_cps)

(*
  @type: (() => Bool);
*)
small_checkpoints_safety ==
  small_checkpoints_ordered
    /\ (small_checkpoints_len <= 12 => small_checkpoints_agree)

(*
  @type: ((Int, Int) => Bool);
*)
small_checkpoints_push(small_checkpoints_k_245, small_checkpoints_v_245) ==
  small_checkpoints_call("push(uint256,uint256)(uint256,uint256)", <<
    <<small_checkpoints_k_245>>, <<small_checkpoints_v_245>>
  >>, <<<<(small_checkpoints_lastCp)["v"]>>, <<small_checkpoints_v_245>>>>, (small_checkpoints_guard((small_checkpoints_len
      > 0
    /\ (small_checkpoints_lastCp)["k"] > small_checkpoints_k_245), "CheckpointUnorderedInsertion()",
  <<>>)), (small_checkpoints_place(small_checkpoints_cps, small_checkpoints_k_245,
  small_checkpoints_v_245)))

(*
  @type: (() => Bool);
*)
q_inv == small_checkpoints_safety

(*
  @type: (() => Bool);
*)
small_checkpoints_stepAll ==
  \E small_checkpoints_k \in 0
    .. (small_checkpoints_KMAX)[small_checkpoints_kind]:
    \E small_checkpoints_v \in 0
      .. (small_checkpoints_VMAX)[small_checkpoints_kind]:
      small_checkpoints_push(small_checkpoints_k, small_checkpoints_v)
        \/ small_checkpoints_readAt(small_checkpoints_k)

(*
  @type: (() => Bool);
*)
q_step == small_checkpoints_stepAll


View == <<small_checkpoints_kind, small_checkpoints_cps>>

==============================================================================
