\* generated by tools/export_tla.py from uri1155.qnt 7ac4e4cf70c244aba9968049188142af59b35579c247dca5a4f17e3dd2c3d085
--------------------------------- MODULE uri1155_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Seq(Int)));
*)
small_uri1155_STRS == { <<>>, <<97>>, <<48, 49>> }

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_uri1155_common

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_uri1155_base

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  small_uri1155_own

(*
  @type: (() => Set(Int));
*)
small_uri1155_IDS == { 0, 12 }

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  small_uri1155_shown

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_uri1155_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_uri1155_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int)) => Seq(Int));
*)
small_uri1155_resolve(small_uri1155_c_39, small_uri1155_b_39, small_uri1155_o_39) ==
  IF small_uri1155_o_39 = <<>>
  THEN small_uri1155_c_39
  ELSE small_uri1155_b_39 \o small_uri1155_o_39

(*
  @type: (() => Bool);
*)
small_uri1155_init ==
  \E small_uri1155_c \in small_uri1155_STRS:
    small_uri1155_common = small_uri1155_c
      /\ small_uri1155_base = <<>>
      /\ small_uri1155_own
        = [ small_uri1155___193 \in small_uri1155_IDS |-> <<>> ]
      /\ small_uri1155_shown
        = [ small_uri1155___200 \in small_uri1155_IDS |-> small_uri1155_c ]
      /\ small_uri1155_obs
        = [ (small_uri1155_initObs) EXCEPT !["args"] = <<small_uri1155_c>> ]

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), Seq(Int), (Int -> Seq(Int))) => Bool);
*)
small_uri1155_finish(small_uri1155_op_104, small_uri1155_by_104, small_uri1155_args_104,
small_uri1155_ret_104, small_uri1155_evs_104, small_uri1155_b_104, small_uri1155_o_104) ==
  small_uri1155_obs'
      := [op |-> small_uri1155_op_104,
        at |-> 0,
        by |-> small_uri1155_by_104,
        pay |-> 0,
        args |-> small_uri1155_args_104,
        errs |-> <<>>,
        ret |-> small_uri1155_ret_104,
        evs |-> small_uri1155_evs_104]
    /\ small_uri1155_base' := small_uri1155_b_104
    /\ small_uri1155_own' := small_uri1155_o_104
    /\ small_uri1155_common' := small_uri1155_common
    /\ small_uri1155_shown'
      := [
        small_uri1155_i_99 \in small_uri1155_IDS |->
          small_uri1155_resolve(small_uri1155_common, small_uri1155_b_104, small_uri1155_o_104[
            small_uri1155_i_99
          ])
      ]

(*
  @type: (() => Bool);
*)
small_uri1155_safety ==
  \A small_uri1155_i_292 \in small_uri1155_IDS:
    small_uri1155_shown[small_uri1155_i_292]
      = small_uri1155_resolve(small_uri1155_common, small_uri1155_base, small_uri1155_own[
        small_uri1155_i_292
      ])

(*
  @type: (() => Bool);
*)
q_init == small_uri1155_init

(*
  @type: ((Int, Int, Seq(Int)) => Bool);
*)
small_uri1155_setUri(small_uri1155_by_140, small_uri1155_id_140, small_uri1155_s_140) ==
  small_uri1155_finish("setTokenUri(uint256,string)()", small_uri1155_by_140, <<
    <<small_uri1155_id_140>>, small_uri1155_s_140
  >>, <<>>, <<
    [at |-> 0,
      sig |-> "URI(string,uint256 indexed)",
      args |->
        <<
          (small_uri1155_resolve(small_uri1155_common, small_uri1155_base, small_uri1155_s_140)),
          <<small_uri1155_id_140>>
        >>]
  >>, small_uri1155_base, [
    small_uri1155_own EXCEPT
      ![small_uri1155_id_140] = small_uri1155_s_140
  ])

(*
  @type: ((Int, Seq(Int)) => Bool);
*)
small_uri1155_setBase(small_uri1155_by_156, small_uri1155_s_156) ==
  small_uri1155_finish("setBaseUri(string)()", small_uri1155_by_156, <<
    small_uri1155_s_156
  >>, <<>>, <<>>, small_uri1155_s_156, small_uri1155_own)

(*
  @type: ((Int, Int) => Bool);
*)
small_uri1155_readUri(small_uri1155_by_179, small_uri1155_id_179) ==
  small_uri1155_finish("uri(uint256)(string)", small_uri1155_by_179, <<
    <<small_uri1155_id_179>>
  >>, <<
    (small_uri1155_resolve(small_uri1155_common, small_uri1155_base, small_uri1155_own[
      small_uri1155_id_179
    ]))
  >>, <<>>, small_uri1155_base, small_uri1155_own)

(*
  @type: (() => Bool);
*)
q_inv == small_uri1155_safety

(*
  @type: (() => Bool);
*)
small_uri1155_stepAll ==
  \E small_uri1155_id \in small_uri1155_IDS:
    \E small_uri1155_s \in small_uri1155_STRS:
      small_uri1155_setUri(1, small_uri1155_id, small_uri1155_s)
        \/ small_uri1155_setBase(1, small_uri1155_s)
        \/ small_uri1155_readUri(1, small_uri1155_id)

(*
  @type: (() => Bool);
*)
q_step == small_uri1155_stepAll


View == <<small_uri1155_common, small_uri1155_base, small_uri1155_own, small_uri1155_shown>>

==============================================================================
