\* generated by tools/export_tla.py from royalty.qnt 9cee1c668f7b1233802c55b1276d40d0b69be1cba6ca6811259ada6d50b824d9
--------------------------------- MODULE royalty_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { frac: Int, to_: Int };
  *)
  small_royalty_dflt

(*
  @type: (() => { frac: Int, to_: Int });
*)
small_royalty_NONE == [to_ |-> 0, frac |-> 0]

VARIABLE
  (*
    @type: (Int -> { frac: Int, to_: Int });
  *)
  small_royalty_own

(*
  @type: (() => Set(Int));
*)
small_royalty_IDS == { 0, 1 }

VARIABLE
  (*
    @type: Int;
  *)
  small_royalty_denom

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_royalty_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_royalty_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Set(Int));
*)
small_royalty_ACCTS == { 1, 2 }

(*
  @type: (() => Int);
*)
small_royalty_FMAX == 3

(*
  @type: (() => Int);
*)
small_royalty_UMAX == 7

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_royalty_guard(small_royalty_bad_753, small_royalty_sig_753, small_royalty_args_753) ==
  IF small_royalty_bad_753
  THEN <<[sig |-> small_royalty_sig_753, args |-> small_royalty_args_753]>>
  ELSE <<>>

(*
  @type: ((Int) => Bool);
*)
small_royalty_start(small_royalty_d_318) ==
  small_royalty_dflt = small_royalty_NONE
    /\ small_royalty_own
      = [ small_royalty___302 \in small_royalty_IDS |-> small_royalty_NONE ]
    /\ small_royalty_denom = small_royalty_d_318
    /\ small_royalty_obs
      = [
        (small_royalty_initObs) EXCEPT
          !["args"] = <<<<small_royalty_d_318>>>>
      ]

(*
  @type: (() => Set(Int));
*)
small_royalty_ADDRS == small_royalty_ACCTS \union {0}

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), { frac: Int, to_: Int }, (Int -> { frac: Int, to_: Int })) => Bool);
*)
small_royalty_call(small_royalty_op_122, small_royalty_args_122, small_royalty_ret_122,
small_royalty_errs_122, small_royalty_d_122, small_royalty_o_122) ==
  small_royalty_obs'
      := [op |-> small_royalty_op_122,
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |-> small_royalty_args_122,
        errs |-> small_royalty_errs_122,
        ret |-> small_royalty_ret_122,
        evs |-> <<>>]
    /\ small_royalty_dflt'
      := (IF small_royalty_errs_122 = <<>>
      THEN small_royalty_d_122
      ELSE small_royalty_dflt)
    /\ small_royalty_own'
      := (IF small_royalty_errs_122 = <<>>
      THEN small_royalty_o_122
      ELSE small_royalty_own)
    /\ small_royalty_denom' := small_royalty_denom

(*
  @type: ((Int) => { frac: Int, to_: Int });
*)
small_royalty_info(small_royalty_id_61) ==
  IF small_royalty_own[small_royalty_id_61]["to_"] = 0
  THEN small_royalty_dflt
  ELSE small_royalty_own[small_royalty_id_61]

(*
  @type: (({ frac: Int, to_: Int }) => Bool);
*)
small_royalty_sound(small_royalty_i_553) ==
  small_royalty_i_553["frac"] <= small_royalty_denom
    /\ (small_royalty_i_553["to_"] = 0 => small_royalty_i_553["frac"] = 0)

(*
  @type: (() => Bool);
*)
small_royalty_bounded ==
  small_royalty_obs["op"] = "royaltyInfo(uint256,uint256)(address,uint256)"
    /\ small_royalty_obs["errs"] = <<>>
    => small_royalty_obs["ret"][(1 + 1)][(0 + 1)]
      <= small_royalty_obs["args"][(1 + 1)][(0 + 1)]

(*
  @type: (() => Bool);
*)
small_royalty_initAll ==
  \E small_royalty_d \in 0 .. 3: small_royalty_start(small_royalty_d)

(*
  @type: ((Int, Int) => Bool);
*)
small_royalty_setDefault(small_royalty_t_162, small_royalty_f_162) ==
  small_royalty_call("setDefaultRoyalty(address,uint96)()", <<
    <<small_royalty_t_162>>, <<small_royalty_f_162>>
  >>, <<>>, (small_royalty_guard((small_royalty_f_162 > small_royalty_denom), "ERC2981InvalidDefaultRoyalty(uint256,uint256)",
  <<<<small_royalty_f_162>>, <<small_royalty_denom>>>>)
    \o small_royalty_guard((small_royalty_t_162 = 0), "ERC2981InvalidDefaultRoyaltyReceiver(address)",
    <<<<0>>>>)), [to_ |-> small_royalty_t_162, frac |-> small_royalty_f_162], small_royalty_own)

(*
  @type: (() => Bool);
*)
small_royalty_deleteDefault ==
  small_royalty_call("deleteDefaultRoyalty()()", <<>>, <<>>, <<>>, (small_royalty_NONE),
  small_royalty_own)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_royalty_setToken(small_royalty_id_222, small_royalty_t_222, small_royalty_f_222) ==
  small_royalty_call("setTokenRoyalty(uint256,address,uint96)()", <<
    <<small_royalty_id_222>>, <<small_royalty_t_222>>, <<small_royalty_f_222>>
  >>, <<>>, (small_royalty_guard((small_royalty_f_222 > small_royalty_denom), "ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)",
  <<<<small_royalty_id_222>>, <<small_royalty_f_222>>, <<small_royalty_denom>>>>)
    \o small_royalty_guard((small_royalty_t_222 = 0), "ERC2981InvalidTokenRoyaltyReceiver(uint256,address)",
    <<<<small_royalty_id_222>>, <<0>>>>)), small_royalty_dflt, [
    small_royalty_own EXCEPT
      ![small_royalty_id_222] =
        [to_ |-> small_royalty_t_222, frac |-> small_royalty_f_222]
  ])

(*
  @type: ((Int) => Bool);
*)
small_royalty_resetToken(small_royalty_id_239) ==
  small_royalty_call("resetTokenRoyalty(uint256)()", <<
    <<small_royalty_id_239>>
  >>, <<>>, <<>>, small_royalty_dflt, [
    small_royalty_own EXCEPT
      ![small_royalty_id_239] = small_royalty_NONE
  ])

(*
  @type: ((Int, Int) => Bool);
*)
small_royalty_royaltyInfo(small_royalty_id_291, small_royalty_p_291) ==
  LET (*
    @type: (() => { frac: Int, to_: Int });
  *)
  small_royalty_i == small_royalty_info(small_royalty_id_291)
  IN
  small_royalty_call("royaltyInfo(uint256,uint256)(address,uint256)", <<
    <<small_royalty_id_291>>, <<small_royalty_p_291>>
  >>, <<
    <<(small_royalty_i)["to_"]>>, <<
      (IF small_royalty_denom = 0
      THEN 0
      ELSE (small_royalty_p_291 * (small_royalty_i)["frac"])
        \div small_royalty_denom)
    >>
  >>, (small_royalty_guard((small_royalty_p_291 * (small_royalty_i)["frac"]
      > small_royalty_UMAX
    \/ small_royalty_denom = 0), "#empty", <<>>)), small_royalty_dflt, small_royalty_own)

(*
  @type: (() => Bool);
*)
small_royalty_safety ==
  (small_royalty_sound(small_royalty_dflt)
      /\ (\A small_royalty_i_591 \in small_royalty_IDS:
        small_royalty_sound(small_royalty_own[small_royalty_i_591])))
    /\ small_royalty_bounded

(*
  @type: (() => Bool);
*)
q_init == small_royalty_initAll

(*
  @type: (() => Bool);
*)
small_royalty_stepAll ==
  \E small_royalty_id \in small_royalty_IDS:
    \E small_royalty_t \in small_royalty_ADDRS:
      \E small_royalty_f \in 0 .. small_royalty_FMAX:
        \E small_royalty_p \in 0 .. small_royalty_UMAX:
          small_royalty_setDefault(small_royalty_t, small_royalty_f)
            \/ small_royalty_deleteDefault
            \/ small_royalty_setToken(small_royalty_id, small_royalty_t, small_royalty_f)
            \/ small_royalty_resetToken(small_royalty_id)
            \/ small_royalty_royaltyInfo(small_royalty_id, small_royalty_p)

(*
  @type: (() => Bool);
*)
q_inv == small_royalty_safety

(*
  @type: (() => Bool);
*)
q_step == small_royalty_stepAll


View == <<small_royalty_dflt, small_royalty_own, small_royalty_denom>>

==============================================================================
