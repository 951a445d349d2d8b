\* generated by tools/export_tla.py from control.qnt 5ec2c2675dfed5fc7a8bda6b14bd94d9443eb1070f56c89170fbc86c74da4cfb
--------------------------------- MODULE control_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_control_ROLES == { 0, 1, 2 }

VARIABLE
  (*
    @type: (<<Int, Int>> -> Int);
  *)
  small_control_has

(*
  @type: (() => Set(Int));
*)
small_control_USERS == { 1, 2 }

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_control_adminOf

VARIABLE
  (*
    @type: Int;
  *)
  small_control_hits

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_control_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_control_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_control_guard(small_control_bad_971, small_control_sig_971, small_control_args_971) ==
  IF small_control_bad_971
  THEN <<[sig |-> small_control_sig_971, args |-> small_control_args_971]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_control_E_AUTH == "AccessControlUnauthorizedAccount(address,bytes32)"

(*
  @type: (() => Str);
*)
small_control_GRANTED ==
  "RoleGranted(bytes32 indexed,address indexed,address indexed)"

(*
  @type: (() => Str);
*)
small_control_REVOKED ==
  "RoleRevoked(bytes32 indexed,address indexed,address indexed)"

(*
  @type: (() => Int);
*)
small_control_HITS == 1

(*
  @type: (() => Set(Int));
*)
small_control_ADDRS == small_control_USERS \union {0}

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), (<<Int, Int>> -> Int), (Int -> Int), Int) => Bool);
*)
small_control_call(small_control_op_147, small_control_by_147, small_control_args_147,
small_control_ret_147, small_control_errs_147, small_control_evs_147, small_control_hs_147,
small_control_ad_147, small_control_h_147) ==
  small_control_obs'
      := [op |-> small_control_op_147,
        at |-> 0,
        by |-> small_control_by_147,
        pay |-> 0,
        args |-> small_control_args_147,
        errs |-> small_control_errs_147,
        ret |-> small_control_ret_147,
        evs |-> small_control_evs_147]
    /\ small_control_has'
      := (IF small_control_errs_147 = <<>>
      THEN small_control_hs_147
      ELSE small_control_has)
    /\ small_control_adminOf'
      := (IF small_control_errs_147 = <<>>
      THEN small_control_ad_147
      ELSE small_control_adminOf)
    /\ small_control_hits'
      := (IF small_control_errs_147 = <<>>
      THEN small_control_h_147
      ELSE small_control_hits)

(*
  @type: ((Int, Int) => Bool);
*)
small_control_holds(small_control_r_51, small_control_a_51) ==
  small_control_has[<<small_control_r_51, small_control_a_51>>] = 1

(*
  @type: (() => Bool);
*)
small_control_safety ==
  (\A small_control_k_781 \in DOMAIN small_control_has:
      small_control_has[small_control_k_781] \in { 0, 1 })
    /\ (\A small_control_r_791 \in DOMAIN small_control_adminOf:
      small_control_adminOf[small_control_r_791] \in small_control_ROLES)
    /\ (small_control_obs["op"] = "grantRole(bytes32,address)()"
      /\ small_control_obs["errs"] = <<>>
      => small_control_has[
        <<
          small_control_obs["args"][(0 + 1)][(0 + 1)], small_control_obs["args"][
            (1 + 1)
          ][
            (0 + 1)
          ]
        >>
      ]
        = 1)
    /\ (small_control_obs["op"]
        \in { "revokeRole(bytes32,address)()", "renounceRole(bytes32,address)()"
        }
      /\ small_control_obs["errs"] = <<>>
      => small_control_has[
        <<
          small_control_obs["args"][(0 + 1)][(0 + 1)], small_control_obs["args"][
            (1 + 1)
          ][
            (0 + 1)
          ]
        >>
      ]
        = 0)

(*
  @type: (() => Bool);
*)
small_control_initAll ==
  \E small_control_d \in small_control_ROLES:
    small_control_has
        = [
          small_control_p_713 \in small_control_ROLES \X small_control_ADDRS |->
            IF small_control_p_713[1] = 0 /\ small_control_p_713[2] = 1
            THEN 1
            ELSE 0
        ]
      /\ small_control_adminOf
        = [
          small_control_r_725 \in small_control_ROLES |->
            IF small_control_r_725 = 0 THEN 0 ELSE small_control_d
        ]
      /\ small_control_hits = 0
      /\ small_control_obs = small_control_initObs

(*
  @type: ((Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_control_need(small_control_r_70, small_control_a_70) ==
  small_control_guard(~(small_control_holds(small_control_r_70, small_control_a_70)),
  (small_control_E_AUTH), <<<<small_control_a_70>>, <<small_control_r_70>>>>)

(*
  @type: ((Int, Int, Int) => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
*)
small_control_given(small_control_by_176, small_control_r_176, small_control_a_176) ==
  IF small_control_holds(small_control_r_176, small_control_a_176)
  THEN <<>>
  ELSE <<
    [at |-> 0,
      sig |-> small_control_GRANTED,
      args |->
        <<
          <<small_control_r_176>>, <<small_control_a_176>>, <<
            small_control_by_176
          >>
        >>]
  >>

(*
  @type: ((Int, Int, Int) => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
*)
small_control_taken(small_control_by_205, small_control_r_205, small_control_a_205) ==
  IF small_control_holds(small_control_r_205, small_control_a_205)
  THEN <<
    [at |-> 0,
      sig |-> small_control_REVOKED,
      args |->
        <<
          <<small_control_r_205>>, <<small_control_a_205>>, <<
            small_control_by_205
          >>
        >>]
  >>
  ELSE <<>>

(*
  @type: (() => Bool);
*)
q_inv == small_control_safety

(*
  @type: (() => Bool);
*)
q_init == small_control_initAll

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_control_grantRole(small_control_by_240, small_control_r_240, small_control_a_240) ==
  small_control_call("grantRole(bytes32,address)()", small_control_by_240, <<
    <<small_control_r_240>>, <<small_control_a_240>>
  >>, <<>>, (small_control_need(small_control_adminOf[small_control_r_240], small_control_by_240)),
  (small_control_given(small_control_by_240, small_control_r_240, small_control_a_240)),
  [
    small_control_has EXCEPT
      ![<<small_control_r_240, small_control_a_240>>] = 1
  ], small_control_adminOf, small_control_hits)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_control_revokeRole(small_control_by_275, small_control_r_275, small_control_a_275) ==
  small_control_call("revokeRole(bytes32,address)()", small_control_by_275, <<
    <<small_control_r_275>>, <<small_control_a_275>>
  >>, <<>>, (small_control_need(small_control_adminOf[small_control_r_275], small_control_by_275)),
  (small_control_taken(small_control_by_275, small_control_r_275, small_control_a_275)),
  [
    small_control_has EXCEPT
      ![<<small_control_r_275, small_control_a_275>>] = 0
  ], small_control_adminOf, small_control_hits)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_control_renounceRole(small_control_by_311, small_control_r_311, small_control_a_311) ==
  small_control_call("renounceRole(bytes32,address)()", small_control_by_311, <<
    <<small_control_r_311>>, <<small_control_a_311>>
  >>, <<>>, (small_control_guard((small_control_by_311 /= small_control_a_311), "AccessControlBadConfirmation()",
  <<>>)), (small_control_taken(small_control_by_311, small_control_r_311, small_control_a_311)),
  [
    small_control_has EXCEPT
      ![<<small_control_r_311, small_control_a_311>>] = 0
  ], small_control_adminOf, small_control_hits)

(*
  @type: ((Int, Int) => Bool);
*)
small_control_restricted(small_control_by_380, small_control_r_380) ==
  small_control_call("restricted(bytes32)()", small_control_by_380, <<
    <<small_control_r_380>>
  >>, <<>>, (small_control_need(small_control_r_380, small_control_by_380)), <<
    
  >>, small_control_has, small_control_adminOf, (small_control_hits + 1))

(*
  @type: (() => Bool);
*)
small_control_stepAll ==
  \E small_control_by \in small_control_USERS:
    \E small_control_r \in small_control_ROLES:
      \E small_control_a \in small_control_ADDRS:
        small_control_grantRole(small_control_by, small_control_r, small_control_a)
          \/ small_control_revokeRole(small_control_by, small_control_r, small_control_a)
          \/ small_control_renounceRole(small_control_by, small_control_r, small_control_a)
          \/ (small_control_hits < small_control_HITS
            /\ small_control_restricted(small_control_by, small_control_r))

(*
  @type: (() => Bool);
*)
q_step == small_control_stepAll


View == <<small_control_has, small_control_adminOf, small_control_hits>>

==============================================================================
