\* generated by tools/export_tla.py from suite20.qnt 95846e16b37a35c5d1185438c1577bab275ac348a97cc1bbd6788278ce7e50d9
--------------------------------- MODULE suite20_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_suite20_CAPS == {1}

(*
  @type: (() => Set(Seq(Int)));
*)
small_suite20_NAMES == {<<>>}

(*
  @type: (() => Set(Int));
*)
small_suite20_USERS == { 1, 2 }

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_suite20_tok

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_suite20_emptyTok(small_suite20_addrs_1220) ==
  [bal |-> [ small_suite20___1206 \in small_suite20_addrs_1220 |-> 0 ],
    allow |->
      [
        small_suite20___1214 \in
          small_suite20_addrs_1220 \X small_suite20_addrs_1220 |->
          0
      ],
    supply |-> 0]

VARIABLE
  (*
    @type: Seq((Int -> Int));
  *)
  small_suite20_frozen

VARIABLE
  (*
    @type: Int;
  *)
  small_suite20_paused

VARIABLE
  (*
    @type: Int;
  *)
  small_suite20_owner

VARIABLE
  (*
    @type: Int;
  *)
  small_suite20_cap

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_suite20_name

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_suite20_symbol

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_suite20_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_suite20_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_suite20_UMAX == 2

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite20_guard(small_suite20_bad_2078, small_suite20_sig_2078, small_suite20_args_2078) ==
  IF small_suite20_bad_2078
  THEN <<[sig |-> small_suite20_sig_2078, args |-> small_suite20_args_2078]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_suite20_E_OWNER == "OwnableUnauthorizedAccount(address)"

(*
  @type: (() => Str);
*)
small_suite20_E_RUN == "EnforcedPause()"

(*
  @type: (() => Str);
*)
small_suite20_E_HALT == "ExpectedPause()"

(*
  @type: (() => Str);
*)
small_suite20_E_MOVED == "OwnershipTransferred(address indexed,address indexed)"

(*
  @type: (() => Str);
*)
small_suite20_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_suite20_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_suite20_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_suite20_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_suite20_E_APPROVER == "ERC20InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_suite20_E_SPENDER == "ERC20InvalidSpender(address)"

(*
  @type: (() => Str);
*)
small_suite20_APPROVAL == "Approval(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_suite20_E_CAP == "ERC20ExceededCap(uint256,uint256)"

(*
  @type: (() => Str);
*)
small_suite20_E_ALLOW == "ERC20InsufficientAllowance(address,uint256,uint256)"

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_andThen(small_suite20_a_1756, small_suite20_b_1756) ==
  [tok |-> small_suite20_b_1756["tok"],
    errs |-> small_suite20_a_1756["errs"] \o small_suite20_b_1756["errs"],
    evs |-> small_suite20_a_1756["evs"] \o small_suite20_b_1756["evs"]]

(*
  @type: (() => Str);
*)
small_suite20_E_NEW == "OwnableInvalidOwner(address)"

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
small_suite20_sumBal(small_suite20_k_1844) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(small_suite20_acc_1842, small_suite20_a_1842) ==
    small_suite20_acc_1842 + small_suite20_k_1844["bal"][small_suite20_a_1842]
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, DOMAIN (small_suite20_k_1844["bal"]))

(*
  @type: (() => Set(Int));
*)
small_suite20_ADDRS == small_suite20_USERS \union {0}

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, Int, Int) => Bool);
*)
small_suite20_call(small_suite20_op_193, small_suite20_by_193, small_suite20_args_193,
small_suite20_ret_193, small_suite20_r_193, small_suite20_p_193, small_suite20_o_193) ==
  small_suite20_obs'
      := [op |-> small_suite20_op_193,
        at |-> 0,
        by |-> small_suite20_by_193,
        pay |-> 0,
        args |-> small_suite20_args_193,
        errs |-> small_suite20_r_193["errs"],
        ret |-> small_suite20_ret_193,
        evs |-> small_suite20_r_193["evs"]]
    /\ small_suite20_tok'
      := (IF small_suite20_r_193["errs"] = <<>>
      THEN small_suite20_r_193["tok"]
      ELSE small_suite20_tok)
    /\ small_suite20_paused'
      := (IF small_suite20_r_193["errs"] = <<>>
      THEN small_suite20_p_193
      ELSE small_suite20_paused)
    /\ small_suite20_owner'
      := (IF small_suite20_r_193["errs"] = <<>>
      THEN small_suite20_o_193
      ELSE small_suite20_owner)
    /\ small_suite20_frozen'
      := (IF small_suite20_r_193["errs"] /= <<>>
        \/ small_suite20_p_193 = small_suite20_paused
      THEN small_suite20_frozen
      ELSE IF small_suite20_p_193 = 1
      THEN <<small_suite20_tok["bal"]>>
      ELSE <<>>)
    /\ small_suite20_cap' := small_suite20_cap
    /\ small_suite20_name' := small_suite20_name
    /\ small_suite20_symbol' := small_suite20_symbol

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite20_byOwner(small_suite20_by_85) ==
  small_suite20_guard((small_suite20_by_85 /= small_suite20_owner), (small_suite20_E_OWNER),
  <<<<small_suite20_by_85>>>>)

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite20_whenRunning ==
  small_suite20_guard((small_suite20_paused = 1), (small_suite20_E_RUN), <<>>)

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite20_whenHalted ==
  small_suite20_guard((small_suite20_paused = 0), (small_suite20_E_HALT), <<>>)

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_suite20_transferEv(small_suite20_at_1244, small_suite20_f_1244, small_suite20_t_1244,
small_suite20_v_1244) ==
  [at |-> small_suite20_at_1244,
    sig |-> small_suite20_TRANSFER,
    args |->
      <<
        <<small_suite20_f_1244>>, <<small_suite20_t_1244>>, <<
          small_suite20_v_1244
        >>
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_tApprove(small_suite20_k_1389, small_suite20_at_1389, small_suite20_o_1389,
small_suite20_s_1389, small_suite20_v_1389) ==
  [tok |->
      [
        small_suite20_k_1389 EXCEPT
          !["allow"] =
            [
              small_suite20_k_1389["allow"] EXCEPT
                ![<<small_suite20_o_1389, small_suite20_s_1389>>] =
                  small_suite20_v_1389
            ]
      ],
    errs |->
      small_suite20_guard((small_suite20_o_1389 = 0), (small_suite20_E_APPROVER),
      <<<<0>>>>)
        \o small_suite20_guard((small_suite20_s_1389 = 0), (small_suite20_E_SPENDER),
        <<<<0>>>>),
    evs |->
      <<
        [at |-> small_suite20_at_1389,
          sig |-> small_suite20_APPROVAL,
          args |->
            <<
              <<small_suite20_o_1389>>, <<small_suite20_s_1389>>, <<
                small_suite20_v_1389
              >>
            >>]
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_tSpend(small_suite20_k_1472, small_suite20_umax_1472, small_suite20_o_1472,
small_suite20_s_1472, small_suite20_v_1472) ==
  LET (*
    @type: (() => Int);
  *)
  small_suite20_a ==
    small_suite20_k_1472["allow"][
      <<small_suite20_o_1472, small_suite20_s_1472>>
    ]
  IN
  [tok |->
      IF small_suite20_a = small_suite20_umax_1472
      THEN small_suite20_k_1472
      ELSE [
        small_suite20_k_1472 EXCEPT
          !["allow"] =
            [
              small_suite20_k_1472["allow"] EXCEPT
                ![<<small_suite20_o_1472, small_suite20_s_1472>>] =
                  small_suite20_a - small_suite20_v_1472
            ]
      ],
    errs |->
      (small_suite20_guard((small_suite20_a < small_suite20_v_1472), (small_suite20_E_ALLOW),
      <<
        <<small_suite20_s_1472>>, <<(small_suite20_a)>>, <<
          small_suite20_v_1472
        >>
      >>)
        \o small_suite20_guard((small_suite20_a /= small_suite20_umax_1472
          /\ small_suite20_o_1472 = 0), (small_suite20_E_APPROVER), <<<<0>>>>))
        \o small_suite20_guard((small_suite20_a /= small_suite20_umax_1472
          /\ small_suite20_s_1472 = 0), (small_suite20_E_SPENDER), <<<<0>>>>),
    evs |-> <<>>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
small_suite20_tokOk(small_suite20_k_1910, small_suite20_umax_1910) ==
  small_suite20_sumBal(small_suite20_k_1910) = small_suite20_k_1910["supply"]
    /\ small_suite20_k_1910["supply"] <= small_suite20_umax_1910
    /\ (\A small_suite20_a_1874 \in DOMAIN (small_suite20_k_1910["bal"]):
      small_suite20_k_1910["bal"][small_suite20_a_1874] >= 0)
    /\ small_suite20_k_1910["bal"][0] = 0
    /\ (\A small_suite20_a_1907 \in DOMAIN (small_suite20_k_1910["bal"]):
      small_suite20_k_1910["allow"][<<small_suite20_a_1907, 0>>] = 0
        /\ small_suite20_k_1910["allow"][<<0, small_suite20_a_1907>>] = 0)

(*
  @type: (() => Bool);
*)
small_suite20_init ==
  \E small_suite20_c \in small_suite20_CAPS:
    \E small_suite20_n \in small_suite20_NAMES:
      \E small_suite20_s \in small_suite20_NAMES:
        \E small_suite20_o \in small_suite20_USERS:
          small_suite20_tok = small_suite20_emptyTok((small_suite20_ADDRS))
            /\ small_suite20_frozen = <<>>
            /\ small_suite20_paused = 0
            /\ small_suite20_owner = small_suite20_o
            /\ small_suite20_cap = small_suite20_c
            /\ small_suite20_name = small_suite20_n
            /\ small_suite20_symbol = small_suite20_s
            /\ small_suite20_obs
              = [
                (small_suite20_initObs) EXCEPT
                  !["args"] =
                    <<
                      <<small_suite20_o>>, <<small_suite20_c>>, small_suite20_n,
                      small_suite20_s
                    >>
              ]

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), Int, Int) => Bool);
*)
small_suite20_admin(small_suite20_op_263, small_suite20_by_263, small_suite20_args_263,
small_suite20_pre_263, small_suite20_evs_263, small_suite20_p_263, small_suite20_o_263) ==
  small_suite20_call(small_suite20_op_263, small_suite20_by_263, small_suite20_args_263,
  <<>>, [tok |-> small_suite20_tok,
    errs |-> small_suite20_pre_263,
    evs |-> small_suite20_evs_263], small_suite20_p_263, small_suite20_o_263)

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => Bool);
*)
small_suite20_ledger(small_suite20_op_228, small_suite20_by_228, small_suite20_args_228,
small_suite20_ret_228, small_suite20_pre_228, small_suite20_r_228) ==
  small_suite20_call(small_suite20_op_228, small_suite20_by_228, small_suite20_args_228,
  small_suite20_ret_228, [
    small_suite20_r_228 EXCEPT
      !["errs"] = small_suite20_pre_228 \o small_suite20_r_228["errs"]
  ], small_suite20_paused, small_suite20_owner)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_tBurn(small_suite20_k_1608, small_suite20_at_1608, small_suite20_f_1608,
small_suite20_v_1608) ==
  [tok |->
      [
        [
          small_suite20_k_1608 EXCEPT
            !["bal"] =
              [
                small_suite20_k_1608["bal"] EXCEPT
                  ![small_suite20_f_1608] =
                    small_suite20_k_1608["bal"][small_suite20_f_1608]
                      - small_suite20_v_1608
              ]
        ] EXCEPT
          !["supply"] = small_suite20_k_1608["supply"] - small_suite20_v_1608
      ],
    errs |->
      small_suite20_guard((small_suite20_f_1608 = 0), (small_suite20_E_SENDER), <<
        <<0>>
      >>)
        \o small_suite20_guard((small_suite20_k_1608["bal"][
          small_suite20_f_1608
        ]
          < small_suite20_v_1608), (small_suite20_E_BAL), <<
          <<small_suite20_f_1608>>, <<
            small_suite20_k_1608["bal"][small_suite20_f_1608]
          >>, <<small_suite20_v_1608>>
        >>),
    evs |->
      <<
        (small_suite20_transferEv(small_suite20_at_1608, small_suite20_f_1608, 0,
        small_suite20_v_1608))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_tMove(small_suite20_k_1330, small_suite20_at_1330, small_suite20_f_1330,
small_suite20_t_1330, small_suite20_v_1330) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_suite20_b1 ==
    [
      small_suite20_k_1330["bal"] EXCEPT
        ![small_suite20_f_1330] =
          small_suite20_k_1330["bal"][small_suite20_f_1330]
            - small_suite20_v_1330
    ]
  IN
  [tok |->
      [
        small_suite20_k_1330 EXCEPT
          !["bal"] =
            [
              (small_suite20_b1) EXCEPT
                ![small_suite20_t_1330] =
                  (small_suite20_b1)[small_suite20_t_1330]
                    + small_suite20_v_1330
            ]
      ],
    errs |->
      (small_suite20_guard((small_suite20_f_1330 = 0), (small_suite20_E_SENDER),
      <<<<0>>>>)
        \o small_suite20_guard((small_suite20_t_1330 = 0), (small_suite20_E_RECV),
        <<<<0>>>>))
        \o small_suite20_guard((small_suite20_k_1330["bal"][
          small_suite20_f_1330
        ]
          < small_suite20_v_1330), (small_suite20_E_BAL), <<
          <<small_suite20_f_1330>>, <<
            small_suite20_k_1330["bal"][small_suite20_f_1330]
          >>, <<small_suite20_v_1330>>
        >>),
    evs |->
      <<
        (small_suite20_transferEv(small_suite20_at_1330, small_suite20_f_1330, small_suite20_t_1330,
        small_suite20_v_1330))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_tMint(small_suite20_k_1536, small_suite20_umax_1536, small_suite20_at_1536,
small_suite20_t_1536, small_suite20_v_1536) ==
  [tok |->
      [
        [
          small_suite20_k_1536 EXCEPT
            !["bal"] =
              [
                small_suite20_k_1536["bal"] EXCEPT
                  ![small_suite20_t_1536] =
                    small_suite20_k_1536["bal"][small_suite20_t_1536]
                      + small_suite20_v_1536
              ]
        ] EXCEPT
          !["supply"] = small_suite20_k_1536["supply"] + small_suite20_v_1536
      ],
    errs |->
      small_suite20_guard((small_suite20_t_1536 = 0), (small_suite20_E_RECV), <<
        <<0>>
      >>)
        \o small_suite20_guard((small_suite20_k_1536["supply"]
          + small_suite20_v_1536
          > small_suite20_umax_1536), "#empty", <<>>),
    evs |->
      <<
        (small_suite20_transferEv(small_suite20_at_1536, 0, small_suite20_t_1536,
        small_suite20_v_1536))
      >>]

(*
  @type: (() => Bool);
*)
small_suite20_safety ==
  small_suite20_tokOk(small_suite20_tok, (small_suite20_UMAX))
    /\ small_suite20_tok["supply"] <= small_suite20_cap
    /\ (small_suite20_paused = 0
      \/ small_suite20_tok["bal"] = small_suite20_frozen[(0 + 1)])
    /\ ((small_suite20_cap \in small_suite20_CAPS
        /\ small_suite20_name \in small_suite20_NAMES)
      /\ small_suite20_symbol \in small_suite20_NAMES)

(*
  @type: (() => Bool);
*)
q_init == small_suite20_init

(*
  @type: ((Int) => Bool);
*)
small_suite20_pause(small_suite20_by_476) ==
  small_suite20_admin("pause()()", small_suite20_by_476, <<>>, (small_suite20_byOwner(small_suite20_by_476)
    \o small_suite20_whenRunning), <<
    [at |-> 0, sig |-> "Paused(address)", args |-> <<<<small_suite20_by_476>>>>]
  >>, 1, small_suite20_owner)

(*
  @type: ((Int) => Bool);
*)
small_suite20_unpause(small_suite20_by_501) ==
  small_suite20_admin("unpause()()", small_suite20_by_501, <<>>, (small_suite20_byOwner(small_suite20_by_501)
    \o small_suite20_whenHalted), <<
    [at |-> 0,
      sig |-> "Unpaused(address)",
      args |-> <<<<small_suite20_by_501>>>>]
  >>, 0, small_suite20_owner)

(*
  @type: ((Int) => Bool);
*)
small_suite20_renounce(small_suite20_by_566) ==
  small_suite20_admin("renounceOwnership()()", small_suite20_by_566, <<>>, (small_suite20_byOwner(small_suite20_by_566)),
  <<
    [at |-> 0,
      sig |-> small_suite20_E_MOVED,
      args |-> <<<<small_suite20_owner>>, <<0>>>>]
  >>, small_suite20_paused, 0)

(*
  @type: ((Int, Int) => Bool);
*)
small_suite20_burn(small_suite20_by_370, small_suite20_v_370) ==
  small_suite20_ledger("burn(uint256)()", small_suite20_by_370, <<
    <<small_suite20_v_370>>
  >>, <<>>, (small_suite20_whenRunning), (small_suite20_tBurn(small_suite20_tok,
  0, small_suite20_by_370, small_suite20_v_370)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite20_transfer(small_suite20_by_290, small_suite20_t_290, small_suite20_v_290) ==
  small_suite20_ledger("transfer(address,uint256)(bool)", small_suite20_by_290, <<
    <<small_suite20_t_290>>, <<small_suite20_v_290>>
  >>, <<<<1>>>>, (small_suite20_whenRunning), (small_suite20_tMove(small_suite20_tok,
  0, small_suite20_by_290, small_suite20_t_290, small_suite20_v_290)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite20_approve(small_suite20_by_350, small_suite20_s_350, small_suite20_v_350) ==
  small_suite20_ledger("approve(address,uint256)(bool)", small_suite20_by_350, <<
    <<small_suite20_s_350>>, <<small_suite20_v_350>>
  >>, <<<<1>>>>, <<>>, (small_suite20_tApprove(small_suite20_tok, 0, small_suite20_by_350,
  small_suite20_s_350, small_suite20_v_350)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite20_mint(small_suite20_by_451, small_suite20_t_451, small_suite20_v_451) ==
  small_suite20_ledger("mint(address,uint256)()", small_suite20_by_451, <<
    <<small_suite20_t_451>>, <<small_suite20_v_451>>
  >>, <<>>, ((small_suite20_whenRunning
    \o small_suite20_byOwner(small_suite20_by_451))
    \o small_suite20_guard((small_suite20_tok["supply"] + small_suite20_v_451
        > small_suite20_cap
      /\ small_suite20_tok["supply"] + small_suite20_v_451 <= small_suite20_UMAX),
    (small_suite20_E_CAP), <<
      <<(small_suite20_tok["supply"] + small_suite20_v_451)>>, <<
        small_suite20_cap
      >>
    >>)), (small_suite20_tMint(small_suite20_tok, (small_suite20_UMAX), 0, small_suite20_t_451,
  small_suite20_v_451)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_tBurnFrom(small_suite20_k_1823, small_suite20_umax_1823, small_suite20_at_1823,
small_suite20_by_1823, small_suite20_f_1823, small_suite20_v_1823) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_suite20_s ==
    small_suite20_tSpend(small_suite20_k_1823, small_suite20_umax_1823, small_suite20_f_1823,
    small_suite20_by_1823, small_suite20_v_1823)
  IN
  small_suite20_andThen((small_suite20_s), (small_suite20_tBurn((small_suite20_s)[
    "tok"
  ], small_suite20_at_1823, small_suite20_f_1823, small_suite20_v_1823)))

(*
  @type: ((Int, Int) => Bool);
*)
small_suite20_hand(small_suite20_by_541, small_suite20_o_541) ==
  small_suite20_admin("transferOwnership(address)()", small_suite20_by_541, <<
    <<small_suite20_o_541>>
  >>, (small_suite20_byOwner(small_suite20_by_541)
    \o small_suite20_guard((small_suite20_o_541 = 0), (small_suite20_E_NEW), <<
      <<0>>
    >>)), <<
    [at |-> 0,
      sig |-> small_suite20_E_MOVED,
      args |-> <<<<small_suite20_owner>>, <<small_suite20_o_541>>>>]
  >>, small_suite20_paused, small_suite20_o_541)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_suite20_tTransferFrom(small_suite20_k_1791, small_suite20_umax_1791, small_suite20_at_1791,
small_suite20_by_1791, small_suite20_f_1791, small_suite20_t_1791, small_suite20_v_1791) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_suite20_s ==
    small_suite20_tSpend(small_suite20_k_1791, small_suite20_umax_1791, small_suite20_f_1791,
    small_suite20_by_1791, small_suite20_v_1791)
  IN
  small_suite20_andThen((small_suite20_s), (small_suite20_tMove((small_suite20_s)[
    "tok"
  ], small_suite20_at_1791, small_suite20_f_1791, small_suite20_t_1791, small_suite20_v_1791)))

(*
  @type: (() => Bool);
*)
q_inv == small_suite20_safety

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite20_burnFrom(small_suite20_by_396, small_suite20_f_396, small_suite20_v_396) ==
  small_suite20_ledger("burnFrom(address,uint256)()", small_suite20_by_396, <<
    <<small_suite20_f_396>>, <<small_suite20_v_396>>
  >>, <<>>, (small_suite20_whenRunning), (small_suite20_tBurnFrom(small_suite20_tok,
  (small_suite20_UMAX), 0, small_suite20_by_396, small_suite20_f_396, small_suite20_v_396)))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_suite20_transferFrom(small_suite20_by_323, small_suite20_f_323, small_suite20_t_323,
small_suite20_v_323) ==
  small_suite20_ledger("transferFrom(address,address,uint256)(bool)", small_suite20_by_323,
  <<<<small_suite20_f_323>>, <<small_suite20_t_323>>, <<small_suite20_v_323>>>>,
  <<<<1>>>>, (small_suite20_whenRunning), (small_suite20_tTransferFrom(small_suite20_tok,
  (small_suite20_UMAX), 0, small_suite20_by_323, small_suite20_f_323, small_suite20_t_323,
  small_suite20_v_323)))

(*
  @type: (() => Bool);
*)
small_suite20_stepAll ==
  \E small_suite20_by \in small_suite20_USERS:
    \E small_suite20_v \in 0 .. small_suite20_UMAX:
      small_suite20_pause(small_suite20_by)
        \/ small_suite20_unpause(small_suite20_by)
        \/ small_suite20_renounce(small_suite20_by)
        \/ small_suite20_burn(small_suite20_by, small_suite20_v)
        \/ (\E small_suite20_t \in small_suite20_ADDRS:
          small_suite20_transfer(small_suite20_by, small_suite20_t, small_suite20_v)
            \/ small_suite20_approve(small_suite20_by, small_suite20_t, small_suite20_v)
            \/ small_suite20_mint(small_suite20_by, small_suite20_t, small_suite20_v)
            \/ small_suite20_burnFrom(small_suite20_by, small_suite20_t, small_suite20_v)
            \/ small_suite20_hand(small_suite20_by, small_suite20_t)
            \/ (\E small_suite20_f \in small_suite20_ADDRS:
              small_suite20_transferFrom(small_suite20_by, small_suite20_f, small_suite20_t,
              small_suite20_v)))

(*
  @type: (() => Bool);
*)
q_step == small_suite20_stepAll


View == <<small_suite20_tok, small_suite20_frozen, small_suite20_paused, small_suite20_owner, small_suite20_cap, small_suite20_name, small_suite20_symbol>>

==============================================================================
