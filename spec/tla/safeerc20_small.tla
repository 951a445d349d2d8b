\* generated by tools/export_tla.py from safeerc20.qnt 8dc6a6d1ed3a754a387ac984566abaa23b0985118975560bf31b214dcd0beb86
--------------------------------- MODULE safeerc20_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_safeerc20_und

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_safeerc20_emptyTok(small_safeerc20_addrs_1293) ==
  [bal |-> [ small_safeerc20___1279 \in small_safeerc20_addrs_1293 |-> 0 ],
    allow |->
      [
        small_safeerc20___1287 \in
          small_safeerc20_addrs_1293 \X small_safeerc20_addrs_1293 |->
          0
      ],
    supply |-> 0]

(*
  @type: (() => Set(Int));
*)
small_safeerc20_USERS == {1}

(*
  @type: (() => Int);
*)
small_safeerc20_SELF == 100

VARIABLE
  (*
    @type: Int;
  *)
  small_safeerc20_mode

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_safeerc20_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_safeerc20_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_safeerc20_UMAX == 2

(*
  @type: (() => Int);
*)
small_safeerc20_ASSET == 101

(*
  @type: (() => Str);
*)
small_safeerc20_E_SAFE == "SafeErc20FailedOperation(address)"

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_safeerc20_guard(small_safeerc20_bad_2066, small_safeerc20_sig_2066, small_safeerc20_args_2066) ==
  IF small_safeerc20_bad_2066
  THEN <<
    [sig |-> small_safeerc20_sig_2066, args |-> small_safeerc20_args_2066]
  >>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_safeerc20_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_safeerc20_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_safeerc20_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_safeerc20_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: ((Int) => Bool);
*)
small_safeerc20_accepted(small_safeerc20_mode_1016) ==
  small_safeerc20_mode_1016 \in { 0, 1, 5, 6, 7, 12 }

(*
  @type: (() => Str);
*)
small_safeerc20_E_ALLOW == "ERC20InsufficientAllowance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_safeerc20_E_APPROVER == "ERC20InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_safeerc20_E_SPENDER == "ERC20InvalidSpender(address)"

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_andThen(small_safeerc20_a_1829, small_safeerc20_b_1829) ==
  [tok |-> small_safeerc20_b_1829["tok"],
    errs |-> small_safeerc20_a_1829["errs"] \o small_safeerc20_b_1829["errs"],
    evs |-> small_safeerc20_a_1829["evs"] \o small_safeerc20_b_1829["evs"]]

(*
  @type: (() => Str);
*)
small_safeerc20_APPROVAL == "Approval(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_safeerc20_E_DEC ==
  "SafeErc20FailedDecreaseAllowance(address,uint256,uint256)"

(*
  @type: ((Int) => Bool);
*)
small_safeerc20_acts(small_safeerc20_mode_1002) ==
  ~(small_safeerc20_mode_1002 \in { 2, 3, 8 })

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
small_safeerc20_sumBal(small_safeerc20_k_1917) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(small_safeerc20_acc_1915, small_safeerc20_a_1915) ==
    small_safeerc20_acc_1915
      + small_safeerc20_k_1917["bal"][small_safeerc20_a_1915]
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, DOMAIN (small_safeerc20_k_1917["bal"]))

(*
  @type: (() => Set(Int));
*)
small_safeerc20_ADDRS ==
  small_safeerc20_USERS \union { 0, (small_safeerc20_SELF) }

(*
  @type: ((Str, Int, Int, Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => Bool);
*)
small_safeerc20_call(small_safeerc20_op_100, small_safeerc20_by_100, small_safeerc20_token_100,
small_safeerc20_rest_100, small_safeerc20_r_100) ==
  (LET (*
      @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
    *)
    small_safeerc20_errs ==
      IF small_safeerc20_token_100 = small_safeerc20_ASSET
      THEN small_safeerc20_r_100["errs"]
      ELSE <<
        [sig |-> small_safeerc20_E_SAFE,
          args |-> <<<<small_safeerc20_token_100>>>>]
      >>
    IN
    small_safeerc20_obs'
        := [op |-> small_safeerc20_op_100,
          at |-> 0,
          by |-> small_safeerc20_by_100,
          pay |-> 0,
          args |-> <<<<small_safeerc20_token_100>>>> \o small_safeerc20_rest_100,
          errs |-> small_safeerc20_errs,
          ret |-> <<>>,
          evs |-> small_safeerc20_r_100["evs"]]
      /\ small_safeerc20_und'
        := (IF small_safeerc20_errs = <<>>
        THEN small_safeerc20_r_100["tok"]
        ELSE small_safeerc20_und))
    /\ small_safeerc20_mode' := small_safeerc20_mode

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_safeerc20_transferEv(small_safeerc20_at_1317, small_safeerc20_f_1317, small_safeerc20_t_1317,
small_safeerc20_v_1317) ==
  [at |-> small_safeerc20_at_1317,
    sig |-> small_safeerc20_TRANSFER,
    args |->
      <<
        <<small_safeerc20_f_1317>>, <<small_safeerc20_t_1317>>, <<
          small_safeerc20_v_1317
        >>
      >>]

(*
  @type: ((Bool) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_safeerc20_safeErr(small_safeerc20_ok_1029) ==
  small_safeerc20_guard((~small_safeerc20_ok_1029), (small_safeerc20_E_SAFE), <<
    <<(small_safeerc20_ASSET)>>
  >>)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_tSpend(small_safeerc20_k_1545, small_safeerc20_umax_1545, small_safeerc20_o_1545,
small_safeerc20_s_1545, small_safeerc20_v_1545) ==
  LET (*
    @type: (() => Int);
  *)
  small_safeerc20_a ==
    small_safeerc20_k_1545["allow"][
      <<small_safeerc20_o_1545, small_safeerc20_s_1545>>
    ]
  IN
  [tok |->
      IF small_safeerc20_a = small_safeerc20_umax_1545
      THEN small_safeerc20_k_1545
      ELSE [
        small_safeerc20_k_1545 EXCEPT
          !["allow"] =
            [
              small_safeerc20_k_1545["allow"] EXCEPT
                ![<<small_safeerc20_o_1545, small_safeerc20_s_1545>>] =
                  small_safeerc20_a - small_safeerc20_v_1545
            ]
      ],
    errs |->
      (small_safeerc20_guard((small_safeerc20_a < small_safeerc20_v_1545), (small_safeerc20_E_ALLOW),
      <<
        <<small_safeerc20_s_1545>>, <<(small_safeerc20_a)>>, <<
          small_safeerc20_v_1545
        >>
      >>)
        \o small_safeerc20_guard((small_safeerc20_a /= small_safeerc20_umax_1545
          /\ small_safeerc20_o_1545 = 0), (small_safeerc20_E_APPROVER), <<
          <<0>>
        >>))
        \o small_safeerc20_guard((small_safeerc20_a /= small_safeerc20_umax_1545
          /\ small_safeerc20_s_1545 = 0), (small_safeerc20_E_SPENDER), <<<<0>>>>),
    evs |-> <<>>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_tApprove(small_safeerc20_k_1462, small_safeerc20_at_1462, small_safeerc20_o_1462,
small_safeerc20_s_1462, small_safeerc20_v_1462) ==
  [tok |->
      [
        small_safeerc20_k_1462 EXCEPT
          !["allow"] =
            [
              small_safeerc20_k_1462["allow"] EXCEPT
                ![<<small_safeerc20_o_1462, small_safeerc20_s_1462>>] =
                  small_safeerc20_v_1462
            ]
      ],
    errs |->
      small_safeerc20_guard((small_safeerc20_o_1462 = 0), (small_safeerc20_E_APPROVER),
      <<<<0>>>>)
        \o small_safeerc20_guard((small_safeerc20_s_1462 = 0), (small_safeerc20_E_SPENDER),
        <<<<0>>>>),
    evs |->
      <<
        [at |-> small_safeerc20_at_1462,
          sig |-> small_safeerc20_APPROVAL,
          args |->
            <<
              <<small_safeerc20_o_1462>>, <<small_safeerc20_s_1462>>, <<
                small_safeerc20_v_1462
              >>
            >>]
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => Bool);
*)
small_safeerc20_refusesApprove(small_safeerc20_u_132, small_safeerc20_m_132, small_safeerc20_s_132,
small_safeerc20_v_132) ==
  ((small_safeerc20_m_132 = 5 \/ small_safeerc20_m_132 = 6)
      /\ small_safeerc20_u_132["allow"][
        <<(small_safeerc20_SELF), small_safeerc20_s_132>>
      ]
        /= 0)
    /\ small_safeerc20_v_132 /= 0

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => Bool);
*)
small_safeerc20_env(small_safeerc20_op_491, small_safeerc20_by_491, small_safeerc20_args_491,
small_safeerc20_ret_491, small_safeerc20_r_491) ==
  small_safeerc20_obs'
      := [op |-> small_safeerc20_op_491,
        at |-> 1,
        by |-> small_safeerc20_by_491,
        pay |-> 0,
        args |-> small_safeerc20_args_491,
        errs |-> small_safeerc20_r_491["errs"],
        ret |-> small_safeerc20_ret_491,
        evs |-> small_safeerc20_r_491["evs"]]
    /\ small_safeerc20_und'
      := (IF small_safeerc20_r_491["errs"] = <<>>
      THEN small_safeerc20_r_491["tok"]
      ELSE small_safeerc20_und)
    /\ small_safeerc20_mode' := small_safeerc20_mode

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_direct(small_safeerc20_u_1148, small_safeerc20_mode_1148, small_safeerc20_r_1148) ==
  IF ~(small_safeerc20_acts(small_safeerc20_mode_1148))
  THEN [tok |-> small_safeerc20_u_1148,
    errs |-> <<[sig |-> "#any", args |-> <<>>]>>,
    evs |-> <<>>]
  ELSE [
    small_safeerc20_r_1148 EXCEPT
      !["errs"] =
        IF small_safeerc20_r_1148["errs"] = <<>>
        THEN <<>>
        ELSE <<[sig |-> "#any", args |-> <<>>]>>
  ]

(*
  @type: ((Int) => Bool);
*)
small_safeerc20_setMode(small_safeerc20_m_598) ==
  small_safeerc20_obs'
      := [op |-> "!mode(uint256)()",
        at |-> 1,
        by |-> 1,
        pay |-> 0,
        args |-> <<<<small_safeerc20_m_598>>>>,
        errs |-> <<>>,
        ret |-> <<>>,
        evs |-> <<>>]
    /\ small_safeerc20_und' := small_safeerc20_und
    /\ small_safeerc20_mode' := small_safeerc20_m_598

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
small_safeerc20_tokOk(small_safeerc20_k_1983, small_safeerc20_umax_1983) ==
  small_safeerc20_sumBal(small_safeerc20_k_1983)
      = small_safeerc20_k_1983["supply"]
    /\ small_safeerc20_k_1983["supply"] <= small_safeerc20_umax_1983
    /\ (\A small_safeerc20_a_1947 \in DOMAIN (small_safeerc20_k_1983["bal"]):
      small_safeerc20_k_1983["bal"][small_safeerc20_a_1947] >= 0)
    /\ small_safeerc20_k_1983["bal"][0] = 0
    /\ (\A small_safeerc20_a_1980 \in DOMAIN (small_safeerc20_k_1983["bal"]):
      small_safeerc20_k_1983["allow"][<<small_safeerc20_a_1980, 0>>] = 0
        /\ small_safeerc20_k_1983["allow"][<<0, small_safeerc20_a_1980>>] = 0)

(*
  @type: (() => Bool);
*)
small_safeerc20_init ==
  small_safeerc20_und = small_safeerc20_emptyTok((small_safeerc20_ADDRS))
    /\ small_safeerc20_mode = 0
    /\ small_safeerc20_obs = small_safeerc20_initObs

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_tMove(small_safeerc20_k_1403, small_safeerc20_at_1403, small_safeerc20_f_1403,
small_safeerc20_t_1403, small_safeerc20_v_1403) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_safeerc20_b1 ==
    [
      small_safeerc20_k_1403["bal"] EXCEPT
        ![small_safeerc20_f_1403] =
          small_safeerc20_k_1403["bal"][small_safeerc20_f_1403]
            - small_safeerc20_v_1403
    ]
  IN
  [tok |->
      [
        small_safeerc20_k_1403 EXCEPT
          !["bal"] =
            [
              (small_safeerc20_b1) EXCEPT
                ![small_safeerc20_t_1403] =
                  (small_safeerc20_b1)[small_safeerc20_t_1403]
                    + small_safeerc20_v_1403
            ]
      ],
    errs |->
      (small_safeerc20_guard((small_safeerc20_f_1403 = 0), (small_safeerc20_E_SENDER),
      <<<<0>>>>)
        \o small_safeerc20_guard((small_safeerc20_t_1403 = 0), (small_safeerc20_E_RECV),
        <<<<0>>>>))
        \o small_safeerc20_guard((small_safeerc20_k_1403["bal"][
          small_safeerc20_f_1403
        ]
          < small_safeerc20_v_1403), (small_safeerc20_E_BAL), <<
          <<small_safeerc20_f_1403>>, <<
            small_safeerc20_k_1403["bal"][small_safeerc20_f_1403]
          >>, <<small_safeerc20_v_1403>>
        >>),
    evs |->
      <<
        (small_safeerc20_transferEv(small_safeerc20_at_1403, small_safeerc20_f_1403,
        small_safeerc20_t_1403, small_safeerc20_v_1403))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_sApprove(small_safeerc20_u_170, small_safeerc20_m_170, small_safeerc20_s_170,
small_safeerc20_v_170) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_r ==
    small_safeerc20_tApprove(small_safeerc20_u_170, 1, (small_safeerc20_SELF), small_safeerc20_s_170,
    small_safeerc20_v_170)
  IN
  [
    (small_safeerc20_r) EXCEPT
      !["errs"] =
        small_safeerc20_safeErr((((small_safeerc20_r)["errs"] = <<>>
            /\ small_safeerc20_accepted(small_safeerc20_m_170))
          /\ ~(small_safeerc20_refusesApprove(small_safeerc20_u_170, small_safeerc20_m_170,
          small_safeerc20_s_170, small_safeerc20_v_170))))
  ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_tMint(small_safeerc20_k_1609, small_safeerc20_umax_1609, small_safeerc20_at_1609,
small_safeerc20_t_1609, small_safeerc20_v_1609) ==
  [tok |->
      [
        [
          small_safeerc20_k_1609 EXCEPT
            !["bal"] =
              [
                small_safeerc20_k_1609["bal"] EXCEPT
                  ![small_safeerc20_t_1609] =
                    small_safeerc20_k_1609["bal"][small_safeerc20_t_1609]
                      + small_safeerc20_v_1609
              ]
        ] EXCEPT
          !["supply"] =
            small_safeerc20_k_1609["supply"] + small_safeerc20_v_1609
      ],
    errs |->
      small_safeerc20_guard((small_safeerc20_t_1609 = 0), (small_safeerc20_E_RECV),
      <<<<0>>>>)
        \o small_safeerc20_guard((small_safeerc20_k_1609["supply"]
          + small_safeerc20_v_1609
          > small_safeerc20_umax_1609), "#empty", <<>>),
    evs |->
      <<
        (small_safeerc20_transferEv(small_safeerc20_at_1609, 0, small_safeerc20_t_1609,
        small_safeerc20_v_1609))
      >>]

(*
  @type: ((Int, Int) => Bool);
*)
small_safeerc20_allowSelf(small_safeerc20_by_565, small_safeerc20_v_565) ==
  small_safeerc20_mode = 0
    /\ small_safeerc20_env("approve(address,uint256)(bool)", small_safeerc20_by_565,
    <<<<(small_safeerc20_SELF)>>, <<small_safeerc20_v_565>>>>, <<<<1>>>>, (small_safeerc20_direct(small_safeerc20_und,
    small_safeerc20_mode, (small_safeerc20_tApprove(small_safeerc20_und, 1, small_safeerc20_by_565,
    (small_safeerc20_SELF), small_safeerc20_v_565)))))

(*
  @type: (() => Bool);
*)
small_safeerc20_safety ==
  small_safeerc20_tokOk(small_safeerc20_und, (small_safeerc20_UMAX))

(*
  @type: (() => Bool);
*)
q_init == small_safeerc20_init

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_sTransfer(small_safeerc20_u_1065, small_safeerc20_mode_1065, small_safeerc20_f_1065,
small_safeerc20_t_1065, small_safeerc20_v_1065) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_r ==
    small_safeerc20_tMove(small_safeerc20_u_1065, 1, small_safeerc20_f_1065, small_safeerc20_t_1065,
    small_safeerc20_v_1065)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_safeerc20_ok ==
    (small_safeerc20_r)["errs"] = <<>>
      /\ small_safeerc20_accepted(small_safeerc20_mode_1065)
  IN
  [
    (small_safeerc20_r) EXCEPT
      !["errs"] = small_safeerc20_safeErr((small_safeerc20_ok))
  ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_tTransferFrom(small_safeerc20_k_1864, small_safeerc20_umax_1864,
small_safeerc20_at_1864, small_safeerc20_by_1864, small_safeerc20_f_1864, small_safeerc20_t_1864,
small_safeerc20_v_1864) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_s ==
    small_safeerc20_tSpend(small_safeerc20_k_1864, small_safeerc20_umax_1864, small_safeerc20_f_1864,
    small_safeerc20_by_1864, small_safeerc20_v_1864)
  IN
  small_safeerc20_andThen((small_safeerc20_s), (small_safeerc20_tMove((small_safeerc20_s)[
    "tok"
  ], small_safeerc20_at_1864, small_safeerc20_f_1864, small_safeerc20_t_1864, small_safeerc20_v_1864)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_sForce(small_safeerc20_u_211, small_safeerc20_m_211, small_safeerc20_s_211,
small_safeerc20_v_211) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_d ==
    small_safeerc20_sApprove(small_safeerc20_u_211, small_safeerc20_m_211, small_safeerc20_s_211,
    small_safeerc20_v_211)
  IN
  IF (small_safeerc20_d)["errs"] = <<>>
  THEN small_safeerc20_d
  ELSE LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_z ==
    small_safeerc20_sApprove(small_safeerc20_u_211, small_safeerc20_m_211, small_safeerc20_s_211,
    0)
  IN
  small_safeerc20_andThen((small_safeerc20_z), (small_safeerc20_sApprove((small_safeerc20_z)[
    "tok"
  ], small_safeerc20_m_211, small_safeerc20_s_211, small_safeerc20_v_211)))

(*
  @type: ((Int, Int) => Bool);
*)
small_safeerc20_fund(small_safeerc20_t_534, small_safeerc20_v_534) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_r ==
    small_safeerc20_tMint(small_safeerc20_und, (small_safeerc20_UMAX), 1, small_safeerc20_t_534,
    small_safeerc20_v_534)
  IN
  small_safeerc20_env("mint(address,uint256)()", 1, <<
    <<small_safeerc20_t_534>>, <<small_safeerc20_v_534>>
  >>, <<>>, [
    [ (small_safeerc20_r) EXCEPT !["evs"] = <<>> ] EXCEPT
      !["errs"] =
        IF (small_safeerc20_r)["errs"] = <<>>
        THEN <<>>
        ELSE <<[sig |-> "#any", args |-> <<>>]>>
  ])

(*
  @type: (() => Bool);
*)
q_inv == small_safeerc20_safety

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_safeerc20_safeTransfer(small_safeerc20_by_237, small_safeerc20_token_237, small_safeerc20_t_237,
small_safeerc20_v_237) ==
  small_safeerc20_call("safeTransfer(address,address,uint256)()", small_safeerc20_by_237,
  small_safeerc20_token_237, <<
    <<small_safeerc20_t_237>>, <<small_safeerc20_v_237>>
  >>, (small_safeerc20_sTransfer(small_safeerc20_und, small_safeerc20_mode, (small_safeerc20_SELF),
  small_safeerc20_t_237, small_safeerc20_v_237)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_safeerc20_sTransferFrom(small_safeerc20_u_1107, small_safeerc20_mode_1107,
small_safeerc20_umax_1107, small_safeerc20_by_1107, small_safeerc20_f_1107, small_safeerc20_t_1107,
small_safeerc20_v_1107) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_r ==
    small_safeerc20_tTransferFrom(small_safeerc20_u_1107, small_safeerc20_umax_1107,
    1, small_safeerc20_by_1107, small_safeerc20_f_1107, small_safeerc20_t_1107, small_safeerc20_v_1107)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_safeerc20_ok ==
    (small_safeerc20_r)["errs"] = <<>>
      /\ small_safeerc20_accepted(small_safeerc20_mode_1107)
  IN
  [
    (small_safeerc20_r) EXCEPT
      !["errs"] = small_safeerc20_safeErr((small_safeerc20_ok))
  ]

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_safeerc20_forceApprove(small_safeerc20_by_294, small_safeerc20_token_294, small_safeerc20_s_294,
small_safeerc20_v_294) ==
  small_safeerc20_call("forceApprove(address,address,uint256)()", small_safeerc20_by_294,
  small_safeerc20_token_294, <<
    <<small_safeerc20_s_294>>, <<small_safeerc20_v_294>>
  >>, (small_safeerc20_sForce(small_safeerc20_und, small_safeerc20_mode, small_safeerc20_s_294,
  small_safeerc20_v_294)))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_safeerc20_safeIncreaseAllowance(small_safeerc20_by_360, small_safeerc20_token_360,
small_safeerc20_s_360, small_safeerc20_v_360) ==
  LET (*
    @type: (() => Int);
  *)
  small_safeerc20_cur ==
    small_safeerc20_und["allow"][
      <<(small_safeerc20_SELF), small_safeerc20_s_360>>
    ]
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_r ==
    small_safeerc20_sForce(small_safeerc20_und, small_safeerc20_mode, small_safeerc20_s_360,
    (small_safeerc20_cur + small_safeerc20_v_360))
  IN
  small_safeerc20_call("safeIncreaseAllowance(address,address,uint256)()", small_safeerc20_by_360,
  small_safeerc20_token_360, <<
    <<small_safeerc20_s_360>>, <<small_safeerc20_v_360>>
  >>, [
    (small_safeerc20_r) EXCEPT
      !["errs"] =
        (small_safeerc20_guard((small_safeerc20_mode = 8), (small_safeerc20_E_SAFE),
        <<<<(small_safeerc20_ASSET)>>>>)
          \o small_safeerc20_guard((small_safeerc20_mode /= 8
            /\ small_safeerc20_cur + small_safeerc20_v_360
              > small_safeerc20_UMAX), "#empty", <<>>))
          \o (small_safeerc20_r)["errs"]
  ])

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_safeerc20_safeDecreaseAllowance(small_safeerc20_by_435, small_safeerc20_token_435,
small_safeerc20_s_435, small_safeerc20_v_435) ==
  LET (*
    @type: (() => Int);
  *)
  small_safeerc20_cur ==
    small_safeerc20_und["allow"][
      <<(small_safeerc20_SELF), small_safeerc20_s_435>>
    ]
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_safeerc20_r ==
    small_safeerc20_sForce(small_safeerc20_und, small_safeerc20_mode, small_safeerc20_s_435,
    (small_safeerc20_cur - small_safeerc20_v_435))
  IN
  small_safeerc20_call("safeDecreaseAllowance(address,address,uint256)()", small_safeerc20_by_435,
  small_safeerc20_token_435, <<
    <<small_safeerc20_s_435>>, <<small_safeerc20_v_435>>
  >>, [
    (small_safeerc20_r) EXCEPT
      !["errs"] =
        (small_safeerc20_guard((small_safeerc20_mode = 8), (small_safeerc20_E_SAFE),
        <<<<(small_safeerc20_ASSET)>>>>)
          \o small_safeerc20_guard((small_safeerc20_mode /= 8
            /\ small_safeerc20_cur < small_safeerc20_v_435), (small_safeerc20_E_DEC),
          <<
            <<small_safeerc20_s_435>>, <<(small_safeerc20_cur)>>, <<
              small_safeerc20_v_435
            >>
          >>))
          \o (IF small_safeerc20_cur < small_safeerc20_v_435
          THEN <<>>
          ELSE (small_safeerc20_r)["errs"])
  ])

(*
  @type: ((Int, Int, Int, Int, Int) => Bool);
*)
small_safeerc20_safeTransferFrom(small_safeerc20_by_269, small_safeerc20_token_269,
small_safeerc20_f_269, small_safeerc20_t_269, small_safeerc20_v_269) ==
  small_safeerc20_call("safeTransferFrom(address,address,address,uint256)()", small_safeerc20_by_269,
  small_safeerc20_token_269, <<
    <<small_safeerc20_f_269>>, <<small_safeerc20_t_269>>, <<
      small_safeerc20_v_269
    >>
  >>, (small_safeerc20_sTransferFrom(small_safeerc20_und, small_safeerc20_mode, (small_safeerc20_UMAX),
  (small_safeerc20_SELF), small_safeerc20_f_269, small_safeerc20_t_269, small_safeerc20_v_269)))

(*
  @type: (() => Bool);
*)
small_safeerc20_stepAll ==
  \E small_safeerc20_t \in small_safeerc20_ADDRS:
    \E small_safeerc20_v \in 0 .. small_safeerc20_UMAX:
      small_safeerc20_safeTransfer(1, (small_safeerc20_ASSET), small_safeerc20_t,
        small_safeerc20_v)
        \/ small_safeerc20_safeTransferFrom(1, (small_safeerc20_ASSET), 1, small_safeerc20_t,
        small_safeerc20_v)
        \/ small_safeerc20_forceApprove(1, (small_safeerc20_ASSET), small_safeerc20_t,
        small_safeerc20_v)
        \/ small_safeerc20_safeIncreaseAllowance(1, (small_safeerc20_ASSET), small_safeerc20_t,
        small_safeerc20_v)
        \/ small_safeerc20_safeDecreaseAllowance(1, (small_safeerc20_ASSET), small_safeerc20_t,
        small_safeerc20_v)
        \/ small_safeerc20_fund(small_safeerc20_t, small_safeerc20_v)
        \/ small_safeerc20_allowSelf(1, small_safeerc20_v)
        \/ (\E small_safeerc20_m \in { 0, 2, 5, 10 }:
          small_safeerc20_setMode(small_safeerc20_m))

(*
  @type: (() => Bool);
*)
q_step == small_safeerc20_stepAll


View == <<small_safeerc20_und, small_safeerc20_mode>>

==============================================================================
