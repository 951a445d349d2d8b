\* generated by tools/export_tla.py from erc20.qnt c59b1a62292f25e4c997d13d8e31d35ab71db3d1ac48d244ea666b1d6776971c
--------------------------------- MODULE erc20_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_erc20_tok

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_erc20_emptyTok(small_erc20_addrs_801) ==
  [bal |-> [ small_erc20___787 \in small_erc20_addrs_801 |-> 0 ],
    allow |->
      [
        small_erc20___795 \in small_erc20_addrs_801 \X small_erc20_addrs_801 |->
          0
      ],
    supply |-> 0]

(*
  @type: (() => Set(Int));
*)
small_erc20_USERS == { 1, 2 }

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_erc20_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_erc20_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_erc20_UMAX == 2

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc20_guard(small_erc20_bad_1659, small_erc20_sig_1659, small_erc20_args_1659) ==
  IF small_erc20_bad_1659
  THEN <<[sig |-> small_erc20_sig_1659, args |-> small_erc20_args_1659]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_erc20_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_erc20_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_erc20_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_erc20_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_erc20_E_APPROVER == "ERC20InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_erc20_E_SPENDER == "ERC20InvalidSpender(address)"

(*
  @type: (() => Str);
*)
small_erc20_APPROVAL == "Approval(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_erc20_E_ALLOW == "ERC20InsufficientAllowance(address,uint256,uint256)"

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_andThen(small_erc20_a_1337, small_erc20_b_1337) ==
  [tok |-> small_erc20_b_1337["tok"],
    errs |-> small_erc20_a_1337["errs"] \o small_erc20_b_1337["errs"],
    evs |-> small_erc20_a_1337["evs"] \o small_erc20_b_1337["evs"]]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
small_erc20_sumBal(small_erc20_k_1425) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(small_erc20_acc_1423, small_erc20_a_1423) ==
    small_erc20_acc_1423 + small_erc20_k_1425["bal"][small_erc20_a_1423]
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, DOMAIN (small_erc20_k_1425["bal"]))

(*
  @type: (() => Set(Int));
*)
small_erc20_ADDRS == small_erc20_USERS \union {0}

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => Bool);
*)
small_erc20_call(small_erc20_op_72, small_erc20_by_72, small_erc20_args_72, small_erc20_ret_72,
small_erc20_r_72) ==
  small_erc20_obs'
      := [op |-> small_erc20_op_72,
        at |-> 0,
        by |-> small_erc20_by_72,
        pay |-> 0,
        args |-> small_erc20_args_72,
        errs |-> small_erc20_r_72["errs"],
        ret |-> small_erc20_ret_72,
        evs |-> small_erc20_r_72["evs"]]
    /\ small_erc20_tok'
      := (IF small_erc20_r_72["errs"] = <<>>
      THEN small_erc20_r_72["tok"]
      ELSE small_erc20_tok)

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_erc20_transferEv(small_erc20_at_825, small_erc20_f_825, small_erc20_t_825,
small_erc20_v_825) ==
  [at |-> small_erc20_at_825,
    sig |-> small_erc20_TRANSFER,
    args |->
      <<<<small_erc20_f_825>>, <<small_erc20_t_825>>, <<small_erc20_v_825>>>>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tApprove(small_erc20_k_970, small_erc20_at_970, small_erc20_o_970, small_erc20_s_970,
small_erc20_v_970) ==
  [tok |->
      [
        small_erc20_k_970 EXCEPT
          !["allow"] =
            [
              small_erc20_k_970["allow"] EXCEPT
                ![<<small_erc20_o_970, small_erc20_s_970>>] = small_erc20_v_970
            ]
      ],
    errs |->
      small_erc20_guard((small_erc20_o_970 = 0), (small_erc20_E_APPROVER), <<
        <<0>>
      >>)
        \o small_erc20_guard((small_erc20_s_970 = 0), (small_erc20_E_SPENDER), <<
          <<0>>
        >>),
    evs |->
      <<
        [at |-> small_erc20_at_970,
          sig |-> small_erc20_APPROVAL,
          args |->
            <<
              <<small_erc20_o_970>>, <<small_erc20_s_970>>, <<
                small_erc20_v_970
              >>
            >>]
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tSpend(small_erc20_k_1053, small_erc20_umax_1053, small_erc20_o_1053,
small_erc20_s_1053, small_erc20_v_1053) ==
  LET (*
    @type: (() => Int);
  *)
  small_erc20_a ==
    small_erc20_k_1053["allow"][<<small_erc20_o_1053, small_erc20_s_1053>>]
  IN
  [tok |->
      IF small_erc20_a = small_erc20_umax_1053
      THEN small_erc20_k_1053
      ELSE [
        small_erc20_k_1053 EXCEPT
          !["allow"] =
            [
              small_erc20_k_1053["allow"] EXCEPT
                ![<<small_erc20_o_1053, small_erc20_s_1053>>] =
                  small_erc20_a - small_erc20_v_1053
            ]
      ],
    errs |->
      (small_erc20_guard((small_erc20_a < small_erc20_v_1053), (small_erc20_E_ALLOW),
      <<<<small_erc20_s_1053>>, <<(small_erc20_a)>>, <<small_erc20_v_1053>>>>)
        \o small_erc20_guard((small_erc20_a /= small_erc20_umax_1053
          /\ small_erc20_o_1053 = 0), (small_erc20_E_APPROVER), <<<<0>>>>))
        \o small_erc20_guard((small_erc20_a /= small_erc20_umax_1053
          /\ small_erc20_s_1053 = 0), (small_erc20_E_SPENDER), <<<<0>>>>),
    evs |-> <<>>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
small_erc20_tokOk(small_erc20_k_1491, small_erc20_umax_1491) ==
  small_erc20_sumBal(small_erc20_k_1491) = small_erc20_k_1491["supply"]
    /\ small_erc20_k_1491["supply"] <= small_erc20_umax_1491
    /\ (\A small_erc20_a_1455 \in DOMAIN (small_erc20_k_1491["bal"]):
      small_erc20_k_1491["bal"][small_erc20_a_1455] >= 0)
    /\ small_erc20_k_1491["bal"][0] = 0
    /\ (\A small_erc20_a_1488 \in DOMAIN (small_erc20_k_1491["bal"]):
      small_erc20_k_1491["allow"][<<small_erc20_a_1488, 0>>] = 0
        /\ small_erc20_k_1491["allow"][<<0, small_erc20_a_1488>>] = 0)

(*
  @type: (() => Bool);
*)
small_erc20_init ==
  small_erc20_tok = small_erc20_emptyTok((small_erc20_ADDRS))
    /\ small_erc20_obs = small_erc20_initObs

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tBurn(small_erc20_k_1189, small_erc20_at_1189, small_erc20_f_1189, small_erc20_v_1189) ==
  [tok |->
      [
        [
          small_erc20_k_1189 EXCEPT
            !["bal"] =
              [
                small_erc20_k_1189["bal"] EXCEPT
                  ![small_erc20_f_1189] =
                    small_erc20_k_1189["bal"][small_erc20_f_1189]
                      - small_erc20_v_1189
              ]
        ] EXCEPT
          !["supply"] = small_erc20_k_1189["supply"] - small_erc20_v_1189
      ],
    errs |->
      small_erc20_guard((small_erc20_f_1189 = 0), (small_erc20_E_SENDER), <<
        <<0>>
      >>)
        \o small_erc20_guard((small_erc20_k_1189["bal"][small_erc20_f_1189]
          < small_erc20_v_1189), (small_erc20_E_BAL), <<
          <<small_erc20_f_1189>>, <<
            small_erc20_k_1189["bal"][small_erc20_f_1189]
          >>, <<small_erc20_v_1189>>
        >>),
    evs |->
      <<
        (small_erc20_transferEv(small_erc20_at_1189, small_erc20_f_1189, 0, small_erc20_v_1189))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tMove(small_erc20_k_911, small_erc20_at_911, small_erc20_f_911, small_erc20_t_911,
small_erc20_v_911) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_erc20_b1 ==
    [
      small_erc20_k_911["bal"] EXCEPT
        ![small_erc20_f_911] =
          small_erc20_k_911["bal"][small_erc20_f_911] - small_erc20_v_911
    ]
  IN
  [tok |->
      [
        small_erc20_k_911 EXCEPT
          !["bal"] =
            [
              (small_erc20_b1) EXCEPT
                ![small_erc20_t_911] =
                  (small_erc20_b1)[small_erc20_t_911] + small_erc20_v_911
            ]
      ],
    errs |->
      (small_erc20_guard((small_erc20_f_911 = 0), (small_erc20_E_SENDER), <<
        <<0>>
      >>)
        \o small_erc20_guard((small_erc20_t_911 = 0), (small_erc20_E_RECV), <<
          <<0>>
        >>))
        \o small_erc20_guard((small_erc20_k_911["bal"][small_erc20_f_911]
          < small_erc20_v_911), (small_erc20_E_BAL), <<
          <<small_erc20_f_911>>, <<small_erc20_k_911["bal"][small_erc20_f_911]>>,
          <<small_erc20_v_911>>
        >>),
    evs |->
      <<
        (small_erc20_transferEv(small_erc20_at_911, small_erc20_f_911, small_erc20_t_911,
        small_erc20_v_911))
      >>]

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_erc20_approve(small_erc20_by_124, small_erc20_s_124, small_erc20_v_124) ==
  small_erc20_call("approve(address,uint256)(bool)", small_erc20_by_124, <<
    <<small_erc20_s_124>>, <<small_erc20_v_124>>
  >>, <<<<1>>>>, (small_erc20_tApprove(small_erc20_tok, 0, small_erc20_by_124, small_erc20_s_124,
  small_erc20_v_124)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tMint(small_erc20_k_1117, small_erc20_umax_1117, small_erc20_at_1117,
small_erc20_t_1117, small_erc20_v_1117) ==
  [tok |->
      [
        [
          small_erc20_k_1117 EXCEPT
            !["bal"] =
              [
                small_erc20_k_1117["bal"] EXCEPT
                  ![small_erc20_t_1117] =
                    small_erc20_k_1117["bal"][small_erc20_t_1117]
                      + small_erc20_v_1117
              ]
        ] EXCEPT
          !["supply"] = small_erc20_k_1117["supply"] + small_erc20_v_1117
      ],
    errs |->
      small_erc20_guard((small_erc20_t_1117 = 0), (small_erc20_E_RECV), <<
        <<0>>
      >>)
        \o small_erc20_guard((small_erc20_k_1117["supply"] + small_erc20_v_1117
          > small_erc20_umax_1117), "#empty", <<>>),
    evs |->
      <<
        (small_erc20_transferEv(small_erc20_at_1117, 0, small_erc20_t_1117, small_erc20_v_1117))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tUpdate(small_erc20_k_1309, small_erc20_umax_1309, small_erc20_at_1309,
small_erc20_f_1309, small_erc20_t_1309, small_erc20_v_1309) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_erc20_b1 ==
    IF small_erc20_f_1309 = 0
    THEN small_erc20_k_1309["bal"]
    ELSE [
      small_erc20_k_1309["bal"] EXCEPT
        ![small_erc20_f_1309] =
          small_erc20_k_1309["bal"][small_erc20_f_1309] - small_erc20_v_1309
    ]
  IN
  [tok |->
      [
        [
          small_erc20_k_1309 EXCEPT
            !["bal"] =
              IF small_erc20_t_1309 = 0
              THEN small_erc20_b1
              ELSE [
                (small_erc20_b1) EXCEPT
                  ![small_erc20_t_1309] =
                    (small_erc20_b1)[small_erc20_t_1309] + small_erc20_v_1309
              ]
        ] EXCEPT
          !["supply"] =
            (small_erc20_k_1309["supply"]
              + (IF small_erc20_f_1309 = 0 THEN small_erc20_v_1309 ELSE 0))
              - (IF small_erc20_t_1309 = 0 THEN small_erc20_v_1309 ELSE 0)
      ],
    errs |->
      small_erc20_guard((small_erc20_f_1309 = 0
        /\ small_erc20_k_1309["supply"] + small_erc20_v_1309
          > small_erc20_umax_1309), "#empty", <<>>)
        \o small_erc20_guard((small_erc20_f_1309 /= 0
          /\ small_erc20_k_1309["bal"][small_erc20_f_1309] < small_erc20_v_1309),
        (small_erc20_E_BAL), <<
          <<small_erc20_f_1309>>, <<
            small_erc20_k_1309["bal"][small_erc20_f_1309]
          >>, <<small_erc20_v_1309>>
        >>),
    evs |->
      <<
        (small_erc20_transferEv(small_erc20_at_1309, small_erc20_f_1309, small_erc20_t_1309,
        small_erc20_v_1309))
      >>]

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_erc20_spend(small_erc20_by_304, small_erc20_o_304, small_erc20_s_304, small_erc20_v_304) ==
  small_erc20_call("spendAllowance(address,address,uint256)()", small_erc20_by_304,
  <<<<small_erc20_o_304>>, <<small_erc20_s_304>>, <<small_erc20_v_304>>>>, <<>>,
  (small_erc20_tSpend(small_erc20_tok, (small_erc20_UMAX), small_erc20_o_304, small_erc20_s_304,
  small_erc20_v_304)))

(*
  @type: (() => Bool);
*)
small_erc20_safety == small_erc20_tokOk(small_erc20_tok, (small_erc20_UMAX))

(*
  @type: (() => Bool);
*)
q_init == small_erc20_init

(*
  @type: ((Int, Int) => Bool);
*)
small_erc20_burn(small_erc20_by_175, small_erc20_v_175) ==
  small_erc20_call("burn(uint256)()", small_erc20_by_175, <<
    <<small_erc20_v_175>>
  >>, <<>>, (small_erc20_tBurn(small_erc20_tok, 0, small_erc20_by_175, small_erc20_v_175)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_erc20_transfer(small_erc20_by_98, small_erc20_t_98, small_erc20_v_98) ==
  small_erc20_call("transfer(address,uint256)(bool)", small_erc20_by_98, <<
    <<small_erc20_t_98>>, <<small_erc20_v_98>>
  >>, <<<<1>>>>, (small_erc20_tMove(small_erc20_tok, 0, small_erc20_by_98, small_erc20_t_98,
  small_erc20_v_98)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_erc20_mint(small_erc20_by_224, small_erc20_t_224, small_erc20_v_224) ==
  small_erc20_call("mint(address,uint256)()", small_erc20_by_224, <<
    <<small_erc20_t_224>>, <<small_erc20_v_224>>
  >>, <<>>, (small_erc20_tMint(small_erc20_tok, (small_erc20_UMAX), 0, small_erc20_t_224,
  small_erc20_v_224)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tBurnFrom(small_erc20_k_1404, small_erc20_umax_1404, small_erc20_at_1404,
small_erc20_by_1404, small_erc20_f_1404, small_erc20_v_1404) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_erc20_s ==
    small_erc20_tSpend(small_erc20_k_1404, small_erc20_umax_1404, small_erc20_f_1404,
    small_erc20_by_1404, small_erc20_v_1404)
  IN
  small_erc20_andThen((small_erc20_s), (small_erc20_tBurn((small_erc20_s)["tok"],
  small_erc20_at_1404, small_erc20_f_1404, small_erc20_v_1404)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_erc20_forceBurn(small_erc20_by_276, small_erc20_f_276, small_erc20_v_276) ==
  small_erc20_call("forceBurn(address,uint256)()", small_erc20_by_276, <<
    <<small_erc20_f_276>>, <<small_erc20_v_276>>
  >>, <<>>, (small_erc20_tBurn(small_erc20_tok, 0, small_erc20_f_276, small_erc20_v_276)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_erc20_tTransferFrom(small_erc20_k_1372, small_erc20_umax_1372, small_erc20_at_1372,
small_erc20_by_1372, small_erc20_f_1372, small_erc20_t_1372, small_erc20_v_1372) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_erc20_s ==
    small_erc20_tSpend(small_erc20_k_1372, small_erc20_umax_1372, small_erc20_f_1372,
    small_erc20_by_1372, small_erc20_v_1372)
  IN
  small_erc20_andThen((small_erc20_s), (small_erc20_tMove((small_erc20_s)["tok"],
  small_erc20_at_1372, small_erc20_f_1372, small_erc20_t_1372, small_erc20_v_1372)))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_erc20_update(small_erc20_by_253, small_erc20_f_253, small_erc20_t_253, small_erc20_v_253) ==
  small_erc20_call("forceUpdate(address,address,uint256)()", small_erc20_by_253,
  <<<<small_erc20_f_253>>, <<small_erc20_t_253>>, <<small_erc20_v_253>>>>, <<>>,
  (small_erc20_tUpdate(small_erc20_tok, (small_erc20_UMAX), 0, small_erc20_f_253,
  small_erc20_t_253, small_erc20_v_253)))

(*
  @type: (() => Bool);
*)
q_inv == small_erc20_safety

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_erc20_burnFrom(small_erc20_by_200, small_erc20_f_200, small_erc20_v_200) ==
  small_erc20_call("burnFrom(address,uint256)()", small_erc20_by_200, <<
    <<small_erc20_f_200>>, <<small_erc20_v_200>>
  >>, <<>>, (small_erc20_tBurnFrom(small_erc20_tok, (small_erc20_UMAX), 0, small_erc20_by_200,
  small_erc20_f_200, small_erc20_v_200)))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_erc20_transferFrom(small_erc20_by_156, small_erc20_f_156, small_erc20_t_156,
small_erc20_v_156) ==
  small_erc20_call("transferFrom(address,address,uint256)(bool)", small_erc20_by_156,
  <<<<small_erc20_f_156>>, <<small_erc20_t_156>>, <<small_erc20_v_156>>>>, <<
    <<1>>
  >>, (small_erc20_tTransferFrom(small_erc20_tok, (small_erc20_UMAX), 0, small_erc20_by_156,
  small_erc20_f_156, small_erc20_t_156, small_erc20_v_156)))

(*
  @type: (() => Bool);
*)
small_erc20_stepAll ==
  \E small_erc20_by \in small_erc20_USERS:
    \E small_erc20_v \in 0 .. small_erc20_UMAX:
      small_erc20_burn(small_erc20_by, small_erc20_v)
        \/ (\E small_erc20_t \in small_erc20_ADDRS:
          small_erc20_transfer(small_erc20_by, small_erc20_t, small_erc20_v)
            \/ small_erc20_approve(small_erc20_by, small_erc20_t, small_erc20_v)
            \/ small_erc20_mint(small_erc20_by, small_erc20_t, small_erc20_v)
            \/ small_erc20_burnFrom(small_erc20_by, small_erc20_t, small_erc20_v)
            \/ small_erc20_forceBurn(small_erc20_by, small_erc20_t, small_erc20_v)
            \/ (\E small_erc20_f \in small_erc20_ADDRS:
              small_erc20_transferFrom(small_erc20_by, small_erc20_f, small_erc20_t,
                small_erc20_v)
                \/ small_erc20_update(small_erc20_by, small_erc20_f, small_erc20_t,
                small_erc20_v)
                \/ small_erc20_spend(small_erc20_by, small_erc20_f, small_erc20_t,
                small_erc20_v)))

(*
  @type: (() => Bool);
*)
q_step == small_erc20_stepAll


View == <<small_erc20_tok>>

==============================================================================
