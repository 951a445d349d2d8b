\* generated by tools/export_tla.py from flash.qnt d33282773ff2098ecf37a8b7d0531c433ab9d2479e0742b4a196380f94c96253
--------------------------------- MODULE flash_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
small_flash_BORROWER == 101

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_flash_tok

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_flash_emptyTok(small_flash_addrs_1591) ==
  [bal |-> [ small_flash___1577 \in small_flash_addrs_1591 |-> 0 ],
    allow |->
      [
        small_flash___1585 \in small_flash_addrs_1591 \X small_flash_addrs_1591 |->
          0
      ],
    supply |-> 0]

(*
  @type: (() => Set(Int));
*)
small_flash_USERS == {1}

(*
  @type: (() => Int);
*)
small_flash_TOKEN == 100

VARIABLE
  (*
    @type: Int;
  *)
  small_flash_fee

VARIABLE
  (*
    @type: Int;
  *)
  small_flash_feeTo

VARIABLE
  (*
    @type: Bool;
  *)
  small_flash_grew

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_flash_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_flash_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_flash_UMAX == 2

(*
  @type: (() => Str);
*)
small_flash_LOAN == "flashLoan(address,address,uint256,bytes)(bool)"

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_flash_guard(small_flash_bad_2449, small_flash_sig_2449, small_flash_args_2449) ==
  IF small_flash_bad_2449
  THEN <<[sig |-> small_flash_sig_2449, args |-> small_flash_args_2449]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_flash_E_MAXLOAN == "ERC3156ExceededMaxLoan(uint256)"

(*
  @type: (() => Str);
*)
small_flash_E_TOKEN == "ERC3156UnsupportedToken(address)"

(*
  @type: (() => Str);
*)
small_flash_E_BORROWER == "ERC3156InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_flash_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_flash_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_flash_ON_LOAN == "onFlashLoan(address,address,uint256,uint256,bytes)"

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_tried(small_flash_k_78, small_flash_r_78) ==
  IF small_flash_r_78["errs"] = <<>>
  THEN small_flash_r_78
  ELSE [tok |-> small_flash_k_78, errs |-> <<>>, evs |-> <<>>]

(*
  @type: (() => Str);
*)
small_flash_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_flash_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_flash_E_APPROVER == "ERC20InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_flash_E_SPENDER == "ERC20InvalidSpender(address)"

(*
  @type: (() => Str);
*)
small_flash_APPROVAL == "Approval(address indexed,address indexed,uint256)"

(*
  @type: ((Int) => Bool);
*)
small_flash_goodAnswer(small_flash_ans_57) == small_flash_ans_57 = 0

(*
  @type: (() => Str);
*)
small_flash_E_ALLOW == "ERC20InsufficientAllowance(address,uint256,uint256)"

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_andThen(small_flash_a_2127, small_flash_b_2127) ==
  [tok |-> small_flash_b_2127["tok"],
    errs |-> small_flash_a_2127["errs"] \o small_flash_b_2127["errs"],
    evs |-> small_flash_a_2127["evs"] \o small_flash_b_2127["evs"]]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
small_flash_sumBal(small_flash_k_2215) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(small_flash_acc_2213, small_flash_a_2213) ==
    small_flash_acc_2213 + small_flash_k_2215["bal"][small_flash_a_2213]
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, DOMAIN (small_flash_k_2215["bal"]))

(*
  @type: (() => Set(Int));
*)
small_flash_ADDRS ==
  small_flash_USERS \union { 0, (small_flash_TOKEN), (small_flash_BORROWER) }

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => Bool);
*)
small_flash_call(small_flash_op_788, small_flash_by_788, small_flash_args_788, small_flash_ret_788,
small_flash_r_788) ==
  small_flash_obs'
      := [op |-> small_flash_op_788,
        at |-> 0,
        by |-> small_flash_by_788,
        pay |-> 0,
        args |-> small_flash_args_788,
        errs |-> small_flash_r_788["errs"],
        ret |-> small_flash_ret_788,
        evs |-> small_flash_r_788["evs"]]
    /\ small_flash_tok'
      := (IF small_flash_r_788["errs"] = <<>>
      THEN small_flash_r_788["tok"]
      ELSE small_flash_tok)
    /\ small_flash_fee' := small_flash_fee
    /\ small_flash_feeTo' := small_flash_feeTo
    /\ (small_flash_grew' := small_flash_grew
      \/ ((small_flash_op_788 = small_flash_LOAN
          /\ small_flash_r_788["errs"] = <<>>)
        /\ small_flash_r_788["tok"]["supply"] > small_flash_tok["supply"]))

(*
  @type: (({ ans: Int, approve: Int, kind: Int, nestedAns: Int, to: Int, v: Int }) => Seq(Seq(Int)));
*)
small_flash_scriptArgs(small_flash_s_706) ==
  ((IF small_flash_s_706["kind"] = 1 \/ small_flash_s_706["kind"] = 2
  THEN <<
    <<
      0, small_flash_s_706["kind"], 0, small_flash_s_706["to"], small_flash_s_706[
        "v"
      ]
    >>
  >>
  ELSE IF small_flash_s_706["kind"] = 3
  THEN <<<<0, 3, 0, small_flash_s_706["v"]>>>>
  ELSE IF small_flash_s_706["kind"] = 4
  THEN <<
    <<
      0, 4, 0, (small_flash_BORROWER), (small_flash_TOKEN), small_flash_s_706[
        "v"
      ]
    >>, <<1, 99, small_flash_s_706["nestedAns"]>>
  >>
  ELSE <<>>)
    \o (IF small_flash_s_706["approve"] < 0
    THEN <<>>
    ELSE <<<<0, 2, 0, (small_flash_TOKEN), small_flash_s_706["approve"]>>>>))
    \o <<<<0, 99, small_flash_s_706["ans"]>>>>

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Int);
*)
small_flash_maxLoan(small_flash_k_95, small_flash_token_95) ==
  IF small_flash_token_95 = small_flash_TOKEN
  THEN small_flash_UMAX - small_flash_k_95["supply"]
  ELSE 0

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_flash_transferEv(small_flash_at_1615, small_flash_f_1615, small_flash_t_1615,
small_flash_v_1615) ==
  [at |-> small_flash_at_1615,
    sig |-> small_flash_TRANSFER,
    args |->
      <<<<small_flash_f_1615>>, <<small_flash_t_1615>>, <<small_flash_v_1615>>>>]

(*
  @type: ((Int, Int, Int, Int, Seq(Int)) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_flash_loanEv(small_flash_by_281, small_flash_token_281, small_flash_v_281,
small_flash_f_281, small_flash_data_281) ==
  [at |-> 1,
    sig |-> small_flash_ON_LOAN,
    args |->
      <<
        <<small_flash_by_281>>, <<small_flash_token_281>>, <<small_flash_v_281>>,
        <<small_flash_f_281>>, small_flash_data_281
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_tApprove(small_flash_k_1760, small_flash_at_1760, small_flash_o_1760,
small_flash_s_1760, small_flash_v_1760) ==
  [tok |->
      [
        small_flash_k_1760 EXCEPT
          !["allow"] =
            [
              small_flash_k_1760["allow"] EXCEPT
                ![<<small_flash_o_1760, small_flash_s_1760>>] =
                  small_flash_v_1760
            ]
      ],
    errs |->
      small_flash_guard((small_flash_o_1760 = 0), (small_flash_E_APPROVER), <<
        <<0>>
      >>)
        \o small_flash_guard((small_flash_s_1760 = 0), (small_flash_E_SPENDER), <<
          <<0>>
        >>),
    evs |->
      <<
        [at |-> small_flash_at_1760,
          sig |-> small_flash_APPROVAL,
          args |->
            <<
              <<small_flash_o_1760>>, <<small_flash_s_1760>>, <<
                small_flash_v_1760
              >>
            >>]
      >>]

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_closing(small_flash_opened_393, small_flash_cb_393, small_flash_done_393,
small_flash_recv_393, small_flash_ans_393) ==
  [tok |-> small_flash_done_393["tok"],
    errs |->
      IF small_flash_opened_393["errs"] /= <<>>
      THEN small_flash_opened_393["errs"]
      ELSE IF ~(small_flash_goodAnswer(small_flash_ans_393))
      THEN <<
        [sig |-> small_flash_E_BORROWER, args |-> <<<<small_flash_recv_393>>>>]
      >>
      ELSE small_flash_done_393["errs"],
    evs |->
      (small_flash_opened_393["evs"] \o small_flash_cb_393["evs"])
        \o small_flash_done_393["evs"]]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_tSpend(small_flash_k_1843, small_flash_umax_1843, small_flash_o_1843,
small_flash_s_1843, small_flash_v_1843) ==
  LET (*
    @type: (() => Int);
  *)
  small_flash_a ==
    small_flash_k_1843["allow"][<<small_flash_o_1843, small_flash_s_1843>>]
  IN
  [tok |->
      IF small_flash_a = small_flash_umax_1843
      THEN small_flash_k_1843
      ELSE [
        small_flash_k_1843 EXCEPT
          !["allow"] =
            [
              small_flash_k_1843["allow"] EXCEPT
                ![<<small_flash_o_1843, small_flash_s_1843>>] =
                  small_flash_a - small_flash_v_1843
            ]
      ],
    errs |->
      (small_flash_guard((small_flash_a < small_flash_v_1843), (small_flash_E_ALLOW),
      <<<<small_flash_s_1843>>, <<(small_flash_a)>>, <<small_flash_v_1843>>>>)
        \o small_flash_guard((small_flash_a /= small_flash_umax_1843
          /\ small_flash_o_1843 = 0), (small_flash_E_APPROVER), <<<<0>>>>))
        \o small_flash_guard((small_flash_a /= small_flash_umax_1843
          /\ small_flash_s_1843 = 0), (small_flash_E_SPENDER), <<<<0>>>>),
    evs |-> <<>>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
small_flash_tokOk(small_flash_k_2281, small_flash_umax_2281) ==
  small_flash_sumBal(small_flash_k_2281) = small_flash_k_2281["supply"]
    /\ small_flash_k_2281["supply"] <= small_flash_umax_2281
    /\ (\A small_flash_a_2245 \in DOMAIN (small_flash_k_2281["bal"]):
      small_flash_k_2281["bal"][small_flash_a_2245] >= 0)
    /\ small_flash_k_2281["bal"][0] = 0
    /\ (\A small_flash_a_2278 \in DOMAIN (small_flash_k_2281["bal"]):
      small_flash_k_2281["allow"][<<small_flash_a_2278, 0>>] = 0
        /\ small_flash_k_2281["allow"][<<0, small_flash_a_2278>>] = 0)

(*
  @type: ((Int, Int) => Bool);
*)
small_flash_initWith(small_flash_f_1004, small_flash_ft_1004) ==
  small_flash_tok = small_flash_emptyTok((small_flash_ADDRS))
    /\ small_flash_fee = small_flash_f_1004
    /\ small_flash_feeTo = small_flash_ft_1004
    /\ small_flash_grew = FALSE
    /\ small_flash_obs
      = [
        (small_flash_initObs) EXCEPT
          !["args"] = <<<<small_flash_f_1004>>, <<small_flash_ft_1004>>>>
      ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_flash_early(small_flash_k_251, small_flash_recv_251, small_flash_token_251,
small_flash_v_251) ==
  ((small_flash_guard((small_flash_v_251
    > small_flash_maxLoan(small_flash_k_251, small_flash_token_251)), (small_flash_E_MAXLOAN),
  <<<<(small_flash_maxLoan(small_flash_k_251, small_flash_token_251))>>>>)
    \o small_flash_guard((small_flash_token_251 /= small_flash_TOKEN), (small_flash_E_TOKEN),
    <<<<small_flash_token_251>>>>))
    \o small_flash_guard((small_flash_recv_251 /= small_flash_TOKEN
      /\ small_flash_recv_251 /= small_flash_BORROWER), (small_flash_E_BORROWER),
    <<<<small_flash_recv_251>>>>))
    \o small_flash_guard((small_flash_recv_251 = small_flash_TOKEN), (small_flash_E_BORROWER),
    <<<<small_flash_recv_251>>>>)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_tMint(small_flash_k_1907, small_flash_umax_1907, small_flash_at_1907,
small_flash_t_1907, small_flash_v_1907) ==
  [tok |->
      [
        [
          small_flash_k_1907 EXCEPT
            !["bal"] =
              [
                small_flash_k_1907["bal"] EXCEPT
                  ![small_flash_t_1907] =
                    small_flash_k_1907["bal"][small_flash_t_1907]
                      + small_flash_v_1907
              ]
        ] EXCEPT
          !["supply"] = small_flash_k_1907["supply"] + small_flash_v_1907
      ],
    errs |->
      small_flash_guard((small_flash_t_1907 = 0), (small_flash_E_RECV), <<
        <<0>>
      >>)
        \o small_flash_guard((small_flash_k_1907["supply"] + small_flash_v_1907
          > small_flash_umax_1907), "#empty", <<>>),
    evs |->
      <<
        (small_flash_transferEv(small_flash_at_1907, 0, small_flash_t_1907, small_flash_v_1907))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_tMove(small_flash_k_1701, small_flash_at_1701, small_flash_f_1701, small_flash_t_1701,
small_flash_v_1701) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_flash_b1 ==
    [
      small_flash_k_1701["bal"] EXCEPT
        ![small_flash_f_1701] =
          small_flash_k_1701["bal"][small_flash_f_1701] - small_flash_v_1701
    ]
  IN
  [tok |->
      [
        small_flash_k_1701 EXCEPT
          !["bal"] =
            [
              (small_flash_b1) EXCEPT
                ![small_flash_t_1701] =
                  (small_flash_b1)[small_flash_t_1701] + small_flash_v_1701
            ]
      ],
    errs |->
      (small_flash_guard((small_flash_f_1701 = 0), (small_flash_E_SENDER), <<
        <<0>>
      >>)
        \o small_flash_guard((small_flash_t_1701 = 0), (small_flash_E_RECV), <<
          <<0>>
        >>))
        \o small_flash_guard((small_flash_k_1701["bal"][small_flash_f_1701]
          < small_flash_v_1701), (small_flash_E_BAL), <<
          <<small_flash_f_1701>>, <<
            small_flash_k_1701["bal"][small_flash_f_1701]
          >>, <<small_flash_v_1701>>
        >>),
    evs |->
      <<
        (small_flash_transferEv(small_flash_at_1701, small_flash_f_1701, small_flash_t_1701,
        small_flash_v_1701))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_tBurn(small_flash_k_1979, small_flash_at_1979, small_flash_f_1979, small_flash_v_1979) ==
  [tok |->
      [
        [
          small_flash_k_1979 EXCEPT
            !["bal"] =
              [
                small_flash_k_1979["bal"] EXCEPT
                  ![small_flash_f_1979] =
                    small_flash_k_1979["bal"][small_flash_f_1979]
                      - small_flash_v_1979
              ]
        ] EXCEPT
          !["supply"] = small_flash_k_1979["supply"] - small_flash_v_1979
      ],
    errs |->
      small_flash_guard((small_flash_f_1979 = 0), (small_flash_E_SENDER), <<
        <<0>>
      >>)
        \o small_flash_guard((small_flash_k_1979["bal"][small_flash_f_1979]
          < small_flash_v_1979), (small_flash_E_BAL), <<
          <<small_flash_f_1979>>, <<
            small_flash_k_1979["bal"][small_flash_f_1979]
          >>, <<small_flash_v_1979>>
        >>),
    evs |->
      <<
        (small_flash_transferEv(small_flash_at_1979, small_flash_f_1979, 0, small_flash_v_1979))
      >>]

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_flash_approve(small_flash_by_949, small_flash_s_949, small_flash_v_949) ==
  small_flash_call("approve(address,uint256)(bool)", small_flash_by_949, <<
    <<small_flash_s_949>>, <<small_flash_v_949>>
  >>, <<<<1>>>>, (small_flash_tApprove(small_flash_tok, 0, small_flash_by_949, small_flash_s_949,
  small_flash_v_949)))

(*
  @type: (() => Bool);
*)
small_flash_safety ==
  small_flash_tokOk(small_flash_tok, (small_flash_UMAX)) /\ ~small_flash_grew

(*
  @type: (() => Bool);
*)
small_flash_initAll ==
  \E small_flash_f \in 0 .. 1:
    \E small_flash_ft \in { 0, 1, (small_flash_BORROWER) }:
      small_flash_initWith(small_flash_f, small_flash_ft)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Seq(Int)) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_opening(small_flash_k_338, small_flash_by_338, small_flash_recv_338,
small_flash_token_338, small_flash_v_338, small_flash_f_338, small_flash_data_338) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_flash_e ==
    small_flash_early(small_flash_k_338, small_flash_recv_338, small_flash_token_338,
    small_flash_v_338)
  IN
  IF small_flash_e /= <<>>
  THEN [tok |-> small_flash_k_338, errs |-> small_flash_e, evs |-> <<>>]
  ELSE LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_minted ==
    small_flash_tMint(small_flash_k_338, (small_flash_UMAX), 0, small_flash_recv_338,
    small_flash_v_338)
  IN
  [
    (small_flash_minted) EXCEPT
      !["evs"] =
        Append((small_flash_minted)["evs"], (small_flash_loanEv(small_flash_by_338,
        small_flash_token_338, small_flash_v_338, small_flash_f_338, small_flash_data_338)))
  ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_settle(small_flash_k_196, small_flash_f_196, small_flash_ft_196, small_flash_recv_196,
small_flash_v_196) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_spend ==
    small_flash_tSpend(small_flash_k_196, (small_flash_UMAX), small_flash_recv_196,
    (small_flash_TOKEN), (small_flash_v_196 + small_flash_f_196))
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_burnt ==
    IF small_flash_f_196 = 0 \/ small_flash_ft_196 = 0
    THEN small_flash_tBurn((small_flash_spend)["tok"], 0, small_flash_recv_196, (small_flash_v_196
      + small_flash_f_196))
    ELSE small_flash_tBurn((small_flash_spend)["tok"], 0, small_flash_recv_196, small_flash_v_196)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_paid ==
    IF small_flash_f_196 = 0 \/ small_flash_ft_196 = 0
    THEN [tok |-> (small_flash_burnt)["tok"], errs |-> <<>>, evs |-> <<>>]
    ELSE small_flash_tMove((small_flash_burnt)["tok"], 0, small_flash_recv_196, small_flash_ft_196,
    small_flash_f_196)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_r ==
    small_flash_andThen((small_flash_andThen((small_flash_spend), (small_flash_burnt))),
    (small_flash_paid))
  IN
  [
    (small_flash_r) EXCEPT
      !["errs"] =
        IF small_flash_v_196 + small_flash_f_196 > small_flash_UMAX
        THEN <<[sig |-> "#empty", args |-> <<>>]>>
        ELSE (small_flash_r)["errs"]
  ]

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_flash_mint(small_flash_by_973, small_flash_t_973, small_flash_v_973) ==
  small_flash_call("mint(address,uint256)()", small_flash_by_973, <<
    <<small_flash_t_973>>, <<small_flash_v_973>>
  >>, <<>>, (small_flash_tMint(small_flash_tok, (small_flash_UMAX), 0, small_flash_t_973,
  small_flash_v_973)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_flash_transfer(small_flash_by_923, small_flash_t_923, small_flash_v_923) ==
  small_flash_call("transfer(address,uint256)(bool)", small_flash_by_923, <<
    <<small_flash_t_923>>, <<small_flash_v_923>>
  >>, <<<<1>>>>, (small_flash_tMove(small_flash_tok, 0, small_flash_by_923, small_flash_t_923,
  small_flash_v_923)))

(*
  @type: (() => Bool);
*)
q_inv == small_flash_safety

(*
  @type: (() => Bool);
*)
q_init == small_flash_initAll

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_nested(small_flash_k_437, small_flash_f_437, small_flash_ft_437, small_flash_v_437,
small_flash_ans_437) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_o ==
    small_flash_opening(small_flash_k_437, (small_flash_BORROWER), (small_flash_BORROWER),
    (small_flash_TOKEN), small_flash_v_437, small_flash_f_437, <<>>)
  IN
  small_flash_closing((small_flash_o), [tok |-> (small_flash_o)["tok"],
    errs |-> <<>>,
    evs |-> <<>>], (small_flash_settle((small_flash_o)["tok"], small_flash_f_437,
  small_flash_ft_437, (small_flash_BORROWER), small_flash_v_437)), (small_flash_BORROWER),
  small_flash_ans_437)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, { ans: Int, approve: Int, kind: Int, nestedAns: Int, to: Int, v: Int }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_callback(small_flash_k_549, small_flash_f_549, small_flash_ft_549, small_flash_s_549) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_first ==
    IF small_flash_s_549["kind"] = 1
    THEN small_flash_tried(small_flash_k_549, (small_flash_tMove(small_flash_k_549,
    0, (small_flash_BORROWER), small_flash_s_549["to"], small_flash_s_549["v"])))
    ELSE IF small_flash_s_549["kind"] = 2
    THEN small_flash_tried(small_flash_k_549, (small_flash_tApprove(small_flash_k_549,
    0, (small_flash_BORROWER), small_flash_s_549["to"], small_flash_s_549["v"])))
    ELSE IF small_flash_s_549["kind"] = 3
    THEN small_flash_tried(small_flash_k_549, (small_flash_tBurn(small_flash_k_549,
    0, (small_flash_BORROWER), small_flash_s_549["v"])))
    ELSE IF small_flash_s_549["kind"] = 4
    THEN small_flash_tried(small_flash_k_549, (small_flash_nested(small_flash_k_549,
    small_flash_f_549, small_flash_ft_549, small_flash_s_549["v"], small_flash_s_549[
      "nestedAns"
    ])))
    ELSE [tok |-> small_flash_k_549, errs |-> <<>>, evs |-> <<>>]
  IN
  IF small_flash_s_549["approve"] < 0
  THEN small_flash_first
  ELSE small_flash_andThen((small_flash_first), (small_flash_tried((small_flash_first)[
    "tok"
  ], (small_flash_tApprove((small_flash_first)["tok"], 0, (small_flash_BORROWER),
  (small_flash_TOKEN), small_flash_s_549["approve"])))))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int, Seq(Int), { ans: Int, approve: Int, kind: Int, nestedAns: Int, to: Int, v: Int }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_flash_loan(small_flash_k_612, small_flash_f_612, small_flash_ft_612, small_flash_by_612,
small_flash_recv_612, small_flash_token_612, small_flash_v_612, small_flash_data_612,
small_flash_s_612) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_o ==
    small_flash_opening(small_flash_k_612, small_flash_by_612, small_flash_recv_612,
    small_flash_token_612, small_flash_v_612, small_flash_f_612, small_flash_data_612)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_flash_cb ==
    IF (small_flash_o)["errs"] = <<>>
    THEN small_flash_callback((small_flash_o)["tok"], small_flash_f_612, small_flash_ft_612,
    small_flash_s_612)
    ELSE small_flash_o
  IN
  small_flash_closing((small_flash_o), (small_flash_cb), (small_flash_settle((small_flash_cb)[
    "tok"
  ], small_flash_f_612, small_flash_ft_612, small_flash_recv_612, small_flash_v_612)),
  small_flash_recv_612, small_flash_s_612["ans"])

(*
  @type: ((Int, Int, Int, Int, Seq(Int), { ans: Int, approve: Int, kind: Int, nestedAns: Int, to: Int, v: Int }) => Bool);
*)
small_flash_flashLoan(small_flash_by_846, small_flash_recv_846, small_flash_token_846,
small_flash_v_846, small_flash_data_846, small_flash_s_846) ==
  small_flash_call((small_flash_LOAN), small_flash_by_846, (<<
    <<small_flash_recv_846>>, <<small_flash_token_846>>, <<small_flash_v_846>>, small_flash_data_846
  >>
    \o small_flash_scriptArgs(small_flash_s_846)), <<<<1>>>>, (small_flash_loan(small_flash_tok,
  small_flash_fee, small_flash_feeTo, small_flash_by_846, small_flash_recv_846, small_flash_token_846,
  small_flash_v_846, small_flash_data_846, small_flash_s_846)))

(*
  @type: (() => Bool);
*)
small_flash_stepAll ==
  \E small_flash_v \in 0 .. small_flash_UMAX:
    (\E small_flash_recv \in { 1, (small_flash_BORROWER) }:
        \E small_flash_kind \in 0 .. 4:
          \E small_flash_d \in { 1, (small_flash_TOKEN) }:
            \E small_flash_w \in 0 .. small_flash_UMAX:
              \E small_flash_ap \in { (-1),
                (small_flash_UMAX),
                (small_flash_UMAX - 1) }:
                \E small_flash_ans \in { 0, 1 }:
                  small_flash_flashLoan(1, small_flash_recv, (small_flash_TOKEN),
                  small_flash_v, <<>>, [kind |-> small_flash_kind,
                    to |-> small_flash_d,
                    v |-> small_flash_w,
                    approve |-> small_flash_ap,
                    ans |-> small_flash_ans,
                    nestedAns |-> small_flash_ans]))
      \/ (\E small_flash_t \in { 1, (small_flash_BORROWER) }:
        small_flash_mint(1, small_flash_t, small_flash_v)
          \/ small_flash_transfer(1, small_flash_t, small_flash_v)
          \/ small_flash_approve((small_flash_BORROWER), (small_flash_TOKEN), small_flash_v))

(*
  @type: (() => Bool);
*)
q_step == small_flash_stepAll


View == <<small_flash_tok, small_flash_fee, small_flash_feeTo, small_flash_grew>>

==============================================================================
