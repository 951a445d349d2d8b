\* generated by tools/export_tla.py from wrapper20.qnt bf7cfae5e8397a3709986b9c6db44e0a3a3a8248edd2532333c1ee6485570000
--------------------------------- MODULE wrapper20_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_wrapper20_tok

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_wrapper20_emptyTok(small_wrapper20_addrs_1330) ==
  [bal |-> [ small_wrapper20___1316 \in small_wrapper20_addrs_1330 |-> 0 ],
    allow |->
      [
        small_wrapper20___1324 \in
          small_wrapper20_addrs_1330 \X small_wrapper20_addrs_1330 |->
          0
      ],
    supply |-> 0]

(*
  @type: (() => Set(Int));
*)
small_wrapper20_USERS == {1}

(*
  @type: (() => Int);
*)
small_wrapper20_SELF == 100

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_wrapper20_und

VARIABLE
  (*
    @type: Int;
  *)
  small_wrapper20_mode

VARIABLE
  (*
    @type: Int;
  *)
  small_wrapper20_dec

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_wrapper20_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_wrapper20_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_wrapper20_UMAX == 2

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_wrapper20_guard(small_wrapper20_bad_2103, small_wrapper20_sig_2103, small_wrapper20_args_2103) ==
  IF small_wrapper20_bad_2103
  THEN <<
    [sig |-> small_wrapper20_sig_2103, args |-> small_wrapper20_args_2103]
  >>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_wrapper20_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_wrapper20_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_wrapper20_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_wrapper20_E_ALLOW == "ERC20InsufficientAllowance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_wrapper20_E_APPROVER == "ERC20InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_wrapper20_E_SPENDER == "ERC20InvalidSpender(address)"

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_andThen(small_wrapper20_a_1866, small_wrapper20_b_1866) ==
  [tok |-> small_wrapper20_b_1866["tok"],
    errs |-> small_wrapper20_a_1866["errs"] \o small_wrapper20_b_1866["errs"],
    evs |-> small_wrapper20_a_1866["evs"] \o small_wrapper20_b_1866["evs"]]

(*
  @type: (() => Str);
*)
small_wrapper20_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: ((Int) => Bool);
*)
small_wrapper20_accepted(small_wrapper20_mode_1053) ==
  small_wrapper20_mode_1053 \in { 0, 1, 5, 6, 7, 12 }

(*
  @type: (() => Str);
*)
small_wrapper20_E_SAFE == "SafeErc20FailedOperation(address)"

(*
  @type: (() => Int);
*)
small_wrapper20_ASSET == 101

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_idle(small_wrapper20_k_130) ==
  [tok |-> small_wrapper20_k_130, errs |-> <<>>, evs |-> <<>>]

(*
  @type: (() => Seq({ args: Seq(a), sig: Str }));
*)
small_wrapper20_BAD == <<[sig |-> "#any", args |-> <<>>]>>

(*
  @type: ((Int) => Bool);
*)
small_wrapper20_acts(small_wrapper20_mode_1039) ==
  ~(small_wrapper20_mode_1039 \in { 2, 3, 8 })

(*
  @type: (() => Str);
*)
small_wrapper20_APPROVAL == "Approval(address indexed,address indexed,uint256)"

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
small_wrapper20_sumBal(small_wrapper20_k_1954) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(small_wrapper20_acc_1952, small_wrapper20_a_1952) ==
    small_wrapper20_acc_1952
      + small_wrapper20_k_1954["bal"][small_wrapper20_a_1952]
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, DOMAIN (small_wrapper20_k_1954["bal"]))

(*
  @type: (() => Set(Int));
*)
small_wrapper20_ADDRS ==
  small_wrapper20_USERS \union { 0, (small_wrapper20_SELF) }

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_wrapper20_transferEv(small_wrapper20_at_1354, small_wrapper20_f_1354, small_wrapper20_t_1354,
small_wrapper20_v_1354) ==
  [at |-> small_wrapper20_at_1354,
    sig |-> small_wrapper20_TRANSFER,
    args |->
      <<
        <<small_wrapper20_f_1354>>, <<small_wrapper20_t_1354>>, <<
          small_wrapper20_v_1354
        >>
      >>]

(*
  @type: ((Str, Int, Int, Seq(Seq(Int)), Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => Bool);
*)
small_wrapper20_commit(small_wrapper20_op_118, small_wrapper20_at_118, small_wrapper20_by_118,
small_wrapper20_args_118, small_wrapper20_ret_118, small_wrapper20_t_118, small_wrapper20_u_118) ==
  (LET (*
      @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
    *)
    small_wrapper20_errs ==
      small_wrapper20_t_118["errs"] \o small_wrapper20_u_118["errs"]
    IN
    small_wrapper20_obs'
        := [op |-> small_wrapper20_op_118,
          at |-> small_wrapper20_at_118,
          by |-> small_wrapper20_by_118,
          pay |-> 0,
          args |-> small_wrapper20_args_118,
          errs |-> small_wrapper20_errs,
          ret |-> small_wrapper20_ret_118,
          evs |-> small_wrapper20_u_118["evs"] \o small_wrapper20_t_118["evs"]]
      /\ small_wrapper20_tok'
        := (IF small_wrapper20_errs = <<>>
        THEN small_wrapper20_t_118["tok"]
        ELSE small_wrapper20_tok)
      /\ small_wrapper20_und'
        := (IF small_wrapper20_errs = <<>>
        THEN small_wrapper20_u_118["tok"]
        ELSE small_wrapper20_und))
    /\ small_wrapper20_mode' := small_wrapper20_mode
    /\ small_wrapper20_dec' := small_wrapper20_dec

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_tSpend(small_wrapper20_k_1582, small_wrapper20_umax_1582, small_wrapper20_o_1582,
small_wrapper20_s_1582, small_wrapper20_v_1582) ==
  LET (*
    @type: (() => Int);
  *)
  small_wrapper20_a ==
    small_wrapper20_k_1582["allow"][
      <<small_wrapper20_o_1582, small_wrapper20_s_1582>>
    ]
  IN
  [tok |->
      IF small_wrapper20_a = small_wrapper20_umax_1582
      THEN small_wrapper20_k_1582
      ELSE [
        small_wrapper20_k_1582 EXCEPT
          !["allow"] =
            [
              small_wrapper20_k_1582["allow"] EXCEPT
                ![<<small_wrapper20_o_1582, small_wrapper20_s_1582>>] =
                  small_wrapper20_a - small_wrapper20_v_1582
            ]
      ],
    errs |->
      (small_wrapper20_guard((small_wrapper20_a < small_wrapper20_v_1582), (small_wrapper20_E_ALLOW),
      <<
        <<small_wrapper20_s_1582>>, <<(small_wrapper20_a)>>, <<
          small_wrapper20_v_1582
        >>
      >>)
        \o small_wrapper20_guard((small_wrapper20_a /= small_wrapper20_umax_1582
          /\ small_wrapper20_o_1582 = 0), (small_wrapper20_E_APPROVER), <<
          <<0>>
        >>))
        \o small_wrapper20_guard((small_wrapper20_a /= small_wrapper20_umax_1582
          /\ small_wrapper20_s_1582 = 0), (small_wrapper20_E_SPENDER), <<<<0>>>>),
    evs |-> <<>>]

(*
  @type: ((Bool) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_wrapper20_safeErr(small_wrapper20_ok_1066) ==
  small_wrapper20_guard((~small_wrapper20_ok_1066), (small_wrapper20_E_SAFE), <<
    <<(small_wrapper20_ASSET)>>
  >>)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_direct(small_wrapper20_u_1185, small_wrapper20_mode_1185, small_wrapper20_r_1185) ==
  IF ~(small_wrapper20_acts(small_wrapper20_mode_1185))
  THEN [tok |-> small_wrapper20_u_1185,
    errs |-> <<[sig |-> "#any", args |-> <<>>]>>,
    evs |-> <<>>]
  ELSE [
    small_wrapper20_r_1185 EXCEPT
      !["errs"] =
        IF small_wrapper20_r_1185["errs"] = <<>>
        THEN <<>>
        ELSE <<[sig |-> "#any", args |-> <<>>]>>
  ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_tApprove(small_wrapper20_k_1499, small_wrapper20_at_1499, small_wrapper20_o_1499,
small_wrapper20_s_1499, small_wrapper20_v_1499) ==
  [tok |->
      [
        small_wrapper20_k_1499 EXCEPT
          !["allow"] =
            [
              small_wrapper20_k_1499["allow"] EXCEPT
                ![<<small_wrapper20_o_1499, small_wrapper20_s_1499>>] =
                  small_wrapper20_v_1499
            ]
      ],
    errs |->
      small_wrapper20_guard((small_wrapper20_o_1499 = 0), (small_wrapper20_E_APPROVER),
      <<<<0>>>>)
        \o small_wrapper20_guard((small_wrapper20_s_1499 = 0), (small_wrapper20_E_SPENDER),
        <<<<0>>>>),
    evs |->
      <<
        [at |-> small_wrapper20_at_1499,
          sig |-> small_wrapper20_APPROVAL,
          args |->
            <<
              <<small_wrapper20_o_1499>>, <<small_wrapper20_s_1499>>, <<
                small_wrapper20_v_1499
              >>
            >>]
      >>]

(*
  @type: ((Int) => Bool);
*)
small_wrapper20_setMode(small_wrapper20_m_589) ==
  small_wrapper20_obs'
      := [op |-> "!mode(uint256)()",
        at |-> 1,
        by |-> 1,
        pay |-> 0,
        args |-> <<<<small_wrapper20_m_589>>>>,
        errs |-> <<>>,
        ret |-> <<>>,
        evs |-> <<>>]
    /\ small_wrapper20_mode' := small_wrapper20_m_589
    /\ small_wrapper20_tok' := small_wrapper20_tok
    /\ small_wrapper20_und' := small_wrapper20_und
    /\ small_wrapper20_dec' := small_wrapper20_dec

(*
  @type: (() => Bool);
*)
small_wrapper20_backed ==
  small_wrapper20_tok["supply"]
    <= small_wrapper20_und["bal"][(small_wrapper20_SELF)]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
small_wrapper20_tokOk(small_wrapper20_k_2020, small_wrapper20_umax_2020) ==
  small_wrapper20_sumBal(small_wrapper20_k_2020)
      = small_wrapper20_k_2020["supply"]
    /\ small_wrapper20_k_2020["supply"] <= small_wrapper20_umax_2020
    /\ (\A small_wrapper20_a_1984 \in DOMAIN (small_wrapper20_k_2020["bal"]):
      small_wrapper20_k_2020["bal"][small_wrapper20_a_1984] >= 0)
    /\ small_wrapper20_k_2020["bal"][0] = 0
    /\ (\A small_wrapper20_a_2017 \in DOMAIN (small_wrapper20_k_2020["bal"]):
      small_wrapper20_k_2020["allow"][<<small_wrapper20_a_2017, 0>>] = 0
        /\ small_wrapper20_k_2020["allow"][<<0, small_wrapper20_a_2017>>] = 0)

(*
  @type: (() => Bool);
*)
small_wrapper20_init ==
  \E small_wrapper20_d \in { 0, 6, 18, 255 }:
    small_wrapper20_tok = small_wrapper20_emptyTok((small_wrapper20_ADDRS))
      /\ small_wrapper20_und = small_wrapper20_emptyTok((small_wrapper20_ADDRS))
      /\ small_wrapper20_mode = 0
      /\ small_wrapper20_dec = small_wrapper20_d
      /\ small_wrapper20_obs
        = [
          (small_wrapper20_initObs) EXCEPT
            !["args"] = <<<<small_wrapper20_d>>>>
        ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_tMint(small_wrapper20_k_1646, small_wrapper20_umax_1646, small_wrapper20_at_1646,
small_wrapper20_t_1646, small_wrapper20_v_1646) ==
  [tok |->
      [
        [
          small_wrapper20_k_1646 EXCEPT
            !["bal"] =
              [
                small_wrapper20_k_1646["bal"] EXCEPT
                  ![small_wrapper20_t_1646] =
                    small_wrapper20_k_1646["bal"][small_wrapper20_t_1646]
                      + small_wrapper20_v_1646
              ]
        ] EXCEPT
          !["supply"] =
            small_wrapper20_k_1646["supply"] + small_wrapper20_v_1646
      ],
    errs |->
      small_wrapper20_guard((small_wrapper20_t_1646 = 0), (small_wrapper20_E_RECV),
      <<<<0>>>>)
        \o small_wrapper20_guard((small_wrapper20_k_1646["supply"]
          + small_wrapper20_v_1646
          > small_wrapper20_umax_1646), "#empty", <<>>),
    evs |->
      <<
        (small_wrapper20_transferEv(small_wrapper20_at_1646, 0, small_wrapper20_t_1646,
        small_wrapper20_v_1646))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_tMove(small_wrapper20_k_1440, small_wrapper20_at_1440, small_wrapper20_f_1440,
small_wrapper20_t_1440, small_wrapper20_v_1440) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_wrapper20_b1 ==
    [
      small_wrapper20_k_1440["bal"] EXCEPT
        ![small_wrapper20_f_1440] =
          small_wrapper20_k_1440["bal"][small_wrapper20_f_1440]
            - small_wrapper20_v_1440
    ]
  IN
  [tok |->
      [
        small_wrapper20_k_1440 EXCEPT
          !["bal"] =
            [
              (small_wrapper20_b1) EXCEPT
                ![small_wrapper20_t_1440] =
                  (small_wrapper20_b1)[small_wrapper20_t_1440]
                    + small_wrapper20_v_1440
            ]
      ],
    errs |->
      (small_wrapper20_guard((small_wrapper20_f_1440 = 0), (small_wrapper20_E_SENDER),
      <<<<0>>>>)
        \o small_wrapper20_guard((small_wrapper20_t_1440 = 0), (small_wrapper20_E_RECV),
        <<<<0>>>>))
        \o small_wrapper20_guard((small_wrapper20_k_1440["bal"][
          small_wrapper20_f_1440
        ]
          < small_wrapper20_v_1440), (small_wrapper20_E_BAL), <<
          <<small_wrapper20_f_1440>>, <<
            small_wrapper20_k_1440["bal"][small_wrapper20_f_1440]
          >>, <<small_wrapper20_v_1440>>
        >>),
    evs |->
      <<
        (small_wrapper20_transferEv(small_wrapper20_at_1440, small_wrapper20_f_1440,
        small_wrapper20_t_1440, small_wrapper20_v_1440))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_tBurn(small_wrapper20_k_1718, small_wrapper20_at_1718, small_wrapper20_f_1718,
small_wrapper20_v_1718) ==
  [tok |->
      [
        [
          small_wrapper20_k_1718 EXCEPT
            !["bal"] =
              [
                small_wrapper20_k_1718["bal"] EXCEPT
                  ![small_wrapper20_f_1718] =
                    small_wrapper20_k_1718["bal"][small_wrapper20_f_1718]
                      - small_wrapper20_v_1718
              ]
        ] EXCEPT
          !["supply"] =
            small_wrapper20_k_1718["supply"] - small_wrapper20_v_1718
      ],
    errs |->
      small_wrapper20_guard((small_wrapper20_f_1718 = 0), (small_wrapper20_E_SENDER),
      <<<<0>>>>)
        \o small_wrapper20_guard((small_wrapper20_k_1718["bal"][
          small_wrapper20_f_1718
        ]
          < small_wrapper20_v_1718), (small_wrapper20_E_BAL), <<
          <<small_wrapper20_f_1718>>, <<
            small_wrapper20_k_1718["bal"][small_wrapper20_f_1718]
          >>, <<small_wrapper20_v_1718>>
        >>),
    evs |->
      <<
        (small_wrapper20_transferEv(small_wrapper20_at_1718, small_wrapper20_f_1718,
        0, small_wrapper20_v_1718))
      >>]

(*
  @type: ((Int, Int) => Bool);
*)
small_wrapper20_uApprove(small_wrapper20_by_550, small_wrapper20_v_550) ==
  small_wrapper20_mode = 0
    /\ small_wrapper20_commit("approve(address,uint256)(bool)", 1, small_wrapper20_by_550,
    <<<<(small_wrapper20_SELF)>>, <<small_wrapper20_v_550>>>>, <<<<1>>>>, (small_wrapper20_idle(small_wrapper20_tok)),
    (small_wrapper20_direct(small_wrapper20_und, small_wrapper20_mode, (small_wrapper20_tApprove(small_wrapper20_und,
    1, small_wrapper20_by_550, (small_wrapper20_SELF), small_wrapper20_v_550)))))

(*
  @type: (() => Bool);
*)
small_wrapper20_safety ==
  (small_wrapper20_backed
      /\ small_wrapper20_tokOk(small_wrapper20_tok, (small_wrapper20_UMAX)))
    /\ small_wrapper20_tokOk(small_wrapper20_und, (small_wrapper20_UMAX))

(*
  @type: (() => Bool);
*)
q_init == small_wrapper20_init

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_tTransferFrom(small_wrapper20_k_1901, small_wrapper20_umax_1901,
small_wrapper20_at_1901, small_wrapper20_by_1901, small_wrapper20_f_1901, small_wrapper20_t_1901,
small_wrapper20_v_1901) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_s ==
    small_wrapper20_tSpend(small_wrapper20_k_1901, small_wrapper20_umax_1901, small_wrapper20_f_1901,
    small_wrapper20_by_1901, small_wrapper20_v_1901)
  IN
  small_wrapper20_andThen((small_wrapper20_s), (small_wrapper20_tMove((small_wrapper20_s)[
    "tok"
  ], small_wrapper20_at_1901, small_wrapper20_f_1901, small_wrapper20_t_1901, small_wrapper20_v_1901)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_sTransfer(small_wrapper20_u_1102, small_wrapper20_mode_1102, small_wrapper20_f_1102,
small_wrapper20_t_1102, small_wrapper20_v_1102) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_r ==
    small_wrapper20_tMove(small_wrapper20_u_1102, 1, small_wrapper20_f_1102, small_wrapper20_t_1102,
    small_wrapper20_v_1102)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_wrapper20_ok ==
    (small_wrapper20_r)["errs"] = <<>>
      /\ small_wrapper20_accepted(small_wrapper20_mode_1102)
  IN
  [
    (small_wrapper20_r) EXCEPT
      !["errs"] = small_wrapper20_safeErr((small_wrapper20_ok))
  ]

(*
  @type: ((Int, Int) => Bool);
*)
small_wrapper20_recover(small_wrapper20_by_312, small_wrapper20_to__312) ==
  LET (*
    @type: (() => Int);
  *)
  small_wrapper20_surplus ==
    small_wrapper20_und["bal"][(small_wrapper20_SELF)]
      - small_wrapper20_tok["supply"]
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_t ==
    IF small_wrapper20_surplus > 0
    THEN small_wrapper20_tMint(small_wrapper20_tok, (small_wrapper20_UMAX), 0, small_wrapper20_to__312,
    (small_wrapper20_surplus))
    ELSE small_wrapper20_idle(small_wrapper20_tok)
  IN
  small_wrapper20_commit("recover(address)(uint256)", 0, small_wrapper20_by_312,
  <<<<small_wrapper20_to__312>>>>, <<<<(small_wrapper20_surplus)>>>>, [
    (small_wrapper20_t) EXCEPT
      !["errs"] =
        small_wrapper20_guard((small_wrapper20_mode = 8), "ERC20InvalidUnderlying(address)",
        <<<<(small_wrapper20_SELF)>>>>)
          \o (small_wrapper20_t)["errs"]
  ], (small_wrapper20_idle(small_wrapper20_und)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_wrapper20_transfer(small_wrapper20_by_341, small_wrapper20_t_341, small_wrapper20_v_341) ==
  small_wrapper20_commit("transfer(address,uint256)(bool)", 0, small_wrapper20_by_341,
  <<<<small_wrapper20_t_341>>, <<small_wrapper20_v_341>>>>, <<<<1>>>>, (small_wrapper20_tMove(small_wrapper20_tok,
  0, small_wrapper20_by_341, small_wrapper20_t_341, small_wrapper20_v_341)), (small_wrapper20_idle(small_wrapper20_und)))

(*
  @type: ((Int, Int) => Bool);
*)
small_wrapper20_fund(small_wrapper20_t_480, small_wrapper20_v_480) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_r ==
    small_wrapper20_tMint(small_wrapper20_und, (small_wrapper20_UMAX), 1, small_wrapper20_t_480,
    small_wrapper20_v_480)
  IN
  small_wrapper20_commit("mint(address,uint256)()", 1, 1, <<
    <<small_wrapper20_t_480>>, <<small_wrapper20_v_480>>
  >>, <<>>, (small_wrapper20_idle(small_wrapper20_tok)), [
    [ (small_wrapper20_r) EXCEPT !["evs"] = <<>> ] EXCEPT
      !["errs"] =
        IF (small_wrapper20_r)["errs"] = <<>> THEN <<>> ELSE small_wrapper20_BAD
  ])

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_wrapper20_uTransfer(small_wrapper20_by_516, small_wrapper20_t_516, small_wrapper20_v_516) ==
  small_wrapper20_mode = 0
    /\ small_wrapper20_commit("transfer(address,uint256)(bool)", 1, small_wrapper20_by_516,
    <<<<small_wrapper20_t_516>>, <<small_wrapper20_v_516>>>>, <<<<1>>>>, (small_wrapper20_idle(small_wrapper20_tok)),
    (small_wrapper20_direct(small_wrapper20_und, small_wrapper20_mode, (small_wrapper20_tMove(small_wrapper20_und,
    1, small_wrapper20_by_516, small_wrapper20_t_516, small_wrapper20_v_516)))))

(*
  @type: (() => Bool);
*)
q_inv == small_wrapper20_safety

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_wrapper20_sTransferFrom(small_wrapper20_u_1144, small_wrapper20_mode_1144,
small_wrapper20_umax_1144, small_wrapper20_by_1144, small_wrapper20_f_1144, small_wrapper20_t_1144,
small_wrapper20_v_1144) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_r ==
    small_wrapper20_tTransferFrom(small_wrapper20_u_1144, small_wrapper20_umax_1144,
    1, small_wrapper20_by_1144, small_wrapper20_f_1144, small_wrapper20_t_1144, small_wrapper20_v_1144)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_wrapper20_ok ==
    (small_wrapper20_r)["errs"] = <<>>
      /\ small_wrapper20_accepted(small_wrapper20_mode_1144)
  IN
  [
    (small_wrapper20_r) EXCEPT
      !["errs"] = small_wrapper20_safeErr((small_wrapper20_ok))
  ]

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_wrapper20_withdrawTo(small_wrapper20_by_253, small_wrapper20_to__253, small_wrapper20_v_253) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_t ==
    small_wrapper20_tBurn(small_wrapper20_tok, 0, small_wrapper20_by_253, small_wrapper20_v_253)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_u ==
    small_wrapper20_sTransfer(small_wrapper20_und, small_wrapper20_mode, (small_wrapper20_SELF),
    small_wrapper20_to__253, small_wrapper20_v_253)
  IN
  small_wrapper20_commit("withdrawTo(address,uint256)(bool)", 0, small_wrapper20_by_253,
  <<<<small_wrapper20_to__253>>, <<small_wrapper20_v_253>>>>, <<<<1>>>>, [
    [
      (small_wrapper20_t) EXCEPT
        !["errs"] =
          small_wrapper20_guard((small_wrapper20_to__253 = small_wrapper20_SELF),
          (small_wrapper20_E_RECV), <<<<small_wrapper20_to__253>>>>)
            \o (small_wrapper20_t)["errs"]
    ] EXCEPT
      !["evs"] = (small_wrapper20_u)["evs"]
  ], [ (small_wrapper20_u) EXCEPT !["evs"] = (small_wrapper20_t)["evs"] ])

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_wrapper20_depositFor(small_wrapper20_by_191, small_wrapper20_to__191, small_wrapper20_v_191) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_wrapper20_t ==
    small_wrapper20_tMint(small_wrapper20_tok, (small_wrapper20_UMAX), 0, small_wrapper20_to__191,
    small_wrapper20_v_191)
  IN
  small_wrapper20_commit("depositFor(address,uint256)(bool)", 0, small_wrapper20_by_191,
  <<<<small_wrapper20_to__191>>, <<small_wrapper20_v_191>>>>, <<<<1>>>>, [
    (small_wrapper20_t) EXCEPT
      !["errs"] =
        (small_wrapper20_guard((small_wrapper20_by_191 = small_wrapper20_SELF), (small_wrapper20_E_SENDER),
        <<<<small_wrapper20_by_191>>>>)
          \o small_wrapper20_guard((small_wrapper20_to__191
            = small_wrapper20_SELF), (small_wrapper20_E_RECV), <<
            <<small_wrapper20_to__191>>
          >>))
          \o (small_wrapper20_t)["errs"]
  ], (small_wrapper20_sTransferFrom(small_wrapper20_und, small_wrapper20_mode, (small_wrapper20_UMAX),
  (small_wrapper20_SELF), small_wrapper20_by_191, (small_wrapper20_SELF), small_wrapper20_v_191)))

(*
  @type: (() => Bool);
*)
small_wrapper20_stepAll ==
  \E small_wrapper20_by \in small_wrapper20_USERS:
    \E small_wrapper20_t \in small_wrapper20_ADDRS:
      \E small_wrapper20_v \in 0 .. small_wrapper20_UMAX:
        small_wrapper20_depositFor(small_wrapper20_by, small_wrapper20_t, small_wrapper20_v)
          \/ small_wrapper20_withdrawTo(small_wrapper20_by, small_wrapper20_t, small_wrapper20_v)
          \/ small_wrapper20_recover(small_wrapper20_by, small_wrapper20_t)
          \/ small_wrapper20_transfer(small_wrapper20_by, small_wrapper20_t, small_wrapper20_v)
          \/ small_wrapper20_fund(small_wrapper20_t, small_wrapper20_v)
          \/ small_wrapper20_uTransfer(small_wrapper20_by, small_wrapper20_t, small_wrapper20_v)
          \/ small_wrapper20_uApprove(small_wrapper20_by, small_wrapper20_v)
          \/ (\E small_wrapper20_m \in { 0, 2, 10 }:
            small_wrapper20_setMode(small_wrapper20_m))

(*
  @type: (() => Bool);
*)
q_step == small_wrapper20_stepAll


View == <<small_wrapper20_tok, small_wrapper20_und, small_wrapper20_mode, small_wrapper20_dec>>

==============================================================================
