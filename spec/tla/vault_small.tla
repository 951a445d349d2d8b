\* generated by tools/export_tla.py from vault.qnt fc36c6655c55b094857b377f47fc097a4e8794dc8b364929b474d73e245d0a0d
--------------------------------- MODULE vault_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_vault_OFFSETS == { 0, 1 }

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_vault_tok

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_vault_emptyTok(small_vault_addrs_1998) ==
  [bal |-> [ small_vault___1984 \in small_vault_addrs_1998 |-> 0 ],
    allow |->
      [
        small_vault___1992 \in small_vault_addrs_1998 \X small_vault_addrs_1998 |->
          0
      ],
    supply |-> 0]

(*
  @type: (() => Set(Int));
*)
small_vault_USERS == {1}

(*
  @type: (() => Int);
*)
small_vault_SELF == 100

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_vault_und

VARIABLE
  (*
    @type: Int;
  *)
  small_vault_mode

VARIABLE
  (*
    @type: Int;
  *)
  small_vault_offset

VARIABLE
  (*
    @type: Int;
  *)
  small_vault_dec

VARIABLE
  (*
    @type: Bool;
  *)
  small_vault_diluted

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_vault_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_vault_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_vault_UMAX == 6

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vault_guard(small_vault_bad_2771, small_vault_sig_2771, small_vault_args_2771) ==
  IF small_vault_bad_2771
  THEN <<[sig |-> small_vault_sig_2771, args |-> small_vault_args_2771]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_vault_E_ALLOW == "ERC20InsufficientAllowance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_vault_E_APPROVER == "ERC20InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_vault_E_SPENDER == "ERC20InvalidSpender(address)"

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_andThen(small_vault_a_2534, small_vault_b_2534) ==
  [tok |-> small_vault_b_2534["tok"],
    errs |-> small_vault_a_2534["errs"] \o small_vault_b_2534["errs"],
    evs |-> small_vault_a_2534["evs"] \o small_vault_b_2534["evs"]]

(*
  @type: (() => Str);
*)
small_vault_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_vault_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_vault_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_vault_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: ((Int) => Bool);
*)
small_vault_accepted(small_vault_mode_1721) ==
  small_vault_mode_1721 \in { 0, 1, 5, 6, 7, 12 }

(*
  @type: (() => Str);
*)
small_vault_E_SAFE == "SafeErc20FailedOperation(address)"

(*
  @type: (() => Int);
*)
small_vault_ASSET == 101

(*
  @type: (() => Int);
*)
small_vault_BASE == 2

(*
  @type: (() => Str);
*)
small_vault_DEPOSIT ==
  "Deposit(address indexed,address indexed,uint256,uint256)"

(*
  @type: ((Int, Int, Int, Bool) => Int);
*)
small_vault_mulDiv(small_vault_x_79, small_vault_y_79, small_vault_d_79, small_vault_up_79) ==
  IF small_vault_up_79
  THEN ((small_vault_x_79 * small_vault_y_79 + small_vault_d_79) - 1)
    \div small_vault_d_79
  ELSE (small_vault_x_79 * small_vault_y_79) \div small_vault_d_79

(*
  @type: (() => Str);
*)
small_vault_E_MAXW == "ERC4626ExceededMaxWithdraw(address,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_vault_WITHDRAW ==
  "Withdraw(address indexed,address indexed,address indexed,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_vault_E_MAXR == "ERC4626ExceededMaxRedeem(address,uint256,uint256)"

(*
  @type: (() => Seq({ args: Seq(a), sig: Str }));
*)
small_vault_BAD == <<[sig |-> "#any", args |-> <<>>]>>

(*
  @type: ((Int) => Bool);
*)
small_vault_acts(small_vault_mode_1707) ==
  ~(small_vault_mode_1707 \in { 2, 3, 8 })

(*
  @type: (() => Str);
*)
small_vault_APPROVAL == "Approval(address indexed,address indexed,uint256)"

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
small_vault_sumBal(small_vault_k_2622) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(small_vault_acc_2620, small_vault_a_2620) ==
    small_vault_acc_2620 + small_vault_k_2622["bal"][small_vault_a_2620]
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, DOMAIN (small_vault_k_2622["bal"]))

(*
  @type: (() => Set(Int));
*)
small_vault_ADDRS == small_vault_USERS \union { 0, (small_vault_SELF) }

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_tSpend(small_vault_k_2250, small_vault_umax_2250, small_vault_o_2250,
small_vault_s_2250, small_vault_v_2250) ==
  LET (*
    @type: (() => Int);
  *)
  small_vault_a ==
    small_vault_k_2250["allow"][<<small_vault_o_2250, small_vault_s_2250>>]
  IN
  [tok |->
      IF small_vault_a = small_vault_umax_2250
      THEN small_vault_k_2250
      ELSE [
        small_vault_k_2250 EXCEPT
          !["allow"] =
            [
              small_vault_k_2250["allow"] EXCEPT
                ![<<small_vault_o_2250, small_vault_s_2250>>] =
                  small_vault_a - small_vault_v_2250
            ]
      ],
    errs |->
      (small_vault_guard((small_vault_a < small_vault_v_2250), (small_vault_E_ALLOW),
      <<<<small_vault_s_2250>>, <<(small_vault_a)>>, <<small_vault_v_2250>>>>)
        \o small_vault_guard((small_vault_a /= small_vault_umax_2250
          /\ small_vault_o_2250 = 0), (small_vault_E_APPROVER), <<<<0>>>>))
        \o small_vault_guard((small_vault_a /= small_vault_umax_2250
          /\ small_vault_s_2250 = 0), (small_vault_E_SPENDER), <<<<0>>>>),
    evs |-> <<>>]

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_vault_transferEv(small_vault_at_2022, small_vault_f_2022, small_vault_t_2022,
small_vault_v_2022) ==
  [at |-> small_vault_at_2022,
    sig |-> small_vault_TRANSFER,
    args |->
      <<<<small_vault_f_2022>>, <<small_vault_t_2022>>, <<small_vault_v_2022>>>>]

(*
  @type: ((Bool) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vault_safeErr(small_vault_ok_1734) ==
  small_vault_guard((~small_vault_ok_1734), (small_vault_E_SAFE), <<
    <<(small_vault_ASSET)>>
  >>)

(*
  @type: (() => Int);
*)
small_vault_vs ==
  small_vault_tok["supply"] + small_vault_BASE ^ small_vault_offset

(*
  @type: (() => Int);
*)
small_vault_va == small_vault_und["bal"][(small_vault_SELF)] + 1

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_direct(small_vault_u_1853, small_vault_mode_1853, small_vault_r_1853) ==
  IF ~(small_vault_acts(small_vault_mode_1853))
  THEN [tok |-> small_vault_u_1853,
    errs |-> <<[sig |-> "#any", args |-> <<>>]>>,
    evs |-> <<>>]
  ELSE [
    small_vault_r_1853 EXCEPT
      !["errs"] =
        IF small_vault_r_1853["errs"] = <<>>
        THEN <<>>
        ELSE <<[sig |-> "#any", args |-> <<>>]>>
  ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_tApprove(small_vault_k_2167, small_vault_at_2167, small_vault_o_2167,
small_vault_s_2167, small_vault_v_2167) ==
  [tok |->
      [
        small_vault_k_2167 EXCEPT
          !["allow"] =
            [
              small_vault_k_2167["allow"] EXCEPT
                ![<<small_vault_o_2167, small_vault_s_2167>>] =
                  small_vault_v_2167
            ]
      ],
    errs |->
      small_vault_guard((small_vault_o_2167 = 0), (small_vault_E_APPROVER), <<
        <<0>>
      >>)
        \o small_vault_guard((small_vault_s_2167 = 0), (small_vault_E_SPENDER), <<
          <<0>>
        >>),
    evs |->
      <<
        [at |-> small_vault_at_2167,
          sig |-> small_vault_APPROVAL,
          args |->
            <<
              <<small_vault_o_2167>>, <<small_vault_s_2167>>, <<
                small_vault_v_2167
              >>
            >>]
      >>]

(*
  @type: ((Int) => Bool);
*)
small_vault_setMode(small_vault_m_1080) ==
  small_vault_obs'
      := [op |-> "!mode(uint256)()",
        at |-> 1,
        by |-> 1,
        pay |-> 0,
        args |-> <<<<small_vault_m_1080>>>>,
        errs |-> <<>>,
        ret |-> <<>>,
        evs |-> <<>>]
    /\ small_vault_mode' := small_vault_m_1080
    /\ small_vault_tok' := small_vault_tok
    /\ small_vault_und' := small_vault_und
    /\ small_vault_offset' := small_vault_offset
    /\ small_vault_dec' := small_vault_dec
    /\ small_vault_diluted' := small_vault_diluted

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
small_vault_tokOk(small_vault_k_2688, small_vault_umax_2688) ==
  small_vault_sumBal(small_vault_k_2688) = small_vault_k_2688["supply"]
    /\ small_vault_k_2688["supply"] <= small_vault_umax_2688
    /\ (\A small_vault_a_2652 \in DOMAIN (small_vault_k_2688["bal"]):
      small_vault_k_2688["bal"][small_vault_a_2652] >= 0)
    /\ small_vault_k_2688["bal"][0] = 0
    /\ (\A small_vault_a_2685 \in DOMAIN (small_vault_k_2688["bal"]):
      small_vault_k_2688["allow"][<<small_vault_a_2685, 0>>] = 0
        /\ small_vault_k_2688["allow"][<<0, small_vault_a_2685>>] = 0)

(*
  @type: (() => Bool);
*)
small_vault_initAll ==
  \E small_vault_o \in small_vault_OFFSETS:
    small_vault_tok = small_vault_emptyTok((small_vault_ADDRS))
      /\ small_vault_und = small_vault_emptyTok((small_vault_ADDRS))
      /\ small_vault_mode = 0
      /\ small_vault_offset = small_vault_o
      /\ small_vault_dec = 0
      /\ small_vault_diluted = FALSE
      /\ small_vault_obs
        = [
          (small_vault_initObs) EXCEPT
            !["args"] = <<<<small_vault_o>>, <<0>>>>
        ]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_tMove(small_vault_k_2108, small_vault_at_2108, small_vault_f_2108, small_vault_t_2108,
small_vault_v_2108) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_vault_b1 ==
    [
      small_vault_k_2108["bal"] EXCEPT
        ![small_vault_f_2108] =
          small_vault_k_2108["bal"][small_vault_f_2108] - small_vault_v_2108
    ]
  IN
  [tok |->
      [
        small_vault_k_2108 EXCEPT
          !["bal"] =
            [
              (small_vault_b1) EXCEPT
                ![small_vault_t_2108] =
                  (small_vault_b1)[small_vault_t_2108] + small_vault_v_2108
            ]
      ],
    errs |->
      (small_vault_guard((small_vault_f_2108 = 0), (small_vault_E_SENDER), <<
        <<0>>
      >>)
        \o small_vault_guard((small_vault_t_2108 = 0), (small_vault_E_RECV), <<
          <<0>>
        >>))
        \o small_vault_guard((small_vault_k_2108["bal"][small_vault_f_2108]
          < small_vault_v_2108), (small_vault_E_BAL), <<
          <<small_vault_f_2108>>, <<
            small_vault_k_2108["bal"][small_vault_f_2108]
          >>, <<small_vault_v_2108>>
        >>),
    evs |->
      <<
        (small_vault_transferEv(small_vault_at_2108, small_vault_f_2108, small_vault_t_2108,
        small_vault_v_2108))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_tMint(small_vault_k_2314, small_vault_umax_2314, small_vault_at_2314,
small_vault_t_2314, small_vault_v_2314) ==
  [tok |->
      [
        [
          small_vault_k_2314 EXCEPT
            !["bal"] =
              [
                small_vault_k_2314["bal"] EXCEPT
                  ![small_vault_t_2314] =
                    small_vault_k_2314["bal"][small_vault_t_2314]
                      + small_vault_v_2314
              ]
        ] EXCEPT
          !["supply"] = small_vault_k_2314["supply"] + small_vault_v_2314
      ],
    errs |->
      small_vault_guard((small_vault_t_2314 = 0), (small_vault_E_RECV), <<
        <<0>>
      >>)
        \o small_vault_guard((small_vault_k_2314["supply"] + small_vault_v_2314
          > small_vault_umax_2314), "#empty", <<>>),
    evs |->
      <<
        (small_vault_transferEv(small_vault_at_2314, 0, small_vault_t_2314, small_vault_v_2314))
      >>]

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vault_convErrs(small_vault_res_156) ==
  small_vault_guard((small_vault_mode = 8), "InvalidAsset(address)", <<
    <<(small_vault_ASSET)>>
  >>)
    \o small_vault_guard((((small_vault_BASE ^ small_vault_offset
            > small_vault_UMAX
          \/ small_vault_vs > small_vault_UMAX)
        \/ small_vault_va > small_vault_UMAX)
      \/ small_vault_res_156 > small_vault_UMAX), "#empty", <<>>)

(*
  @type: ((Str, Int, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Seq({ args: Seq(Seq(Int)), at: Int, sig: Str })) => Bool);
*)
small_vault_commit(small_vault_op_255, small_vault_at_255, small_vault_by_255, small_vault_args_255,
small_vault_ret_255, small_vault_errs_255, small_vault_t_255, small_vault_u_255,
small_vault_evs_255) ==
  small_vault_obs'
      := [op |-> small_vault_op_255,
        at |-> small_vault_at_255,
        by |-> small_vault_by_255,
        pay |-> 0,
        args |-> small_vault_args_255,
        errs |-> small_vault_errs_255,
        ret |-> small_vault_ret_255,
        evs |-> small_vault_evs_255]
    /\ small_vault_tok'
      := (IF small_vault_errs_255 = <<>>
      THEN small_vault_t_255
      ELSE small_vault_tok)
    /\ small_vault_und'
      := (IF small_vault_errs_255 = <<>>
      THEN small_vault_u_255
      ELSE small_vault_und)
    /\ (small_vault_diluted' := small_vault_diluted
      \/ (small_vault_errs_255 = <<>>
        /\ (small_vault_u_255["bal"][(small_vault_SELF)] + 1) * small_vault_vs
          < small_vault_va
            * (small_vault_t_255["supply"]
              + small_vault_BASE ^ small_vault_offset)))
    /\ small_vault_mode' := small_vault_mode
    /\ small_vault_offset' := small_vault_offset
    /\ small_vault_dec' := small_vault_dec

(*
  @type: ((Int, Bool) => Int);
*)
small_vault_toShares(small_vault_a_109, small_vault_up_109) ==
  small_vault_mulDiv(small_vault_a_109, (small_vault_vs), (small_vault_va), small_vault_up_109)

(*
  @type: ((Int, Bool) => Int);
*)
small_vault_toAssets(small_vault_s_121, small_vault_up_121) ==
  small_vault_mulDiv(small_vault_s_121, (small_vault_va), (small_vault_vs), small_vault_up_121)

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_tBurn(small_vault_k_2386, small_vault_at_2386, small_vault_f_2386, small_vault_v_2386) ==
  [tok |->
      [
        [
          small_vault_k_2386 EXCEPT
            !["bal"] =
              [
                small_vault_k_2386["bal"] EXCEPT
                  ![small_vault_f_2386] =
                    small_vault_k_2386["bal"][small_vault_f_2386]
                      - small_vault_v_2386
              ]
        ] EXCEPT
          !["supply"] = small_vault_k_2386["supply"] - small_vault_v_2386
      ],
    errs |->
      small_vault_guard((small_vault_f_2386 = 0), (small_vault_E_SENDER), <<
        <<0>>
      >>)
        \o small_vault_guard((small_vault_k_2386["bal"][small_vault_f_2386]
          < small_vault_v_2386), (small_vault_E_BAL), <<
          <<small_vault_f_2386>>, <<
            small_vault_k_2386["bal"][small_vault_f_2386]
          >>, <<small_vault_v_2386>>
        >>),
    evs |->
      <<
        (small_vault_transferEv(small_vault_at_2386, small_vault_f_2386, 0, small_vault_v_2386))
      >>]

(*
  @type: (() => Bool);
*)
small_vault_safety ==
  (~small_vault_diluted
      /\ small_vault_tokOk(small_vault_tok, (small_vault_UMAX)))
    /\ small_vault_tokOk(small_vault_und, (small_vault_UMAX))

(*
  @type: (() => Bool);
*)
q_init == small_vault_initAll

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_tTransferFrom(small_vault_k_2569, small_vault_umax_2569, small_vault_at_2569,
small_vault_by_2569, small_vault_f_2569, small_vault_t_2569, small_vault_v_2569) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_s ==
    small_vault_tSpend(small_vault_k_2569, small_vault_umax_2569, small_vault_f_2569,
    small_vault_by_2569, small_vault_v_2569)
  IN
  small_vault_andThen((small_vault_s), (small_vault_tMove((small_vault_s)["tok"],
  small_vault_at_2569, small_vault_f_2569, small_vault_t_2569, small_vault_v_2569)))

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_sTransfer(small_vault_u_1770, small_vault_mode_1770, small_vault_f_1770,
small_vault_t_1770, small_vault_v_1770) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_r ==
    small_vault_tMove(small_vault_u_1770, 1, small_vault_f_1770, small_vault_t_1770,
    small_vault_v_1770)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_vault_ok ==
    (small_vault_r)["errs"] = <<>>
      /\ small_vault_accepted(small_vault_mode_1770)
  IN
  [ (small_vault_r) EXCEPT !["errs"] = small_vault_safeErr((small_vault_ok)) ]

(*
  @type: ((Int, Int) => Bool);
*)
small_vault_fund(small_vault_t_945, small_vault_v_945) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_r ==
    small_vault_tMint(small_vault_und, (small_vault_UMAX), 1, small_vault_t_945,
    small_vault_v_945)
  IN
  small_vault_commit("mint(address,uint256)()", 1, 1, <<
    <<small_vault_t_945>>, <<small_vault_v_945>>
  >>, <<>>, (IF (small_vault_r)["errs"] = <<>> THEN <<>> ELSE small_vault_BAD), small_vault_tok,
  (small_vault_r)["tok"], <<>>)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_vault_uTransfer(small_vault_by_991, small_vault_t_991, small_vault_v_991) ==
  small_vault_mode = 0
    /\ (LET (*
      @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
    *)
    small_vault_r ==
      small_vault_direct(small_vault_und, small_vault_mode, (small_vault_tMove(small_vault_und,
      1, small_vault_by_991, small_vault_t_991, small_vault_v_991)))
    IN
    small_vault_commit("transfer(address,uint256)(bool)", 1, small_vault_by_991,
    <<<<small_vault_t_991>>, <<small_vault_v_991>>>>, <<<<1>>>>, (small_vault_r)[
      "errs"
    ], small_vault_tok, (small_vault_r)["tok"], (small_vault_r)["evs"]))

(*
  @type: ((Int, Int) => Bool);
*)
small_vault_uApprove(small_vault_by_1035, small_vault_v_1035) ==
  small_vault_mode = 0
    /\ (LET (*
      @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
    *)
    small_vault_r ==
      small_vault_direct(small_vault_und, small_vault_mode, (small_vault_tApprove(small_vault_und,
      1, small_vault_by_1035, (small_vault_SELF), small_vault_v_1035)))
    IN
    small_vault_commit("approve(address,uint256)(bool)", 1, small_vault_by_1035,
    <<<<(small_vault_SELF)>>, <<small_vault_v_1035>>>>, <<<<1>>>>, (small_vault_r)[
      "errs"
    ], small_vault_tok, (small_vault_r)["tok"], (small_vault_r)["evs"]))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_vault_transfer(small_vault_by_868, small_vault_t_868, small_vault_v_868) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_r ==
    small_vault_tMove(small_vault_tok, 0, small_vault_by_868, small_vault_t_868,
    small_vault_v_868)
  IN
  small_vault_commit("transfer(address,uint256)(bool)", 0, small_vault_by_868, <<
    <<small_vault_t_868>>, <<small_vault_v_868>>
  >>, <<<<1>>>>, (small_vault_r)["errs"], (small_vault_r)["tok"], small_vault_und,
  (small_vault_r)["evs"])

(*
  @type: (() => Bool);
*)
q_inv == small_vault_safety

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vault_sTransferFrom(small_vault_u_1812, small_vault_mode_1812, small_vault_umax_1812,
small_vault_by_1812, small_vault_f_1812, small_vault_t_1812, small_vault_v_1812) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_r ==
    small_vault_tTransferFrom(small_vault_u_1812, small_vault_umax_1812, 1, small_vault_by_1812,
    small_vault_f_1812, small_vault_t_1812, small_vault_v_1812)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_vault_ok ==
    (small_vault_r)["errs"] = <<>>
      /\ small_vault_accepted(small_vault_mode_1812)
  IN
  [ (small_vault_r) EXCEPT !["errs"] = small_vault_safeErr((small_vault_ok)) ]

(*
  @type: ((Str, Int, Seq(Seq(Int)), Int, Int, Int, Int, Int, Seq({ args: Seq(Seq(Int)), sig: Str }), Seq({ args: Seq(Seq(Int)), sig: Str })) => Bool);
*)
small_vault_paidOut(small_vault_op_516, small_vault_by_516, small_vault_args_516,
small_vault_recv_516, small_vault_owner_516, small_vault_assets_516, small_vault_shares_516,
small_vault_answer_516, small_vault_limit_516, small_vault_extra_516) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_sp ==
    IF small_vault_by_516 = small_vault_owner_516
    THEN [tok |-> small_vault_tok, errs |-> <<>>, evs |-> <<>>]
    ELSE small_vault_tSpend(small_vault_tok, (small_vault_UMAX), small_vault_owner_516,
    small_vault_by_516, small_vault_shares_516)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_t ==
    small_vault_andThen((small_vault_sp), (small_vault_tBurn((small_vault_sp)[
      "tok"
    ], 0, small_vault_owner_516, small_vault_shares_516)))
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_u ==
    small_vault_sTransfer(small_vault_und, small_vault_mode, (small_vault_SELF),
    small_vault_recv_516, small_vault_assets_516)
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vault_ce == small_vault_extra_516 \o small_vault_limit_516
  IN
  small_vault_commit(small_vault_op_516, 0, small_vault_by_516, small_vault_args_516,
  <<<<small_vault_answer_516>>>>, (IF small_vault_ce /= <<>>
  THEN small_vault_ce
  ELSE (small_vault_t)["errs"] \o (small_vault_u)["errs"]), (small_vault_t)[
    "tok"
  ], (small_vault_u)["tok"], (Append(((small_vault_t)["evs"]
    \o (small_vault_u)["evs"]), [at |-> 0,
    sig |-> small_vault_WITHDRAW,
    args |->
      <<
        <<small_vault_by_516>>, <<small_vault_recv_516>>, <<
          small_vault_owner_516
        >>, <<small_vault_assets_516>>, <<small_vault_shares_516>>
      >>])))

(*
  @type: ((Str, Int, Seq(Seq(Int)), Int, Int, Int, Int) => Bool);
*)
small_vault_paidIn(small_vault_op_345, small_vault_by_345, small_vault_args_345,
small_vault_recv_345, small_vault_assets_345, small_vault_shares_345, small_vault_answer_345) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_u ==
    small_vault_sTransferFrom(small_vault_und, small_vault_mode, (small_vault_UMAX),
    (small_vault_SELF), small_vault_by_345, (small_vault_SELF), small_vault_assets_345)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vault_t ==
    small_vault_tMint(small_vault_tok, (small_vault_UMAX), 0, small_vault_recv_345,
    small_vault_shares_345)
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vault_ce == small_vault_convErrs(small_vault_answer_345)
  IN
  small_vault_commit(small_vault_op_345, 0, small_vault_by_345, small_vault_args_345,
  <<<<small_vault_answer_345>>>>, (IF small_vault_ce /= <<>>
  THEN small_vault_ce
  ELSE (small_vault_u)["errs"] \o (small_vault_t)["errs"]), (small_vault_t)[
    "tok"
  ], (small_vault_u)["tok"], (Append(((small_vault_u)["evs"]
    \o (small_vault_t)["evs"]), [at |-> 0,
    sig |-> small_vault_DEPOSIT,
    args |->
      <<
        <<small_vault_by_345>>, <<small_vault_recv_345>>, <<
          small_vault_assets_345
        >>, <<small_vault_shares_345>>
      >>])))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_vault_withdraw(small_vault_by_582, small_vault_a_582, small_vault_recv_582,
small_vault_owner_582) ==
  LET (*
    @type: (() => Int);
  *)
  small_vault_max ==
    small_vault_toAssets(small_vault_tok["bal"][small_vault_owner_582], FALSE)
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vault_over ==
    small_vault_guard((small_vault_a_582 > small_vault_max), (small_vault_E_MAXW),
    <<<<small_vault_owner_582>>, <<small_vault_a_582>>, <<(small_vault_max)>>>>)
  IN
  small_vault_paidOut("withdraw(uint256,address,address)(uint256)", small_vault_by_582,
  <<<<small_vault_a_582>>, <<small_vault_recv_582>>, <<small_vault_owner_582>>>>,
  small_vault_recv_582, small_vault_owner_582, small_vault_a_582, (small_vault_toShares(small_vault_a_582,
  TRUE)), (small_vault_toShares(small_vault_a_582, TRUE)), (small_vault_over), (small_vault_convErrs((small_vault_max))
    \o (IF small_vault_over = <<>>
    THEN small_vault_convErrs((small_vault_toShares(small_vault_a_582, TRUE)))
    ELSE <<>>)))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_vault_redeem(small_vault_by_643, small_vault_s_643, small_vault_recv_643, small_vault_owner_643) ==
  LET (*
    @type: (() => Int);
  *)
  small_vault_bal == small_vault_tok["bal"][small_vault_owner_643]
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vault_over ==
    small_vault_guard((small_vault_s_643 > small_vault_bal), (small_vault_E_MAXR),
    <<<<small_vault_owner_643>>, <<small_vault_s_643>>, <<(small_vault_bal)>>>>)
  IN
  small_vault_paidOut("redeem(uint256,address,address)(uint256)", small_vault_by_643,
  <<<<small_vault_s_643>>, <<small_vault_recv_643>>, <<small_vault_owner_643>>>>,
  small_vault_recv_643, small_vault_owner_643, (small_vault_toAssets(small_vault_s_643,
  FALSE)), small_vault_s_643, (small_vault_toAssets(small_vault_s_643, FALSE)), (small_vault_over),
  (IF small_vault_over = <<>>
  THEN small_vault_convErrs((small_vault_toAssets(small_vault_s_643, FALSE)))
  ELSE <<>>))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_vault_deposit(small_vault_by_370, small_vault_a_370, small_vault_recv_370) ==
  small_vault_paidIn("deposit(uint256,address)(uint256)", small_vault_by_370, <<
    <<small_vault_a_370>>, <<small_vault_recv_370>>
  >>, small_vault_recv_370, small_vault_a_370, (small_vault_toShares(small_vault_a_370,
  FALSE)), (small_vault_toShares(small_vault_a_370, FALSE)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_vault_mint(small_vault_by_395, small_vault_s_395, small_vault_recv_395) ==
  small_vault_paidIn("mint(uint256,address)(uint256)", small_vault_by_395, <<
    <<small_vault_s_395>>, <<small_vault_recv_395>>
  >>, small_vault_recv_395, (small_vault_toAssets(small_vault_s_395, TRUE)), small_vault_s_395,
  (small_vault_toAssets(small_vault_s_395, TRUE)))

(*
  @type: (() => Bool);
*)
small_vault_stepAll ==
  \E small_vault_v \in 0 .. small_vault_UMAX:
    small_vault_deposit(1, small_vault_v, 1)
      \/ small_vault_mint(1, small_vault_v, 1)
      \/ small_vault_withdraw(1, small_vault_v, 1, 1)
      \/ small_vault_redeem(1, small_vault_v, 1, 1)
      \/ small_vault_redeem((small_vault_SELF), small_vault_v, 1, 1)
      \/ small_vault_fund(1, small_vault_v)
      \/ small_vault_fund((small_vault_SELF), small_vault_v)
      \/ small_vault_uTransfer(1, (small_vault_SELF), small_vault_v)
      \/ small_vault_uApprove(1, small_vault_v)
      \/ small_vault_transfer(1, (small_vault_SELF), small_vault_v)
      \/ (\E small_vault_m \in { 0, 10 }: small_vault_setMode(small_vault_m))

(*
  @type: (() => Bool);
*)
q_step == small_vault_stepAll


View == <<small_vault_tok, small_vault_und, small_vault_mode, small_vault_offset, small_vault_dec, small_vault_diluted>>

==============================================================================
