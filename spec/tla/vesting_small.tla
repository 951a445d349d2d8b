\* generated by tools/export_tla.py from vesting.qnt b8c582da0cf5200ddd80f2a24a99b44d02c9452787f0b924a416184a1bc5a984
--------------------------------- MODULE vesting_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_vesting_STARTS == { 0, 1 }

(*
  @type: (() => Set(Int));
*)
small_vesting_DURS == { 0, 2 }

VARIABLE
  (*
    @type: Int;
  *)
  small_vesting_owner

VARIABLE
  (*
    @type: Int;
  *)
  small_vesting_start

VARIABLE
  (*
    @type: Int;
  *)
  small_vesting_dur

VARIABLE
  (*
    @type: Int;
  *)
  small_vesting_now

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_vesting_eth

(*
  @type: (() => Set(Int));
*)
small_vesting_USERS == { 1, 2 }

(*
  @type: (() => Int);
*)
small_vesting_SELF == 100

(*
  @type: (() => Int);
*)
small_vesting_PAYEE == 103

VARIABLE
  (*
    @type: Int;
  *)
  small_vesting_rel

VARIABLE
  (*
    @type: (Int -> { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
  *)
  small_vesting_und

(*
  @type: (() => Set(Int));
*)
small_vesting_TOKENS == { 101, 102 }

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_vesting_emptyTok(small_vesting_addrs_2373) ==
  [bal |-> [ small_vesting___2359 \in small_vesting_addrs_2373 |-> 0 ],
    allow |->
      [
        small_vesting___2367 \in
          small_vesting_addrs_2373 \X small_vesting_addrs_2373 |->
          0
      ],
    supply |-> 0]

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_vesting_relT

VARIABLE
  (*
    @type: Int;
  *)
  small_vesting_mode

VARIABLE
  (*
    @type: Int;
  *)
  small_vesting_dep

VARIABLE
  (*
    @type: Set(Int);
  *)
  small_vesting_slashed

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_vesting_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_vesting_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_vesting_UMAX == 2

(*
  @type: (() => Int);
*)
small_vesting_TMAX == 3

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vesting_guard(small_vesting_bad_3146, small_vesting_sig_3146, small_vesting_args_3146) ==
  IF small_vesting_bad_3146
  THEN <<[sig |-> small_vesting_sig_3146, args |-> small_vesting_args_3146]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_vesting_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_vesting_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_vesting_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_vesting_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
small_vesting_vestedOf(small_vesting_total_117, small_vesting_t_117, small_vesting_s_117,
small_vesting_d_117) ==
  IF small_vesting_t_117 < small_vesting_s_117
  THEN 0
  ELSE IF small_vesting_t_117 >= small_vesting_s_117 + small_vesting_d_117
  THEN small_vesting_total_117
  ELSE (small_vesting_total_117 * (small_vesting_t_117 - small_vesting_s_117))
    \div small_vesting_d_117

(*
  @type: (() => Str);
*)
small_vesting_E_TOKEN == "InvalidToken(address)"

(*
  @type: ((Int) => Bool);
*)
small_vesting_accepted(small_vesting_mode_2096) ==
  small_vesting_mode_2096 \in { 0, 1, 5, 6, 7, 12 }

(*
  @type: (() => Str);
*)
small_vesting_E_SAFE == "SafeErc20FailedOperation(address)"

(*
  @type: (() => Str);
*)
small_vesting_GOT == "tokensReceived()"

(*
  @type: (() => Str);
*)
small_vesting_E_AUTH == "OwnableUnauthorizedAccount(address)"

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
small_vesting_sumBal(small_vesting_k_2997) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA1(small_vesting_acc_2995, small_vesting_a_2995) ==
    small_vesting_acc_2995 + small_vesting_k_2997["bal"][small_vesting_a_2995]
  IN
  ApaFoldSet(__QUINT_LAMBDA1, 0, DOMAIN (small_vesting_k_2997["bal"]))

(*
  @type: (() => Set(Int));
*)
small_vesting_ADDRS ==
  small_vesting_USERS \union { 0, (small_vesting_SELF), (small_vesting_PAYEE) }

(*
  @type: (() => Bool);
*)
small_vesting_same ==
  small_vesting_start' := small_vesting_start
    /\ small_vesting_dur' := small_vesting_dur

(*
  @type: ((Int) => Int);
*)
small_vesting_balT(small_vesting_k_185) ==
  small_vesting_und[small_vesting_k_185]["bal"][(small_vesting_SELF)]

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_vesting_transferEv(small_vesting_at_2397, small_vesting_f_2397, small_vesting_t_2397,
small_vesting_v_2397) ==
  [at |-> small_vesting_at_2397,
    sig |-> small_vesting_TRANSFER,
    args |->
      <<
        <<small_vesting_f_2397>>, <<small_vesting_t_2397>>, <<
          small_vesting_v_2397
        >>
      >>]

(*
  @type: (() => Int);
*)
small_vesting_totalE ==
  small_vesting_eth[(small_vesting_SELF)] + small_vesting_rel

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_vesting_tooBig(small_vesting_total_149, small_vesting_t_149, small_vesting_s_149,
small_vesting_d_149) ==
  small_vesting_total_149 > small_vesting_UMAX
    \/ ((small_vesting_t_149 >= small_vesting_s_149
        /\ small_vesting_t_149 < small_vesting_s_149 + small_vesting_d_149)
      /\ small_vesting_total_149 * (small_vesting_t_149 - small_vesting_s_149)
        > small_vesting_UMAX)

(*
  @type: ((Int) => Bool);
*)
small_vesting_knows(small_vesting_k_173) ==
  small_vesting_k_173 \in small_vesting_TOKENS
    /\ ~(small_vesting_k_173 = 101 /\ small_vesting_mode = 8)

(*
  @type: (() => Bool);
*)
small_vesting_conserved ==
  small_vesting_eth[(small_vesting_SELF)] + small_vesting_rel
    = small_vesting_dep

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
small_vesting_tokOk(small_vesting_k_3063, small_vesting_umax_3063) ==
  small_vesting_sumBal(small_vesting_k_3063) = small_vesting_k_3063["supply"]
    /\ small_vesting_k_3063["supply"] <= small_vesting_umax_3063
    /\ (\A small_vesting_a_3027 \in DOMAIN (small_vesting_k_3063["bal"]):
      small_vesting_k_3063["bal"][small_vesting_a_3027] >= 0)
    /\ small_vesting_k_3063["bal"][0] = 0
    /\ (\A small_vesting_a_3060 \in DOMAIN (small_vesting_k_3063["bal"]):
      small_vesting_k_3063["allow"][<<small_vesting_a_3060, 0>>] = 0
        /\ small_vesting_k_3063["allow"][<<0, small_vesting_a_3060>>] = 0)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_vesting_begin(small_vesting_s_1448, small_vesting_d_1448, small_vesting_o_1448,
small_vesting_t_1448) ==
  small_vesting_owner = small_vesting_o_1448
    /\ small_vesting_start = small_vesting_s_1448
    /\ small_vesting_dur = small_vesting_d_1448
    /\ small_vesting_now = small_vesting_t_1448
    /\ small_vesting_eth
      = [ small_vesting___1402 \in small_vesting_ADDRS |-> 0 ]
    /\ small_vesting_rel = 0
    /\ small_vesting_und
      = [
        small_vesting___1413 \in small_vesting_TOKENS |->
          small_vesting_emptyTok((small_vesting_ADDRS))
      ]
    /\ small_vesting_relT
      = [ small_vesting___1420 \in small_vesting_TOKENS |-> 0 ]
    /\ small_vesting_mode = 0
    /\ small_vesting_dep = 0
    /\ small_vesting_slashed = {}
    /\ small_vesting_obs
      = [
        (small_vesting_initObs) EXCEPT
          !["args"] =
            <<
              <<small_vesting_s_1448>>, <<small_vesting_d_1448>>, <<
                small_vesting_o_1448
              >>, <<small_vesting_t_1448>>
            >>
      ]

(*
  @type: ((Str, Seq(Seq(Int))) => Bool);
*)
small_vesting_outside(small_vesting_op_1165, small_vesting_args_1165) ==
  small_vesting_obs'
      := [op |-> small_vesting_op_1165,
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |-> small_vesting_args_1165,
        errs |-> <<>>,
        ret |-> <<>>,
        evs |-> <<>>]
    /\ small_vesting_owner' := small_vesting_owner
    /\ small_vesting_rel' := small_vesting_rel
    /\ small_vesting_relT' := small_vesting_relT
    /\ small_vesting_same

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vesting_tMint(small_vesting_k_2689, small_vesting_umax_2689, small_vesting_at_2689,
small_vesting_t_2689, small_vesting_v_2689) ==
  [tok |->
      [
        [
          small_vesting_k_2689 EXCEPT
            !["bal"] =
              [
                small_vesting_k_2689["bal"] EXCEPT
                  ![small_vesting_t_2689] =
                    small_vesting_k_2689["bal"][small_vesting_t_2689]
                      + small_vesting_v_2689
              ]
        ] EXCEPT
          !["supply"] = small_vesting_k_2689["supply"] + small_vesting_v_2689
      ],
    errs |->
      small_vesting_guard((small_vesting_t_2689 = 0), (small_vesting_E_RECV), <<
        <<0>>
      >>)
        \o small_vesting_guard((small_vesting_k_2689["supply"]
          + small_vesting_v_2689
          > small_vesting_umax_2689), "#empty", <<>>),
    evs |->
      <<
        (small_vesting_transferEv(small_vesting_at_2689, 0, small_vesting_t_2689,
        small_vesting_v_2689))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vesting_tBurn(small_vesting_k_2761, small_vesting_at_2761, small_vesting_f_2761,
small_vesting_v_2761) ==
  [tok |->
      [
        [
          small_vesting_k_2761 EXCEPT
            !["bal"] =
              [
                small_vesting_k_2761["bal"] EXCEPT
                  ![small_vesting_f_2761] =
                    small_vesting_k_2761["bal"][small_vesting_f_2761]
                      - small_vesting_v_2761
              ]
        ] EXCEPT
          !["supply"] = small_vesting_k_2761["supply"] - small_vesting_v_2761
      ],
    errs |->
      small_vesting_guard((small_vesting_f_2761 = 0), (small_vesting_E_SENDER), <<
        <<0>>
      >>)
        \o small_vesting_guard((small_vesting_k_2761["bal"][
          small_vesting_f_2761
        ]
          < small_vesting_v_2761), (small_vesting_E_BAL), <<
          <<small_vesting_f_2761>>, <<
            small_vesting_k_2761["bal"][small_vesting_f_2761]
          >>, <<small_vesting_v_2761>>
        >>),
    evs |->
      <<
        (small_vesting_transferEv(small_vesting_at_2761, small_vesting_f_2761, 0,
        small_vesting_v_2761))
      >>]

(*
  @type: ((Int) => Int);
*)
small_vesting_vestedE(small_vesting_t_206) ==
  small_vesting_vestedOf((small_vesting_totalE), small_vesting_t_206, small_vesting_start,
  small_vesting_dur)

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vesting_badE(small_vesting_t_220) ==
  small_vesting_guard((small_vesting_tooBig((small_vesting_totalE), small_vesting_t_220,
  small_vesting_start, small_vesting_dur)), "#empty", <<>>)

(*
  @type: ((Int) => Int);
*)
small_vesting_totalT(small_vesting_k_196) ==
  small_vesting_balT(small_vesting_k_196)
    + small_vesting_relT[small_vesting_k_196]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_vesting_tMove(small_vesting_k_2483, small_vesting_at_2483, small_vesting_f_2483,
small_vesting_t_2483, small_vesting_v_2483) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_vesting_b1 ==
    [
      small_vesting_k_2483["bal"] EXCEPT
        ![small_vesting_f_2483] =
          small_vesting_k_2483["bal"][small_vesting_f_2483]
            - small_vesting_v_2483
    ]
  IN
  [tok |->
      [
        small_vesting_k_2483 EXCEPT
          !["bal"] =
            [
              (small_vesting_b1) EXCEPT
                ![small_vesting_t_2483] =
                  (small_vesting_b1)[small_vesting_t_2483]
                    + small_vesting_v_2483
            ]
      ],
    errs |->
      (small_vesting_guard((small_vesting_f_2483 = 0), (small_vesting_E_SENDER),
      <<<<0>>>>)
        \o small_vesting_guard((small_vesting_t_2483 = 0), (small_vesting_E_RECV),
        <<<<0>>>>))
        \o small_vesting_guard((small_vesting_k_2483["bal"][
          small_vesting_f_2483
        ]
          < small_vesting_v_2483), (small_vesting_E_BAL), <<
          <<small_vesting_f_2483>>, <<
            small_vesting_k_2483["bal"][small_vesting_f_2483]
          >>, <<small_vesting_v_2483>>
        >>),
    evs |->
      <<
        (small_vesting_transferEv(small_vesting_at_2483, small_vesting_f_2483, small_vesting_t_2483,
        small_vesting_v_2483))
      >>]

(*
  @type: ((Int, Int) => Bool);
*)
small_vesting_transferOwnership(small_vesting_by_1047, small_vesting_t_1047) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vesting_errs ==
    small_vesting_guard((small_vesting_by_1047 /= small_vesting_owner), (small_vesting_E_AUTH),
    <<<<small_vesting_by_1047>>>>)
      \o small_vesting_guard((small_vesting_t_1047 = 0), "OwnableInvalidOwner(address)",
      <<<<0>>>>)
  IN
  small_vesting_obs'
      := [op |-> "transferOwnership(address)()",
        at |-> 0,
        by |-> small_vesting_by_1047,
        pay |-> 0,
        args |-> <<<<small_vesting_t_1047>>>>,
        errs |-> small_vesting_errs,
        ret |-> <<>>,
        evs |->
          <<
            [at |-> 0,
              sig |-> "OwnershipTransferred(address indexed,address indexed)",
              args |-> <<<<small_vesting_owner>>, <<small_vesting_t_1047>>>>]
          >>]
    /\ small_vesting_owner'
      := (IF small_vesting_errs = <<>>
      THEN small_vesting_t_1047
      ELSE small_vesting_owner)
    /\ small_vesting_now' := small_vesting_now
    /\ small_vesting_eth' := small_vesting_eth
    /\ small_vesting_rel' := small_vesting_rel
    /\ small_vesting_und' := small_vesting_und
    /\ small_vesting_relT' := small_vesting_relT
    /\ small_vesting_mode' := small_vesting_mode
    /\ small_vesting_dep' := small_vesting_dep
    /\ small_vesting_slashed' := small_vesting_slashed
    /\ small_vesting_same

(*
  @type: ((Int) => Bool);
*)
small_vesting_renounceOwnership(small_vesting_by_1126) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vesting_errs ==
    small_vesting_guard((small_vesting_by_1126 /= small_vesting_owner), (small_vesting_E_AUTH),
    <<<<small_vesting_by_1126>>>>)
  IN
  small_vesting_obs'
      := [op |-> "renounceOwnership()()",
        at |-> 0,
        by |-> small_vesting_by_1126,
        pay |-> 0,
        args |-> <<>>,
        errs |-> small_vesting_errs,
        ret |-> <<>>,
        evs |->
          <<
            [at |-> 0,
              sig |-> "OwnershipTransferred(address indexed,address indexed)",
              args |-> <<<<small_vesting_owner>>, <<0>>>>]
          >>]
    /\ small_vesting_owner'
      := (IF small_vesting_errs = <<>> THEN 0 ELSE small_vesting_owner)
    /\ small_vesting_now' := small_vesting_now
    /\ small_vesting_eth' := small_vesting_eth
    /\ small_vesting_rel' := small_vesting_rel
    /\ small_vesting_und' := small_vesting_und
    /\ small_vesting_relT' := small_vesting_relT
    /\ small_vesting_mode' := small_vesting_mode
    /\ small_vesting_dep' := small_vesting_dep
    /\ small_vesting_slashed' := small_vesting_slashed
    /\ small_vesting_same

(*
  @type: (() => Bool);
*)
small_vesting_ledgers ==
  \A small_vesting_k_1947 \in small_vesting_TOKENS:
    small_vesting_tokOk(small_vesting_und[small_vesting_k_1947], (small_vesting_UMAX))

(*
  @type: (() => Bool);
*)
small_vesting_initAll ==
  \E small_vesting_s \in small_vesting_STARTS:
    \E small_vesting_d \in small_vesting_DURS:
      small_vesting_begin(small_vesting_s, small_vesting_d, 1, 0)

(*
  @type: ((Int) => Bool);
*)
small_vesting_tick(small_vesting_t_1197) ==
  small_vesting_t_1197 >= small_vesting_now
    /\ small_vesting_outside("!time(uint256)()", <<<<small_vesting_t_1197>>>>)
    /\ small_vesting_now' := small_vesting_t_1197
    /\ small_vesting_eth' := small_vesting_eth
    /\ small_vesting_und' := small_vesting_und
    /\ small_vesting_mode' := small_vesting_mode
    /\ small_vesting_dep' := small_vesting_dep
    /\ small_vesting_slashed' := small_vesting_slashed

(*
  @type: ((Int) => Bool);
*)
small_vesting_pay(small_vesting_v_1242) ==
  small_vesting_eth[(small_vesting_SELF)] + small_vesting_v_1242
      <= small_vesting_UMAX
    /\ small_vesting_outside("!eth(uint256)()", <<<<small_vesting_v_1242>>>>)
    /\ small_vesting_eth'
      := [
        small_vesting_eth EXCEPT
          ![small_vesting_SELF] =
            small_vesting_eth[(small_vesting_SELF)] + small_vesting_v_1242
      ]
    /\ small_vesting_dep' := (small_vesting_dep + small_vesting_v_1242)
    /\ small_vesting_now' := small_vesting_now
    /\ small_vesting_und' := small_vesting_und
    /\ small_vesting_mode' := small_vesting_mode
    /\ small_vesting_slashed' := small_vesting_slashed

(*
  @type: ((Int, Int) => Bool);
*)
small_vesting_fund(small_vesting_k_1296, small_vesting_v_1296) ==
  small_vesting_und[small_vesting_k_1296]["supply"] + small_vesting_v_1296
      <= small_vesting_UMAX
    /\ small_vesting_outside("!mint(address,uint256)()", <<
      <<small_vesting_k_1296>>, <<small_vesting_v_1296>>
    >>)
    /\ small_vesting_und'
      := [
        small_vesting_und EXCEPT
          ![small_vesting_k_1296] =
            (small_vesting_tMint(small_vesting_und[small_vesting_k_1296], (small_vesting_UMAX),
            0, (small_vesting_SELF), small_vesting_v_1296))[
              "tok"
            ]
      ]
    /\ small_vesting_eth' := small_vesting_eth
    /\ small_vesting_dep' := small_vesting_dep
    /\ small_vesting_now' := small_vesting_now
    /\ small_vesting_mode' := small_vesting_mode
    /\ small_vesting_slashed' := small_vesting_slashed

(*
  @type: ((Int, Int) => Bool);
*)
small_vesting_slash(small_vesting_k_1347, small_vesting_v_1347) ==
  small_vesting_v_1347 <= small_vesting_balT(small_vesting_k_1347)
    /\ small_vesting_outside("!slash(address,uint256)()", <<
      <<small_vesting_k_1347>>, <<small_vesting_v_1347>>
    >>)
    /\ small_vesting_und'
      := [
        small_vesting_und EXCEPT
          ![small_vesting_k_1347] =
            (small_vesting_tBurn(small_vesting_und[small_vesting_k_1347], 0, (small_vesting_SELF),
            small_vesting_v_1347))[
              "tok"
            ]
      ]
    /\ small_vesting_slashed'
      := (small_vesting_slashed \union {small_vesting_k_1347})
    /\ small_vesting_eth' := small_vesting_eth
    /\ small_vesting_dep' := small_vesting_dep
    /\ small_vesting_now' := small_vesting_now
    /\ small_vesting_mode' := small_vesting_mode

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vesting_behindE ==
  small_vesting_guard((small_vesting_rel
    > small_vesting_vestedE(small_vesting_now)), "#empty", <<>>)

(*
  @type: ((Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vesting_badT(small_vesting_k_262, small_vesting_t_262) ==
  IF ~(small_vesting_knows(small_vesting_k_262))
  THEN <<[sig |-> small_vesting_E_TOKEN, args |-> <<<<small_vesting_k_262>>>>]>>
  ELSE small_vesting_guard((small_vesting_tooBig((small_vesting_totalT(small_vesting_k_262)),
  small_vesting_t_262, small_vesting_start, small_vesting_dur)), "#empty", <<>>)

(*
  @type: ((Int, Int) => Int);
*)
small_vesting_vestedT(small_vesting_k_233, small_vesting_t_233) ==
  small_vesting_vestedOf((small_vesting_totalT(small_vesting_k_233)), small_vesting_t_233,
  small_vesting_start, small_vesting_dur)

(*
  @type: (() => Bool);
*)
small_vesting_neverAheadE ==
  small_vesting_totalE <= small_vesting_UMAX
    => small_vesting_rel <= small_vesting_vestedE(small_vesting_now)

(*
  @type: (() => Bool);
*)
q_init == small_vesting_initAll

(*
  @type: ((Int, Bool, Int) => Bool);
*)
small_vesting_releaseE(small_vesting_by_714, small_vesting_again_714, small_vesting_ans_714) ==
  LET (*
    @type: (() => Int);
  *)
  small_vesting_amt ==
    small_vesting_vestedE(small_vesting_now) - small_vesting_rel
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_vesting_refused ==
    small_vesting_owner = small_vesting_PAYEE /\ small_vesting_ans_714 >= 3
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vesting_errs ==
    (small_vesting_badE(small_vesting_now) \o small_vesting_behindE)
      \o small_vesting_guard((small_vesting_refused), "#any", <<>>)
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
  *)
  small_vesting_got ==
    <<
      [at |-> 3,
        sig |-> "received(uint256)",
        args |-> <<<<(small_vesting_amt)>>>>]
    >>
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
  *)
  small_vesting_inner ==
    IF small_vesting_again_714
    THEN <<
      [at |-> 3, sig |-> "received(uint256)", args |-> <<<<0>>>>], [at |-> 0,
        sig |-> "EtherReleased(uint256)",
        args |-> <<<<0>>>>]
    >>
    ELSE <<>>
  IN
  LET (*@type: (() => Bool); *) small_vesting_ok == small_vesting_errs = <<>> IN
  small_vesting_obs'
      := [op |-> "release()()",
        at |-> 0,
        by |-> small_vesting_by_714,
        pay |-> 0,
        args |->
          (IF small_vesting_again_714 THEN <<<<0, 8, 0>>>> ELSE <<>>)
            \o (IF small_vesting_ans_714 > 0
            THEN <<<<0, 99, small_vesting_ans_714>>>>
            ELSE <<>>),
        errs |-> small_vesting_errs,
        ret |-> <<>>,
        evs |->
          Append((IF small_vesting_owner = small_vesting_PAYEE
          THEN small_vesting_got \o small_vesting_inner
          ELSE <<>>), [at |-> 0,
            sig |-> "EtherReleased(uint256)",
            args |-> <<<<(small_vesting_amt)>>>>])]
    /\ small_vesting_rel'
      := (IF small_vesting_ok
      THEN small_vesting_rel + small_vesting_amt
      ELSE small_vesting_rel)
    /\ small_vesting_eth'
      := (IF small_vesting_ok
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var0 ==
        [
          small_vesting_eth EXCEPT
            ![small_vesting_SELF] =
              small_vesting_eth[(small_vesting_SELF)] - small_vesting_amt
        ]
      IN
      [
        (__quint_var0) EXCEPT
          ![small_vesting_owner] =
            LET (*
              @type: ((Int) => Int);
            *)
            __QUINT_LAMBDA0(small_vesting_x_679) ==
              small_vesting_x_679 + small_vesting_amt
            IN
            __QUINT_LAMBDA0((__quint_var0)[small_vesting_owner])
      ]
      ELSE small_vesting_eth)
    /\ small_vesting_owner' := small_vesting_owner
    /\ small_vesting_now' := small_vesting_now
    /\ small_vesting_und' := small_vesting_und
    /\ small_vesting_relT' := small_vesting_relT
    /\ small_vesting_mode' := small_vesting_mode
    /\ small_vesting_dep' := small_vesting_dep
    /\ small_vesting_slashed' := small_vesting_slashed
    /\ small_vesting_same

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_vesting_behindT(small_vesting_k_281) ==
  small_vesting_guard((small_vesting_knows(small_vesting_k_281)
    /\ small_vesting_relT[small_vesting_k_281]
      > small_vesting_vestedT(small_vesting_k_281, small_vesting_now)), "#empty",
  <<>>)

(*
  @type: (() => Bool);
*)
small_vesting_neverAheadT ==
  \A small_vesting_k_1937 \in small_vesting_TOKENS:
    ~(small_vesting_k_1937 \in small_vesting_slashed)
      /\ small_vesting_totalT(small_vesting_k_1937) <= small_vesting_UMAX
      => small_vesting_relT[small_vesting_k_1937]
        <= small_vesting_vestedT(small_vesting_k_1937, small_vesting_now)

(*
  @type: ((Int, Int, Bool) => Bool);
*)
small_vesting_releaseT(small_vesting_by_955, small_vesting_k_955, small_vesting_again_955) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vesting_early ==
    small_vesting_badT(small_vesting_k_955, small_vesting_now)
      \o small_vesting_behindT(small_vesting_k_955)
  IN
  LET (*
    @type: (() => Int);
  *)
  small_vesting_amt ==
    IF small_vesting_early = <<>>
    THEN small_vesting_vestedT(small_vesting_k_955, small_vesting_now)
      - small_vesting_relT[small_vesting_k_955]
    ELSE 0
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_vesting_r ==
    IF small_vesting_k_955 \in small_vesting_TOKENS
    THEN small_vesting_tMove(small_vesting_und[small_vesting_k_955], (small_vesting_k_955
      - small_vesting_SELF), (small_vesting_SELF), small_vesting_owner, (small_vesting_amt))
    ELSE [tok |-> small_vesting_emptyTok((small_vesting_ADDRS)),
      errs |-> <<>>,
      evs |-> <<>>]
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_vesting_paid ==
    (small_vesting_r)["errs"] = <<>>
      /\ (small_vesting_k_955 /= 101
        \/ small_vesting_accepted(small_vesting_mode))
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_vesting_errs ==
    small_vesting_early
      \o small_vesting_guard((small_vesting_early = <<>> /\ ~small_vesting_paid),
      (small_vesting_E_SAFE), <<<<small_vesting_k_955>>>>)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_vesting_told ==
    (small_vesting_mode = 12 /\ small_vesting_k_955 = 101)
      /\ small_vesting_owner = small_vesting_PAYEE
  IN
  LET (*
    @type: (() => Seq({ args: Seq(a), at: Int, sig: Str }));
  *)
  small_vesting_got == <<[at |-> 3, sig |-> small_vesting_GOT, args |-> <<>>]>>
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
  *)
  small_vesting_inner ==
    Append((<<
      (small_vesting_transferEv(1, (small_vesting_SELF), (small_vesting_PAYEE), 0))
    >>
      \o small_vesting_got), [at |-> 0,
      sig |-> "ERC20Released(address indexed,uint256)",
      args |-> <<<<101>>, <<0>>>>])
  IN
  small_vesting_obs'
      := [op |-> "release(address)()",
        at |-> 0,
        by |-> small_vesting_by_955,
        pay |-> 0,
        args |->
          IF small_vesting_told /\ small_vesting_again_955
          THEN <<<<small_vesting_k_955>>, <<0, 11, 0, 101>>>>
          ELSE <<<<small_vesting_k_955>>>>,
        errs |-> small_vesting_errs,
        ret |-> <<>>,
        evs |->
          Append((((small_vesting_r)["evs"]
            \o (IF small_vesting_told THEN small_vesting_got ELSE <<>>))
            \o (IF small_vesting_told /\ small_vesting_again_955
            THEN small_vesting_inner
            ELSE <<>>)), [at |-> 0,
            sig |-> "ERC20Released(address indexed,uint256)",
            args |-> <<<<small_vesting_k_955>>, <<(small_vesting_amt)>>>>])]
    /\ small_vesting_und'
      := (IF small_vesting_errs = <<>>
      THEN [
        small_vesting_und EXCEPT
          ![small_vesting_k_955] = (small_vesting_r)["tok"]
      ]
      ELSE small_vesting_und)
    /\ small_vesting_relT'
      := (IF small_vesting_errs = <<>>
      THEN [
        small_vesting_relT EXCEPT
          ![small_vesting_k_955] =
            small_vesting_relT[small_vesting_k_955] + small_vesting_amt
      ]
      ELSE small_vesting_relT)
    /\ small_vesting_owner' := small_vesting_owner
    /\ small_vesting_now' := small_vesting_now
    /\ small_vesting_eth' := small_vesting_eth
    /\ small_vesting_rel' := small_vesting_rel
    /\ small_vesting_mode' := small_vesting_mode
    /\ small_vesting_dep' := small_vesting_dep
    /\ small_vesting_slashed' := small_vesting_slashed
    /\ small_vesting_same

(*
  @type: (() => Bool);
*)
small_vesting_safety ==
  ((small_vesting_conserved /\ small_vesting_neverAheadE)
      /\ small_vesting_neverAheadT)
    /\ small_vesting_ledgers

(*
  @type: (() => Bool);
*)
small_vesting_stepAll ==
  \E small_vesting_v \in 0 .. small_vesting_UMAX:
    \E small_vesting_t \in 0 .. small_vesting_TMAX:
      small_vesting_tick(small_vesting_t)
        \/ (small_vesting_dep + small_vesting_v <= small_vesting_UMAX
          /\ small_vesting_pay(small_vesting_v))
        \/ ((small_vesting_relT[102] + small_vesting_balT(102))
            + small_vesting_v
            <= small_vesting_UMAX
          /\ small_vesting_fund(102, small_vesting_v))
        \/ small_vesting_slash(102, small_vesting_v)
        \/ small_vesting_releaseE(1, FALSE, 0)
        \/ small_vesting_releaseE(1, TRUE, 3)
        \/ small_vesting_releaseT(1, 102, FALSE)
        \/ small_vesting_transferOwnership(1, 2)
        \/ small_vesting_transferOwnership(2, (small_vesting_PAYEE))
        \/ small_vesting_renounceOwnership(2)

(*
  @type: (() => Bool);
*)
q_inv == small_vesting_safety

(*
  @type: (() => Bool);
*)
q_step == small_vesting_stepAll


View == <<small_vesting_owner, small_vesting_start, small_vesting_dur, small_vesting_now, small_vesting_eth, small_vesting_rel, small_vesting_und, small_vesting_relT, small_vesting_mode, small_vesting_dep, small_vesting_slashed>>

==============================================================================
