\* generated by tools/export_tla.py from vesting.qnt b8c582da0cf5200ddd80f2a24a99b44d02c9452787f0b924a416184a1bc5a984
--------------------------------- MODULE vesting_deep ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
deep_vesting_STARTS == { 0, 1 }

(*
  @type: (() => Set(Int));
*)
deep_vesting_DURS == { 0, 2, 3 }

VARIABLE
  (*
    @type: Int;
  *)
  deep_vesting_owner

VARIABLE
  (*
    @type: Int;
  *)
  deep_vesting_start

VARIABLE
  (*
    @type: Int;
  *)
  deep_vesting_dur

VARIABLE
  (*
    @type: Int;
  *)
  deep_vesting_now

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  deep_vesting_eth

(*
  @type: (() => Set(Int));
*)
deep_vesting_USERS == { 1, 2 }

(*
  @type: (() => Int);
*)
deep_vesting_SELF == 100

(*
  @type: (() => Int);
*)
deep_vesting_PAYEE == 103

VARIABLE
  (*
    @type: Int;
  *)
  deep_vesting_rel

VARIABLE
  (*
    @type: (Int -> { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
  *)
  deep_vesting_und

(*
  @type: (() => Set(Int));
*)
deep_vesting_TOKENS == { 101, 102 }

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
deep_vesting_emptyTok(deep_vesting_addrs_2373) ==
  [bal |-> [ deep_vesting___2359 \in deep_vesting_addrs_2373 |-> 0 ],
    allow |->
      [
        deep_vesting___2367 \in
          deep_vesting_addrs_2373 \X deep_vesting_addrs_2373 |->
          0
      ],
    supply |-> 0]

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  deep_vesting_relT

VARIABLE
  (*
    @type: Int;
  *)
  deep_vesting_mode

VARIABLE
  (*
    @type: Int;
  *)
  deep_vesting_dep

VARIABLE
  (*
    @type: Set(Int);
  *)
  deep_vesting_slashed

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  deep_vesting_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
deep_vesting_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
deep_vesting_UMAX == 3

(*
  @type: (() => Int);
*)
deep_vesting_TMAX == 4

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
deep_vesting_guard(deep_vesting_bad_3146, deep_vesting_sig_3146, deep_vesting_args_3146) ==
  IF deep_vesting_bad_3146
  THEN <<[sig |-> deep_vesting_sig_3146, args |-> deep_vesting_args_3146]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
deep_vesting_E_RECV == "ERC20InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
deep_vesting_TRANSFER == "Transfer(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
deep_vesting_E_SENDER == "ERC20InvalidSender(address)"

(*
  @type: (() => Str);
*)
deep_vesting_E_BAL == "ERC20InsufficientBalance(address,uint256,uint256)"

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
deep_vesting_vestedOf(deep_vesting_total_117, deep_vesting_t_117, deep_vesting_s_117,
deep_vesting_d_117) ==
  IF deep_vesting_t_117 < deep_vesting_s_117
  THEN 0
  ELSE IF deep_vesting_t_117 >= deep_vesting_s_117 + deep_vesting_d_117
  THEN deep_vesting_total_117
  ELSE (deep_vesting_total_117 * (deep_vesting_t_117 - deep_vesting_s_117))
    \div deep_vesting_d_117

(*
  @type: (() => Str);
*)
deep_vesting_E_TOKEN == "InvalidToken(address)"

(*
  @type: ((Int) => Bool);
*)
deep_vesting_accepted(deep_vesting_mode_2096) ==
  deep_vesting_mode_2096 \in { 0, 1, 5, 6, 7, 12 }

(*
  @type: (() => Str);
*)
deep_vesting_E_SAFE == "SafeErc20FailedOperation(address)"

(*
  @type: (() => Str);
*)
deep_vesting_GOT == "tokensReceived()"

(*
  @type: (() => Str);
*)
deep_vesting_E_AUTH == "OwnableUnauthorizedAccount(address)"

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }) => Int);
*)
deep_vesting_sumBal(deep_vesting_k_2997) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA1(deep_vesting_acc_2995, deep_vesting_a_2995) ==
    deep_vesting_acc_2995 + deep_vesting_k_2997["bal"][deep_vesting_a_2995]
  IN
  ApaFoldSet(__QUINT_LAMBDA1, 0, DOMAIN (deep_vesting_k_2997["bal"]))

(*
  @type: (() => Set(Int));
*)
deep_vesting_ADDRS ==
  deep_vesting_USERS \union { 0, (deep_vesting_SELF), (deep_vesting_PAYEE) }

(*
  @type: (() => Bool);
*)
deep_vesting_same ==
  deep_vesting_start' := deep_vesting_start
    /\ deep_vesting_dur' := deep_vesting_dur

(*
  @type: ((Int) => Int);
*)
deep_vesting_balT(deep_vesting_k_185) ==
  deep_vesting_und[deep_vesting_k_185]["bal"][(deep_vesting_SELF)]

(*
  @type: ((Int, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
deep_vesting_transferEv(deep_vesting_at_2397, deep_vesting_f_2397, deep_vesting_t_2397,
deep_vesting_v_2397) ==
  [at |-> deep_vesting_at_2397,
    sig |-> deep_vesting_TRANSFER,
    args |->
      <<
        <<deep_vesting_f_2397>>, <<deep_vesting_t_2397>>, <<
          deep_vesting_v_2397
        >>
      >>]

(*
  @type: (() => Int);
*)
deep_vesting_totalE == deep_vesting_eth[(deep_vesting_SELF)] + deep_vesting_rel

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
deep_vesting_tooBig(deep_vesting_total_149, deep_vesting_t_149, deep_vesting_s_149,
deep_vesting_d_149) ==
  deep_vesting_total_149 > deep_vesting_UMAX
    \/ ((deep_vesting_t_149 >= deep_vesting_s_149
        /\ deep_vesting_t_149 < deep_vesting_s_149 + deep_vesting_d_149)
      /\ deep_vesting_total_149 * (deep_vesting_t_149 - deep_vesting_s_149)
        > deep_vesting_UMAX)

(*
  @type: ((Int) => Bool);
*)
deep_vesting_knows(deep_vesting_k_173) ==
  deep_vesting_k_173 \in deep_vesting_TOKENS
    /\ ~(deep_vesting_k_173 = 101 /\ deep_vesting_mode = 8)

(*
  @type: (() => Bool);
*)
deep_vesting_conserved ==
  deep_vesting_eth[(deep_vesting_SELF)] + deep_vesting_rel = deep_vesting_dep

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int) => Bool);
*)
deep_vesting_tokOk(deep_vesting_k_3063, deep_vesting_umax_3063) ==
  deep_vesting_sumBal(deep_vesting_k_3063) = deep_vesting_k_3063["supply"]
    /\ deep_vesting_k_3063["supply"] <= deep_vesting_umax_3063
    /\ (\A deep_vesting_a_3027 \in DOMAIN (deep_vesting_k_3063["bal"]):
      deep_vesting_k_3063["bal"][deep_vesting_a_3027] >= 0)
    /\ deep_vesting_k_3063["bal"][0] = 0
    /\ (\A deep_vesting_a_3060 \in DOMAIN (deep_vesting_k_3063["bal"]):
      deep_vesting_k_3063["allow"][<<deep_vesting_a_3060, 0>>] = 0
        /\ deep_vesting_k_3063["allow"][<<0, deep_vesting_a_3060>>] = 0)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
deep_vesting_begin(deep_vesting_s_1448, deep_vesting_d_1448, deep_vesting_o_1448,
deep_vesting_t_1448) ==
  deep_vesting_owner = deep_vesting_o_1448
    /\ deep_vesting_start = deep_vesting_s_1448
    /\ deep_vesting_dur = deep_vesting_d_1448
    /\ deep_vesting_now = deep_vesting_t_1448
    /\ deep_vesting_eth = [ deep_vesting___1402 \in deep_vesting_ADDRS |-> 0 ]
    /\ deep_vesting_rel = 0
    /\ deep_vesting_und
      = [
        deep_vesting___1413 \in deep_vesting_TOKENS |->
          deep_vesting_emptyTok((deep_vesting_ADDRS))
      ]
    /\ deep_vesting_relT = [ deep_vesting___1420 \in deep_vesting_TOKENS |-> 0 ]
    /\ deep_vesting_mode = 0
    /\ deep_vesting_dep = 0
    /\ deep_vesting_slashed = {}
    /\ deep_vesting_obs
      = [
        (deep_vesting_initObs) EXCEPT
          !["args"] =
            <<
              <<deep_vesting_s_1448>>, <<deep_vesting_d_1448>>, <<
                deep_vesting_o_1448
              >>, <<deep_vesting_t_1448>>
            >>
      ]

(*
  @type: ((Str, Seq(Seq(Int))) => Bool);
*)
deep_vesting_outside(deep_vesting_op_1165, deep_vesting_args_1165) ==
  deep_vesting_obs'
      := [op |-> deep_vesting_op_1165,
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |-> deep_vesting_args_1165,
        errs |-> <<>>,
        ret |-> <<>>,
        evs |-> <<>>]
    /\ deep_vesting_owner' := deep_vesting_owner
    /\ deep_vesting_rel' := deep_vesting_rel
    /\ deep_vesting_relT' := deep_vesting_relT
    /\ deep_vesting_same

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
deep_vesting_tMint(deep_vesting_k_2689, deep_vesting_umax_2689, deep_vesting_at_2689,
deep_vesting_t_2689, deep_vesting_v_2689) ==
  [tok |->
      [
        [
          deep_vesting_k_2689 EXCEPT
            !["bal"] =
              [
                deep_vesting_k_2689["bal"] EXCEPT
                  ![deep_vesting_t_2689] =
                    deep_vesting_k_2689["bal"][deep_vesting_t_2689]
                      + deep_vesting_v_2689
              ]
        ] EXCEPT
          !["supply"] = deep_vesting_k_2689["supply"] + deep_vesting_v_2689
      ],
    errs |->
      deep_vesting_guard((deep_vesting_t_2689 = 0), (deep_vesting_E_RECV), <<
        <<0>>
      >>)
        \o deep_vesting_guard((deep_vesting_k_2689["supply"]
          + deep_vesting_v_2689
          > deep_vesting_umax_2689), "#empty", <<>>),
    evs |->
      <<
        (deep_vesting_transferEv(deep_vesting_at_2689, 0, deep_vesting_t_2689, deep_vesting_v_2689))
      >>]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
deep_vesting_tBurn(deep_vesting_k_2761, deep_vesting_at_2761, deep_vesting_f_2761,
deep_vesting_v_2761) ==
  [tok |->
      [
        [
          deep_vesting_k_2761 EXCEPT
            !["bal"] =
              [
                deep_vesting_k_2761["bal"] EXCEPT
                  ![deep_vesting_f_2761] =
                    deep_vesting_k_2761["bal"][deep_vesting_f_2761]
                      - deep_vesting_v_2761
              ]
        ] EXCEPT
          !["supply"] = deep_vesting_k_2761["supply"] - deep_vesting_v_2761
      ],
    errs |->
      deep_vesting_guard((deep_vesting_f_2761 = 0), (deep_vesting_E_SENDER), <<
        <<0>>
      >>)
        \o deep_vesting_guard((deep_vesting_k_2761["bal"][deep_vesting_f_2761]
          < deep_vesting_v_2761), (deep_vesting_E_BAL), <<
          <<deep_vesting_f_2761>>, <<
            deep_vesting_k_2761["bal"][deep_vesting_f_2761]
          >>, <<deep_vesting_v_2761>>
        >>),
    evs |->
      <<
        (deep_vesting_transferEv(deep_vesting_at_2761, deep_vesting_f_2761, 0, deep_vesting_v_2761))
      >>]

(*
  @type: ((Int) => Int);
*)
deep_vesting_vestedE(deep_vesting_t_206) ==
  deep_vesting_vestedOf((deep_vesting_totalE), deep_vesting_t_206, deep_vesting_start,
  deep_vesting_dur)

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
deep_vesting_badE(deep_vesting_t_220) ==
  deep_vesting_guard((deep_vesting_tooBig((deep_vesting_totalE), deep_vesting_t_220,
  deep_vesting_start, deep_vesting_dur)), "#empty", <<>>)

(*
  @type: ((Int) => Int);
*)
deep_vesting_totalT(deep_vesting_k_196) ==
  deep_vesting_balT(deep_vesting_k_196) + deep_vesting_relT[deep_vesting_k_196]

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
deep_vesting_tMove(deep_vesting_k_2483, deep_vesting_at_2483, deep_vesting_f_2483,
deep_vesting_t_2483, deep_vesting_v_2483) ==
  LET (*
    @type: (() => (Int -> Int));
  *)
  deep_vesting_b1 ==
    [
      deep_vesting_k_2483["bal"] EXCEPT
        ![deep_vesting_f_2483] =
          deep_vesting_k_2483["bal"][deep_vesting_f_2483] - deep_vesting_v_2483
    ]
  IN
  [tok |->
      [
        deep_vesting_k_2483 EXCEPT
          !["bal"] =
            [
              (deep_vesting_b1) EXCEPT
                ![deep_vesting_t_2483] =
                  (deep_vesting_b1)[deep_vesting_t_2483] + deep_vesting_v_2483
            ]
      ],
    errs |->
      (deep_vesting_guard((deep_vesting_f_2483 = 0), (deep_vesting_E_SENDER), <<
        <<0>>
      >>)
        \o deep_vesting_guard((deep_vesting_t_2483 = 0), (deep_vesting_E_RECV), <<
          <<0>>
        >>))
        \o deep_vesting_guard((deep_vesting_k_2483["bal"][deep_vesting_f_2483]
          < deep_vesting_v_2483), (deep_vesting_E_BAL), <<
          <<deep_vesting_f_2483>>, <<
            deep_vesting_k_2483["bal"][deep_vesting_f_2483]
          >>, <<deep_vesting_v_2483>>
        >>),
    evs |->
      <<
        (deep_vesting_transferEv(deep_vesting_at_2483, deep_vesting_f_2483, deep_vesting_t_2483,
        deep_vesting_v_2483))
      >>]

(*
  @type: ((Int, Int) => Bool);
*)
deep_vesting_transferOwnership(deep_vesting_by_1047, deep_vesting_t_1047) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  deep_vesting_errs ==
    deep_vesting_guard((deep_vesting_by_1047 /= deep_vesting_owner), (deep_vesting_E_AUTH),
    <<<<deep_vesting_by_1047>>>>)
      \o deep_vesting_guard((deep_vesting_t_1047 = 0), "OwnableInvalidOwner(address)",
      <<<<0>>>>)
  IN
  deep_vesting_obs'
      := [op |-> "transferOwnership(address)()",
        at |-> 0,
        by |-> deep_vesting_by_1047,
        pay |-> 0,
        args |-> <<<<deep_vesting_t_1047>>>>,
        errs |-> deep_vesting_errs,
        ret |-> <<>>,
        evs |->
          <<
            [at |-> 0,
              sig |-> "OwnershipTransferred(address indexed,address indexed)",
              args |-> <<<<deep_vesting_owner>>, <<deep_vesting_t_1047>>>>]
          >>]
    /\ deep_vesting_owner'
      := (IF deep_vesting_errs = <<>>
      THEN deep_vesting_t_1047
      ELSE deep_vesting_owner)
    /\ deep_vesting_now' := deep_vesting_now
    /\ deep_vesting_eth' := deep_vesting_eth
    /\ deep_vesting_rel' := deep_vesting_rel
    /\ deep_vesting_und' := deep_vesting_und
    /\ deep_vesting_relT' := deep_vesting_relT
    /\ deep_vesting_mode' := deep_vesting_mode
    /\ deep_vesting_dep' := deep_vesting_dep
    /\ deep_vesting_slashed' := deep_vesting_slashed
    /\ deep_vesting_same

(*
  @type: ((Int) => Bool);
*)
deep_vesting_renounceOwnership(deep_vesting_by_1126) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  deep_vesting_errs ==
    deep_vesting_guard((deep_vesting_by_1126 /= deep_vesting_owner), (deep_vesting_E_AUTH),
    <<<<deep_vesting_by_1126>>>>)
  IN
  deep_vesting_obs'
      := [op |-> "renounceOwnership()()",
        at |-> 0,
        by |-> deep_vesting_by_1126,
        pay |-> 0,
        args |-> <<>>,
        errs |-> deep_vesting_errs,
        ret |-> <<>>,
        evs |->
          <<
            [at |-> 0,
              sig |-> "OwnershipTransferred(address indexed,address indexed)",
              args |-> <<<<deep_vesting_owner>>, <<0>>>>]
          >>]
    /\ deep_vesting_owner'
      := (IF deep_vesting_errs = <<>> THEN 0 ELSE deep_vesting_owner)
    /\ deep_vesting_now' := deep_vesting_now
    /\ deep_vesting_eth' := deep_vesting_eth
    /\ deep_vesting_rel' := deep_vesting_rel
    /\ deep_vesting_und' := deep_vesting_und
    /\ deep_vesting_relT' := deep_vesting_relT
    /\ deep_vesting_mode' := deep_vesting_mode
    /\ deep_vesting_dep' := deep_vesting_dep
    /\ deep_vesting_slashed' := deep_vesting_slashed
    /\ deep_vesting_same

(*
  @type: (() => Bool);
*)
deep_vesting_ledgers ==
  \A deep_vesting_k_1947 \in deep_vesting_TOKENS:
    deep_vesting_tokOk(deep_vesting_und[deep_vesting_k_1947], (deep_vesting_UMAX))

(*
  @type: (() => Bool);
*)
deep_vesting_initAll ==
  \E deep_vesting_s \in deep_vesting_STARTS:
    \E deep_vesting_d \in deep_vesting_DURS:
      deep_vesting_begin(deep_vesting_s, deep_vesting_d, 1, 0)

(*
  @type: ((Int) => Bool);
*)
deep_vesting_tick(deep_vesting_t_1197) ==
  deep_vesting_t_1197 >= deep_vesting_now
    /\ deep_vesting_outside("!time(uint256)()", <<<<deep_vesting_t_1197>>>>)
    /\ deep_vesting_now' := deep_vesting_t_1197
    /\ deep_vesting_eth' := deep_vesting_eth
    /\ deep_vesting_und' := deep_vesting_und
    /\ deep_vesting_mode' := deep_vesting_mode
    /\ deep_vesting_dep' := deep_vesting_dep
    /\ deep_vesting_slashed' := deep_vesting_slashed

(*
  @type: ((Int) => Bool);
*)
deep_vesting_pay(deep_vesting_v_1242) ==
  deep_vesting_eth[(deep_vesting_SELF)] + deep_vesting_v_1242
      <= deep_vesting_UMAX
    /\ deep_vesting_outside("!eth(uint256)()", <<<<deep_vesting_v_1242>>>>)
    /\ deep_vesting_eth'
      := [
        deep_vesting_eth EXCEPT
          ![deep_vesting_SELF] =
            deep_vesting_eth[(deep_vesting_SELF)] + deep_vesting_v_1242
      ]
    /\ deep_vesting_dep' := (deep_vesting_dep + deep_vesting_v_1242)
    /\ deep_vesting_now' := deep_vesting_now
    /\ deep_vesting_und' := deep_vesting_und
    /\ deep_vesting_mode' := deep_vesting_mode
    /\ deep_vesting_slashed' := deep_vesting_slashed

(*
  @type: ((Int, Int) => Bool);
*)
deep_vesting_fund(deep_vesting_k_1296, deep_vesting_v_1296) ==
  deep_vesting_und[deep_vesting_k_1296]["supply"] + deep_vesting_v_1296
      <= deep_vesting_UMAX
    /\ deep_vesting_outside("!mint(address,uint256)()", <<
      <<deep_vesting_k_1296>>, <<deep_vesting_v_1296>>
    >>)
    /\ deep_vesting_und'
      := [
        deep_vesting_und EXCEPT
          ![deep_vesting_k_1296] =
            (deep_vesting_tMint(deep_vesting_und[deep_vesting_k_1296], (deep_vesting_UMAX),
            0, (deep_vesting_SELF), deep_vesting_v_1296))[
              "tok"
            ]
      ]
    /\ deep_vesting_eth' := deep_vesting_eth
    /\ deep_vesting_dep' := deep_vesting_dep
    /\ deep_vesting_now' := deep_vesting_now
    /\ deep_vesting_mode' := deep_vesting_mode
    /\ deep_vesting_slashed' := deep_vesting_slashed

(*
  @type: ((Int, Int) => Bool);
*)
deep_vesting_slash(deep_vesting_k_1347, deep_vesting_v_1347) ==
  deep_vesting_v_1347 <= deep_vesting_balT(deep_vesting_k_1347)
    /\ deep_vesting_outside("!slash(address,uint256)()", <<
      <<deep_vesting_k_1347>>, <<deep_vesting_v_1347>>
    >>)
    /\ deep_vesting_und'
      := [
        deep_vesting_und EXCEPT
          ![deep_vesting_k_1347] =
            (deep_vesting_tBurn(deep_vesting_und[deep_vesting_k_1347], 0, (deep_vesting_SELF),
            deep_vesting_v_1347))[
              "tok"
            ]
      ]
    /\ deep_vesting_slashed'
      := (deep_vesting_slashed \union {deep_vesting_k_1347})
    /\ deep_vesting_eth' := deep_vesting_eth
    /\ deep_vesting_dep' := deep_vesting_dep
    /\ deep_vesting_now' := deep_vesting_now
    /\ deep_vesting_mode' := deep_vesting_mode

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
deep_vesting_behindE ==
  deep_vesting_guard((deep_vesting_rel > deep_vesting_vestedE(deep_vesting_now)),
  "#empty", <<>>)

(*
  @type: ((Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
deep_vesting_badT(deep_vesting_k_262, deep_vesting_t_262) ==
  IF ~(deep_vesting_knows(deep_vesting_k_262))
  THEN <<[sig |-> deep_vesting_E_TOKEN, args |-> <<<<deep_vesting_k_262>>>>]>>
  ELSE deep_vesting_guard((deep_vesting_tooBig((deep_vesting_totalT(deep_vesting_k_262)),
  deep_vesting_t_262, deep_vesting_start, deep_vesting_dur)), "#empty", <<>>)

(*
  @type: ((Int, Int) => Int);
*)
deep_vesting_vestedT(deep_vesting_k_233, deep_vesting_t_233) ==
  deep_vesting_vestedOf((deep_vesting_totalT(deep_vesting_k_233)), deep_vesting_t_233,
  deep_vesting_start, deep_vesting_dur)

(*
  @type: (() => Bool);
*)
deep_vesting_neverAheadE ==
  deep_vesting_totalE <= deep_vesting_UMAX
    => deep_vesting_rel <= deep_vesting_vestedE(deep_vesting_now)

(*
  @type: (() => Bool);
*)
q_init == deep_vesting_initAll

(*
  @type: ((Int, Bool, Int) => Bool);
*)
deep_vesting_releaseE(deep_vesting_by_714, deep_vesting_again_714, deep_vesting_ans_714) ==
  LET (*
    @type: (() => Int);
  *)
  deep_vesting_amt == deep_vesting_vestedE(deep_vesting_now) - deep_vesting_rel
  IN
  LET (*
    @type: (() => Bool);
  *)
  deep_vesting_refused ==
    deep_vesting_owner = deep_vesting_PAYEE /\ deep_vesting_ans_714 >= 3
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  deep_vesting_errs ==
    (deep_vesting_badE(deep_vesting_now) \o deep_vesting_behindE)
      \o deep_vesting_guard((deep_vesting_refused), "#any", <<>>)
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
  *)
  deep_vesting_got ==
    <<
      [at |-> 3,
        sig |-> "received(uint256)",
        args |-> <<<<(deep_vesting_amt)>>>>]
    >>
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
  *)
  deep_vesting_inner ==
    IF deep_vesting_again_714
    THEN <<
      [at |-> 3, sig |-> "received(uint256)", args |-> <<<<0>>>>], [at |-> 0,
        sig |-> "EtherReleased(uint256)",
        args |-> <<<<0>>>>]
    >>
    ELSE <<>>
  IN
  LET (*@type: (() => Bool); *) deep_vesting_ok == deep_vesting_errs = <<>> IN
  deep_vesting_obs'
      := [op |-> "release()()",
        at |-> 0,
        by |-> deep_vesting_by_714,
        pay |-> 0,
        args |->
          (IF deep_vesting_again_714 THEN <<<<0, 8, 0>>>> ELSE <<>>)
            \o (IF deep_vesting_ans_714 > 0
            THEN <<<<0, 99, deep_vesting_ans_714>>>>
            ELSE <<>>),
        errs |-> deep_vesting_errs,
        ret |-> <<>>,
        evs |->
          Append((IF deep_vesting_owner = deep_vesting_PAYEE
          THEN deep_vesting_got \o deep_vesting_inner
          ELSE <<>>), [at |-> 0,
            sig |-> "EtherReleased(uint256)",
            args |-> <<<<(deep_vesting_amt)>>>>])]
    /\ deep_vesting_rel'
      := (IF deep_vesting_ok
      THEN deep_vesting_rel + deep_vesting_amt
      ELSE deep_vesting_rel)
    /\ deep_vesting_eth'
      := (IF deep_vesting_ok
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var0 ==
        [
          deep_vesting_eth EXCEPT
            ![deep_vesting_SELF] =
              deep_vesting_eth[(deep_vesting_SELF)] - deep_vesting_amt
        ]
      IN
      [
        (__quint_var0) EXCEPT
          ![deep_vesting_owner] =
            LET (*
              @type: ((Int) => Int);
            *)
            __QUINT_LAMBDA0(deep_vesting_x_679) ==
              deep_vesting_x_679 + deep_vesting_amt
            IN
            __QUINT_LAMBDA0((__quint_var0)[deep_vesting_owner])
      ]
      ELSE deep_vesting_eth)
    /\ deep_vesting_owner' := deep_vesting_owner
    /\ deep_vesting_now' := deep_vesting_now
    /\ deep_vesting_und' := deep_vesting_und
    /\ deep_vesting_relT' := deep_vesting_relT
    /\ deep_vesting_mode' := deep_vesting_mode
    /\ deep_vesting_dep' := deep_vesting_dep
    /\ deep_vesting_slashed' := deep_vesting_slashed
    /\ deep_vesting_same

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
deep_vesting_behindT(deep_vesting_k_281) ==
  deep_vesting_guard((deep_vesting_knows(deep_vesting_k_281)
    /\ deep_vesting_relT[deep_vesting_k_281]
      > deep_vesting_vestedT(deep_vesting_k_281, deep_vesting_now)), "#empty", <<
    
  >>)

(*
  @type: (() => Bool);
*)
deep_vesting_neverAheadT ==
  \A deep_vesting_k_1937 \in deep_vesting_TOKENS:
    ~(deep_vesting_k_1937 \in deep_vesting_slashed)
      /\ deep_vesting_totalT(deep_vesting_k_1937) <= deep_vesting_UMAX
      => deep_vesting_relT[deep_vesting_k_1937]
        <= deep_vesting_vestedT(deep_vesting_k_1937, deep_vesting_now)

(*
  @type: ((Int, Int, Bool) => Bool);
*)
deep_vesting_releaseT(deep_vesting_by_955, deep_vesting_k_955, deep_vesting_again_955) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  deep_vesting_early ==
    deep_vesting_badT(deep_vesting_k_955, deep_vesting_now)
      \o deep_vesting_behindT(deep_vesting_k_955)
  IN
  LET (*
    @type: (() => Int);
  *)
  deep_vesting_amt ==
    IF deep_vesting_early = <<>>
    THEN deep_vesting_vestedT(deep_vesting_k_955, deep_vesting_now)
      - deep_vesting_relT[deep_vesting_k_955]
    ELSE 0
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  deep_vesting_r ==
    IF deep_vesting_k_955 \in deep_vesting_TOKENS
    THEN deep_vesting_tMove(deep_vesting_und[deep_vesting_k_955], (deep_vesting_k_955
      - deep_vesting_SELF), (deep_vesting_SELF), deep_vesting_owner, (deep_vesting_amt))
    ELSE [tok |-> deep_vesting_emptyTok((deep_vesting_ADDRS)),
      errs |-> <<>>,
      evs |-> <<>>]
  IN
  LET (*
    @type: (() => Bool);
  *)
  deep_vesting_paid ==
    (deep_vesting_r)["errs"] = <<>>
      /\ (deep_vesting_k_955 /= 101 \/ deep_vesting_accepted(deep_vesting_mode))
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  deep_vesting_errs ==
    deep_vesting_early
      \o deep_vesting_guard((deep_vesting_early = <<>> /\ ~deep_vesting_paid), (deep_vesting_E_SAFE),
      <<<<deep_vesting_k_955>>>>)
  IN
  LET (*
    @type: (() => Bool);
  *)
  deep_vesting_told ==
    (deep_vesting_mode = 12 /\ deep_vesting_k_955 = 101)
      /\ deep_vesting_owner = deep_vesting_PAYEE
  IN
  LET (*
    @type: (() => Seq({ args: Seq(a), at: Int, sig: Str }));
  *)
  deep_vesting_got == <<[at |-> 3, sig |-> deep_vesting_GOT, args |-> <<>>]>>
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
  *)
  deep_vesting_inner ==
    Append((<<
      (deep_vesting_transferEv(1, (deep_vesting_SELF), (deep_vesting_PAYEE), 0))
    >>
      \o deep_vesting_got), [at |-> 0,
      sig |-> "ERC20Released(address indexed,uint256)",
      args |-> <<<<101>>, <<0>>>>])
  IN
  deep_vesting_obs'
      := [op |-> "release(address)()",
        at |-> 0,
        by |-> deep_vesting_by_955,
        pay |-> 0,
        args |->
          IF deep_vesting_told /\ deep_vesting_again_955
          THEN <<<<deep_vesting_k_955>>, <<0, 11, 0, 101>>>>
          ELSE <<<<deep_vesting_k_955>>>>,
        errs |-> deep_vesting_errs,
        ret |-> <<>>,
        evs |->
          Append((((deep_vesting_r)["evs"]
            \o (IF deep_vesting_told THEN deep_vesting_got ELSE <<>>))
            \o (IF deep_vesting_told /\ deep_vesting_again_955
            THEN deep_vesting_inner
            ELSE <<>>)), [at |-> 0,
            sig |-> "ERC20Released(address indexed,uint256)",
            args |-> <<<<deep_vesting_k_955>>, <<(deep_vesting_amt)>>>>])]
    /\ deep_vesting_und'
      := (IF deep_vesting_errs = <<>>
      THEN [
        deep_vesting_und EXCEPT
          ![deep_vesting_k_955] = (deep_vesting_r)["tok"]
      ]
      ELSE deep_vesting_und)
    /\ deep_vesting_relT'
      := (IF deep_vesting_errs = <<>>
      THEN [
        deep_vesting_relT EXCEPT
          ![deep_vesting_k_955] =
            deep_vesting_relT[deep_vesting_k_955] + deep_vesting_amt
      ]
      ELSE deep_vesting_relT)
    /\ deep_vesting_owner' := deep_vesting_owner
    /\ deep_vesting_now' := deep_vesting_now
    /\ deep_vesting_eth' := deep_vesting_eth
    /\ deep_vesting_rel' := deep_vesting_rel
    /\ deep_vesting_mode' := deep_vesting_mode
    /\ deep_vesting_dep' := deep_vesting_dep
    /\ deep_vesting_slashed' := deep_vesting_slashed
    /\ deep_vesting_same

(*
  @type: (() => Bool);
*)
deep_vesting_safety ==
  ((deep_vesting_conserved /\ deep_vesting_neverAheadE)
      /\ deep_vesting_neverAheadT)
    /\ deep_vesting_ledgers

(*
  @type: (() => Bool);
*)
deep_vesting_stepAll ==
  \E deep_vesting_v \in 0 .. deep_vesting_UMAX:
    \E deep_vesting_t \in 0 .. deep_vesting_TMAX:
      deep_vesting_tick(deep_vesting_t)
        \/ (deep_vesting_dep + deep_vesting_v <= deep_vesting_UMAX
          /\ deep_vesting_pay(deep_vesting_v))
        \/ ((deep_vesting_relT[102] + deep_vesting_balT(102)) + deep_vesting_v
            <= deep_vesting_UMAX
          /\ deep_vesting_fund(102, deep_vesting_v))
        \/ deep_vesting_slash(102, deep_vesting_v)
        \/ deep_vesting_releaseE(1, FALSE, 0)
        \/ deep_vesting_releaseE(1, TRUE, 3)
        \/ deep_vesting_releaseT(1, 102, FALSE)
        \/ deep_vesting_transferOwnership(1, 2)
        \/ deep_vesting_transferOwnership(2, (deep_vesting_PAYEE))
        \/ deep_vesting_renounceOwnership(2)

(*
  @type: (() => Bool);
*)
q_inv == deep_vesting_safety

(*
  @type: (() => Bool);
*)
q_step == deep_vesting_stepAll


View == <<deep_vesting_owner, deep_vesting_start, deep_vesting_dur, deep_vesting_now, deep_vesting_eth, deep_vesting_rel, deep_vesting_und, deep_vesting_relT, deep_vesting_mode, deep_vesting_dep, deep_vesting_slashed>>

==============================================================================
