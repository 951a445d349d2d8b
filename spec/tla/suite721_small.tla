\* generated by tools/export_tla.py from suite721.qnt b4e8e2f03af45de624636b0ca5f64ffe0f18aeca933c4675b114d05bbb317aa4
--------------------------------- MODULE suite721_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Seq(Int)));
*)
small_suite721_STRS == {<<>>}

(*
  @type: (() => Set(Int));
*)
small_suite721_USERS == { 1, 2 }

VARIABLE
  (*
    @type: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) };
  *)
  small_suite721_nft

(*
  @type: ((Set(Int), Set(Int)) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_suite721_emptyNft(small_suite721_addrs_1868, small_suite721_ids_1868) ==
  [owner |-> [ small_suite721___1844 \in small_suite721_ids_1868 |-> 0 ],
    bal |-> [ small_suite721___1850 \in small_suite721_addrs_1868 |-> 0 ],
    appr |-> [ small_suite721___1856 \in small_suite721_ids_1868 |-> 0 ],
    oper |->
      [
        small_suite721___1864 \in
          small_suite721_addrs_1868 \X small_suite721_addrs_1868 |->
          FALSE
      ]]

(*
  @type: (() => Int);
*)
small_suite721_SELF == 100

(*
  @type: (() => Int);
*)
small_suite721_RECV == 101

(*
  @type: (() => Set(Int));
*)
small_suite721_IDS == { 0, 1 }

VARIABLE
  (*
    @type: Seq((Int -> Int));
  *)
  small_suite721_frozen

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_suite721_base

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_suite721_name

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_suite721_symbol

VARIABLE
  (*
    @type: { dflt: { frac: Int, to_: Int }, has: (<<Int, Int>> -> Int), own: (Int -> { frac: Int, to_: Int }), paused: Int, uri: (Int -> Seq(Int)) };
  *)
  small_suite721_coll

(*
  @type: (() => Int);
*)
small_suite721_MINTER == 1

(*
  @type: ((Bool) => Int);
*)
small_suite721_bit(small_suite721_b_2868) ==
  IF small_suite721_b_2868 THEN 1 ELSE 0

(*
  @type: (() => { frac: Int, to_: Int });
*)
small_suite721_NONE == [to_ |-> 0, frac |-> 0]

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  small_suite721_shown

(*
  @type: ((Int) => Seq(Int));
*)
small_suite721_decimal(small_suite721_n_2669) ==
  LET (*
    @type: (() => { out: Seq(Int), rest: Int });
  *)
  small_suite721_r ==
    LET (*
      @type: (({ out: Seq(Int), rest: Int }, Int) => { out: Seq(Int), rest: Int });
    *)
    __QUINT_LAMBDA1(small_suite721_a_2662, small_suite721_i_2662) ==
      IF small_suite721_i_2662 > 0 /\ small_suite721_a_2662["rest"] = 0
      THEN small_suite721_a_2662
      ELSE [rest |-> small_suite721_a_2662["rest"] \div 10,
        out |->
          <<(48 + (small_suite721_a_2662["rest"] % 10))>>
            \o small_suite721_a_2662["out"]]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, [rest |-> small_suite721_n_2669,
      out |-> <<>>], (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((78 - 0), __QUINT_LAMBDA0)))
  IN
  (small_suite721_r)["out"]

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_suite721_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_suite721_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_suite721_DENOM == 2

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_suite721_nPut(small_suite721_n_2010, small_suite721_dst_2010, small_suite721_id_2010) ==
  LET (*
    @type: (() => Int);
  *)
  small_suite721_src == small_suite721_n_2010["owner"][small_suite721_id_2010]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_suite721_b1 ==
    IF small_suite721_src = 0
    THEN small_suite721_n_2010["bal"]
    ELSE [
      small_suite721_n_2010["bal"] EXCEPT
        ![small_suite721_src] =
          small_suite721_n_2010["bal"][(small_suite721_src)] - 1
    ]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_suite721_b2 ==
    IF small_suite721_dst_2010 = 0
    THEN small_suite721_b1
    ELSE [
      (small_suite721_b1) EXCEPT
        ![small_suite721_dst_2010] =
          (small_suite721_b1)[small_suite721_dst_2010] + 1
    ]
  IN
  [
    [
      [
        small_suite721_n_2010 EXCEPT
          !["owner"] =
            [
              small_suite721_n_2010["owner"] EXCEPT
                ![small_suite721_id_2010] = small_suite721_dst_2010
            ]
      ] EXCEPT
        !["bal"] = small_suite721_b2
    ] EXCEPT
      !["appr"] =
        [ small_suite721_n_2010["appr"] EXCEPT ![small_suite721_id_2010] = 0 ]
  ]

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite721_guard(small_suite721_bad_2859, small_suite721_sig_2859, small_suite721_args_2859) ==
  IF small_suite721_bad_2859
  THEN <<[sig |-> small_suite721_sig_2859, args |-> small_suite721_args_2859]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_suite721_N_RECEIVER == "ERC721InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_suite721_N_SENDER == "ERC721InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_suite721_N_TRANSFER ==
  "Transfer(address indexed,address indexed,uint256 indexed)"

(*
  @type: (() => Str);
*)
small_suite721_UPDATED == "MetadataUpdate(uint256)"

(*
  @type: (() => Str);
*)
small_suite721_N_MISSING == "ERC721NonexistentToken(uint256)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Bool);
*)
small_suite721_nMay(small_suite721_n_1904, small_suite721_by_1904, small_suite721_id_1904) ==
  (small_suite721_n_1904["owner"][small_suite721_id_1904]
        = small_suite721_by_1904
      \/ small_suite721_n_1904["oper"][
        <<
          small_suite721_n_1904["owner"][small_suite721_id_1904], small_suite721_by_1904
        >>
      ])
    \/ small_suite721_n_1904["appr"][small_suite721_id_1904]
      = small_suite721_by_1904

(*
  @type: (() => Str);
*)
small_suite721_N_UNAUTH == "ERC721InsufficientApproval(address,uint256)"

(*
  @type: (() => Str);
*)
small_suite721_N_INCORRECT == "ERC721IncorrectOwner(address,uint256,address)"

(*
  @type: (() => Str);
*)
small_suite721_N_APPROVER == "ERC721InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_suite721_N_APPROVAL ==
  "Approval(address indexed,address indexed,uint256 indexed)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Seq({ args: Seq(Seq(Int)), at: Int, sig: Str })) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_suite721_quiet(small_suite721_n_309, small_suite721_evs_309) ==
  [nft |-> small_suite721_n_309, errs |-> <<>>, evs |-> small_suite721_evs_309]

(*
  @type: (() => Str);
*)
small_suite721_REVOKED ==
  "RoleRevoked(bytes32 indexed,address indexed,address indexed)"

(*
  @type: (() => Str);
*)
small_suite721_GRANTED ==
  "RoleGranted(bytes32 indexed,address indexed,address indexed)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Set(Int), Set(Int)) => Bool);
*)
small_suite721_nftOk(small_suite721_n_2612, small_suite721_addrs_2612, small_suite721_ids_2612) ==
  (\A small_suite721_a_2562 \in small_suite721_addrs_2612:
      small_suite721_a_2562 = 0
        \/ small_suite721_n_2612["bal"][small_suite721_a_2562]
          = Cardinality({
            small_suite721_i_2557 \in small_suite721_ids_2612:
              small_suite721_n_2612["owner"][small_suite721_i_2557]
                = small_suite721_a_2562
          }))
    /\ small_suite721_n_2612["bal"][0] = 0
    /\ (\A small_suite721_i_2588 \in small_suite721_ids_2612:
      small_suite721_n_2612["owner"][small_suite721_i_2588] /= 0
        \/ small_suite721_n_2612["appr"][small_suite721_i_2588] = 0)
    /\ (\A small_suite721_a_2609 \in small_suite721_addrs_2612:
      ~(small_suite721_n_2612["oper"][<<small_suite721_a_2609, 0>>])
        /\ ~(small_suite721_n_2612["oper"][<<0, small_suite721_a_2609>>]))

(*
  @type: (() => Set(Int));
*)
small_suite721_ADDRS ==
  small_suite721_USERS
    \union { 0, (small_suite721_SELF), (small_suite721_RECV) }

(*
  @type: (() => Set(Int));
*)
small_suite721_ROLES == { 0, (small_suite721_MINTER) }

(*
  @type: (() => Set(Int));
*)
small_suite721_HOLDERS == small_suite721_USERS \union {0}

(*
  @type: ((Seq(Int), Seq(Int), Int) => Seq(Int));
*)
small_suite721_resolve(small_suite721_b_124, small_suite721_o_124, small_suite721_id_124) ==
  IF small_suite721_b_124 = <<>>
  THEN small_suite721_o_124
  ELSE IF small_suite721_o_124 = <<>>
  THEN small_suite721_b_124 \o small_suite721_decimal(small_suite721_id_124)
  ELSE small_suite721_b_124 \o small_suite721_o_124

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_suite721_nMoved(small_suite721_n_2038, small_suite721_at_2038, small_suite721_dst_2038,
small_suite721_id_2038) ==
  [at |-> small_suite721_at_2038,
    sig |-> small_suite721_N_TRANSFER,
    args |->
      <<
        <<small_suite721_n_2038["owner"][small_suite721_id_2038]>>, <<
          small_suite721_dst_2038
        >>, <<small_suite721_id_2038>>
      >>]

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite721_whenRunning ==
  small_suite721_guard((small_suite721_coll["paused"] = 1), "EnforcedPause()", <<
    
  >>)

(*
  @type: ((Int, Int) => Bool);
*)
small_suite721_holds(small_suite721_r_162, small_suite721_a_162) ==
  small_suite721_coll["has"][<<small_suite721_r_162, small_suite721_a_162>>] = 1

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite721_nConsent(small_suite721_n_2081, small_suite721_by_2081, small_suite721_id_2081) ==
  small_suite721_guard((small_suite721_n_2081["owner"][small_suite721_id_2081]
    = 0), (small_suite721_N_MISSING), <<<<small_suite721_id_2081>>>>)
    \o small_suite721_guard((small_suite721_n_2081["owner"][
        small_suite721_id_2081
      ]
        /= 0
      /\ ~(small_suite721_nMay(small_suite721_n_2081, small_suite721_by_2081, small_suite721_id_2081))),
    (small_suite721_N_UNAUTH), <<
      <<small_suite721_by_2081>>, <<small_suite721_id_2081>>
    >>)

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite721_nFromTo(small_suite721_n_2143, small_suite721_src_2143, small_suite721_dst_2143,
small_suite721_id_2143) ==
  (small_suite721_guard((small_suite721_dst_2143 = 0), (small_suite721_N_RECEIVER),
  <<<<0>>>>)
    \o small_suite721_guard((small_suite721_n_2143["owner"][
      small_suite721_id_2143
    ]
      = 0), (small_suite721_N_MISSING), <<<<small_suite721_id_2143>>>>))
    \o small_suite721_guard((small_suite721_n_2143["owner"][
        small_suite721_id_2143
      ]
        /= 0
      /\ small_suite721_n_2143["owner"][small_suite721_id_2143]
        /= small_suite721_src_2143), (small_suite721_N_INCORRECT), <<
      <<small_suite721_src_2143>>, <<small_suite721_id_2143>>, <<
        small_suite721_n_2143["owner"][small_suite721_id_2143]
      >>
    >>)

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_suite721_nApprove(small_suite721_n_2401, small_suite721_at_2401, small_suite721_by_2401,
small_suite721_to__2401, small_suite721_id_2401) ==
  LET (*
    @type: (() => Int);
  *)
  small_suite721_o == small_suite721_n_2401["owner"][small_suite721_id_2401]
  IN
  [nft |->
      [
        small_suite721_n_2401 EXCEPT
          !["appr"] =
            [
              small_suite721_n_2401["appr"] EXCEPT
                ![small_suite721_id_2401] = small_suite721_to__2401
            ]
      ],
    errs |->
      small_suite721_guard((small_suite721_o = 0), (small_suite721_N_MISSING), <<
        <<small_suite721_id_2401>>
      >>)
        \o small_suite721_guard(((small_suite721_o /= 0
            /\ small_suite721_o /= small_suite721_by_2401)
          /\ ~(small_suite721_n_2401["oper"][
            <<(small_suite721_o), small_suite721_by_2401>>
          ])), (small_suite721_N_APPROVER), <<<<small_suite721_by_2401>>>>),
    evs |->
      <<
        [at |-> small_suite721_at_2401,
          sig |-> small_suite721_N_APPROVAL,
          args |->
            <<
              <<(small_suite721_o)>>, <<small_suite721_to__2401>>, <<
                small_suite721_id_2401
              >>
            >>]
      >>]

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite721_whenHalted ==
  small_suite721_guard((small_suite721_coll["paused"] = 0), "ExpectedPause()", <<
    
  >>)

(*
  @type: (() => Bool);
*)
small_suite721_init ==
  \E small_suite721_b \in small_suite721_STRS:
    \E small_suite721_n \in small_suite721_STRS:
      \E small_suite721_s \in small_suite721_STRS:
        \E small_suite721_a \in small_suite721_USERS:
          small_suite721_nft
              = small_suite721_emptyNft((small_suite721_ADDRS), (small_suite721_IDS))
            /\ small_suite721_frozen = <<>>
            /\ small_suite721_base = small_suite721_b
            /\ small_suite721_name = small_suite721_n
            /\ small_suite721_symbol = small_suite721_s
            /\ small_suite721_coll
              = [has |->
                  [
                    small_suite721_p_1123 \in
                      small_suite721_ROLES \X small_suite721_HOLDERS |->
                      small_suite721_bit((small_suite721_p_1123[2]
                        = small_suite721_a))
                  ],
                dflt |-> small_suite721_NONE,
                own |->
                  [
                    small_suite721___1131 \in small_suite721_IDS |->
                      small_suite721_NONE
                  ],
                uri |->
                  [ small_suite721___1137 \in small_suite721_IDS |-> <<>> ],
                paused |-> 0]
            /\ small_suite721_shown
              = [
                small_suite721_i_1151 \in small_suite721_IDS |->
                  small_suite721_resolve(small_suite721_b, <<>>, small_suite721_i_1151)
              ]
            /\ small_suite721_obs
              = [
                (small_suite721_initObs) EXCEPT
                  !["args"] =
                    <<
                      <<small_suite721_a>>, <<(small_suite721_DENOM)>>, small_suite721_b,
                      small_suite721_n, small_suite721_s
                    >>
              ]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_suite721_nMint(small_suite721_n_2260, small_suite721_at_2260, small_suite721_dst_2260,
small_suite721_id_2260) ==
  [nft |->
      small_suite721_nPut(small_suite721_n_2260, small_suite721_dst_2260, small_suite721_id_2260),
    errs |->
      small_suite721_guard((small_suite721_dst_2260 = 0), (small_suite721_N_RECEIVER),
      <<<<0>>>>)
        \o small_suite721_guard((small_suite721_n_2260["owner"][
          small_suite721_id_2260
        ]
          /= 0), (small_suite721_N_SENDER), <<<<0>>>>),
    evs |->
      <<
        (small_suite721_nMoved(small_suite721_n_2260, small_suite721_at_2260, small_suite721_dst_2260,
        small_suite721_id_2260))
      >>]

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, { dflt: { frac: Int, to_: Int }, has: (<<Int, Int>> -> Int), own: (Int -> { frac: Int, to_: Int }), paused: Int, uri: (Int -> Seq(Int)) }) => Bool);
*)
small_suite721_call(small_suite721_op_294, small_suite721_by_294, small_suite721_args_294,
small_suite721_pre_294, small_suite721_r_294, small_suite721_k_294) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_suite721_errs == small_suite721_pre_294 \o small_suite721_r_294["errs"]
  IN
  LET (*
    @type: (() => { dflt: { frac: Int, to_: Int }, has: (<<Int, Int>> -> Int), own: (Int -> { frac: Int, to_: Int }), paused: Int, uri: (Int -> Seq(Int)) });
  *)
  small_suite721_after ==
    IF small_suite721_errs = <<>>
    THEN small_suite721_k_294
    ELSE small_suite721_coll
  IN
  small_suite721_obs'
      := [op |-> small_suite721_op_294,
        at |-> 0,
        by |-> small_suite721_by_294,
        pay |-> 0,
        args |-> small_suite721_args_294,
        errs |-> small_suite721_errs,
        ret |-> <<>>,
        evs |-> small_suite721_r_294["evs"]]
    /\ small_suite721_nft'
      := (IF small_suite721_errs = <<>>
      THEN small_suite721_r_294["nft"]
      ELSE small_suite721_nft)
    /\ small_suite721_coll' := (small_suite721_after)
    /\ small_suite721_shown'
      := [
        small_suite721_i_256 \in small_suite721_IDS |->
          small_suite721_resolve(small_suite721_base, (small_suite721_after)[
            "uri"
          ][
            small_suite721_i_256
          ], small_suite721_i_256)
      ]
    /\ small_suite721_frozen'
      := (IF (small_suite721_after)["paused"] = small_suite721_coll["paused"]
      THEN small_suite721_frozen
      ELSE IF (small_suite721_after)["paused"] = 1
      THEN <<small_suite721_nft["owner"]>>
      ELSE <<>>)
    /\ small_suite721_base' := small_suite721_base
    /\ small_suite721_name' := small_suite721_name
    /\ small_suite721_symbol' := small_suite721_symbol

(*
  @type: ((Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite721_need(small_suite721_r_181, small_suite721_a_181) ==
  small_suite721_guard(~(small_suite721_holds(small_suite721_r_181, small_suite721_a_181)),
  "AccessControlUnauthorizedAccount(address,bytes32)", <<
    <<small_suite721_a_181>>, <<small_suite721_r_181>>
  >>)

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_suite721_nBurn(small_suite721_n_2289, small_suite721_at_2289, small_suite721_by_2289,
small_suite721_id_2289) ==
  [nft |-> small_suite721_nPut(small_suite721_n_2289, 0, small_suite721_id_2289),
    errs |->
      small_suite721_nConsent(small_suite721_n_2289, small_suite721_by_2289, small_suite721_id_2289),
    evs |->
      <<
        (small_suite721_nMoved(small_suite721_n_2289, small_suite721_at_2289, 0,
        small_suite721_id_2289))
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_suite721_nTransferFrom(small_suite721_n_2182, small_suite721_at_2182, small_suite721_by_2182,
small_suite721_src_2182, small_suite721_dst_2182, small_suite721_id_2182) ==
  [nft |->
      small_suite721_nPut(small_suite721_n_2182, small_suite721_dst_2182, small_suite721_id_2182),
    errs |->
      small_suite721_nConsent(small_suite721_n_2182, small_suite721_by_2182, small_suite721_id_2182)
        \o small_suite721_nFromTo(small_suite721_n_2182, small_suite721_src_2182,
        small_suite721_dst_2182, small_suite721_id_2182),
    evs |->
      <<
        (small_suite721_nMoved(small_suite721_n_2182, small_suite721_at_2182, small_suite721_dst_2182,
        small_suite721_id_2182))
      >>]

(*
  @type: ((Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_suite721_taken(small_suite721_by_1009, small_suite721_r_1009, small_suite721_a_1009) ==
  small_suite721_quiet(small_suite721_nft, (IF small_suite721_holds(small_suite721_r_1009,
  small_suite721_a_1009)
  THEN <<
    [at |-> 0,
      sig |-> small_suite721_REVOKED,
      args |->
        <<
          <<small_suite721_r_1009>>, <<small_suite721_a_1009>>, <<
            small_suite721_by_1009
          >>
        >>]
  >>
  ELSE <<>>))

(*
  @type: (() => Bool);
*)
small_suite721_safety ==
  small_suite721_nftOk(small_suite721_nft, (small_suite721_ADDRS), (small_suite721_IDS))
    /\ (small_suite721_coll["paused"] = 0
      \/ small_suite721_nft["owner"] = small_suite721_frozen[(0 + 1)])
    /\ (small_suite721_coll["dflt"]["frac"] <= small_suite721_DENOM
      /\ (\A small_suite721_i_1661 \in small_suite721_IDS:
        small_suite721_coll["own"][small_suite721_i_1661]["frac"]
          <= small_suite721_DENOM))
    /\ (\A small_suite721_i_1678 \in small_suite721_IDS:
      small_suite721_shown[small_suite721_i_1678]
        = small_suite721_resolve(small_suite721_base, small_suite721_coll["uri"][
          small_suite721_i_1678
        ], small_suite721_i_1678))
    /\ (small_suite721_obs["op"] = "burn(uint256)()"
      /\ small_suite721_obs["errs"] = <<>>
      => small_suite721_coll["own"][
        small_suite721_obs["args"][(0 + 1)][(0 + 1)]
      ]
        = small_suite721_NONE)

(*
  @type: (() => Bool);
*)
q_init == small_suite721_init

(*
  @type: ((Int, Int, Int, Seq(Int)) => Bool);
*)
small_suite721_mint(small_suite721_by_449, small_suite721_dst_449, small_suite721_id_449,
small_suite721_u_449) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_suite721_r ==
    small_suite721_nMint(small_suite721_nft, 0, small_suite721_dst_449, small_suite721_id_449)
  IN
  small_suite721_call("mint(address,uint256,string)()", small_suite721_by_449, <<
    <<small_suite721_dst_449>>, <<small_suite721_id_449>>, small_suite721_u_449
  >>, (small_suite721_whenRunning
    \o small_suite721_need((small_suite721_MINTER), small_suite721_by_449)), [
    (small_suite721_r) EXCEPT
      !["evs"] =
        Append((small_suite721_r)["evs"], [at |-> 0,
          sig |-> small_suite721_UPDATED,
          args |-> <<<<small_suite721_id_449>>>>])
  ], [
    small_suite721_coll EXCEPT
      !["uri"] =
        [
          small_suite721_coll["uri"] EXCEPT
            ![small_suite721_id_449] = small_suite721_u_449
        ]
  ])

(*
  @type: ((Int, Int) => Bool);
*)
small_suite721_burn(small_suite721_by_522, small_suite721_id_522) ==
  small_suite721_call("burn(uint256)()", small_suite721_by_522, <<
    <<small_suite721_id_522>>
  >>, (small_suite721_whenRunning), (small_suite721_nBurn(small_suite721_nft, 0,
  small_suite721_by_522, small_suite721_id_522)), [
    small_suite721_coll EXCEPT
      !["own"] =
        [
          small_suite721_coll["own"] EXCEPT
            ![small_suite721_id_522] = small_suite721_NONE
        ]
  ])

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_suite721_transferFrom(small_suite721_by_552, small_suite721_src_552, small_suite721_dst_552,
small_suite721_id_552) ==
  small_suite721_call("transferFrom(address,address,uint256)()", small_suite721_by_552,
  <<
    <<small_suite721_src_552>>, <<small_suite721_dst_552>>, <<
      small_suite721_id_552
    >>
  >>, (small_suite721_whenRunning), (small_suite721_nTransferFrom(small_suite721_nft,
  0, small_suite721_by_552, small_suite721_src_552, small_suite721_dst_552, small_suite721_id_552)),
  small_suite721_coll)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite721_approve(small_suite721_by_667, small_suite721_t_667, small_suite721_id_667) ==
  small_suite721_call("approve(address,uint256)()", small_suite721_by_667, <<
    <<small_suite721_t_667>>, <<small_suite721_id_667>>
  >>, <<>>, (small_suite721_nApprove(small_suite721_nft, 0, small_suite721_by_667,
  small_suite721_t_667, small_suite721_id_667)), small_suite721_coll)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_suite721_setToken(small_suite721_by_867, small_suite721_id_867, small_suite721_t_867,
small_suite721_f_867) ==
  small_suite721_call("setTokenRoyalty(uint256,address,uint96)()", small_suite721_by_867,
  <<
    <<small_suite721_id_867>>, <<small_suite721_t_867>>, <<
      small_suite721_f_867
    >>
  >>, ((small_suite721_need(0, small_suite721_by_867)
    \o small_suite721_guard((small_suite721_f_867 > small_suite721_DENOM), "ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)",
    <<
      <<small_suite721_id_867>>, <<small_suite721_f_867>>, <<
        (small_suite721_DENOM)
      >>
    >>))
    \o small_suite721_guard((small_suite721_t_867 = 0), "ERC2981InvalidTokenRoyaltyReceiver(uint256,address)",
    <<<<small_suite721_id_867>>, <<0>>>>)), (small_suite721_quiet(small_suite721_nft,
  <<>>)), [
    small_suite721_coll EXCEPT
      !["own"] =
        [
          small_suite721_coll["own"] EXCEPT
            ![small_suite721_id_867] =
              [to_ |-> small_suite721_t_867, frac |-> small_suite721_f_867]
        ]
  ])

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite721_setDefault(small_suite721_by_784, small_suite721_t_784, small_suite721_f_784) ==
  small_suite721_call("setDefaultRoyalty(address,uint96)()", small_suite721_by_784,
  <<<<small_suite721_t_784>>, <<small_suite721_f_784>>>>, ((small_suite721_need(0,
  small_suite721_by_784)
    \o small_suite721_guard((small_suite721_f_784 > small_suite721_DENOM), "ERC2981InvalidDefaultRoyalty(uint256,uint256)",
    <<<<small_suite721_f_784>>, <<(small_suite721_DENOM)>>>>))
    \o small_suite721_guard((small_suite721_t_784 = 0), "ERC2981InvalidDefaultRoyaltyReceiver(address)",
    <<<<0>>>>)), (small_suite721_quiet(small_suite721_nft, <<>>)), [
    small_suite721_coll EXCEPT
      !["dflt"] = [to_ |-> small_suite721_t_784, frac |-> small_suite721_f_784]
  ])

(*
  @type: ((Int) => Bool);
*)
small_suite721_pause(small_suite721_by_897) ==
  small_suite721_call("pause()()", small_suite721_by_897, <<>>, (small_suite721_need(0,
  small_suite721_by_897)
    \o small_suite721_whenRunning), (small_suite721_quiet(small_suite721_nft, <<
    [at |-> 0,
      sig |-> "Paused(address)",
      args |-> <<<<small_suite721_by_897>>>>]
  >>)), [ small_suite721_coll EXCEPT !["paused"] = 1 ])

(*
  @type: ((Int) => Bool);
*)
small_suite721_unpause(small_suite721_by_927) ==
  small_suite721_call("unpause()()", small_suite721_by_927, <<>>, (small_suite721_need(0,
  small_suite721_by_927)
    \o small_suite721_whenHalted), (small_suite721_quiet(small_suite721_nft, <<
    [at |-> 0,
      sig |-> "Unpaused(address)",
      args |-> <<<<small_suite721_by_927>>>>]
  >>)), [ small_suite721_coll EXCEPT !["paused"] = 0 ])

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite721_revokeRole(small_suite721_by_1044, small_suite721_r_1044, small_suite721_a_1044) ==
  small_suite721_call("revokeRole(bytes32,address)()", small_suite721_by_1044, <<
    <<small_suite721_r_1044>>, <<small_suite721_a_1044>>
  >>, (small_suite721_need(0, small_suite721_by_1044)), (small_suite721_taken(small_suite721_by_1044,
  small_suite721_r_1044, small_suite721_a_1044)), [
    small_suite721_coll EXCEPT
      !["has"] =
        [
          small_suite721_coll["has"] EXCEPT
            ![<<small_suite721_r_1044, small_suite721_a_1044>>] = 0
        ]
  ])

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_suite721_grantRole(small_suite721_by_979, small_suite721_r_979, small_suite721_a_979) ==
  small_suite721_call("grantRole(bytes32,address)()", small_suite721_by_979, <<
    <<small_suite721_r_979>>, <<small_suite721_a_979>>
  >>, (small_suite721_need(0, small_suite721_by_979)), (small_suite721_quiet(small_suite721_nft,
  (IF small_suite721_holds(small_suite721_r_979, small_suite721_a_979)
  THEN <<>>
  ELSE <<
    [at |-> 0,
      sig |-> small_suite721_GRANTED,
      args |->
        <<
          <<small_suite721_r_979>>, <<small_suite721_a_979>>, <<
            small_suite721_by_979
          >>
        >>]
  >>))), [
    small_suite721_coll EXCEPT
      !["has"] =
        [
          small_suite721_coll["has"] EXCEPT
            ![<<small_suite721_r_979, small_suite721_a_979>>] = 1
        ]
  ])

(*
  @type: (() => Bool);
*)
q_inv == small_suite721_safety

(*
  @type: (() => Bool);
*)
small_suite721_stepAll ==
  \E small_suite721_by \in small_suite721_USERS:
    \E small_suite721_x \in small_suite721_USERS:
      \E small_suite721_id \in small_suite721_IDS:
        small_suite721_mint(small_suite721_by, small_suite721_x, small_suite721_id,
          <<97>>)
          \/ small_suite721_burn(small_suite721_by, small_suite721_id)
          \/ small_suite721_transferFrom(small_suite721_by, small_suite721_nft[
            "owner"
          ][
            small_suite721_id
          ], small_suite721_x, small_suite721_id)
          \/ small_suite721_approve(small_suite721_by, small_suite721_x, small_suite721_id)
          \/ small_suite721_setToken(small_suite721_by, small_suite721_id, small_suite721_x,
          1)
          \/ small_suite721_setDefault(small_suite721_by, small_suite721_x, 2)
          \/ small_suite721_pause(small_suite721_by)
          \/ small_suite721_unpause(small_suite721_by)
          \/ (\E small_suite721_r \in small_suite721_ROLES:
            small_suite721_revokeRole(small_suite721_by, small_suite721_r, small_suite721_x)
              \/ small_suite721_grantRole(small_suite721_by, small_suite721_r, small_suite721_x))

(*
  @type: (() => Bool);
*)
q_step == small_suite721_stepAll


View == <<small_suite721_nft, small_suite721_frozen, small_suite721_base, small_suite721_name, small_suite721_symbol, small_suite721_coll, small_suite721_shown>>

==============================================================================
