\* generated by tools/export_tla.py from suite1155.qnt 3fe59b84baf0da3a7a5ae285c4e87c49f0b3268214c9f06ee05a98b40de09d4a
--------------------------------- MODULE suite1155_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Seq(Int)));
*)
small_suite1155_STRS == {<<>>}

(*
  @type: (() => Set(Int));
*)
small_suite1155_USERS == { 1, 2 }

VARIABLE
  (*
    @type: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int };
  *)
  small_suite1155_ml

(*
  @type: ((Set(Int), Set(Int)) => { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int });
*)
small_suite1155_emptyMulti(small_suite1155_addrs_2157, small_suite1155_ids_2157) ==
  [bal |->
      [
        small_suite1155___2137 \in
          small_suite1155_ids_2157 \X small_suite1155_addrs_2157 |->
          0
      ],
    oper |->
      [
        small_suite1155___2145 \in
          small_suite1155_addrs_2157 \X small_suite1155_addrs_2157 |->
          FALSE
      ],
    sup |-> [ small_suite1155___2151 \in small_suite1155_ids_2157 |-> 0 ],
    total |-> 0]

(*
  @type: (() => Int);
*)
small_suite1155_SELF == 100

(*
  @type: (() => Int);
*)
small_suite1155_RECV == 101

(*
  @type: (() => Set(Int));
*)
small_suite1155_IDS == { 1, 2 }

VARIABLE
  (*
    @type: Seq((<<Int, Int>> -> Int));
  *)
  small_suite1155_frozen

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_suite1155_common

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  small_suite1155_shown

VARIABLE
  (*
    @type: { base: Seq(Int), dflt: { frac: Int, to_: Int }, own: (Int -> { frac: Int, to_: Int }), owner: Int, paused: Int, pending: Int, uri: (Int -> Seq(Int)) };
  *)
  small_suite1155_kit

(*
  @type: (() => { frac: Int, to_: Int });
*)
small_suite1155_NONE == [to_ |-> 0, frac |-> 0]

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_suite1155_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_suite1155_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_suite1155_DENOM == 2

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int)) => Seq(Int));
*)
small_suite1155_resolve(small_suite1155_c_111, small_suite1155_b_111, small_suite1155_o_111) ==
  IF small_suite1155_o_111 = <<>>
  THEN small_suite1155_c_111
  ELSE small_suite1155_b_111 \o small_suite1155_o_111

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_guard(small_suite1155_bad_2832, small_suite1155_sig_2832, small_suite1155_args_2832) ==
  IF small_suite1155_bad_2832
  THEN <<
    [sig |-> small_suite1155_sig_2832, args |-> small_suite1155_args_2832]
  >>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_suite1155_E_OWNER == "OwnableUnauthorizedAccount(address)"

(*
  @type: (() => Str);
*)
small_suite1155_M_RECEIVER == "ERC1155InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_suite1155_ON_SINGLE ==
  "onERC1155Received(address,address,uint256,uint256,bytes)"

(*
  @type: (() => Str);
*)
small_suite1155_ON_BATCH ==
  "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)"

(*
  @type: (() => Str);
*)
small_suite1155_M_LENGTH == "ERC1155InvalidArrayLength(uint256,uint256)"

(*
  @type: (() => Str);
*)
small_suite1155_M_BALANCE ==
  "ERC1155InsufficientBalance(address,uint256,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_suite1155_M_SINGLE ==
  "TransferSingle(address indexed,address indexed,address indexed,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_suite1155_M_BATCH ==
  "TransferBatch(address indexed,address indexed,address indexed,uint256[],uint256[])"

(*
  @type: (() => Int);
*)
small_suite1155_UMAX == 2

(*
  @type: (() => Str);
*)
small_suite1155_M_UNAUTH == "ERC1155MissingApprovalForAll(address,address)"

(*
  @type: (() => Str);
*)
small_suite1155_M_SENDER == "ERC1155InvalidSender(address)"

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Seq({ args: Seq(Seq(Int)), at: Int, sig: Str })) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_suite1155_still(small_suite1155_m_164, small_suite1155_evs_164) ==
  [m |-> small_suite1155_m_164, errs |-> <<>>, evs |-> small_suite1155_evs_164]

(*
  @type: (() => Str);
*)
small_suite1155_STARTED ==
  "OwnershipTransferStarted(address indexed,address indexed)"

(*
  @type: (() => Str);
*)
small_suite1155_MOVED == "OwnershipTransferred(address indexed,address indexed)"

(*
  @type: ((Bool) => Int);
*)
small_suite1155_bit(small_suite1155_b_2841) ==
  IF small_suite1155_b_2841 THEN 1 ELSE 0

(*
  @type: (() => Str);
*)
small_suite1155_M_OPERATOR == "ERC1155InvalidOperator(address)"

(*
  @type: (() => Str);
*)
small_suite1155_M_FORALL ==
  "ApprovalForAll(address indexed,address indexed,bool)"

(*
  @type: (() => Set(Int));
*)
small_suite1155_ADDRS ==
  small_suite1155_USERS
    \union { 0, (small_suite1155_SELF), (small_suite1155_RECV) }

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }, { base: Seq(Int), dflt: { frac: Int, to_: Int }, own: (Int -> { frac: Int, to_: Int }), owner: Int, paused: Int, pending: Int, uri: (Int -> Seq(Int)) }) => Bool);
*)
small_suite1155_call(small_suite1155_op_277, small_suite1155_by_277, small_suite1155_args_277,
small_suite1155_ret_277, small_suite1155_pre_277, small_suite1155_r_277, small_suite1155_k_277) ==
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_suite1155_errs ==
    small_suite1155_pre_277 \o small_suite1155_r_277["errs"]
  IN
  LET (*
    @type: (() => { base: Seq(Int), dflt: { frac: Int, to_: Int }, own: (Int -> { frac: Int, to_: Int }), owner: Int, paused: Int, pending: Int, uri: (Int -> Seq(Int)) });
  *)
  small_suite1155_after ==
    IF small_suite1155_errs = <<>>
    THEN small_suite1155_k_277
    ELSE small_suite1155_kit
  IN
  small_suite1155_obs'
      := [op |-> small_suite1155_op_277,
        at |-> 0,
        by |-> small_suite1155_by_277,
        pay |-> 0,
        args |-> small_suite1155_args_277,
        errs |-> small_suite1155_errs,
        ret |-> small_suite1155_ret_277,
        evs |-> small_suite1155_r_277["evs"]]
    /\ small_suite1155_ml'
      := (IF small_suite1155_errs = <<>>
      THEN small_suite1155_r_277["m"]
      ELSE small_suite1155_ml)
    /\ small_suite1155_kit' := (small_suite1155_after)
    /\ small_suite1155_shown'
      := [
        small_suite1155_i_245 \in small_suite1155_IDS |->
          small_suite1155_resolve(small_suite1155_common, (small_suite1155_after)[
            "base"
          ], (small_suite1155_after)["uri"][small_suite1155_i_245])
      ]
    /\ small_suite1155_frozen'
      := (IF (small_suite1155_after)["paused"] = small_suite1155_kit["paused"]
      THEN small_suite1155_frozen
      ELSE IF (small_suite1155_after)["paused"] = 1
      THEN <<small_suite1155_ml["bal"]>>
      ELSE <<>>)
    /\ small_suite1155_common' := small_suite1155_common

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_whenRunning ==
  small_suite1155_guard((small_suite1155_kit["paused"] = 1), "EnforcedPause()", <<
    
  >>)

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_byOwner(small_suite1155_by_149) ==
  small_suite1155_guard((small_suite1155_by_149 /= small_suite1155_kit["owner"]),
  (small_suite1155_E_OWNER), <<<<small_suite1155_by_149>>>>)

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }, Int, Int, Int, Seq(Int), Seq(Int), Seq(Int), Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_suite1155_accepted(small_suite1155_r_396, small_suite1155_by_396, small_suite1155_src_396,
small_suite1155_dst_396, small_suite1155_ids_396, small_suite1155_vals_396, small_suite1155_data_396,
small_suite1155_ans_396) ==
  IF small_suite1155_r_396["errs"] /= <<>> \/ small_suite1155_dst_396 = 0
  THEN small_suite1155_r_396
  ELSE IF small_suite1155_dst_396 = small_suite1155_SELF
  THEN [
    small_suite1155_r_396 EXCEPT
      !["errs"] =
        <<
          [sig |-> small_suite1155_M_RECEIVER,
            args |-> <<<<(small_suite1155_SELF)>>>>]
        >>
  ]
  ELSE IF small_suite1155_dst_396 = small_suite1155_RECV
  THEN LET (*
    @type: (() => { args: Seq(Seq(Int)), at: Int, sig: Str });
  *)
  small_suite1155_told ==
    IF Len(small_suite1155_ids_396) = 1
    THEN [at |-> 1,
      sig |-> small_suite1155_ON_SINGLE,
      args |->
        <<
          <<small_suite1155_by_396>>, <<small_suite1155_src_396>>, <<
            small_suite1155_ids_396[(0 + 1)]
          >>, <<small_suite1155_vals_396[(0 + 1)]>>, small_suite1155_data_396
        >>]
    ELSE [at |-> 1,
      sig |-> small_suite1155_ON_BATCH,
      args |->
        <<
          <<small_suite1155_by_396>>, <<small_suite1155_src_396>>, small_suite1155_ids_396,
          small_suite1155_vals_396, small_suite1155_data_396
        >>]
  IN
  [m |-> small_suite1155_r_396["m"],
    errs |->
      IF small_suite1155_ans_396 = 0
      THEN <<>>
      ELSE <<
        [sig |-> small_suite1155_M_RECEIVER,
          args |-> <<<<(small_suite1155_RECV)>>>>]
      >>,
    evs |-> Append(small_suite1155_r_396["evs"], (small_suite1155_told))]
  ELSE small_suite1155_r_396

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }, Int, Bool, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_suite1155_mOne(small_suite1155_r_2356, small_suite1155_umax_2356, small_suite1155_counted_2356,
small_suite1155_src_2356, small_suite1155_dst_2356, small_suite1155_id_2356, small_suite1155_v_2356) ==
  IF small_suite1155_r_2356["errs"] /= <<>>
  THEN small_suite1155_r_2356
  ELSE LET (*
    @type: (() => Int);
  *)
  small_suite1155_have ==
    small_suite1155_r_2356["m"]["bal"][
      <<small_suite1155_id_2356, small_suite1155_src_2356>>
    ]
  IN
  LET (*
    @type: (() => (<<Int, Int>> -> Int));
  *)
  small_suite1155_b1 ==
    IF small_suite1155_src_2356 = 0
    THEN small_suite1155_r_2356["m"]["bal"]
    ELSE [
      small_suite1155_r_2356["m"]["bal"] EXCEPT
        ![<<small_suite1155_id_2356, small_suite1155_src_2356>>] =
          small_suite1155_have - small_suite1155_v_2356
    ]
  IN
  LET (*
    @type: (() => (<<Int, Int>> -> Int));
  *)
  small_suite1155_b2 ==
    IF small_suite1155_dst_2356 = 0
    THEN small_suite1155_b1
    ELSE [
      (small_suite1155_b1) EXCEPT
        ![<<small_suite1155_id_2356, small_suite1155_dst_2356>>] =
          (small_suite1155_b1)[
            <<small_suite1155_id_2356, small_suite1155_dst_2356>>
          ]
            + small_suite1155_v_2356
    ]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_suite1155_ds ==
    (IF small_suite1155_src_2356 = 0 THEN small_suite1155_v_2356 ELSE 0)
      - (IF small_suite1155_dst_2356 = 0 THEN small_suite1155_v_2356 ELSE 0)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_suite1155_short ==
    small_suite1155_src_2356 /= 0
      /\ small_suite1155_have < small_suite1155_v_2356
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_suite1155_over ==
    (small_suite1155_dst_2356 /= 0
        /\ (small_suite1155_b1)[
          <<small_suite1155_id_2356, small_suite1155_dst_2356>>
        ]
          + small_suite1155_v_2356
          > small_suite1155_umax_2356)
      \/ (small_suite1155_counted_2356
        /\ small_suite1155_r_2356["m"]["sup"][small_suite1155_id_2356]
          + small_suite1155_ds
          > small_suite1155_umax_2356)
      \/ (small_suite1155_counted_2356
        /\ small_suite1155_r_2356["m"]["total"] + small_suite1155_ds
          > small_suite1155_umax_2356)
  IN
  [
    [
      small_suite1155_r_2356 EXCEPT
        !["m"] =
          [
            [
              [
                small_suite1155_r_2356["m"] EXCEPT
                  !["bal"] = small_suite1155_b2
              ] EXCEPT
                !["sup"] =
                  [
                    small_suite1155_r_2356["m"]["sup"] EXCEPT
                      ![small_suite1155_id_2356] =
                        small_suite1155_r_2356["m"]["sup"][
                          small_suite1155_id_2356
                        ]
                          + small_suite1155_ds
                  ]
            ] EXCEPT
              !["total"] =
                small_suite1155_r_2356["m"]["total"] + small_suite1155_ds
          ]
    ] EXCEPT
      !["errs"] =
        small_suite1155_guard((small_suite1155_short), (small_suite1155_M_BALANCE),
        <<
          <<small_suite1155_src_2356>>, <<(small_suite1155_have)>>, <<
            small_suite1155_v_2356
          >>, <<small_suite1155_id_2356>>
        >>)
          \o small_suite1155_guard((~small_suite1155_short
            /\ small_suite1155_over), "#empty", <<>>)
  ]

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_mConsent(small_suite1155_m_2507, small_suite1155_by_2507, small_suite1155_src_2507) ==
  small_suite1155_guard((small_suite1155_by_2507 /= small_suite1155_src_2507
    /\ ~(small_suite1155_m_2507["oper"][
      <<small_suite1155_src_2507, small_suite1155_by_2507>>
    ])), (small_suite1155_M_UNAUTH), <<
    <<small_suite1155_by_2507>>, <<small_suite1155_src_2507>>
  >>)

(*
  @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_whenHalted ==
  small_suite1155_guard((small_suite1155_kit["paused"] = 0), "ExpectedPause()", <<
    
  >>)

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Int, Int, Bool) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_suite1155_mSetAll(small_suite1155_m_2585, small_suite1155_by_2585, small_suite1155_op_2585,
small_suite1155_on_2585) ==
  [m |->
      [
        small_suite1155_m_2585 EXCEPT
          !["oper"] =
            [
              small_suite1155_m_2585["oper"] EXCEPT
                ![<<small_suite1155_by_2585, small_suite1155_op_2585>>] =
                  small_suite1155_on_2585
            ]
      ],
    errs |->
      small_suite1155_guard((small_suite1155_op_2585 = 0), (small_suite1155_M_OPERATOR),
      <<<<0>>>>),
    evs |->
      <<
        [at |-> 0,
          sig |-> small_suite1155_M_FORALL,
          args |->
            <<
              <<small_suite1155_by_2585>>, <<small_suite1155_op_2585>>, <<
                (small_suite1155_bit(small_suite1155_on_2585))
              >>
            >>]
      >>]

(*
  @type: (() => Int);
*)
small_suite1155_totalOfSupplies ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA2(small_suite1155_a_1886, small_suite1155_i_1886) ==
    small_suite1155_a_1886 + small_suite1155_ml["sup"][small_suite1155_i_1886]
  IN
  ApaFoldSet(__QUINT_LAMBDA2, 0, (small_suite1155_IDS))

(*
  @type: (() => Bool);
*)
small_suite1155_init ==
  \E small_suite1155_c \in small_suite1155_STRS:
    \E small_suite1155_o \in small_suite1155_USERS:
      small_suite1155_ml
          = small_suite1155_emptyMulti((small_suite1155_ADDRS), (small_suite1155_IDS))
        /\ small_suite1155_frozen = <<>>
        /\ small_suite1155_common = small_suite1155_c
        /\ small_suite1155_shown
          = [
            small_suite1155___1260 \in small_suite1155_IDS |->
              small_suite1155_c
          ]
        /\ small_suite1155_kit
          = [paused |-> 0,
            owner |-> small_suite1155_o,
            pending |-> 0,
            dflt |-> small_suite1155_NONE,
            own |->
              [
                small_suite1155___1275 \in small_suite1155_IDS |->
                  small_suite1155_NONE
              ],
            base |-> <<>>,
            uri |-> [ small_suite1155___1283 \in small_suite1155_IDS |-> <<>> ]]
        /\ small_suite1155_obs
          = [
            (small_suite1155_initObs) EXCEPT
              !["args"] =
                <<
                  <<small_suite1155_o>>, <<(small_suite1155_DENOM)>>, small_suite1155_c
                >>
          ]

(*
  @type: ((Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_mintPre(small_suite1155_by_454, small_suite1155_dst_454) ==
  (small_suite1155_whenRunning
    \o small_suite1155_byOwner(small_suite1155_by_454))
    \o small_suite1155_guard((small_suite1155_dst_454 = 0), (small_suite1155_M_RECEIVER),
    <<<<0>>>>)

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Int, Bool, Int, Int, Int, Seq(Int), Seq(Int)) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_suite1155_mMove(small_suite1155_m_2478, small_suite1155_umax_2478, small_suite1155_counted_2478,
small_suite1155_by_2478, small_suite1155_src_2478, small_suite1155_dst_2478, small_suite1155_ids_2478,
small_suite1155_vals_2478) ==
  IF Len(small_suite1155_ids_2478) /= Len(small_suite1155_vals_2478)
  THEN [m |-> small_suite1155_m_2478,
    errs |->
      <<
        [sig |-> small_suite1155_M_LENGTH,
          args |->
            <<
              <<(Len(small_suite1155_ids_2478))>>, <<
                (Len(small_suite1155_vals_2478))
              >>
            >>]
      >>,
    evs |-> <<>>]
  ELSE LET (*
    @type: (() => Int);
  *)
  small_suite1155_r == Len(small_suite1155_ids_2478)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
  *)
  small_suite1155_moved ==
    LET (*
      @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
    *)
    __QUINT_LAMBDA1(small_suite1155_a_2427, small_suite1155_i_2427) ==
      small_suite1155_mOne(small_suite1155_a_2427, small_suite1155_umax_2478, small_suite1155_counted_2478,
      small_suite1155_src_2478, small_suite1155_dst_2478, small_suite1155_ids_2478[
        (small_suite1155_i_2427 + 1)
      ], small_suite1155_vals_2478[(small_suite1155_i_2427 + 1)])
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, [m |-> small_suite1155_m_2478,
      errs |-> <<>>,
      evs |-> <<>>], (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((small_suite1155_r - 0), __QUINT_LAMBDA0)))
  IN
  [
    (small_suite1155_moved) EXCEPT
      !["evs"] =
        IF small_suite1155_r = 1
        THEN <<
          [at |-> 0,
            sig |-> small_suite1155_M_SINGLE,
            args |->
              <<
                <<small_suite1155_by_2478>>, <<small_suite1155_src_2478>>, <<
                  small_suite1155_dst_2478
                >>, <<small_suite1155_ids_2478[(0 + 1)]>>, <<
                  small_suite1155_vals_2478[(0 + 1)]
                >>
              >>]
        >>
        ELSE <<
          [at |-> 0,
            sig |-> small_suite1155_M_BATCH,
            args |->
              <<
                <<small_suite1155_by_2478>>, <<small_suite1155_src_2478>>, <<
                  small_suite1155_dst_2478
                >>, small_suite1155_ids_2478, small_suite1155_vals_2478
              >>]
        >>
  ]

(*
  @type: ((Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_burnPre(small_suite1155_by_477, small_suite1155_src_477) ==
  (small_suite1155_whenRunning
    \o small_suite1155_mConsent(small_suite1155_ml, small_suite1155_by_477, small_suite1155_src_477))
    \o small_suite1155_guard((small_suite1155_src_477 = 0), (small_suite1155_M_SENDER),
    <<<<0>>>>)

(*
  @type: ((Int) => Bool);
*)
small_suite1155_pause(small_suite1155_by_1028) ==
  small_suite1155_call("pause()()", small_suite1155_by_1028, <<>>, <<>>, (small_suite1155_byOwner(small_suite1155_by_1028)
    \o small_suite1155_whenRunning), (small_suite1155_still(small_suite1155_ml, <<
    [at |-> 0,
      sig |-> "Paused(address)",
      args |-> <<<<small_suite1155_by_1028>>>>]
  >>)), [ small_suite1155_kit EXCEPT !["paused"] = 1 ])

(*
  @type: ((Int) => Bool);
*)
small_suite1155_unpause(small_suite1155_by_1058) ==
  small_suite1155_call("unpause()()", small_suite1155_by_1058, <<>>, <<>>, (small_suite1155_byOwner(small_suite1155_by_1058)
    \o small_suite1155_whenHalted), (small_suite1155_still(small_suite1155_ml, <<
    [at |-> 0,
      sig |-> "Unpaused(address)",
      args |-> <<<<small_suite1155_by_1058>>>>]
  >>)), [ small_suite1155_kit EXCEPT !["paused"] = 0 ])

(*
  @type: ((Int, Int) => Bool);
*)
small_suite1155_nominate(small_suite1155_by_1094, small_suite1155_t_1094) ==
  small_suite1155_call("transferOwnership(address)()", small_suite1155_by_1094, <<
    <<small_suite1155_t_1094>>
  >>, <<>>, (small_suite1155_byOwner(small_suite1155_by_1094)), (small_suite1155_still(small_suite1155_ml,
  <<
    [at |-> 0,
      sig |-> small_suite1155_STARTED,
      args |-> <<<<small_suite1155_kit["owner"]>>, <<small_suite1155_t_1094>>>>]
  >>)), [ small_suite1155_kit EXCEPT !["pending"] = small_suite1155_t_1094 ])

(*
  @type: ((Int) => Bool);
*)
small_suite1155_accept(small_suite1155_by_1137) ==
  small_suite1155_call("acceptOwnership()()", small_suite1155_by_1137, <<>>, <<
    
  >>, (small_suite1155_guard((small_suite1155_by_1137
    /= small_suite1155_kit["pending"]), (small_suite1155_E_OWNER), <<
    <<small_suite1155_by_1137>>
  >>)), (small_suite1155_still(small_suite1155_ml, <<
    [at |-> 0,
      sig |-> small_suite1155_MOVED,
      args |-> <<<<small_suite1155_kit["owner"]>>, <<small_suite1155_by_1137>>>>]
  >>)), [
    [ small_suite1155_kit EXCEPT !["owner"] = small_suite1155_by_1137 ] EXCEPT
      !["pending"] = 0
  ])

(*
  @type: ((Int, Int, Bool) => Bool);
*)
small_suite1155_setAll(small_suite1155_by_787, small_suite1155_op_787, small_suite1155_on_787) ==
  small_suite1155_call("setApprovalForAll(address,bool)()", small_suite1155_by_787,
  <<
    <<small_suite1155_op_787>>, <<
      (small_suite1155_bit(small_suite1155_on_787))
    >>
  >>, <<>>, <<>>, (small_suite1155_mSetAll(small_suite1155_ml, small_suite1155_by_787,
  small_suite1155_op_787, small_suite1155_on_787)), small_suite1155_kit)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_suite1155_setToken(small_suite1155_by_970, small_suite1155_id_970, small_suite1155_t_970,
small_suite1155_f_970) ==
  small_suite1155_call("setTokenRoyalty(uint256,address,uint96)()", small_suite1155_by_970,
  <<
    <<small_suite1155_id_970>>, <<small_suite1155_t_970>>, <<
      small_suite1155_f_970
    >>
  >>, <<>>, ((small_suite1155_byOwner(small_suite1155_by_970)
    \o small_suite1155_guard((small_suite1155_f_970 > small_suite1155_DENOM), "ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)",
    <<
      <<small_suite1155_id_970>>, <<small_suite1155_f_970>>, <<
        (small_suite1155_DENOM)
      >>
    >>))
    \o small_suite1155_guard((small_suite1155_t_970 = 0), "ERC2981InvalidTokenRoyaltyReceiver(uint256,address)",
    <<<<small_suite1155_id_970>>, <<0>>>>)), (small_suite1155_still(small_suite1155_ml,
  <<>>)), [
    small_suite1155_kit EXCEPT
      !["own"] =
        [
          small_suite1155_kit["own"] EXCEPT
            ![small_suite1155_id_970] =
              [to_ |-> small_suite1155_t_970, frac |-> small_suite1155_f_970]
        ]
  ])

(*
  @type: (() => Bool);
*)
small_suite1155_safety ==
  (\A small_suite1155_i_1912 \in small_suite1155_IDS:
      small_suite1155_ml["sup"][small_suite1155_i_1912]
        = LET (*
          @type: ((Int, Int) => Int);
        *)
        __QUINT_LAMBDA3(small_suite1155_a_1909, small_suite1155_x_1909) ==
          small_suite1155_a_1909
            + small_suite1155_ml["bal"][
              <<small_suite1155_i_1912, small_suite1155_x_1909>>
            ]
        IN
        ApaFoldSet(__QUINT_LAMBDA3, 0, (small_suite1155_ADDRS)))
    /\ small_suite1155_ml["total"] = small_suite1155_totalOfSupplies
    /\ small_suite1155_ml["total"] <= small_suite1155_UMAX
    /\ (\A small_suite1155_p_1935 \in small_suite1155_IDS
      \X small_suite1155_ADDRS:
      small_suite1155_ml["bal"][small_suite1155_p_1935] >= 0)
    /\ (\A small_suite1155_i_1948 \in small_suite1155_IDS:
      small_suite1155_ml["bal"][<<small_suite1155_i_1948, 0>>] = 0)
    /\ (small_suite1155_kit["paused"] = 0
      \/ small_suite1155_ml["bal"] = small_suite1155_frozen[(0 + 1)])
    /\ (small_suite1155_kit["dflt"]["frac"] <= small_suite1155_DENOM
      /\ (\A small_suite1155_i_1981 \in small_suite1155_IDS:
        small_suite1155_kit["own"][small_suite1155_i_1981]["frac"]
          <= small_suite1155_DENOM))
    /\ (\A small_suite1155_i_2000 \in small_suite1155_IDS:
      small_suite1155_shown[small_suite1155_i_2000]
        = small_suite1155_resolve(small_suite1155_common, small_suite1155_kit[
          "base"
        ], small_suite1155_kit["uri"][small_suite1155_i_2000]))

(*
  @type: (() => Bool);
*)
q_init == small_suite1155_init

(*
  @type: ((Int, Int, Int, Seq(Int), Seq(Int), Seq(Int), Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_suite1155_moves(small_suite1155_by_433, small_suite1155_src_433, small_suite1155_dst_433,
small_suite1155_ids_433, small_suite1155_vals_433, small_suite1155_data_433, small_suite1155_ans_433) ==
  small_suite1155_accepted((small_suite1155_mMove(small_suite1155_ml, (small_suite1155_UMAX),
  TRUE, small_suite1155_by_433, small_suite1155_src_433, small_suite1155_dst_433,
  small_suite1155_ids_433, small_suite1155_vals_433)), small_suite1155_by_433, small_suite1155_src_433,
  small_suite1155_dst_433, small_suite1155_ids_433, small_suite1155_vals_433, small_suite1155_data_433,
  small_suite1155_ans_433)

(*
  @type: ((Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_suite1155_transferPre(small_suite1155_by_499, small_suite1155_src_499, small_suite1155_dst_499) ==
  small_suite1155_burnPre(small_suite1155_by_499, small_suite1155_src_499)
    \o small_suite1155_guard((small_suite1155_dst_499 = 0), (small_suite1155_M_RECEIVER),
    <<<<0>>>>)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_suite1155_burn(small_suite1155_by_726, small_suite1155_src_726, small_suite1155_id_726,
small_suite1155_v_726) ==
  small_suite1155_call("burn(address,uint256,uint256)()", small_suite1155_by_726,
  <<
    <<small_suite1155_src_726>>, <<small_suite1155_id_726>>, <<
      small_suite1155_v_726
    >>
  >>, <<>>, (small_suite1155_burnPre(small_suite1155_by_726, small_suite1155_src_726)),
  (small_suite1155_mMove(small_suite1155_ml, (small_suite1155_UMAX), TRUE, small_suite1155_by_726,
  small_suite1155_src_726, 0, <<small_suite1155_id_726>>, <<
    small_suite1155_v_726
  >>)), small_suite1155_kit)

(*
  @type: (() => Bool);
*)
q_inv == small_suite1155_safety

(*
  @type: ((Int, Int, Int, Int, Seq(Int), Int) => Bool);
*)
small_suite1155_mint(small_suite1155_by_545, small_suite1155_dst_545, small_suite1155_id_545,
small_suite1155_v_545, small_suite1155_data_545, small_suite1155_ans_545) ==
  small_suite1155_call("mint(address,uint256,uint256,bytes)()", small_suite1155_by_545,
  <<
    <<small_suite1155_dst_545>>, <<small_suite1155_id_545>>, <<
      small_suite1155_v_545
    >>, small_suite1155_data_545, <<0, 99, small_suite1155_ans_545>>
  >>, <<>>, (small_suite1155_mintPre(small_suite1155_by_545, small_suite1155_dst_545)),
  (small_suite1155_moves(small_suite1155_by_545, 0, small_suite1155_dst_545, <<
    small_suite1155_id_545
  >>, <<small_suite1155_v_545>>, small_suite1155_data_545, small_suite1155_ans_545)),
  small_suite1155_kit)

(*
  @type: ((Int, Int, Int, Int, Int, Seq(Int), Int) => Bool);
*)
small_suite1155_transfer(small_suite1155_by_640, small_suite1155_src_640, small_suite1155_dst_640,
small_suite1155_id_640, small_suite1155_v_640, small_suite1155_data_640, small_suite1155_ans_640) ==
  small_suite1155_call("safeTransferFrom(address,address,uint256,uint256,bytes)()",
  small_suite1155_by_640, <<
    <<small_suite1155_src_640>>, <<small_suite1155_dst_640>>, <<
      small_suite1155_id_640
    >>, <<small_suite1155_v_640>>, small_suite1155_data_640, <<
      0, 99, small_suite1155_ans_640
    >>
  >>, <<>>, (small_suite1155_transferPre(small_suite1155_by_640, small_suite1155_src_640,
  small_suite1155_dst_640)), (small_suite1155_moves(small_suite1155_by_640, small_suite1155_src_640,
  small_suite1155_dst_640, <<small_suite1155_id_640>>, <<small_suite1155_v_640>>,
  small_suite1155_data_640, small_suite1155_ans_640)), small_suite1155_kit)

(*
  @type: ((Int, Int, Seq(Int), Seq(Int), Seq(Int), Int) => Bool);
*)
small_suite1155_mintBatch(small_suite1155_by_589, small_suite1155_dst_589, small_suite1155_ids_589,
small_suite1155_vals_589, small_suite1155_data_589, small_suite1155_ans_589) ==
  small_suite1155_call("mintBatch(address,uint256[],uint256[],bytes)()", small_suite1155_by_589,
  <<
    <<small_suite1155_dst_589>>, small_suite1155_ids_589, small_suite1155_vals_589,
    small_suite1155_data_589, <<0, 99, small_suite1155_ans_589>>
  >>, <<>>, (small_suite1155_mintPre(small_suite1155_by_589, small_suite1155_dst_589)),
  (small_suite1155_moves(small_suite1155_by_589, 0, small_suite1155_dst_589, small_suite1155_ids_589,
  small_suite1155_vals_589, small_suite1155_data_589, small_suite1155_ans_589)),
  small_suite1155_kit)

(*
  @type: (() => Bool);
*)
small_suite1155_stepAll ==
  \E small_suite1155_by \in small_suite1155_USERS:
    \E small_suite1155_t \in small_suite1155_USERS:
      \E small_suite1155_i \in small_suite1155_IDS:
        small_suite1155_mint(small_suite1155_by, small_suite1155_t, small_suite1155_i,
          1, <<>>, 0)
          \/ small_suite1155_transfer(small_suite1155_by, 1, small_suite1155_t, small_suite1155_i,
          1, <<>>, 0)
          \/ small_suite1155_burn(small_suite1155_by, small_suite1155_t, small_suite1155_i,
          1)
          \/ small_suite1155_mintBatch(small_suite1155_by, small_suite1155_t, <<
            1, 2
          >>, <<1, 1>>, <<>>, 0)
          \/ small_suite1155_pause(small_suite1155_by)
          \/ small_suite1155_unpause(small_suite1155_by)
          \/ small_suite1155_nominate(small_suite1155_by, small_suite1155_t)
          \/ small_suite1155_accept(small_suite1155_by)
          \/ small_suite1155_setAll(small_suite1155_by, (3 - small_suite1155_by),
          TRUE)
          \/ small_suite1155_setToken(small_suite1155_by, small_suite1155_i, small_suite1155_t,
          1)

(*
  @type: (() => Bool);
*)
q_step == small_suite1155_stepAll


View == <<small_suite1155_ml, small_suite1155_frozen, small_suite1155_common, small_suite1155_shown, small_suite1155_kit>>

==============================================================================
