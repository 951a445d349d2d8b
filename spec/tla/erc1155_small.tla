\* generated by tools/export_tla.py from erc1155.qnt ed2920653e6c7abb668b45359f09c067ecf888582ed743a68809963f231fbaa2
--------------------------------- MODULE erc1155_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int };
  *)
  small_erc1155_ml

(*
  @type: ((Set(Int), Set(Int)) => { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int });
*)
small_erc1155_emptyMulti(small_erc1155_addrs_2056, small_erc1155_ids_2056) ==
  [bal |->
      [
        small_erc1155___2036 \in
          small_erc1155_ids_2056 \X small_erc1155_addrs_2056 |->
          0
      ],
    oper |->
      [
        small_erc1155___2044 \in
          small_erc1155_addrs_2056 \X small_erc1155_addrs_2056 |->
          FALSE
      ],
    sup |-> [ small_erc1155___2050 \in small_erc1155_ids_2056 |-> 0 ],
    total |-> 0]

(*
  @type: (() => Set(Int));
*)
small_erc1155_USERS == { 1, 2 }

(*
  @type: (() => Int);
*)
small_erc1155_SELF == 100

(*
  @type: (() => Int);
*)
small_erc1155_RECV == 101

(*
  @type: (() => Set(Int));
*)
small_erc1155_IDS == { 1, 2 }

VARIABLE
  (*
    @type: (<<Int, Int>> -> Int);
  *)
  small_erc1155_logged

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_erc1155_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_erc1155_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_erc1155_UMAX == 2

(*
  @type: (() => Str);
*)
small_erc1155_M_SINGLE ==
  "TransferSingle(address indexed,address indexed,address indexed,uint256,uint256)"

(*
  @type: (() => Str);
*)
small_erc1155_M_BATCH ==
  "TransferBatch(address indexed,address indexed,address indexed,uint256[],uint256[])"

(*
  @type: ((Seq({ args: Seq(Seq(Int)), sig: Str }), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_erc1155_addErrs(small_erc1155_extra_528, small_erc1155_r_528) ==
  [
    small_erc1155_r_528 EXCEPT
      !["errs"] = small_erc1155_extra_528 \o small_erc1155_r_528["errs"]
  ]

(*
  @type: (() => Str);
*)
small_erc1155_M_RECEIVER == "ERC1155InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_erc1155_ON_SINGLE ==
  "onERC1155Received(address,address,uint256,uint256,bytes)"

(*
  @type: (() => Str);
*)
small_erc1155_ON_BATCH ==
  "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)"

(*
  @type: (() => Str);
*)
small_erc1155_M_LENGTH == "ERC1155InvalidArrayLength(uint256,uint256)"

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc1155_guard(small_erc1155_bad_2652, small_erc1155_sig_2652, small_erc1155_args_2652) ==
  IF small_erc1155_bad_2652
  THEN <<[sig |-> small_erc1155_sig_2652, args |-> small_erc1155_args_2652]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_erc1155_M_BALANCE ==
  "ERC1155InsufficientBalance(address,uint256,uint256,uint256)"

(*
  @type: (() => Bool);
*)
small_erc1155_COUNTED == TRUE

(*
  @type: (() => { ans: Int, dst: Int, go: Bool, id: Int, v: Int });
*)
small_erc1155_OKAY == [ans |-> 0, go |-> FALSE, dst |-> 0, id |-> 0, v |-> 0]

(*
  @type: (() => Str);
*)
small_erc1155_M_UNAUTH == "ERC1155MissingApprovalForAll(address,address)"

(*
  @type: (() => Str);
*)
small_erc1155_M_SENDER == "ERC1155InvalidSender(address)"

(*
  @type: ((Bool) => Int);
*)
small_erc1155_bit(small_erc1155_b_2661) == IF small_erc1155_b_2661 THEN 1 ELSE 0

(*
  @type: (() => Str);
*)
small_erc1155_M_OPERATOR == "ERC1155InvalidOperator(address)"

(*
  @type: (() => Str);
*)
small_erc1155_M_FORALL == "ApprovalForAll(address indexed,address indexed,bool)"

(*
  @type: (() => Set(Int));
*)
small_erc1155_ADDRS ==
  small_erc1155_USERS \union { 0, (small_erc1155_SELF), (small_erc1155_RECV) }

(*
  @type: (((<<Int, Int>> -> Int), Seq({ args: Seq(Seq(Int)), at: Int, sig: Str })) => (<<Int, Int>> -> Int));
*)
small_erc1155_replayLog(small_erc1155_l_445, small_erc1155_evs_445) ==
  LET (*
    @type: (((<<Int, Int>> -> Int), { args: Seq(Seq(Int)), at: Int, sig: Str }) => (<<Int, Int>> -> Int));
  *)
  __QUINT_LAMBDA2(small_erc1155_a_443, small_erc1155_e_443) ==
    IF small_erc1155_e_443["sig"] /= small_erc1155_M_SINGLE
      /\ small_erc1155_e_443["sig"] /= small_erc1155_M_BATCH
    THEN small_erc1155_a_443
    ELSE LET (*
      @type: (() => Int);
    *)
    small_erc1155_src == small_erc1155_e_443["args"][(1 + 1)][(0 + 1)]
    IN
    LET (*
      @type: (() => Int);
    *)
    small_erc1155_dst == small_erc1155_e_443["args"][(2 + 1)][(0 + 1)]
    IN
    LET (*
      @type: (((<<Int, Int>> -> Int), Int) => (<<Int, Int>> -> Int));
    *)
    __QUINT_LAMBDA1(small_erc1155_b_438, small_erc1155_i_438) ==
      LET (*
        @type: (() => Int);
      *)
      small_erc1155_id ==
        small_erc1155_e_443["args"][(3 + 1)][(small_erc1155_i_438 + 1)]
      IN
      LET (*
        @type: (() => Int);
      *)
      small_erc1155_v ==
        small_erc1155_e_443["args"][(4 + 1)][(small_erc1155_i_438 + 1)]
      IN
      LET (*
        @type: (() => (<<Int, Int>> -> Int));
      *)
      small_erc1155_b1 ==
        IF small_erc1155_src = 0
        THEN small_erc1155_b_438
        ELSE [
          small_erc1155_b_438 EXCEPT
            ![<<(small_erc1155_id), (small_erc1155_src)>>] =
              small_erc1155_b_438[<<(small_erc1155_id), (small_erc1155_src)>>]
                - small_erc1155_v
        ]
      IN
      IF small_erc1155_dst = 0
      THEN small_erc1155_b1
      ELSE [
        (small_erc1155_b1) EXCEPT
          ![<<(small_erc1155_id), (small_erc1155_dst)>>] =
            (small_erc1155_b1)[<<(small_erc1155_id), (small_erc1155_dst)>>]
              + small_erc1155_v
      ]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, small_erc1155_a_443, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((Len(small_erc1155_e_443["args"][(3 + 1)]) - 0), __QUINT_LAMBDA0)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, small_erc1155_l_445, small_erc1155_evs_445)

(*
  @type: (({ ans: Int, dst: Int, go: Bool, id: Int, v: Int }) => Seq(Seq(Int)));
*)
small_erc1155_scripted(small_erc1155_s_95) ==
  <<<<0, 99, small_erc1155_s_95["ans"]>>>>
    \o (IF small_erc1155_s_95["go"]
    THEN <<
      <<
        0, 10, 0, (small_erc1155_RECV), small_erc1155_s_95["dst"], small_erc1155_s_95[
          "id"
        ], small_erc1155_s_95["v"]
      >>
    >>
    ELSE <<>>)

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }, Int, Bool, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_erc1155_mOne(small_erc1155_r_2255, small_erc1155_umax_2255, small_erc1155_counted_2255,
small_erc1155_src_2255, small_erc1155_dst_2255, small_erc1155_id_2255, small_erc1155_v_2255) ==
  IF small_erc1155_r_2255["errs"] /= <<>>
  THEN small_erc1155_r_2255
  ELSE LET (*
    @type: (() => Int);
  *)
  small_erc1155_have ==
    small_erc1155_r_2255["m"]["bal"][
      <<small_erc1155_id_2255, small_erc1155_src_2255>>
    ]
  IN
  LET (*
    @type: (() => (<<Int, Int>> -> Int));
  *)
  small_erc1155_b1 ==
    IF small_erc1155_src_2255 = 0
    THEN small_erc1155_r_2255["m"]["bal"]
    ELSE [
      small_erc1155_r_2255["m"]["bal"] EXCEPT
        ![<<small_erc1155_id_2255, small_erc1155_src_2255>>] =
          small_erc1155_have - small_erc1155_v_2255
    ]
  IN
  LET (*
    @type: (() => (<<Int, Int>> -> Int));
  *)
  small_erc1155_b2 ==
    IF small_erc1155_dst_2255 = 0
    THEN small_erc1155_b1
    ELSE [
      (small_erc1155_b1) EXCEPT
        ![<<small_erc1155_id_2255, small_erc1155_dst_2255>>] =
          (small_erc1155_b1)[<<small_erc1155_id_2255, small_erc1155_dst_2255>>]
            + small_erc1155_v_2255
    ]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_erc1155_ds ==
    (IF small_erc1155_src_2255 = 0 THEN small_erc1155_v_2255 ELSE 0)
      - (IF small_erc1155_dst_2255 = 0 THEN small_erc1155_v_2255 ELSE 0)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_erc1155_short ==
    small_erc1155_src_2255 /= 0 /\ small_erc1155_have < small_erc1155_v_2255
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_erc1155_over ==
    (small_erc1155_dst_2255 /= 0
        /\ (small_erc1155_b1)[<<small_erc1155_id_2255, small_erc1155_dst_2255>>]
          + small_erc1155_v_2255
          > small_erc1155_umax_2255)
      \/ (small_erc1155_counted_2255
        /\ small_erc1155_r_2255["m"]["sup"][small_erc1155_id_2255]
          + small_erc1155_ds
          > small_erc1155_umax_2255)
      \/ (small_erc1155_counted_2255
        /\ small_erc1155_r_2255["m"]["total"] + small_erc1155_ds
          > small_erc1155_umax_2255)
  IN
  [
    [
      small_erc1155_r_2255 EXCEPT
        !["m"] =
          [
            [
              [ small_erc1155_r_2255["m"] EXCEPT !["bal"] = small_erc1155_b2 ] EXCEPT
                !["sup"] =
                  [
                    small_erc1155_r_2255["m"]["sup"] EXCEPT
                      ![small_erc1155_id_2255] =
                        small_erc1155_r_2255["m"]["sup"][small_erc1155_id_2255]
                          + small_erc1155_ds
                  ]
            ] EXCEPT
              !["total"] = small_erc1155_r_2255["m"]["total"] + small_erc1155_ds
          ]
    ] EXCEPT
      !["errs"] =
        small_erc1155_guard((small_erc1155_short), (small_erc1155_M_BALANCE), <<
          <<small_erc1155_src_2255>>, <<(small_erc1155_have)>>, <<
            small_erc1155_v_2255
          >>, <<small_erc1155_id_2255>>
        >>)
          \o small_erc1155_guard((~small_erc1155_short /\ small_erc1155_over), "#empty",
          <<>>)
  ]

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc1155_mintPre(small_erc1155_dst_584) ==
  small_erc1155_guard((small_erc1155_dst_584 = 0), (small_erc1155_M_RECEIVER), <<
    <<0>>
  >>)

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc1155_mConsent(small_erc1155_m_2406, small_erc1155_by_2406, small_erc1155_src_2406) ==
  small_erc1155_guard((small_erc1155_by_2406 /= small_erc1155_src_2406
    /\ ~(small_erc1155_m_2406["oper"][
      <<small_erc1155_src_2406, small_erc1155_by_2406>>
    ])), (small_erc1155_M_UNAUTH), <<
    <<small_erc1155_by_2406>>, <<small_erc1155_src_2406>>
  >>)

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc1155_burnPre(small_erc1155_src_598) ==
  small_erc1155_guard((small_erc1155_src_598 = 0), (small_erc1155_M_SENDER), <<
    <<0>>
  >>)

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc1155_mConsentBurn(small_erc1155_m_2435, small_erc1155_by_2435, small_erc1155_src_2435) ==
  small_erc1155_guard((small_erc1155_by_2435 /= small_erc1155_src_2435
    /\ ~(small_erc1155_m_2435["oper"][
      <<small_erc1155_src_2435, small_erc1155_by_2435>>
    ])), (small_erc1155_M_UNAUTH), <<
    <<small_erc1155_by_2435>>, <<small_erc1155_src_2435>>
  >>)

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Int, Int, Bool) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_erc1155_mSetAll(small_erc1155_m_2484, small_erc1155_by_2484, small_erc1155_op_2484,
small_erc1155_on_2484) ==
  [m |->
      [
        small_erc1155_m_2484 EXCEPT
          !["oper"] =
            [
              small_erc1155_m_2484["oper"] EXCEPT
                ![<<small_erc1155_by_2484, small_erc1155_op_2484>>] =
                  small_erc1155_on_2484
            ]
      ],
    errs |->
      small_erc1155_guard((small_erc1155_op_2484 = 0), (small_erc1155_M_OPERATOR),
      <<<<0>>>>),
    evs |->
      <<
        [at |-> 0,
          sig |-> small_erc1155_M_FORALL,
          args |->
            <<
              <<small_erc1155_by_2484>>, <<small_erc1155_op_2484>>, <<
                (small_erc1155_bit(small_erc1155_on_2484))
              >>
            >>]
      >>]

(*
  @type: (() => Int);
*)
small_erc1155_totalOfSupplies ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA5(small_erc1155_a_1813, small_erc1155_i_1813) ==
    small_erc1155_a_1813 + small_erc1155_ml["sup"][small_erc1155_i_1813]
  IN
  ApaFoldSet(__QUINT_LAMBDA5, 0, (small_erc1155_IDS))

(*
  @type: (() => Bool);
*)
small_erc1155_init ==
  small_erc1155_ml
      = small_erc1155_emptyMulti((small_erc1155_ADDRS), (small_erc1155_IDS))
    /\ small_erc1155_logged
      = [
        small_erc1155___1050 \in small_erc1155_IDS \X small_erc1155_ADDRS |->
          0
      ]
    /\ small_erc1155_obs = small_erc1155_initObs

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }) => Bool);
*)
small_erc1155_finish(small_erc1155_op_512, small_erc1155_by_512, small_erc1155_args_512,
small_erc1155_ret_512, small_erc1155_r_512) ==
  small_erc1155_obs'
      := [op |-> small_erc1155_op_512,
        at |-> 0,
        by |-> small_erc1155_by_512,
        pay |-> 0,
        args |-> small_erc1155_args_512,
        errs |-> small_erc1155_r_512["errs"],
        ret |-> small_erc1155_ret_512,
        evs |-> small_erc1155_r_512["evs"]]
    /\ small_erc1155_ml'
      := (IF small_erc1155_r_512["errs"] = <<>>
      THEN small_erc1155_r_512["m"]
      ELSE small_erc1155_ml)
    /\ small_erc1155_logged'
      := (IF small_erc1155_r_512["errs"] = <<>>
      THEN small_erc1155_replayLog(small_erc1155_logged, small_erc1155_r_512[
        "evs"
      ])
      ELSE small_erc1155_logged)

(*
  @type: (({ bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int }, Int, Bool, Int, Int, Int, Seq(Int), Seq(Int)) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_erc1155_mMove(small_erc1155_m_2377, small_erc1155_umax_2377, small_erc1155_counted_2377,
small_erc1155_by_2377, small_erc1155_src_2377, small_erc1155_dst_2377, small_erc1155_ids_2377,
small_erc1155_vals_2377) ==
  IF Len(small_erc1155_ids_2377) /= Len(small_erc1155_vals_2377)
  THEN [m |-> small_erc1155_m_2377,
    errs |->
      <<
        [sig |-> small_erc1155_M_LENGTH,
          args |->
            <<
              <<(Len(small_erc1155_ids_2377))>>, <<
                (Len(small_erc1155_vals_2377))
              >>
            >>]
      >>,
    evs |-> <<>>]
  ELSE LET (*
    @type: (() => Int);
  *)
  small_erc1155_r == Len(small_erc1155_ids_2377)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
  *)
  small_erc1155_moved ==
    LET (*
      @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
    *)
    __QUINT_LAMBDA4(small_erc1155_a_2326, small_erc1155_i_2326) ==
      small_erc1155_mOne(small_erc1155_a_2326, small_erc1155_umax_2377, small_erc1155_counted_2377,
      small_erc1155_src_2377, small_erc1155_dst_2377, small_erc1155_ids_2377[
        (small_erc1155_i_2326 + 1)
      ], small_erc1155_vals_2377[(small_erc1155_i_2326 + 1)])
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA4, [m |-> small_erc1155_m_2377,
      errs |-> <<>>,
      evs |-> <<>>], (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA3(__quint_var1) == (0 + __quint_var1) - 1
    IN
    MkSeq((small_erc1155_r - 0), __QUINT_LAMBDA3)))
  IN
  [
    (small_erc1155_moved) EXCEPT
      !["evs"] =
        IF small_erc1155_r = 1
        THEN <<
          [at |-> 0,
            sig |-> small_erc1155_M_SINGLE,
            args |->
              <<
                <<small_erc1155_by_2377>>, <<small_erc1155_src_2377>>, <<
                  small_erc1155_dst_2377
                >>, <<small_erc1155_ids_2377[(0 + 1)]>>, <<
                  small_erc1155_vals_2377[(0 + 1)]
                >>
              >>]
        >>
        ELSE <<
          [at |-> 0,
            sig |-> small_erc1155_M_BATCH,
            args |->
              <<
                <<small_erc1155_by_2377>>, <<small_erc1155_src_2377>>, <<
                  small_erc1155_dst_2377
                >>, small_erc1155_ids_2377, small_erc1155_vals_2377
              >>]
        >>
  ]

(*
  @type: ((Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc1155_transferPre(small_erc1155_by_618, small_erc1155_src_618, small_erc1155_dst_618) ==
  (small_erc1155_mConsent(small_erc1155_ml, small_erc1155_by_618, small_erc1155_src_618)
    \o small_erc1155_mintPre(small_erc1155_dst_618))
    \o small_erc1155_burnPre(small_erc1155_src_618)

(*
  @type: (() => Bool);
*)
small_erc1155_safety ==
  small_erc1155_logged = small_erc1155_ml["bal"]
    /\ (\A small_erc1155_p_1840 \in small_erc1155_IDS \X small_erc1155_ADDRS:
      small_erc1155_ml["bal"][small_erc1155_p_1840] >= 0
        /\ small_erc1155_ml["bal"][small_erc1155_p_1840] <= small_erc1155_UMAX)
    /\ (\A small_erc1155_i_1853 \in small_erc1155_IDS:
      small_erc1155_ml["bal"][<<small_erc1155_i_1853, 0>>] = 0)
    /\ (\A small_erc1155_i_1878 \in small_erc1155_IDS:
      small_erc1155_ml["sup"][small_erc1155_i_1878]
        = LET (*
          @type: ((Int, Int) => Int);
        *)
        __QUINT_LAMBDA6(small_erc1155_a_1875, small_erc1155_x_1875) ==
          small_erc1155_a_1875
            + small_erc1155_ml["bal"][
              <<small_erc1155_i_1878, small_erc1155_x_1875>>
            ]
        IN
        ApaFoldSet(__QUINT_LAMBDA6, 0, (small_erc1155_ADDRS)))
    /\ small_erc1155_ml["total"] = small_erc1155_totalOfSupplies
    /\ (~small_erc1155_COUNTED
      \/ (small_erc1155_ml["total"] <= small_erc1155_UMAX
        /\ (\A small_erc1155_i_1901 \in small_erc1155_IDS:
          small_erc1155_ml["sup"][small_erc1155_i_1901] <= small_erc1155_UMAX)))
    /\ (\A small_erc1155_a_1915 \in small_erc1155_ADDRS:
      ~(small_erc1155_ml["oper"][<<small_erc1155_a_1915, 0>>]))

(*
  @type: (() => Bool);
*)
q_init == small_erc1155_init

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } }, Int, Int, Int, Seq(Int), Seq(Int), Seq(Int), { ans: Int, dst: Int, go: Bool, id: Int, v: Int }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_erc1155_accepted(small_erc1155_r_325, small_erc1155_by_325, small_erc1155_src_325,
small_erc1155_dst_325, small_erc1155_ids_325, small_erc1155_vals_325, small_erc1155_data_325,
small_erc1155_s_325) ==
  IF small_erc1155_r_325["errs"] /= <<>> \/ small_erc1155_dst_325 = 0
  THEN small_erc1155_r_325
  ELSE IF small_erc1155_dst_325 = small_erc1155_SELF
  THEN [
    small_erc1155_r_325 EXCEPT
      !["errs"] =
        <<
          [sig |-> small_erc1155_M_RECEIVER,
            args |-> <<<<(small_erc1155_SELF)>>>>]
        >>
  ]
  ELSE IF small_erc1155_dst_325 = small_erc1155_RECV
  THEN LET (*
    @type: (() => { args: Seq(Seq(Int)), at: Int, sig: Str });
  *)
  small_erc1155_call ==
    IF Len(small_erc1155_ids_325) = 1
    THEN [at |-> 1,
      sig |-> small_erc1155_ON_SINGLE,
      args |->
        <<
          <<small_erc1155_by_325>>, <<small_erc1155_src_325>>, <<
            small_erc1155_ids_325[(0 + 1)]
          >>, <<small_erc1155_vals_325[(0 + 1)]>>, small_erc1155_data_325
        >>]
    ELSE [at |-> 1,
      sig |-> small_erc1155_ON_BATCH,
      args |->
        <<
          <<small_erc1155_by_325>>, <<small_erc1155_src_325>>, small_erc1155_ids_325,
          small_erc1155_vals_325, small_erc1155_data_325
        >>]
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
  *)
  small_erc1155_inner ==
    small_erc1155_mMove(small_erc1155_r_325["m"], (small_erc1155_UMAX), (small_erc1155_COUNTED),
    (small_erc1155_RECV), (small_erc1155_RECV), small_erc1155_s_325["dst"], <<
      small_erc1155_s_325["id"]
    >>, <<small_erc1155_s_325["v"]>>)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_erc1155_went ==
    ((small_erc1155_s_325["go"] /\ small_erc1155_s_325["dst"] /= 0)
        /\ small_erc1155_s_325["dst"] /= small_erc1155_SELF)
      /\ (small_erc1155_inner)["errs"] = <<>>
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
  *)
  small_erc1155_again ==
    IF small_erc1155_s_325["dst"] = small_erc1155_RECV
    THEN <<
      [at |-> 1,
        sig |-> small_erc1155_ON_SINGLE,
        args |->
          <<
            <<(small_erc1155_RECV)>>, <<(small_erc1155_RECV)>>, <<
              small_erc1155_s_325["id"]
            >>, <<small_erc1155_s_325["v"]>>, <<>>
          >>]
    >>
    ELSE <<>>
  IN
  [m |->
      IF small_erc1155_went
      THEN (small_erc1155_inner)["m"]
      ELSE small_erc1155_r_325["m"],
    errs |->
      IF small_erc1155_s_325["ans"] = 0
      THEN <<>>
      ELSE IF small_erc1155_s_325["ans"] = 4
      THEN <<[sig |-> "#raw", args |-> <<<<222, 173, 190, 239, 1, 2, 3, 4>>>>]>>
      ELSE <<
        [sig |-> small_erc1155_M_RECEIVER,
          args |-> <<<<(small_erc1155_RECV)>>>>]
      >>,
    evs |->
      Append(small_erc1155_r_325["evs"], (small_erc1155_call))
        \o (IF small_erc1155_went
        THEN (small_erc1155_inner)["evs"] \o small_erc1155_again
        ELSE <<>>)]
  ELSE small_erc1155_r_325

(*
  @type: ((Int, Int, Bool) => Bool);
*)
small_erc1155_setAll(small_erc1155_by_970, small_erc1155_op_970, small_erc1155_on_970) ==
  small_erc1155_finish("setApprovalForAll(address,bool)()", small_erc1155_by_970,
  <<<<small_erc1155_op_970>>, <<(small_erc1155_bit(small_erc1155_on_970))>>>>, <<
    
  >>, (small_erc1155_mSetAll(small_erc1155_ml, small_erc1155_by_970, small_erc1155_op_970,
  small_erc1155_on_970)))

(*
  @type: (() => Bool);
*)
q_inv == small_erc1155_safety

(*
  @type: ((Int, Int, Int, Seq(Int), Seq(Int), Seq(Int), { ans: Int, dst: Int, go: Bool, id: Int, v: Int }, Seq({ args: Seq(Seq(Int)), sig: Str })) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), m: { bal: (<<Int, Int>> -> Int), oper: (<<Int, Int>> -> Bool), sup: (Int -> Int), total: Int } });
*)
small_erc1155_performed(small_erc1155_by_570, small_erc1155_src_570, small_erc1155_dst_570,
small_erc1155_ids_570, small_erc1155_vals_570, small_erc1155_data_570, small_erc1155_s_570,
small_erc1155_pre_570) ==
  small_erc1155_addErrs(small_erc1155_pre_570, (small_erc1155_accepted((small_erc1155_mMove(small_erc1155_ml,
  (small_erc1155_UMAX), (small_erc1155_COUNTED), small_erc1155_by_570, small_erc1155_src_570,
  small_erc1155_dst_570, small_erc1155_ids_570, small_erc1155_vals_570)), small_erc1155_by_570,
  small_erc1155_src_570, small_erc1155_dst_570, small_erc1155_ids_570, small_erc1155_vals_570,
  small_erc1155_data_570, small_erc1155_s_570)))

(*
  @type: ((Int, Int, Int, Int, Seq(Int), { ans: Int, dst: Int, go: Bool, id: Int, v: Int }) => Bool);
*)
small_erc1155_mint(small_erc1155_by_661, small_erc1155_dst_661, small_erc1155_id_661,
small_erc1155_v_661, small_erc1155_data_661, small_erc1155_s_661) ==
  small_erc1155_finish("mint(address,uint256,uint256,bytes)()", small_erc1155_by_661,
  (<<
    <<small_erc1155_dst_661>>, <<small_erc1155_id_661>>, <<small_erc1155_v_661>>,
    small_erc1155_data_661
  >>
    \o small_erc1155_scripted(small_erc1155_s_661)), <<>>, (small_erc1155_performed(small_erc1155_by_661,
  0, small_erc1155_dst_661, <<small_erc1155_id_661>>, <<small_erc1155_v_661>>, small_erc1155_data_661,
  small_erc1155_s_661, (small_erc1155_mintPre(small_erc1155_dst_661)))))

(*
  @type: ((Int, Int, Int, Int, Int, Seq(Int), { ans: Int, dst: Int, go: Bool, id: Int, v: Int }) => Bool);
*)
small_erc1155_transfer(small_erc1155_by_751, small_erc1155_src_751, small_erc1155_dst_751,
small_erc1155_id_751, small_erc1155_v_751, small_erc1155_data_751, small_erc1155_s_751) ==
  small_erc1155_finish("safeTransferFrom(address,address,uint256,uint256,bytes)()",
  small_erc1155_by_751, (<<
    <<small_erc1155_src_751>>, <<small_erc1155_dst_751>>, <<
      small_erc1155_id_751
    >>, <<small_erc1155_v_751>>, small_erc1155_data_751
  >>
    \o small_erc1155_scripted(small_erc1155_s_751)), <<>>, (small_erc1155_performed(small_erc1155_by_751,
  small_erc1155_src_751, small_erc1155_dst_751, <<small_erc1155_id_751>>, <<
    small_erc1155_v_751
  >>, small_erc1155_data_751, small_erc1155_s_751, (small_erc1155_transferPre(small_erc1155_by_751,
  small_erc1155_src_751, small_erc1155_dst_751)))))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_erc1155_forceBurn(small_erc1155_by_914, small_erc1155_src_914, small_erc1155_id_914,
small_erc1155_v_914) ==
  small_erc1155_finish("forceBurn(address,uint256,uint256)()", small_erc1155_by_914,
  <<
    <<small_erc1155_src_914>>, <<small_erc1155_id_914>>, <<small_erc1155_v_914>>
  >>, <<>>, (small_erc1155_performed(small_erc1155_by_914, small_erc1155_src_914,
  0, <<small_erc1155_id_914>>, <<small_erc1155_v_914>>, <<>>, (small_erc1155_OKAY),
  (small_erc1155_burnPre(small_erc1155_src_914)))))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_erc1155_burn(small_erc1155_by_840, small_erc1155_src_840, small_erc1155_id_840,
small_erc1155_v_840) ==
  ~small_erc1155_COUNTED
    /\ small_erc1155_finish("burn(address,uint256,uint256)()", small_erc1155_by_840,
    <<
      <<small_erc1155_src_840>>, <<small_erc1155_id_840>>, <<
        small_erc1155_v_840
      >>
    >>, <<>>, (small_erc1155_performed(small_erc1155_by_840, small_erc1155_src_840,
    0, <<small_erc1155_id_840>>, <<small_erc1155_v_840>>, <<>>, (small_erc1155_OKAY),
    (small_erc1155_mConsentBurn(small_erc1155_ml, small_erc1155_by_840, small_erc1155_src_840)
      \o small_erc1155_burnPre(small_erc1155_src_840)))))

(*
  @type: ((Int, Int, Seq(Int), Seq(Int), Seq(Int), { ans: Int, dst: Int, go: Bool, id: Int, v: Int }) => Bool);
*)
small_erc1155_mintBatch(small_erc1155_by_702, small_erc1155_dst_702, small_erc1155_ids_702,
small_erc1155_vals_702, small_erc1155_data_702, small_erc1155_s_702) ==
  small_erc1155_finish("mintBatch(address,uint256[],uint256[],bytes)()", small_erc1155_by_702,
  (<<
    <<small_erc1155_dst_702>>, small_erc1155_ids_702, small_erc1155_vals_702, small_erc1155_data_702
  >>
    \o small_erc1155_scripted(small_erc1155_s_702)), <<>>, (small_erc1155_performed(small_erc1155_by_702,
  0, small_erc1155_dst_702, small_erc1155_ids_702, small_erc1155_vals_702, small_erc1155_data_702,
  small_erc1155_s_702, (small_erc1155_mintPre(small_erc1155_dst_702)))))

(*
  @type: ((Int, Int, Int, Seq(Int), Seq(Int), Seq(Int), { ans: Int, dst: Int, go: Bool, id: Int, v: Int }) => Bool);
*)
small_erc1155_transferBatch(small_erc1155_by_798, small_erc1155_src_798, small_erc1155_dst_798,
small_erc1155_ids_798, small_erc1155_vals_798, small_erc1155_data_798, small_erc1155_s_798) ==
  small_erc1155_finish("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)()",
  small_erc1155_by_798, (<<
    <<small_erc1155_src_798>>, <<small_erc1155_dst_798>>, small_erc1155_ids_798,
    small_erc1155_vals_798, small_erc1155_data_798
  >>
    \o small_erc1155_scripted(small_erc1155_s_798)), <<>>, (small_erc1155_performed(small_erc1155_by_798,
  small_erc1155_src_798, small_erc1155_dst_798, small_erc1155_ids_798, small_erc1155_vals_798,
  small_erc1155_data_798, small_erc1155_s_798, (small_erc1155_transferPre(small_erc1155_by_798,
  small_erc1155_src_798, small_erc1155_dst_798)))))

(*
  @type: ((Int, Int, Seq(Int), Seq(Int)) => Bool);
*)
small_erc1155_forceBurnBatch(small_erc1155_by_946, small_erc1155_src_946, small_erc1155_ids_946,
small_erc1155_vals_946) ==
  small_erc1155_finish("forceBurnBatch(address,uint256[],uint256[])()", small_erc1155_by_946,
  <<<<small_erc1155_src_946>>, small_erc1155_ids_946, small_erc1155_vals_946>>, <<
    
  >>, (small_erc1155_performed(small_erc1155_by_946, small_erc1155_src_946, 0, small_erc1155_ids_946,
  small_erc1155_vals_946, <<>>, (small_erc1155_OKAY), (small_erc1155_burnPre(small_erc1155_src_946)))))

(*
  @type: ((Int, Int, Seq(Int), Seq(Int)) => Bool);
*)
small_erc1155_burnBatch(small_erc1155_by_880, small_erc1155_src_880, small_erc1155_ids_880,
small_erc1155_vals_880) ==
  ~small_erc1155_COUNTED
    /\ small_erc1155_finish("burnBatch(address,uint256[],uint256[])()", small_erc1155_by_880,
    <<<<small_erc1155_src_880>>, small_erc1155_ids_880, small_erc1155_vals_880>>,
    <<>>, (small_erc1155_performed(small_erc1155_by_880, small_erc1155_src_880, 0,
    small_erc1155_ids_880, small_erc1155_vals_880, <<>>, (small_erc1155_OKAY), (small_erc1155_mConsentBurn(small_erc1155_ml,
    small_erc1155_by_880, small_erc1155_src_880)
      \o small_erc1155_burnPre(small_erc1155_src_880)))))

(*
  @type: (() => Bool);
*)
small_erc1155_stepAll ==
  \E small_erc1155_by \in small_erc1155_USERS:
    \E small_erc1155_i \in small_erc1155_IDS:
      (\E small_erc1155_v \in 0 .. small_erc1155_UMAX:
          \E small_erc1155_dst \in small_erc1155_USERS:
            small_erc1155_mint(1, small_erc1155_dst, small_erc1155_i, small_erc1155_v,
              <<>>, (small_erc1155_OKAY))
              \/ small_erc1155_transfer(small_erc1155_by, 1, small_erc1155_dst, small_erc1155_i,
              small_erc1155_v, <<>>, (small_erc1155_OKAY))
              \/ small_erc1155_forceBurn(1, small_erc1155_dst, small_erc1155_i, small_erc1155_v)
              \/ small_erc1155_burn(small_erc1155_by, 1, small_erc1155_i, small_erc1155_v))
        \/ (\E small_erc1155_j \in small_erc1155_IDS:
          \E small_erc1155_v \in { <<1, 1>>, <<2, 1>>, <<1, 2>> }:
            small_erc1155_mintBatch(1, small_erc1155_by, <<
                small_erc1155_i, small_erc1155_j
              >>, small_erc1155_v, <<>>, (small_erc1155_OKAY))
              \/ small_erc1155_transferBatch(small_erc1155_by, 1, 2, <<
                small_erc1155_i, small_erc1155_j
              >>, small_erc1155_v, <<>>, (small_erc1155_OKAY))
              \/ small_erc1155_forceBurnBatch(1, small_erc1155_by, <<
                small_erc1155_i, small_erc1155_j
              >>, small_erc1155_v)
              \/ small_erc1155_burnBatch(small_erc1155_by, 2, <<
                small_erc1155_i, small_erc1155_j
              >>, small_erc1155_v))
        \/ small_erc1155_setAll(small_erc1155_by, (3 - small_erc1155_by), TRUE)

(*
  @type: (() => Bool);
*)
q_step == small_erc1155_stepAll


View == <<small_erc1155_ml, small_erc1155_logged>>

==============================================================================
