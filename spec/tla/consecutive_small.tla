\* generated by tools/export_tla.py from consecutive.qnt 8211e9d1f5e3add2f3f598a2d18e542c2d720d83b76beeb2a7021ab2462d94e5
--------------------------------- MODULE consecutive_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_consecutive_FIRSTS == { 0, 1 }

VARIABLE
  (*
    @type: Int;
  *)
  small_consecutive_first

VARIABLE
  (*
    @type: Int;
  *)
  small_consecutive_limit

VARIABLE
  (*
    @type: Int;
  *)
  small_consecutive_nextId

VARIABLE
  (*
    @type: Bool;
  *)
  small_consecutive_sealed

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_consecutive_rest

(*
  @type: (() => Set(Int));
*)
small_consecutive_USERS == { 1, 2 }

(*
  @type: (() => Int);
*)
small_consecutive_SELF == 100

(*
  @type: (() => Int);
*)
small_consecutive_RECV == 101

VARIABLE
  (*
    @type: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) };
  *)
  small_consecutive_nft

(*
  @type: ((Set(Int), Set(Int)) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_consecutive_emptyNft(small_consecutive_addrs_1678, small_consecutive_ids_1678) ==
  [owner |-> [ small_consecutive___1654 \in small_consecutive_ids_1678 |-> 0 ],
    bal |-> [ small_consecutive___1660 \in small_consecutive_addrs_1678 |-> 0 ],
    appr |-> [ small_consecutive___1666 \in small_consecutive_ids_1678 |-> 0 ],
    oper |->
      [
        small_consecutive___1674 \in
          small_consecutive_addrs_1678 \X small_consecutive_addrs_1678 |->
          FALSE
      ]]

(*
  @type: (() => Set(Int));
*)
small_consecutive_EXTRA == {0}

(*
  @type: ((Int, Int) => Int);
*)
small_consecutive_maxOf(small_consecutive_a_2612, small_consecutive_b_2612) ==
  IF small_consecutive_a_2612 > small_consecutive_b_2612
  THEN small_consecutive_a_2612
  ELSE small_consecutive_b_2612

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_consecutive_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_consecutive_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: ((Int, Int) => Set(Int));
*)
small_consecutive_marks(small_consecutive_lo_159, small_consecutive_hi_159) ==
  {
    small_consecutive_i_157 \in
      { small_consecutive_lo_159,
        (small_consecutive_lo_159 + 1),
        ((small_consecutive_lo_159 + small_consecutive_hi_159) \div 2),
        (small_consecutive_hi_159 - 1),
        small_consecutive_hi_159 }:
      small_consecutive_lo_159 <= small_consecutive_i_157
        /\ small_consecutive_i_157 <= small_consecutive_hi_159
  }

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_consecutive_guard(small_consecutive_bad_2590, small_consecutive_sig_2590, small_consecutive_args_2590) ==
  IF small_consecutive_bad_2590
  THEN <<
    [sig |-> small_consecutive_sig_2590, args |-> small_consecutive_args_2590]
  >>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_consecutive_N_RECEIVER == "ERC721InvalidReceiver(address)"

(*
  @type: (() => Int);
*)
small_consecutive_IDMAX == 4

(*
  @type: (() => Str);
*)
small_consecutive_CONSECUTIVE ==
  "ConsecutiveTransfer(uint256 indexed,uint256,address indexed,address indexed)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_consecutive_nPut(small_consecutive_n_1820, small_consecutive_dst_1820, small_consecutive_id_1820) ==
  LET (*
    @type: (() => Int);
  *)
  small_consecutive_src ==
    small_consecutive_n_1820["owner"][small_consecutive_id_1820]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_consecutive_b1 ==
    IF small_consecutive_src = 0
    THEN small_consecutive_n_1820["bal"]
    ELSE [
      small_consecutive_n_1820["bal"] EXCEPT
        ![small_consecutive_src] =
          small_consecutive_n_1820["bal"][(small_consecutive_src)] - 1
    ]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_consecutive_b2 ==
    IF small_consecutive_dst_1820 = 0
    THEN small_consecutive_b1
    ELSE [
      (small_consecutive_b1) EXCEPT
        ![small_consecutive_dst_1820] =
          (small_consecutive_b1)[small_consecutive_dst_1820] + 1
    ]
  IN
  [
    [
      [
        small_consecutive_n_1820 EXCEPT
          !["owner"] =
            [
              small_consecutive_n_1820["owner"] EXCEPT
                ![small_consecutive_id_1820] = small_consecutive_dst_1820
            ]
      ] EXCEPT
        !["bal"] = small_consecutive_b2
    ] EXCEPT
      !["appr"] =
        [
          small_consecutive_n_1820["appr"] EXCEPT
            ![small_consecutive_id_1820] = 0
        ]
  ]

(*
  @type: (() => Str);
*)
small_consecutive_N_MISSING == "ERC721NonexistentToken(uint256)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Bool);
*)
small_consecutive_nMay(small_consecutive_n_1714, small_consecutive_by_1714, small_consecutive_id_1714) ==
  (small_consecutive_n_1714["owner"][small_consecutive_id_1714]
        = small_consecutive_by_1714
      \/ small_consecutive_n_1714["oper"][
        <<
          small_consecutive_n_1714["owner"][small_consecutive_id_1714], small_consecutive_by_1714
        >>
      ])
    \/ small_consecutive_n_1714["appr"][small_consecutive_id_1714]
      = small_consecutive_by_1714

(*
  @type: (() => Str);
*)
small_consecutive_N_UNAUTH == "ERC721InsufficientApproval(address,uint256)"

(*
  @type: (() => Str);
*)
small_consecutive_N_INCORRECT == "ERC721IncorrectOwner(address,uint256,address)"

(*
  @type: (() => Str);
*)
small_consecutive_N_TRANSFER ==
  "Transfer(address indexed,address indexed,uint256 indexed)"

(*
  @type: (() => Str);
*)
small_consecutive_N_APPROVER == "ERC721InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_consecutive_N_APPROVAL ==
  "Approval(address indexed,address indexed,uint256 indexed)"

(*
  @type: (() => Str);
*)
small_consecutive_N_SENDER == "ERC721InvalidSender(address)"

(*
  @type: (() => Set(Int));
*)
small_consecutive_ADDRS ==
  small_consecutive_USERS
    \union { 0, (small_consecutive_SELF), (small_consecutive_RECV) }

(*
  @type: (() => Bool);
*)
small_consecutive_frame ==
  small_consecutive_first' := small_consecutive_first
    /\ small_consecutive_limit' := small_consecutive_limit

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_consecutive_nConsent(small_consecutive_n_1891, small_consecutive_by_1891, small_consecutive_id_1891) ==
  small_consecutive_guard((small_consecutive_n_1891["owner"][
    small_consecutive_id_1891
  ]
    = 0), (small_consecutive_N_MISSING), <<<<small_consecutive_id_1891>>>>)
    \o small_consecutive_guard((small_consecutive_n_1891["owner"][
        small_consecutive_id_1891
      ]
        /= 0
      /\ ~(small_consecutive_nMay(small_consecutive_n_1891, small_consecutive_by_1891,
      small_consecutive_id_1891))), (small_consecutive_N_UNAUTH), <<
      <<small_consecutive_by_1891>>, <<small_consecutive_id_1891>>
    >>)

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_consecutive_nFromTo(small_consecutive_n_1953, small_consecutive_src_1953, small_consecutive_dst_1953,
small_consecutive_id_1953) ==
  (small_consecutive_guard((small_consecutive_dst_1953 = 0), (small_consecutive_N_RECEIVER),
  <<<<0>>>>)
    \o small_consecutive_guard((small_consecutive_n_1953["owner"][
      small_consecutive_id_1953
    ]
      = 0), (small_consecutive_N_MISSING), <<<<small_consecutive_id_1953>>>>))
    \o small_consecutive_guard((small_consecutive_n_1953["owner"][
        small_consecutive_id_1953
      ]
        /= 0
      /\ small_consecutive_n_1953["owner"][small_consecutive_id_1953]
        /= small_consecutive_src_1953), (small_consecutive_N_INCORRECT), <<
      <<small_consecutive_src_1953>>, <<small_consecutive_id_1953>>, <<
        small_consecutive_n_1953["owner"][small_consecutive_id_1953]
      >>
    >>)

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_consecutive_nMoved(small_consecutive_n_1848, small_consecutive_at_1848, small_consecutive_dst_1848,
small_consecutive_id_1848) ==
  [at |-> small_consecutive_at_1848,
    sig |-> small_consecutive_N_TRANSFER,
    args |->
      <<
        <<small_consecutive_n_1848["owner"][small_consecutive_id_1848]>>, <<
          small_consecutive_dst_1848
        >>, <<small_consecutive_id_1848>>
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_consecutive_nApprove(small_consecutive_n_2211, small_consecutive_at_2211, small_consecutive_by_2211,
small_consecutive_to__2211, small_consecutive_id_2211) ==
  LET (*
    @type: (() => Int);
  *)
  small_consecutive_o ==
    small_consecutive_n_2211["owner"][small_consecutive_id_2211]
  IN
  [nft |->
      [
        small_consecutive_n_2211 EXCEPT
          !["appr"] =
            [
              small_consecutive_n_2211["appr"] EXCEPT
                ![small_consecutive_id_2211] = small_consecutive_to__2211
            ]
      ],
    errs |->
      small_consecutive_guard((small_consecutive_o = 0), (small_consecutive_N_MISSING),
      <<<<small_consecutive_id_2211>>>>)
        \o small_consecutive_guard(((small_consecutive_o /= 0
            /\ small_consecutive_o /= small_consecutive_by_2211)
          /\ ~(small_consecutive_n_2211["oper"][
            <<(small_consecutive_o), small_consecutive_by_2211>>
          ])), (small_consecutive_N_APPROVER), <<<<small_consecutive_by_2211>>>>),
    evs |->
      <<
        [at |-> small_consecutive_at_2211,
          sig |-> small_consecutive_N_APPROVAL,
          args |->
            <<
              <<(small_consecutive_o)>>, <<small_consecutive_to__2211>>, <<
                small_consecutive_id_2211
              >>
            >>]
      >>]

(*
  @type: ((Int, Int) => Bool);
*)
small_consecutive_initWith(small_consecutive_f_980, small_consecutive_m_980) ==
  small_consecutive_first = small_consecutive_f_980
    /\ small_consecutive_limit = small_consecutive_m_980
    /\ small_consecutive_nextId = small_consecutive_f_980
    /\ small_consecutive_sealed = FALSE
    /\ small_consecutive_rest
      = [ small_consecutive___949 \in small_consecutive_ADDRS |-> 0 ]
    /\ small_consecutive_nft
      = small_consecutive_emptyNft((small_consecutive_ADDRS), (small_consecutive_EXTRA
        \union { small_consecutive_f_980,
          (small_consecutive_f_980 + 1),
          (small_consecutive_maxOf((small_consecutive_f_980 - 1), 0)) }))
    /\ small_consecutive_obs
      = [
        (small_consecutive_initObs) EXCEPT
          !["args"] =
            <<<<small_consecutive_f_980>>, <<small_consecutive_m_980>>>>
      ]

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_consecutive_batch(small_consecutive_by_404, small_consecutive_dst_404, small_consecutive_cnt_404) ==
  LET (*
    @type: (() => Int);
  *)
  small_consecutive_hi ==
    (small_consecutive_nextId + small_consecutive_cnt_404) - 1
  IN
  LET (*
    @type: (() => Set(Int));
  *)
  small_consecutive_w ==
    {
      small_consecutive_i_186 \in DOMAIN (small_consecutive_nft["owner"]):
        small_consecutive_nextId <= small_consecutive_i_186
          /\ small_consecutive_i_186 <= small_consecutive_hi
    }
      \union small_consecutive_marks(small_consecutive_nextId, (small_consecutive_hi))
  IN
  LET (*
    @type: (() => Set(Int));
  *)
  small_consecutive_dom ==
    (DOMAIN (small_consecutive_nft["owner"]) \union small_consecutive_w)
      \union {(small_consecutive_hi + 1)}
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_consecutive_errs ==
    IF small_consecutive_cnt_404 = 0
    THEN <<>>
    ELSE ((small_consecutive_guard((small_consecutive_dst_404 = 0), (small_consecutive_N_RECEIVER),
    <<<<0>>>>)
      \o small_consecutive_guard((small_consecutive_cnt_404
        > small_consecutive_limit), "ERC721ExceededMaxBatchMint(uint256,uint256)",
      <<<<small_consecutive_cnt_404>>, <<small_consecutive_limit>>>>))
      \o small_consecutive_guard((small_consecutive_hi > small_consecutive_IDMAX),
      "#empty", <<>>))
      \o small_consecutive_guard((small_consecutive_hi > small_consecutive_IDMAX),
      "CheckpointUnorderedInsertion()", <<>>)
  IN
  ~small_consecutive_sealed
    /\ (small_consecutive_cnt_404 > 0
      \/ small_consecutive_nextId <= small_consecutive_IDMAX)
    /\ small_consecutive_obs'
      := [op |-> "mintConsecutive(address,uint96)(uint96)",
        at |-> 0,
        by |-> small_consecutive_by_404,
        pay |-> 0,
        args |->
          <<<<small_consecutive_dst_404>>, <<small_consecutive_cnt_404>>>>,
        errs |-> small_consecutive_errs,
        ret |-> <<<<small_consecutive_nextId>>>>,
        evs |->
          IF small_consecutive_cnt_404 = 0
          THEN <<>>
          ELSE <<
            [at |-> 0,
              sig |-> small_consecutive_CONSECUTIVE,
              args |->
                <<
                  <<small_consecutive_nextId>>, <<(small_consecutive_hi)>>, <<
                    0
                  >>, <<small_consecutive_dst_404>>
                >>]
          >>]
    /\ (IF small_consecutive_errs = <<>> /\ small_consecutive_cnt_404 > 0
    THEN small_consecutive_nft'
        := [
          [
            [
              small_consecutive_nft EXCEPT
                !["owner"] =
                  [
                    small_consecutive_i_326 \in small_consecutive_dom |->
                      IF small_consecutive_i_326 \in small_consecutive_w
                      THEN small_consecutive_dst_404
                      ELSE IF small_consecutive_i_326
                        \in DOMAIN (small_consecutive_nft["owner"])
                      THEN small_consecutive_nft["owner"][
                        small_consecutive_i_326
                      ]
                      ELSE 0
                  ]
            ] EXCEPT
              !["appr"] =
                [
                  small_consecutive_i_344 \in small_consecutive_dom |->
                    IF small_consecutive_i_344
                      \in DOMAIN (small_consecutive_nft["appr"])
                    THEN small_consecutive_nft["appr"][small_consecutive_i_344]
                    ELSE 0
                ]
          ] EXCEPT
            !["bal"] =
              [
                small_consecutive_nft["bal"] EXCEPT
                  ![small_consecutive_dst_404] =
                    small_consecutive_nft["bal"][small_consecutive_dst_404]
                      + small_consecutive_cnt_404
              ]
        ]
      /\ small_consecutive_rest'
        := [
          small_consecutive_rest EXCEPT
            ![small_consecutive_dst_404] =
              (small_consecutive_rest[small_consecutive_dst_404]
                + small_consecutive_cnt_404)
                - Cardinality((small_consecutive_w))
        ]
      /\ small_consecutive_nextId' := (small_consecutive_hi + 1)
    ELSE small_consecutive_nft' := small_consecutive_nft
      /\ small_consecutive_rest' := small_consecutive_rest
      /\ small_consecutive_nextId' := small_consecutive_nextId)
    /\ small_consecutive_sealed' := small_consecutive_sealed
    /\ small_consecutive_frame

(*
  @type: ((Str, Int, Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Bool) => Bool);
*)
small_consecutive_call(small_consecutive_op_127, small_consecutive_by_127, small_consecutive_args_127,
small_consecutive_r_127, small_consecutive_single_127) ==
  small_consecutive_obs'
      := [op |-> small_consecutive_op_127,
        at |-> 0,
        by |-> small_consecutive_by_127,
        pay |-> 0,
        args |-> small_consecutive_args_127,
        errs |-> small_consecutive_r_127["errs"],
        ret |-> <<>>,
        evs |-> small_consecutive_r_127["evs"]]
    /\ small_consecutive_nft'
      := (IF small_consecutive_r_127["errs"] = <<>>
      THEN small_consecutive_r_127["nft"]
      ELSE small_consecutive_nft)
    /\ small_consecutive_nextId' := small_consecutive_nextId
    /\ small_consecutive_rest' := small_consecutive_rest
    /\ small_consecutive_sealed'
      := (small_consecutive_sealed
        \/ (small_consecutive_single_127
          /\ small_consecutive_r_127["errs"] = <<>>))
    /\ small_consecutive_frame

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_consecutive_nTransferFrom(small_consecutive_n_1992, small_consecutive_at_1992,
small_consecutive_by_1992, small_consecutive_src_1992, small_consecutive_dst_1992,
small_consecutive_id_1992) ==
  [nft |->
      small_consecutive_nPut(small_consecutive_n_1992, small_consecutive_dst_1992,
      small_consecutive_id_1992),
    errs |->
      small_consecutive_nConsent(small_consecutive_n_1992, small_consecutive_by_1992,
      small_consecutive_id_1992)
        \o small_consecutive_nFromTo(small_consecutive_n_1992, small_consecutive_src_1992,
        small_consecutive_dst_1992, small_consecutive_id_1992),
    evs |->
      <<
        (small_consecutive_nMoved(small_consecutive_n_1992, small_consecutive_at_1992,
        small_consecutive_dst_1992, small_consecutive_id_1992))
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_consecutive_nForceBurn(small_consecutive_n_2134, small_consecutive_at_2134,
small_consecutive_id_2134) ==
  [nft |->
      small_consecutive_nPut(small_consecutive_n_2134, 0, small_consecutive_id_2134),
    errs |->
      small_consecutive_guard((small_consecutive_n_2134["owner"][
        small_consecutive_id_2134
      ]
        = 0), (small_consecutive_N_MISSING), <<<<small_consecutive_id_2134>>>>),
    evs |->
      <<
        (small_consecutive_nMoved(small_consecutive_n_2134, small_consecutive_at_2134,
        0, small_consecutive_id_2134))
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_consecutive_nMint(small_consecutive_n_2070, small_consecutive_at_2070, small_consecutive_dst_2070,
small_consecutive_id_2070) ==
  [nft |->
      small_consecutive_nPut(small_consecutive_n_2070, small_consecutive_dst_2070,
      small_consecutive_id_2070),
    errs |->
      small_consecutive_guard((small_consecutive_dst_2070 = 0), (small_consecutive_N_RECEIVER),
      <<<<0>>>>)
        \o small_consecutive_guard((small_consecutive_n_2070["owner"][
          small_consecutive_id_2070
        ]
          /= 0), (small_consecutive_N_SENDER), <<<<0>>>>),
    evs |->
      <<
        (small_consecutive_nMoved(small_consecutive_n_2070, small_consecutive_at_2070,
        small_consecutive_dst_2070, small_consecutive_id_2070))
      >>]

(*
  @type: (() => Bool);
*)
small_consecutive_safety ==
  (\A small_consecutive_a_1462 \in small_consecutive_ADDRS:
      small_consecutive_a_1462 = 0
        \/ small_consecutive_nft["bal"][small_consecutive_a_1462]
          = small_consecutive_rest[small_consecutive_a_1462]
            + Cardinality({
              small_consecutive_i_1456 \in
                DOMAIN (small_consecutive_nft["owner"]):
                small_consecutive_nft["owner"][small_consecutive_i_1456]
                  = small_consecutive_a_1462
            }))
    /\ small_consecutive_nft["bal"][0] = 0
    /\ (\A small_consecutive_a_1478 \in small_consecutive_ADDRS:
      small_consecutive_rest[small_consecutive_a_1478] >= 0)
    /\ (\A small_consecutive_i_1500 \in DOMAIN (small_consecutive_nft["owner"]):
      small_consecutive_nft["owner"][small_consecutive_i_1500] /= 0
        \/ small_consecutive_nft["appr"][small_consecutive_i_1500] = 0)
    /\ (small_consecutive_first <= small_consecutive_nextId
      /\ small_consecutive_nextId <= small_consecutive_IDMAX + 1)

(*
  @type: (() => Bool);
*)
small_consecutive_initAll ==
  \E small_consecutive_f \in small_consecutive_FIRSTS:
    small_consecutive_initWith(small_consecutive_f, 2)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_consecutive_transferFrom(small_consecutive_by_635, small_consecutive_src_635,
small_consecutive_dst_635, small_consecutive_id_635) ==
  small_consecutive_call("transferFrom(address,address,uint256)()", small_consecutive_by_635,
  <<
    <<small_consecutive_src_635>>, <<small_consecutive_dst_635>>, <<
      small_consecutive_id_635
    >>
  >>, (small_consecutive_nTransferFrom(small_consecutive_nft, 0, small_consecutive_by_635,
  small_consecutive_src_635, small_consecutive_dst_635, small_consecutive_id_635)),
  FALSE)

(*
  @type: ((Int, Int) => Bool);
*)
small_consecutive_burn(small_consecutive_by_587, small_consecutive_id_587) ==
  small_consecutive_call("burn(uint256)()", small_consecutive_by_587, <<
    <<small_consecutive_id_587>>
  >>, (small_consecutive_nForceBurn(small_consecutive_nft, 0, small_consecutive_id_587)),
  FALSE)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_consecutive_approve(small_consecutive_by_820, small_consecutive_to__820, small_consecutive_id_820) ==
  small_consecutive_call("approve(address,uint256)()", small_consecutive_by_820,
  <<<<small_consecutive_to__820>>, <<small_consecutive_id_820>>>>, (small_consecutive_nApprove(small_consecutive_nft,
  0, small_consecutive_by_820, small_consecutive_to__820, small_consecutive_id_820)),
  FALSE)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_consecutive_mint(small_consecutive_by_529, small_consecutive_dst_529, small_consecutive_id_529) ==
  small_consecutive_call("mint(address,uint256)()", small_consecutive_by_529, <<
    <<small_consecutive_dst_529>>, <<small_consecutive_id_529>>
  >>, (small_consecutive_nMint(small_consecutive_nft, 0, small_consecutive_dst_529,
  small_consecutive_id_529)), TRUE)

(*
  @type: (() => Bool);
*)
q_inv == small_consecutive_safety

(*
  @type: (() => Bool);
*)
q_init == small_consecutive_initAll

(*
  @type: (() => Bool);
*)
small_consecutive_stepAll ==
  \E small_consecutive_id \in DOMAIN (small_consecutive_nft["owner"]):
    \E small_consecutive_by \in small_consecutive_USERS:
      (\E small_consecutive_cnt \in 0 .. 3:
          small_consecutive_batch(1, small_consecutive_by, small_consecutive_cnt))
        \/ (\E small_consecutive_dst \in small_consecutive_USERS:
          small_consecutive_transferFrom(small_consecutive_by, small_consecutive_nft[
            "owner"
          ][
            small_consecutive_id
          ], small_consecutive_dst, small_consecutive_id))
        \/ small_consecutive_burn(1, small_consecutive_id)
        \/ small_consecutive_approve(small_consecutive_by, 1, small_consecutive_id)
        \/ small_consecutive_mint(1, small_consecutive_by, small_consecutive_id)

(*
  @type: (() => Bool);
*)
q_step == small_consecutive_stepAll


View == <<small_consecutive_first, small_consecutive_limit, small_consecutive_nextId, small_consecutive_sealed, small_consecutive_rest, small_consecutive_nft>>

==============================================================================
