\* generated by tools/export_tla.py from erc721.qnt 4d48a3ba65059530c5622dfb410feff02550fbbf64100cb6d03154637a8985a3
--------------------------------- MODULE erc721_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) };
  *)
  small_erc721_nft

(*
  @type: ((Set(Int), Set(Int)) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_erc721_emptyNft(small_erc721_addrs_1992, small_erc721_ids_1992) ==
  [owner |-> [ small_erc721___1968 \in small_erc721_ids_1992 |-> 0 ],
    bal |-> [ small_erc721___1974 \in small_erc721_addrs_1992 |-> 0 ],
    appr |-> [ small_erc721___1980 \in small_erc721_ids_1992 |-> 0 ],
    oper |->
      [
        small_erc721___1988 \in
          small_erc721_addrs_1992 \X small_erc721_addrs_1992 |->
          FALSE
      ]]

(*
  @type: (() => Set(Int));
*)
small_erc721_USERS == { 1, 2 }

(*
  @type: (() => Int);
*)
small_erc721_SELF == 100

(*
  @type: (() => Int);
*)
small_erc721_RECV == 101

(*
  @type: (() => Set(Int));
*)
small_erc721_IDS == { 0, 1 }

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_erc721_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_erc721_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_erc721_given

VARIABLE
  (*
    @type: Bool;
  *)
  small_erc721_stolen

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_erc721_nPut(small_erc721_n_2134, small_erc721_dst_2134, small_erc721_id_2134) ==
  LET (*
    @type: (() => Int);
  *)
  small_erc721_src == small_erc721_n_2134["owner"][small_erc721_id_2134]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_erc721_b1 ==
    IF small_erc721_src = 0
    THEN small_erc721_n_2134["bal"]
    ELSE [
      small_erc721_n_2134["bal"] EXCEPT
        ![small_erc721_src] = small_erc721_n_2134["bal"][(small_erc721_src)] - 1
    ]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_erc721_b2 ==
    IF small_erc721_dst_2134 = 0
    THEN small_erc721_b1
    ELSE [
      (small_erc721_b1) EXCEPT
        ![small_erc721_dst_2134] = (small_erc721_b1)[small_erc721_dst_2134] + 1
    ]
  IN
  [
    [
      [
        small_erc721_n_2134 EXCEPT
          !["owner"] =
            [
              small_erc721_n_2134["owner"] EXCEPT
                ![small_erc721_id_2134] = small_erc721_dst_2134
            ]
      ] EXCEPT
        !["bal"] = small_erc721_b2
    ] EXCEPT
      !["appr"] =
        [ small_erc721_n_2134["appr"] EXCEPT ![small_erc721_id_2134] = 0 ]
  ]

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc721_guard(small_erc721_bad_2904, small_erc721_sig_2904, small_erc721_args_2904) ==
  IF small_erc721_bad_2904
  THEN <<[sig |-> small_erc721_sig_2904, args |-> small_erc721_args_2904]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_erc721_N_RECEIVER == "ERC721InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_erc721_N_SENDER == "ERC721InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_erc721_N_TRANSFER ==
  "Transfer(address indexed,address indexed,uint256 indexed)"

(*
  @type: (() => Str);
*)
small_erc721_N_MISSING == "ERC721NonexistentToken(uint256)"

(*
  @type: (() => Str);
*)
small_erc721_N_APPROVER == "ERC721InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_erc721_N_APPROVAL ==
  "Approval(address indexed,address indexed,uint256 indexed)"

(*
  @type: (() => Str);
*)
small_erc721_N_INCORRECT == "ERC721IncorrectOwner(address,uint256,address)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Bool);
*)
small_erc721_nMay(small_erc721_n_2028, small_erc721_by_2028, small_erc721_id_2028) ==
  (small_erc721_n_2028["owner"][small_erc721_id_2028] = small_erc721_by_2028
      \/ small_erc721_n_2028["oper"][
        <<
          small_erc721_n_2028["owner"][small_erc721_id_2028], small_erc721_by_2028
        >>
      ])
    \/ small_erc721_n_2028["appr"][small_erc721_id_2028] = small_erc721_by_2028

(*
  @type: (() => Str);
*)
small_erc721_N_UNAUTH == "ERC721InsufficientApproval(address,uint256)"

(*
  @type: (() => Str);
*)
small_erc721_N_OPERATOR == "ERC721InvalidOperator(address)"

(*
  @type: (() => Str);
*)
small_erc721_N_FORALL == "ApprovalForAll(address indexed,address indexed,bool)"

(*
  @type: ((Bool) => Int);
*)
small_erc721_bit(small_erc721_b_2913) == IF small_erc721_b_2913 THEN 1 ELSE 0

(*
  @type: (() => Str);
*)
small_erc721_ON_RECEIVED == "onERC721Received(address,address,uint256,bytes)"

(*
  @type: (({ ans: Int, id: Int, kind: Int, to_: Int }) => Set(Int));
*)
small_erc721_renews(small_erc721_s_363) ==
  IF small_erc721_s_363["kind"] = 2 THEN {small_erc721_s_363["id"]} ELSE {}

(*
  @type: (() => { ans: Int, id: Int, kind: Int, to_: Int });
*)
small_erc721_QUIET == [kind |-> 0, to_ |-> 0, id |-> 0, ans |-> 0]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Set(Int), Set(Int)) => Bool);
*)
small_erc721_nftOk(small_erc721_n_2736, small_erc721_addrs_2736, small_erc721_ids_2736) ==
  (\A small_erc721_a_2686 \in small_erc721_addrs_2736:
      small_erc721_a_2686 = 0
        \/ small_erc721_n_2736["bal"][small_erc721_a_2686]
          = Cardinality({
            small_erc721_i_2681 \in small_erc721_ids_2736:
              small_erc721_n_2736["owner"][small_erc721_i_2681]
                = small_erc721_a_2686
          }))
    /\ small_erc721_n_2736["bal"][0] = 0
    /\ (\A small_erc721_i_2712 \in small_erc721_ids_2736:
      small_erc721_n_2736["owner"][small_erc721_i_2712] /= 0
        \/ small_erc721_n_2736["appr"][small_erc721_i_2712] = 0)
    /\ (\A small_erc721_a_2733 \in small_erc721_addrs_2736:
      ~(small_erc721_n_2736["oper"][<<small_erc721_a_2733, 0>>])
        /\ ~(small_erc721_n_2736["oper"][<<0, small_erc721_a_2733>>]))

(*
  @type: (() => Set(Int));
*)
small_erc721_ADDRS ==
  small_erc721_USERS \union { 0, (small_erc721_SELF), (small_erc721_RECV) }

(*
  @type: ((Str, Int, Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Set(Int)) => Bool);
*)
small_erc721_call(small_erc721_op_444, small_erc721_by_444, small_erc721_args_444,
small_erc721_r_444, small_erc721_renewed_444) ==
  small_erc721_obs'
      := [op |-> small_erc721_op_444,
        at |-> 0,
        by |-> small_erc721_by_444,
        pay |-> 0,
        args |-> small_erc721_args_444,
        errs |-> small_erc721_r_444["errs"],
        ret |-> <<>>,
        evs |-> small_erc721_r_444["evs"]]
    /\ small_erc721_nft'
      := (IF small_erc721_r_444["errs"] = <<>>
      THEN small_erc721_r_444["nft"]
      ELSE small_erc721_nft)
    /\ small_erc721_given'
      := [
        small_erc721_i_436 \in small_erc721_IDS |->
          IF small_erc721_r_444["errs"] = <<>>
            /\ small_erc721_i_436 \in small_erc721_renewed_444
          THEN small_erc721_r_444["nft"]["owner"][small_erc721_i_436]
          ELSE small_erc721_given[small_erc721_i_436]
      ]
    /\ small_erc721_stolen' := small_erc721_stolen

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_erc721_nMoved(small_erc721_n_2162, small_erc721_at_2162, small_erc721_dst_2162,
small_erc721_id_2162) ==
  [at |-> small_erc721_at_2162,
    sig |-> small_erc721_N_TRANSFER,
    args |->
      <<
        <<small_erc721_n_2162["owner"][small_erc721_id_2162]>>, <<
          small_erc721_dst_2162
        >>, <<small_erc721_id_2162>>
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_nApprove(small_erc721_n_2525, small_erc721_at_2525, small_erc721_by_2525,
small_erc721_to__2525, small_erc721_id_2525) ==
  LET (*
    @type: (() => Int);
  *)
  small_erc721_o == small_erc721_n_2525["owner"][small_erc721_id_2525]
  IN
  [nft |->
      [
        small_erc721_n_2525 EXCEPT
          !["appr"] =
            [
              small_erc721_n_2525["appr"] EXCEPT
                ![small_erc721_id_2525] = small_erc721_to__2525
            ]
      ],
    errs |->
      small_erc721_guard((small_erc721_o = 0), (small_erc721_N_MISSING), <<
        <<small_erc721_id_2525>>
      >>)
        \o small_erc721_guard(((small_erc721_o /= 0
            /\ small_erc721_o /= small_erc721_by_2525)
          /\ ~(small_erc721_n_2525["oper"][
            <<(small_erc721_o), small_erc721_by_2525>>
          ])), (small_erc721_N_APPROVER), <<<<small_erc721_by_2525>>>>),
    evs |->
      <<
        [at |-> small_erc721_at_2525,
          sig |-> small_erc721_N_APPROVAL,
          args |->
            <<
              <<(small_erc721_o)>>, <<small_erc721_to__2525>>, <<
                small_erc721_id_2525
              >>
            >>]
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc721_nFromTo(small_erc721_n_2267, small_erc721_src_2267, small_erc721_dst_2267,
small_erc721_id_2267) ==
  (small_erc721_guard((small_erc721_dst_2267 = 0), (small_erc721_N_RECEIVER), <<
    <<0>>
  >>)
    \o small_erc721_guard((small_erc721_n_2267["owner"][small_erc721_id_2267]
      = 0), (small_erc721_N_MISSING), <<<<small_erc721_id_2267>>>>))
    \o small_erc721_guard((small_erc721_n_2267["owner"][small_erc721_id_2267]
        /= 0
      /\ small_erc721_n_2267["owner"][small_erc721_id_2267]
        /= small_erc721_src_2267), (small_erc721_N_INCORRECT), <<
      <<small_erc721_src_2267>>, <<small_erc721_id_2267>>, <<
        small_erc721_n_2267["owner"][small_erc721_id_2267]
      >>
    >>)

(*
  @type: ((Str, Int, Int, Seq(Seq(Int)), { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Set(Int)) => Bool);
*)
small_erc721_consented(small_erc721_op_573, small_erc721_by_573, small_erc721_id_573,
small_erc721_args_573, small_erc721_r_573, small_erc721_renewed_573) ==
  small_erc721_obs'
      := [op |-> small_erc721_op_573,
        at |-> 0,
        by |-> small_erc721_by_573,
        pay |-> 0,
        args |-> small_erc721_args_573,
        errs |-> small_erc721_r_573["errs"],
        ret |-> <<>>,
        evs |-> small_erc721_r_573["evs"]]
    /\ small_erc721_nft'
      := (IF small_erc721_r_573["errs"] = <<>>
      THEN small_erc721_r_573["nft"]
      ELSE small_erc721_nft)
    /\ small_erc721_given'
      := [
        small_erc721_i_519 \in small_erc721_IDS |->
          IF small_erc721_r_573["errs"] = <<>>
            /\ small_erc721_i_519 \in small_erc721_renewed_573
          THEN small_erc721_r_573["nft"]["owner"][small_erc721_i_519]
          ELSE small_erc721_given[small_erc721_i_519]
      ]
    /\ (small_erc721_stolen' := small_erc721_stolen
      \/ (((small_erc721_r_573["errs"] = <<>>
            /\ small_erc721_nft["owner"][small_erc721_id_573]
              /= small_erc721_by_573)
          /\ ~(small_erc721_nft["oper"][
            <<
              small_erc721_nft["owner"][small_erc721_id_573], small_erc721_by_573
            >>
          ]))
        /\ ~(small_erc721_nft["appr"][small_erc721_id_573] = small_erc721_by_573
          /\ small_erc721_given[small_erc721_id_573]
            = small_erc721_nft["owner"][small_erc721_id_573])))

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc721_nConsent(small_erc721_n_2205, small_erc721_by_2205, small_erc721_id_2205) ==
  small_erc721_guard((small_erc721_n_2205["owner"][small_erc721_id_2205] = 0), (small_erc721_N_MISSING),
  <<<<small_erc721_id_2205>>>>)
    \o small_erc721_guard((small_erc721_n_2205["owner"][small_erc721_id_2205]
        /= 0
      /\ ~(small_erc721_nMay(small_erc721_n_2205, small_erc721_by_2205, small_erc721_id_2205))),
    (small_erc721_N_UNAUTH), <<
      <<small_erc721_by_2205>>, <<small_erc721_id_2205>>
    >>)

(*
  @type: (({ ans: Int, id: Int, kind: Int, to_: Int }) => Seq(Seq(Int)));
*)
small_erc721_scriptArgs(small_erc721_s_212) ==
  Append((IF small_erc721_s_212["kind"] = 5
  THEN <<
    <<
      0, 5, 0, (small_erc721_RECV), small_erc721_s_212["to_"], small_erc721_s_212[
        "id"
      ]
    >>
  >>
  ELSE IF small_erc721_s_212["kind"] = 2
  THEN <<<<0, 2, 0, small_erc721_s_212["to_"], small_erc721_s_212["id"]>>>>
  ELSE IF small_erc721_s_212["kind"] = 6
  THEN <<<<0, 6, 0, small_erc721_s_212["to_"], 1>>>>
  ELSE IF small_erc721_s_212["kind"] = 3
  THEN <<<<0, 3, 0, small_erc721_s_212["id"]>>>>
  ELSE <<>>), <<0, 99, small_erc721_s_212["ans"]>>)

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Bool) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_nSetAll(small_erc721_n_2651, small_erc721_at_2651, small_erc721_by_2651,
small_erc721_op_2651, small_erc721_on_2651) ==
  [nft |->
      [
        small_erc721_n_2651 EXCEPT
          !["oper"] =
            [
              small_erc721_n_2651["oper"] EXCEPT
                ![<<small_erc721_by_2651, small_erc721_op_2651>>] =
                  small_erc721_on_2651
            ]
      ],
    errs |->
      small_erc721_guard((small_erc721_op_2651 = 0), (small_erc721_N_OPERATOR), <<
        <<0>>
      >>),
    evs |->
      <<
        [at |-> small_erc721_at_2651,
          sig |-> small_erc721_N_FORALL,
          args |->
            <<
              <<small_erc721_by_2651>>, <<small_erc721_op_2651>>, <<
                (small_erc721_bit(small_erc721_on_2651))
              >>
            >>]
      >>]

(*
  @type: ((Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_erc721_refusal(small_erc721_dst_268, small_erc721_ans_268) ==
  IF small_erc721_dst_268 = small_erc721_SELF
  THEN <<
    [sig |-> small_erc721_N_RECEIVER, args |-> <<<<(small_erc721_SELF)>>>>]
  >>
  ELSE IF small_erc721_dst_268 /= small_erc721_RECV \/ small_erc721_ans_268 = 0
  THEN <<>>
  ELSE IF small_erc721_ans_268 = 4
  THEN <<[sig |-> "#raw", args |-> <<<<222, 173, 190, 239, 1, 2, 3, 4>>>>]>>
  ELSE <<
    [sig |-> small_erc721_N_RECEIVER, args |-> <<<<(small_erc721_RECV)>>>>]
  >>

(*
  @type: (() => Bool);
*)
small_erc721_init ==
  small_erc721_nft
      = small_erc721_emptyNft((small_erc721_ADDRS), (small_erc721_IDS))
    /\ small_erc721_obs = small_erc721_initObs
    /\ small_erc721_given = [ small_erc721___1232 \in small_erc721_IDS |-> 0 ]
    /\ small_erc721_stolen = FALSE

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_nMint(small_erc721_n_2384, small_erc721_at_2384, small_erc721_dst_2384,
small_erc721_id_2384) ==
  [nft |->
      small_erc721_nPut(small_erc721_n_2384, small_erc721_dst_2384, small_erc721_id_2384),
    errs |->
      small_erc721_guard((small_erc721_dst_2384 = 0), (small_erc721_N_RECEIVER),
      <<<<0>>>>)
        \o small_erc721_guard((small_erc721_n_2384["owner"][
          small_erc721_id_2384
        ]
          /= 0), (small_erc721_N_SENDER), <<<<0>>>>),
    evs |->
      <<
        (small_erc721_nMoved(small_erc721_n_2384, small_erc721_at_2384, small_erc721_dst_2384,
        small_erc721_id_2384))
      >>]

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_erc721_approve(small_erc721_by_1194, small_erc721_to__1194, small_erc721_id_1194) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_erc721_r ==
    small_erc721_nApprove(small_erc721_nft, 0, small_erc721_by_1194, small_erc721_to__1194,
    small_erc721_id_1194)
  IN
  small_erc721_call("approve(address,uint256)()", small_erc721_by_1194, <<
    <<small_erc721_to__1194>>, <<small_erc721_id_1194>>
  >>, (small_erc721_r), {small_erc721_id_1194})

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_nForceMove(small_erc721_n_2338, small_erc721_at_2338, small_erc721_src_2338,
small_erc721_dst_2338, small_erc721_id_2338) ==
  [nft |->
      small_erc721_nPut(small_erc721_n_2338, small_erc721_dst_2338, small_erc721_id_2338),
    errs |->
      small_erc721_nFromTo(small_erc721_n_2338, small_erc721_src_2338, small_erc721_dst_2338,
      small_erc721_id_2338),
    evs |->
      <<
        (small_erc721_nMoved(small_erc721_n_2338, small_erc721_at_2338, small_erc721_dst_2338,
        small_erc721_id_2338))
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_nBurn(small_erc721_n_2413, small_erc721_at_2413, small_erc721_by_2413,
small_erc721_id_2413) ==
  [nft |-> small_erc721_nPut(small_erc721_n_2413, 0, small_erc721_id_2413),
    errs |->
      small_erc721_nConsent(small_erc721_n_2413, small_erc721_by_2413, small_erc721_id_2413),
    evs |->
      <<
        (small_erc721_nMoved(small_erc721_n_2413, small_erc721_at_2413, 0, small_erc721_id_2413))
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_nTransferFrom(small_erc721_n_2306, small_erc721_at_2306, small_erc721_by_2306,
small_erc721_src_2306, small_erc721_dst_2306, small_erc721_id_2306) ==
  [nft |->
      small_erc721_nPut(small_erc721_n_2306, small_erc721_dst_2306, small_erc721_id_2306),
    errs |->
      small_erc721_nConsent(small_erc721_n_2306, small_erc721_by_2306, small_erc721_id_2306)
        \o small_erc721_nFromTo(small_erc721_n_2306, small_erc721_src_2306, small_erc721_dst_2306,
        small_erc721_id_2306),
    evs |->
      <<
        (small_erc721_nMoved(small_erc721_n_2306, small_erc721_at_2306, small_erc721_dst_2306,
        small_erc721_id_2306))
      >>]

(*
  @type: ((Int, Int, Bool) => Bool);
*)
small_erc721_setAll(small_erc721_by_1219, small_erc721_op_1219, small_erc721_on_1219) ==
  small_erc721_call("setApprovalForAll(address,bool)()", small_erc721_by_1219, <<
    <<small_erc721_op_1219>>, <<(small_erc721_bit(small_erc721_on_1219))>>
  >>, (small_erc721_nSetAll(small_erc721_nft, 0, small_erc721_by_1219, small_erc721_op_1219,
  small_erc721_on_1219)), {})

(*
  @type: (() => Bool);
*)
small_erc721_safety ==
  small_erc721_nftOk(small_erc721_nft, (small_erc721_ADDRS), (small_erc721_IDS))
    /\ ~small_erc721_stolen

(*
  @type: (() => Bool);
*)
q_init == small_erc721_init

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_erc721_mint(small_erc721_by_596, small_erc721_dst_596, small_erc721_id_596) ==
  small_erc721_call("mint(address,uint256)()", small_erc721_by_596, <<
    <<small_erc721_dst_596>>, <<small_erc721_id_596>>
  >>, (small_erc721_nMint(small_erc721_nft, 0, small_erc721_dst_596, small_erc721_id_596)),
  {})

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_erc721_forceMove(small_erc721_by_822, small_erc721_src_822, small_erc721_dst_822,
small_erc721_id_822) ==
  small_erc721_call("forceTransfer(address,address,uint256)()", small_erc721_by_822,
  <<
    <<small_erc721_src_822>>, <<small_erc721_dst_822>>, <<small_erc721_id_822>>
  >>, (small_erc721_nForceMove(small_erc721_nft, 0, small_erc721_src_822, small_erc721_dst_822,
  small_erc721_id_822)), {})

(*
  @type: ((Int, Int) => Bool);
*)
small_erc721_burn(small_erc721_by_616, small_erc721_id_616) ==
  small_erc721_consented("burn(uint256)()", small_erc721_by_616, small_erc721_id_616,
  <<<<small_erc721_id_616>>>>, (small_erc721_nBurn(small_erc721_nft, 0, small_erc721_by_616,
  small_erc721_id_616)), {})

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_erc721_transferFrom(small_erc721_by_646, small_erc721_src_646, small_erc721_dst_646,
small_erc721_id_646) ==
  small_erc721_consented("transferFrom(address,address,uint256)()", small_erc721_by_646,
  small_erc721_id_646, <<
    <<small_erc721_src_646>>, <<small_erc721_dst_646>>, <<small_erc721_id_646>>
  >>, (small_erc721_nTransferFrom(small_erc721_nft, 0, small_erc721_by_646, small_erc721_src_646,
  small_erc721_dst_646, small_erc721_id_646)), {})

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, { ans: Int, id: Int, kind: Int, to_: Int }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_scripted(small_erc721_n_133, small_erc721_s_133) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_erc721_r ==
    IF small_erc721_s_133["kind"] = 5
    THEN small_erc721_nTransferFrom(small_erc721_n_133, 0, (small_erc721_RECV), (small_erc721_RECV),
    small_erc721_s_133["to_"], small_erc721_s_133["id"])
    ELSE IF small_erc721_s_133["kind"] = 2
    THEN small_erc721_nApprove(small_erc721_n_133, 0, (small_erc721_RECV), small_erc721_s_133[
      "to_"
    ], small_erc721_s_133["id"])
    ELSE IF small_erc721_s_133["kind"] = 6
    THEN small_erc721_nSetAll(small_erc721_n_133, 0, (small_erc721_RECV), small_erc721_s_133[
      "to_"
    ], TRUE)
    ELSE IF small_erc721_s_133["kind"] = 3
    THEN small_erc721_nBurn(small_erc721_n_133, 0, (small_erc721_RECV), small_erc721_s_133[
      "id"
    ])
    ELSE [nft |-> small_erc721_n_133, errs |-> <<>>, evs |-> <<>>]
  IN
  IF (small_erc721_r)["errs"] = <<>>
  THEN small_erc721_r
  ELSE [nft |-> small_erc721_n_133, errs |-> <<>>, evs |-> <<>>]

(*
  @type: (() => Bool);
*)
q_inv == small_erc721_safety

(*
  @type: (({ errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Int, Int, Int, Int, Seq(Int), { ans: Int, id: Int, kind: Int, to_: Int }) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_erc721_checked(small_erc721_moved_346, small_erc721_by_346, small_erc721_src_346,
small_erc721_dst_346, small_erc721_id_346, small_erc721_data_346, small_erc721_s_346) ==
  IF small_erc721_moved_346["errs"] /= <<>>
  THEN small_erc721_moved_346
  ELSE IF small_erc721_dst_346 = small_erc721_RECV
  THEN LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_erc721_cb ==
    small_erc721_scripted(small_erc721_moved_346["nft"], small_erc721_s_346)
  IN
  [nft |-> (small_erc721_cb)["nft"],
    errs |->
      small_erc721_refusal(small_erc721_dst_346, small_erc721_s_346["ans"]),
    evs |->
      Append(small_erc721_moved_346["evs"], [at |-> 1,
        sig |-> small_erc721_ON_RECEIVED,
        args |->
          <<
            <<small_erc721_by_346>>, <<small_erc721_src_346>>, <<
              small_erc721_id_346
            >>, small_erc721_data_346
          >>])
        \o (small_erc721_cb)["evs"]]
  ELSE [
    small_erc721_moved_346 EXCEPT
      !["errs"] =
        small_erc721_refusal(small_erc721_dst_346, small_erc721_s_346["ans"])
  ]

(*
  @type: ((Int, Int, Int, Int, { ans: Int, id: Int, kind: Int, to_: Int }) => Bool);
*)
small_erc721_safeTransfer(small_erc721_by_689, small_erc721_src_689, small_erc721_dst_689,
small_erc721_id_689, small_erc721_s_689) ==
  small_erc721_consented("safeTransferFrom(address,address,uint256)()", small_erc721_by_689,
  small_erc721_id_689, (<<
    <<small_erc721_src_689>>, <<small_erc721_dst_689>>, <<small_erc721_id_689>>
  >>
    \o small_erc721_scriptArgs(small_erc721_s_689)), (small_erc721_checked((small_erc721_nTransferFrom(small_erc721_nft,
  0, small_erc721_by_689, small_erc721_src_689, small_erc721_dst_689, small_erc721_id_689)),
  small_erc721_by_689, small_erc721_src_689, small_erc721_dst_689, small_erc721_id_689,
  <<>>, small_erc721_s_689)), (small_erc721_renews(small_erc721_s_689)))

(*
  @type: (() => Bool);
*)
small_erc721_stepAll ==
  \E small_erc721_by \in small_erc721_USERS:
    \E small_erc721_id \in small_erc721_IDS:
      (\E small_erc721_x \in small_erc721_USERS
          \union { 0, (small_erc721_RECV) }:
          small_erc721_mint(small_erc721_by, small_erc721_x, small_erc721_id)
            \/ small_erc721_approve(small_erc721_by, small_erc721_x, small_erc721_id)
            \/ small_erc721_forceMove(small_erc721_by, small_erc721_nft["owner"][
              small_erc721_id
            ], small_erc721_x, small_erc721_id))
        \/ small_erc721_burn(small_erc721_by, small_erc721_id)
        \/ (\E small_erc721_x \in small_erc721_USERS
          \union { 0, (small_erc721_RECV) }:
          \E small_erc721_src \in small_erc721_USERS
            \union {(small_erc721_RECV)}:
            small_erc721_transferFrom(small_erc721_by, small_erc721_src, small_erc721_x,
            small_erc721_id))
        \/ (\E small_erc721_y \in small_erc721_USERS:
          \E small_erc721_kind \in { 0, 2, 3, 5 }:
            \E small_erc721_id2 \in small_erc721_IDS:
              small_erc721_safeTransfer(small_erc721_by, small_erc721_nft[
                "owner"
              ][
                small_erc721_id
              ], (small_erc721_RECV), small_erc721_id, [kind |->
                  small_erc721_kind,
                to_ |-> small_erc721_y,
                id |-> small_erc721_id2,
                ans |-> 0]))
        \/ small_erc721_safeTransfer(small_erc721_by, small_erc721_nft["owner"][
          small_erc721_id
        ], (small_erc721_RECV), small_erc721_id, [
          (small_erc721_QUIET) EXCEPT
            !["ans"] = 1
        ])
        \/ (\E small_erc721_y \in small_erc721_USERS:
          \E small_erc721_on \in { TRUE, FALSE }:
            small_erc721_setAll(small_erc721_by, small_erc721_y, small_erc721_on))

(*
  @type: (() => Bool);
*)
q_step == small_erc721_stepAll


View == <<small_erc721_nft, small_erc721_given, small_erc721_stolen>>

==============================================================================
