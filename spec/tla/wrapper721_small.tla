\* generated by tools/export_tla.py from wrapper721.qnt 33737f3b513fab5f0d540563a034ee97f255840544cd141e7d045f378e1572ee
--------------------------------- MODULE wrapper721_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) };
  *)
  small_wrapper721_wr

(*
  @type: ((Set(Int), Set(Int)) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_wrapper721_emptyNft(small_wrapper721_addrs_1833, small_wrapper721_ids_1833) ==
  [owner |-> [ small_wrapper721___1809 \in small_wrapper721_ids_1833 |-> 0 ],
    bal |-> [ small_wrapper721___1815 \in small_wrapper721_addrs_1833 |-> 0 ],
    appr |-> [ small_wrapper721___1821 \in small_wrapper721_ids_1833 |-> 0 ],
    oper |->
      [
        small_wrapper721___1829 \in
          small_wrapper721_addrs_1833 \X small_wrapper721_addrs_1833 |->
          FALSE
      ]]

(*
  @type: (() => Set(Int));
*)
small_wrapper721_USERS == { 1, 2 }

(*
  @type: (() => Int);
*)
small_wrapper721_SELF == 100

(*
  @type: (() => Int);
*)
small_wrapper721_RECV == 101

(*
  @type: (() => Int);
*)
small_wrapper721_UND == 102

(*
  @type: (() => Set(Int));
*)
small_wrapper721_IDS == { 1, 2 }

VARIABLE
  (*
    @type: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) };
  *)
  small_wrapper721_und

VARIABLE
  (*
    @type: Int;
  *)
  small_wrapper721_mode

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_wrapper721_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_wrapper721_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_onUnd(small_wrapper721_w_942, small_wrapper721_u_942, small_wrapper721_m_942,
small_wrapper721_r_942) ==
  [wr |-> small_wrapper721_w_942,
    und |-> small_wrapper721_r_942["nft"],
    errs |->
      IF small_wrapper721_r_942["errs"] /= <<>> \/ small_wrapper721_m_942 >= 3
      THEN <<[sig |-> "#any", args |-> <<>>]>>
      ELSE <<>>,
    evs |-> <<>>,
    calls |-> 0]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) });
*)
small_wrapper721_nPut(small_wrapper721_n_1975, small_wrapper721_dst_1975, small_wrapper721_id_1975) ==
  LET (*
    @type: (() => Int);
  *)
  small_wrapper721_src ==
    small_wrapper721_n_1975["owner"][small_wrapper721_id_1975]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_wrapper721_b1 ==
    IF small_wrapper721_src = 0
    THEN small_wrapper721_n_1975["bal"]
    ELSE [
      small_wrapper721_n_1975["bal"] EXCEPT
        ![small_wrapper721_src] =
          small_wrapper721_n_1975["bal"][(small_wrapper721_src)] - 1
    ]
  IN
  LET (*
    @type: (() => (Int -> Int));
  *)
  small_wrapper721_b2 ==
    IF small_wrapper721_dst_1975 = 0
    THEN small_wrapper721_b1
    ELSE [
      (small_wrapper721_b1) EXCEPT
        ![small_wrapper721_dst_1975] =
          (small_wrapper721_b1)[small_wrapper721_dst_1975] + 1
    ]
  IN
  [
    [
      [
        small_wrapper721_n_1975 EXCEPT
          !["owner"] =
            [
              small_wrapper721_n_1975["owner"] EXCEPT
                ![small_wrapper721_id_1975] = small_wrapper721_dst_1975
            ]
      ] EXCEPT
        !["bal"] = small_wrapper721_b2
    ] EXCEPT
      !["appr"] =
        [
          small_wrapper721_n_1975["appr"] EXCEPT
            ![small_wrapper721_id_1975] = 0
        ]
  ]

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_wrapper721_guard(small_wrapper721_bad_2745, small_wrapper721_sig_2745, small_wrapper721_args_2745) ==
  IF small_wrapper721_bad_2745
  THEN <<
    [sig |-> small_wrapper721_sig_2745, args |-> small_wrapper721_args_2745]
  >>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_wrapper721_N_RECEIVER == "ERC721InvalidReceiver(address)"

(*
  @type: (() => Str);
*)
small_wrapper721_N_SENDER == "ERC721InvalidSender(address)"

(*
  @type: (() => Str);
*)
small_wrapper721_N_TRANSFER ==
  "Transfer(address indexed,address indexed,uint256 indexed)"

(*
  @type: ((Bool) => Int);
*)
small_wrapper721_bit(small_wrapper721_b_2754) ==
  IF small_wrapper721_b_2754 THEN 1 ELSE 0

(*
  @type: (() => Str);
*)
small_wrapper721_N_OPERATOR == "ERC721InvalidOperator(address)"

(*
  @type: (() => Str);
*)
small_wrapper721_N_FORALL ==
  "ApprovalForAll(address indexed,address indexed,bool)"

(*
  @type: ((Seq(Int)) => Seq(Seq(Int)));
*)
small_wrapper721_scripted(small_wrapper721_script_565) ==
  LET (*
    @type: ((Seq(Seq(Int)), Int) => Seq(Seq(Int)));
  *)
  __QUINT_LAMBDA0(small_wrapper721_l_563, small_wrapper721_i_563) ==
    Append(small_wrapper721_l_563, <<
      small_wrapper721_i_563, 99, small_wrapper721_script_565[
        (small_wrapper721_i_563 + 1)
      ]
    >>)
  IN
  LET (*
    @type: (() => Set(Int));
  *)
  __quint_var0 == DOMAIN small_wrapper721_script_565
  IN
  ApaFoldSet(__QUINT_LAMBDA0, <<>>, (IF __quint_var0 = {}
  THEN {}
  ELSE (__quint_var0 \union {0}) \ {(Len(small_wrapper721_script_565))}))

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_start(small_wrapper721_w_79, small_wrapper721_u_79) ==
  [wr |-> small_wrapper721_w_79,
    und |-> small_wrapper721_u_79,
    errs |-> <<>>,
    evs |-> <<>>,
    calls |-> 0]

(*
  @type: (() => Str);
*)
small_wrapper721_N_MISSING == "ERC721NonexistentToken(uint256)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Bool);
*)
small_wrapper721_nMay(small_wrapper721_n_1869, small_wrapper721_by_1869, small_wrapper721_id_1869) ==
  (small_wrapper721_n_1869["owner"][small_wrapper721_id_1869]
        = small_wrapper721_by_1869
      \/ small_wrapper721_n_1869["oper"][
        <<
          small_wrapper721_n_1869["owner"][small_wrapper721_id_1869], small_wrapper721_by_1869
        >>
      ])
    \/ small_wrapper721_n_1869["appr"][small_wrapper721_id_1869]
      = small_wrapper721_by_1869

(*
  @type: (() => Str);
*)
small_wrapper721_N_UNAUTH == "ERC721InsufficientApproval(address,uint256)"

(*
  @type: (() => Str);
*)
small_wrapper721_N_INCORRECT == "ERC721IncorrectOwner(address,uint256,address)"

(*
  @type: ((Seq(Int), Int) => Int);
*)
small_wrapper721_answer(small_wrapper721_script_117, small_wrapper721_n_117) ==
  IF small_wrapper721_n_117 < Len(small_wrapper721_script_117)
  THEN small_wrapper721_script_117[(small_wrapper721_n_117 + 1)]
  ELSE 0

(*
  @type: (() => { args: Seq(Seq(Int)), sig: Str });
*)
small_wrapper721_REASON ==
  [sig |-> "#raw", args |-> <<<<222, 173, 190, 239, 1, 2, 3, 4>>>>]

(*
  @type: (() => Str);
*)
small_wrapper721_N_FAILED == "Erc721FailedOperation(address)"

(*
  @type: (() => Str);
*)
small_wrapper721_ON_RECEIVED ==
  "onERC721Received(address,address,uint256,bytes)"

(*
  @type: (() => Str);
*)
small_wrapper721_N_UNSUPPORTED == "ERC721UnsupportedToken(address)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_onWr(small_wrapper721_w_812, small_wrapper721_u_812, small_wrapper721_r_812) ==
  [wr |-> small_wrapper721_r_812["nft"],
    und |-> small_wrapper721_u_812,
    errs |-> small_wrapper721_r_812["errs"],
    evs |-> small_wrapper721_r_812["evs"],
    calls |-> 0]

(*
  @type: (() => Str);
*)
small_wrapper721_N_APPROVER == "ERC721InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_wrapper721_N_APPROVAL ==
  "Approval(address indexed,address indexed,uint256 indexed)"

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Set(Int), Set(Int)) => Bool);
*)
small_wrapper721_nftOk(small_wrapper721_n_2577, small_wrapper721_addrs_2577, small_wrapper721_ids_2577) ==
  (\A small_wrapper721_a_2527 \in small_wrapper721_addrs_2577:
      small_wrapper721_a_2527 = 0
        \/ small_wrapper721_n_2577["bal"][small_wrapper721_a_2527]
          = Cardinality({
            small_wrapper721_i_2522 \in small_wrapper721_ids_2577:
              small_wrapper721_n_2577["owner"][small_wrapper721_i_2522]
                = small_wrapper721_a_2527
          }))
    /\ small_wrapper721_n_2577["bal"][0] = 0
    /\ (\A small_wrapper721_i_2553 \in small_wrapper721_ids_2577:
      small_wrapper721_n_2577["owner"][small_wrapper721_i_2553] /= 0
        \/ small_wrapper721_n_2577["appr"][small_wrapper721_i_2553] = 0)
    /\ (\A small_wrapper721_a_2574 \in small_wrapper721_addrs_2577:
      ~(small_wrapper721_n_2577["oper"][<<small_wrapper721_a_2574, 0>>])
        /\ ~(small_wrapper721_n_2577["oper"][<<0, small_wrapper721_a_2574>>]))

(*
  @type: (() => Set(Int));
*)
small_wrapper721_ADDRS ==
  small_wrapper721_USERS
    \union { 0,
      (small_wrapper721_SELF),
      (small_wrapper721_RECV),
      (small_wrapper721_UND) }

(*
  @type: ((Str, Int, Int, Seq(Seq(Int)), Seq(Seq(Int)), { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }) => Bool);
*)
small_wrapper721_finish(small_wrapper721_op_542, small_wrapper721_at_542, small_wrapper721_by_542,
small_wrapper721_args_542, small_wrapper721_ret_542, small_wrapper721_r_542) ==
  small_wrapper721_obs'
      := [op |-> small_wrapper721_op_542,
        at |-> small_wrapper721_at_542,
        by |-> small_wrapper721_by_542,
        pay |-> 0,
        args |-> small_wrapper721_args_542,
        errs |-> small_wrapper721_r_542["errs"],
        ret |-> small_wrapper721_ret_542,
        evs |-> small_wrapper721_r_542["evs"]]
    /\ small_wrapper721_wr'
      := (IF small_wrapper721_r_542["errs"] = <<>>
      THEN small_wrapper721_r_542["wr"]
      ELSE small_wrapper721_wr)
    /\ small_wrapper721_und'
      := (IF small_wrapper721_r_542["errs"] = <<>>
      THEN small_wrapper721_r_542["und"]
      ELSE small_wrapper721_und)
    /\ small_wrapper721_mode' := small_wrapper721_mode

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { args: Seq(Seq(Int)), at: Int, sig: Str });
*)
small_wrapper721_nMoved(small_wrapper721_n_2003, small_wrapper721_at_2003, small_wrapper721_dst_2003,
small_wrapper721_id_2003) ==
  [at |-> small_wrapper721_at_2003,
    sig |-> small_wrapper721_N_TRANSFER,
    args |->
      <<
        <<small_wrapper721_n_2003["owner"][small_wrapper721_id_2003]>>, <<
          small_wrapper721_dst_2003
        >>, <<small_wrapper721_id_2003>>
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Bool) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_nSetAll(small_wrapper721_n_2492, small_wrapper721_at_2492, small_wrapper721_by_2492,
small_wrapper721_op_2492, small_wrapper721_on_2492) ==
  [nft |->
      [
        small_wrapper721_n_2492 EXCEPT
          !["oper"] =
            [
              small_wrapper721_n_2492["oper"] EXCEPT
                ![<<small_wrapper721_by_2492, small_wrapper721_op_2492>>] =
                  small_wrapper721_on_2492
            ]
      ],
    errs |->
      small_wrapper721_guard((small_wrapper721_op_2492 = 0), (small_wrapper721_N_OPERATOR),
      <<<<0>>>>),
    evs |->
      <<
        [at |-> small_wrapper721_at_2492,
          sig |-> small_wrapper721_N_FORALL,
          args |->
            <<
              <<small_wrapper721_by_2492>>, <<small_wrapper721_op_2492>>, <<
                (small_wrapper721_bit(small_wrapper721_on_2492))
              >>
            >>]
      >>]

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_wrapper721_nConsent(small_wrapper721_n_2046, small_wrapper721_by_2046, small_wrapper721_id_2046) ==
  small_wrapper721_guard((small_wrapper721_n_2046["owner"][
    small_wrapper721_id_2046
  ]
    = 0), (small_wrapper721_N_MISSING), <<<<small_wrapper721_id_2046>>>>)
    \o small_wrapper721_guard((small_wrapper721_n_2046["owner"][
        small_wrapper721_id_2046
      ]
        /= 0
      /\ ~(small_wrapper721_nMay(small_wrapper721_n_2046, small_wrapper721_by_2046,
      small_wrapper721_id_2046))), (small_wrapper721_N_UNAUTH), <<
      <<small_wrapper721_by_2046>>, <<small_wrapper721_id_2046>>
    >>)

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_wrapper721_nFromTo(small_wrapper721_n_2108, small_wrapper721_src_2108, small_wrapper721_dst_2108,
small_wrapper721_id_2108) ==
  (small_wrapper721_guard((small_wrapper721_dst_2108 = 0), (small_wrapper721_N_RECEIVER),
  <<<<0>>>>)
    \o small_wrapper721_guard((small_wrapper721_n_2108["owner"][
      small_wrapper721_id_2108
    ]
      = 0), (small_wrapper721_N_MISSING), <<<<small_wrapper721_id_2108>>>>))
    \o small_wrapper721_guard((small_wrapper721_n_2108["owner"][
        small_wrapper721_id_2108
      ]
        /= 0
      /\ small_wrapper721_n_2108["owner"][small_wrapper721_id_2108]
        /= small_wrapper721_src_2108), (small_wrapper721_N_INCORRECT), <<
      <<small_wrapper721_src_2108>>, <<small_wrapper721_id_2108>>, <<
        small_wrapper721_n_2108["owner"][small_wrapper721_id_2108]
      >>
    >>)

(*
  @type: ((Int) => { args: Seq(Seq(Int)), sig: Str });
*)
small_wrapper721_failed(small_wrapper721_m_100) ==
  IF small_wrapper721_m_100 = 2 \/ small_wrapper721_m_100 = 4
  THEN [sig |-> small_wrapper721_N_FAILED,
    args |-> <<<<(small_wrapper721_UND)>>>>]
  ELSE small_wrapper721_REASON

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_nApprove(small_wrapper721_n_2366, small_wrapper721_at_2366, small_wrapper721_by_2366,
small_wrapper721_to__2366, small_wrapper721_id_2366) ==
  LET (*
    @type: (() => Int);
  *)
  small_wrapper721_o ==
    small_wrapper721_n_2366["owner"][small_wrapper721_id_2366]
  IN
  [nft |->
      [
        small_wrapper721_n_2366 EXCEPT
          !["appr"] =
            [
              small_wrapper721_n_2366["appr"] EXCEPT
                ![small_wrapper721_id_2366] = small_wrapper721_to__2366
            ]
      ],
    errs |->
      small_wrapper721_guard((small_wrapper721_o = 0), (small_wrapper721_N_MISSING),
      <<<<small_wrapper721_id_2366>>>>)
        \o small_wrapper721_guard(((small_wrapper721_o /= 0
            /\ small_wrapper721_o /= small_wrapper721_by_2366)
          /\ ~(small_wrapper721_n_2366["oper"][
            <<(small_wrapper721_o), small_wrapper721_by_2366>>
          ])), (small_wrapper721_N_APPROVER), <<<<small_wrapper721_by_2366>>>>),
    evs |->
      <<
        [at |-> small_wrapper721_at_2366,
          sig |-> small_wrapper721_N_APPROVAL,
          args |->
            <<
              <<(small_wrapper721_o)>>, <<small_wrapper721_to__2366>>, <<
                small_wrapper721_id_2366
              >>
            >>]
      >>]

(*
  @type: ((Int) => Bool);
*)
small_wrapper721_setMode(small_wrapper721_m_1097) ==
  small_wrapper721_obs'
      := [op |-> "!mode(uint256)()",
        at |-> 2,
        by |-> 1,
        pay |-> 0,
        args |-> <<<<small_wrapper721_m_1097>>>>,
        errs |-> <<>>,
        ret |-> <<>>,
        evs |-> <<>>]
    /\ small_wrapper721_mode' := small_wrapper721_m_1097
    /\ small_wrapper721_wr' := small_wrapper721_wr
    /\ small_wrapper721_und' := small_wrapper721_und

(*
  @type: (() => Bool);
*)
small_wrapper721_backed ==
  \A small_wrapper721_i_1707 \in small_wrapper721_IDS:
    small_wrapper721_wr["owner"][small_wrapper721_i_1707] = 0
      \/ small_wrapper721_und["owner"][small_wrapper721_i_1707]
        = small_wrapper721_SELF

(*
  @type: (() => Bool);
*)
small_wrapper721_init ==
  small_wrapper721_wr
      = small_wrapper721_emptyNft((small_wrapper721_ADDRS), (small_wrapper721_IDS))
    /\ small_wrapper721_und
      = small_wrapper721_emptyNft((small_wrapper721_ADDRS), (small_wrapper721_IDS))
    /\ small_wrapper721_mode = 0
    /\ small_wrapper721_obs = small_wrapper721_initObs

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_nMint(small_wrapper721_n_2225, small_wrapper721_at_2225, small_wrapper721_dst_2225,
small_wrapper721_id_2225) ==
  [nft |->
      small_wrapper721_nPut(small_wrapper721_n_2225, small_wrapper721_dst_2225, small_wrapper721_id_2225),
    errs |->
      small_wrapper721_guard((small_wrapper721_dst_2225 = 0), (small_wrapper721_N_RECEIVER),
      <<<<0>>>>)
        \o small_wrapper721_guard((small_wrapper721_n_2225["owner"][
          small_wrapper721_id_2225
        ]
          /= 0), (small_wrapper721_N_SENDER), <<<<0>>>>),
    evs |->
      <<
        (small_wrapper721_nMoved(small_wrapper721_n_2225, small_wrapper721_at_2225,
        small_wrapper721_dst_2225, small_wrapper721_id_2225))
      >>]

(*
  @type: ((Int, Int, Bool) => Bool);
*)
small_wrapper721_uSetAll(small_wrapper721_by_1061, small_wrapper721_x_1061, small_wrapper721_on_1061) ==
  small_wrapper721_finish("setApprovalForAll(address,bool)()", 2, small_wrapper721_by_1061,
  <<
    <<small_wrapper721_x_1061>>, <<
      (small_wrapper721_bit(small_wrapper721_on_1061))
    >>
  >>, <<>>, (small_wrapper721_onUnd(small_wrapper721_wr, small_wrapper721_und, 0,
  (small_wrapper721_nSetAll(small_wrapper721_und, 2, small_wrapper721_by_1061, small_wrapper721_x_1061,
  small_wrapper721_on_1061)))))

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_nTransferFrom(small_wrapper721_n_2147, small_wrapper721_at_2147,
small_wrapper721_by_2147, small_wrapper721_src_2147, small_wrapper721_dst_2147, small_wrapper721_id_2147) ==
  [nft |->
      small_wrapper721_nPut(small_wrapper721_n_2147, small_wrapper721_dst_2147, small_wrapper721_id_2147),
    errs |->
      small_wrapper721_nConsent(small_wrapper721_n_2147, small_wrapper721_by_2147,
      small_wrapper721_id_2147)
        \o small_wrapper721_nFromTo(small_wrapper721_n_2147, small_wrapper721_src_2147,
        small_wrapper721_dst_2147, small_wrapper721_id_2147),
    evs |->
      <<
        (small_wrapper721_nMoved(small_wrapper721_n_2147, small_wrapper721_at_2147,
        small_wrapper721_dst_2147, small_wrapper721_id_2147))
      >>]

(*
  @type: (({ calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Int, Int, Int, Int, Int, Int, Seq(Int), Seq(Int)) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_deliver(small_wrapper721_a_252, small_wrapper721_m_252, small_wrapper721_who_252,
small_wrapper721_operator_252, small_wrapper721_src_252, small_wrapper721_dst_252,
small_wrapper721_id_252, small_wrapper721_data_252, small_wrapper721_script_252) ==
  IF small_wrapper721_a_252["errs"] /= <<>>
  THEN small_wrapper721_a_252
  ELSE IF small_wrapper721_dst_252 = small_wrapper721_RECV
  THEN LET (*
    @type: (() => Int);
  *)
  small_wrapper721_ans ==
    small_wrapper721_answer(small_wrapper721_script_252, small_wrapper721_a_252[
      "calls"
    ])
  IN
  [
    [
      [
        small_wrapper721_a_252 EXCEPT
          !["calls"] = small_wrapper721_a_252["calls"] + 1
      ] EXCEPT
        !["errs"] =
          IF small_wrapper721_ans = 0
          THEN <<>>
          ELSE IF small_wrapper721_ans = 4
          THEN <<(small_wrapper721_REASON)>>
          ELSE IF small_wrapper721_who_252 = small_wrapper721_SELF
          THEN <<
            [sig |-> small_wrapper721_N_RECEIVER,
              args |-> <<<<(small_wrapper721_RECV)>>>>]
          >>
          ELSE <<(small_wrapper721_failed(small_wrapper721_m_252))>>
    ] EXCEPT
      !["evs"] =
        Append(small_wrapper721_a_252["evs"], [at |-> 1,
          sig |-> small_wrapper721_ON_RECEIVED,
          args |->
            <<
              <<small_wrapper721_operator_252>>, <<small_wrapper721_src_252>>, <<
                small_wrapper721_id_252
              >>, small_wrapper721_data_252
            >>])
  ]
  ELSE IF small_wrapper721_dst_252 = small_wrapper721_SELF
  THEN [
    small_wrapper721_a_252 EXCEPT
      !["errs"] =
        <<
          [sig |-> small_wrapper721_N_UNSUPPORTED,
            args |-> <<<<(small_wrapper721_SELF)>>>>]
        >>
  ]
  ELSE IF small_wrapper721_dst_252 = small_wrapper721_UND
  THEN [
    small_wrapper721_a_252 EXCEPT
      !["errs"] =
        IF small_wrapper721_who_252 = small_wrapper721_SELF
        THEN <<
          [sig |-> small_wrapper721_N_RECEIVER,
            args |-> <<<<(small_wrapper721_UND)>>>>]
        >>
        ELSE <<(small_wrapper721_failed(small_wrapper721_m_252))>>
  ]
  ELSE small_wrapper721_a_252

(*
  @type: (({ appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_nBurn(small_wrapper721_n_2254, small_wrapper721_at_2254, small_wrapper721_by_2254,
small_wrapper721_id_2254) ==
  [nft |->
      small_wrapper721_nPut(small_wrapper721_n_2254, 0, small_wrapper721_id_2254),
    errs |->
      small_wrapper721_nConsent(small_wrapper721_n_2254, small_wrapper721_by_2254,
      small_wrapper721_id_2254),
    evs |->
      <<
        (small_wrapper721_nMoved(small_wrapper721_n_2254, small_wrapper721_at_2254,
        0, small_wrapper721_id_2254))
      >>]

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_wrapper721_approve(small_wrapper721_by_873, small_wrapper721_x_873, small_wrapper721_id_873) ==
  small_wrapper721_finish("approve(address,uint256)()", 0, small_wrapper721_by_873,
  <<<<small_wrapper721_x_873>>, <<small_wrapper721_id_873>>>>, <<>>, (small_wrapper721_onWr(small_wrapper721_wr,
  small_wrapper721_und, (small_wrapper721_nApprove(small_wrapper721_wr, 0, small_wrapper721_by_873,
  small_wrapper721_x_873, small_wrapper721_id_873)))))

(*
  @type: (() => Bool);
*)
small_wrapper721_safety ==
  (small_wrapper721_backed
      /\ small_wrapper721_nftOk(small_wrapper721_wr, (small_wrapper721_ADDRS), (small_wrapper721_IDS)))
    /\ small_wrapper721_nftOk(small_wrapper721_und, (small_wrapper721_ADDRS), (small_wrapper721_IDS))

(*
  @type: (() => Bool);
*)
q_init == small_wrapper721_init

(*
  @type: ((Int, Int) => Bool);
*)
small_wrapper721_uMint(small_wrapper721_dst_968, small_wrapper721_id_968) ==
  small_wrapper721_finish("mint(address,uint256)()", 2, 1, <<
    <<small_wrapper721_dst_968>>, <<small_wrapper721_id_968>>
  >>, <<>>, (small_wrapper721_onUnd(small_wrapper721_wr, small_wrapper721_und, 0,
  (small_wrapper721_nMint(small_wrapper721_und, 2, small_wrapper721_dst_968, small_wrapper721_id_968)))))

(*
  @type: (({ calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Int, Int, Int, Int, Seq(Int)) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_wrapMint(small_wrapper721_a_310, small_wrapper721_m_310, small_wrapper721_operator_310,
small_wrapper721_dst_310, small_wrapper721_id_310, small_wrapper721_script_310) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_wrapper721_r ==
    small_wrapper721_nMint(small_wrapper721_a_310["wr"], 0, small_wrapper721_dst_310,
    small_wrapper721_id_310)
  IN
  small_wrapper721_deliver([
    [
      [ small_wrapper721_a_310 EXCEPT !["wr"] = (small_wrapper721_r)["nft"] ] EXCEPT
        !["errs"] =
          small_wrapper721_a_310["errs"] \o (small_wrapper721_r)["errs"]
    ] EXCEPT
      !["evs"] = small_wrapper721_a_310["evs"] \o (small_wrapper721_r)["evs"]
  ], small_wrapper721_m_310, (small_wrapper721_SELF), small_wrapper721_operator_310,
  0, small_wrapper721_dst_310, small_wrapper721_id_310, <<>>, small_wrapper721_script_310)

(*
  @type: (({ calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Int, Int, Int, Int, Seq(Int)) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_withdrawOne(small_wrapper721_a_472, small_wrapper721_m_472, small_wrapper721_by_472,
small_wrapper721_dst_472, small_wrapper721_id_472, small_wrapper721_script_472) ==
  IF small_wrapper721_a_472["errs"] /= <<>>
  THEN small_wrapper721_a_472
  ELSE LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_wrapper721_w ==
    small_wrapper721_nBurn(small_wrapper721_a_472["wr"], 0, small_wrapper721_by_472,
    small_wrapper721_id_472)
  IN
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_wrapper721_u ==
    small_wrapper721_nTransferFrom(small_wrapper721_a_472["und"], 2, (small_wrapper721_SELF),
    (small_wrapper721_SELF), small_wrapper721_dst_472, small_wrapper721_id_472)
  IN
  LET (*
    @type: (() => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_wrapper721_b ==
    [
      [
        [
          [
            small_wrapper721_a_472 EXCEPT
              !["wr"] = (small_wrapper721_w)["nft"]
          ] EXCEPT
            !["und"] = (small_wrapper721_u)["nft"]
        ] EXCEPT
          !["evs"] =
            small_wrapper721_a_472["evs"] \o (small_wrapper721_w)["evs"]
      ] EXCEPT
        !["errs"] =
          IF (small_wrapper721_w)["errs"] /= <<>>
          THEN (small_wrapper721_w)["errs"]
          ELSE IF (small_wrapper721_u)["errs"] /= <<>>
            \/ small_wrapper721_m_472 >= 3
          THEN <<(small_wrapper721_failed(small_wrapper721_m_472))>>
          ELSE <<>>
    ]
  IN
  small_wrapper721_deliver((small_wrapper721_b), small_wrapper721_m_472, (small_wrapper721_UND),
  (small_wrapper721_SELF), (small_wrapper721_SELF), small_wrapper721_dst_472, small_wrapper721_id_472,
  <<>>, small_wrapper721_script_472)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_wrapper721_transferFrom(small_wrapper721_by_845, small_wrapper721_src_845,
small_wrapper721_dst_845, small_wrapper721_id_845) ==
  small_wrapper721_finish("transferFrom(address,address,uint256)()", 0, small_wrapper721_by_845,
  <<
    <<small_wrapper721_src_845>>, <<small_wrapper721_dst_845>>, <<
      small_wrapper721_id_845
    >>
  >>, <<>>, (small_wrapper721_onWr(small_wrapper721_wr, small_wrapper721_und, (small_wrapper721_nTransferFrom(small_wrapper721_wr,
  0, small_wrapper721_by_845, small_wrapper721_src_845, small_wrapper721_dst_845,
  small_wrapper721_id_845)))))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_wrapper721_uTransfer(small_wrapper721_by_1002, small_wrapper721_src_1002, small_wrapper721_dst_1002,
small_wrapper721_id_1002) ==
  small_wrapper721_finish("transferFrom(address,address,uint256)()", 2, small_wrapper721_by_1002,
  <<
    <<small_wrapper721_src_1002>>, <<small_wrapper721_dst_1002>>, <<
      small_wrapper721_id_1002
    >>
  >>, <<>>, (small_wrapper721_onUnd(small_wrapper721_wr, small_wrapper721_und, small_wrapper721_mode,
  (small_wrapper721_nTransferFrom(small_wrapper721_und, 2, small_wrapper721_by_1002,
  small_wrapper721_src_1002, small_wrapper721_dst_1002, small_wrapper721_id_1002)))))

(*
  @type: (() => Bool);
*)
q_inv == small_wrapper721_safety

(*
  @type: (({ calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Int, Int, Int, Int, Seq(Int)) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
*)
small_wrapper721_depositOne(small_wrapper721_a_372, small_wrapper721_m_372, small_wrapper721_by_372,
small_wrapper721_dst_372, small_wrapper721_id_372, small_wrapper721_script_372) ==
  IF small_wrapper721_a_372["errs"] /= <<>>
  THEN small_wrapper721_a_372
  ELSE LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_wrapper721_u ==
    small_wrapper721_nTransferFrom(small_wrapper721_a_372["und"], 2, (small_wrapper721_SELF),
    small_wrapper721_by_372, (small_wrapper721_SELF), small_wrapper721_id_372)
  IN
  small_wrapper721_wrapMint([
    [ small_wrapper721_a_372 EXCEPT !["und"] = (small_wrapper721_u)["nft"] ] EXCEPT
      !["errs"] =
        IF (small_wrapper721_u)["errs"] /= <<>> \/ small_wrapper721_m_372 >= 3
        THEN <<(small_wrapper721_failed(small_wrapper721_m_372))>>
        ELSE <<>>
  ], small_wrapper721_m_372, small_wrapper721_by_372, small_wrapper721_dst_372, small_wrapper721_id_372,
  small_wrapper721_script_372)

(*
  @type: ((Int, Int, Seq(Int), Seq(Int)) => Bool);
*)
small_wrapper721_withdrawTo(small_wrapper721_by_649, small_wrapper721_dst_649, small_wrapper721_ids_649,
small_wrapper721_script_649) ==
  small_wrapper721_finish("withdrawTo(address,uint256[])(bool)", 0, small_wrapper721_by_649,
  (<<<<small_wrapper721_dst_649>>, small_wrapper721_ids_649>>
    \o small_wrapper721_scripted(small_wrapper721_script_649)), <<<<1>>>>, LET (*
    @type: (({ calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Int) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  __QUINT_LAMBDA2(small_wrapper721_a_646, small_wrapper721_id_646) ==
    small_wrapper721_withdrawOne(small_wrapper721_a_646, small_wrapper721_mode, small_wrapper721_by_649,
    small_wrapper721_dst_649, small_wrapper721_id_646, small_wrapper721_script_649)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, (small_wrapper721_start(small_wrapper721_wr, small_wrapper721_und)),
  small_wrapper721_ids_649))

(*
  @type: ((Int, Int, Int, Seq(Int), Seq(Int)) => Bool);
*)
small_wrapper721_send(small_wrapper721_by_730, small_wrapper721_src_730, small_wrapper721_id_730,
small_wrapper721_data_730, small_wrapper721_script_730) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), nft: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_wrapper721_u ==
    small_wrapper721_nTransferFrom(small_wrapper721_und, 2, small_wrapper721_by_730,
    small_wrapper721_src_730, (small_wrapper721_SELF), small_wrapper721_id_730)
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_wrapper721_fails ==
    (small_wrapper721_u)["errs"] /= <<>> \/ small_wrapper721_mode >= 3
  IN
  LET (*
    @type: (() => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  small_wrapper721_a ==
    small_wrapper721_wrapMint([
      (small_wrapper721_start(small_wrapper721_wr, small_wrapper721_und)) EXCEPT
        !["und"] = (small_wrapper721_u)["nft"]
    ], small_wrapper721_mode, (small_wrapper721_UND), small_wrapper721_src_730, small_wrapper721_id_730,
    small_wrapper721_script_730)
  IN
  small_wrapper721_finish("safeTransferFrom(address,address,uint256,bytes)()", 2,
  small_wrapper721_by_730, (<<
    <<small_wrapper721_src_730>>, <<(small_wrapper721_SELF)>>, <<
      small_wrapper721_id_730
    >>, small_wrapper721_data_730
  >>
    \o small_wrapper721_scripted(small_wrapper721_script_730)), <<>>, (IF small_wrapper721_fails
  THEN [
    (small_wrapper721_start(small_wrapper721_wr, small_wrapper721_und)) EXCEPT
      !["errs"] = <<[sig |-> "#any", args |-> <<>>]>>
  ]
  ELSE small_wrapper721_a))

(*
  @type: ((Int, Int, Seq(Int), Seq(Int)) => Bool);
*)
small_wrapper721_depositFor(small_wrapper721_by_607, small_wrapper721_dst_607, small_wrapper721_ids_607,
small_wrapper721_script_607) ==
  small_wrapper721_finish("depositFor(address,uint256[])(bool)", 0, small_wrapper721_by_607,
  (<<<<small_wrapper721_dst_607>>, small_wrapper721_ids_607>>
    \o small_wrapper721_scripted(small_wrapper721_script_607)), <<<<1>>>>, LET (*
    @type: (({ calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } }, Int) => { calls: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), und: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) }, wr: { appr: (Int -> Int), bal: (Int -> Int), oper: (<<Int, Int>> -> Bool), owner: (Int -> Int) } });
  *)
  __QUINT_LAMBDA1(small_wrapper721_a_604, small_wrapper721_id_604) ==
    small_wrapper721_depositOne(small_wrapper721_a_604, small_wrapper721_mode, small_wrapper721_by_607,
    small_wrapper721_dst_607, small_wrapper721_id_604, small_wrapper721_script_607)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, (small_wrapper721_start(small_wrapper721_wr, small_wrapper721_und)),
  small_wrapper721_ids_607))

(*
  @type: (() => Bool);
*)
small_wrapper721_stepAll ==
  \E small_wrapper721_id \in small_wrapper721_IDS:
    \E small_wrapper721_u \in small_wrapper721_USERS:
      small_wrapper721_uMint(small_wrapper721_u, small_wrapper721_id)
        \/ small_wrapper721_uSetAll(small_wrapper721_u, (small_wrapper721_SELF),
        TRUE)
        \/ (\E small_wrapper721_dst \in { small_wrapper721_u,
          (small_wrapper721_SELF),
          (small_wrapper721_RECV) }:
          \E small_wrapper721_ids \in { <<small_wrapper721_id>>,
            <<small_wrapper721_id, small_wrapper721_id>>,
            LET (*
              @type: ((Seq(Int), Int) => Seq(Int));
            *)
            __QUINT_LAMBDA3(small_wrapper721_l_1629, small_wrapper721_i_1629) ==
              Append(small_wrapper721_l_1629, small_wrapper721_i_1629)
            IN
            ApaFoldSet(__QUINT_LAMBDA3, <<>>, (small_wrapper721_IDS)) }:
            small_wrapper721_depositFor(small_wrapper721_u, small_wrapper721_dst,
              small_wrapper721_ids, <<>>)
              \/ small_wrapper721_withdrawTo(small_wrapper721_u, small_wrapper721_dst,
              small_wrapper721_ids, <<>>)
              \/ small_wrapper721_withdrawTo(small_wrapper721_u, small_wrapper721_dst,
              small_wrapper721_ids, <<0, 1>>))
        \/ small_wrapper721_send(small_wrapper721_u, small_wrapper721_u, small_wrapper721_id,
        <<>>, <<>>)
        \/ (\E small_wrapper721_dst \in small_wrapper721_USERS
          \union {(small_wrapper721_SELF)}:
          small_wrapper721_transferFrom(small_wrapper721_u, small_wrapper721_u, small_wrapper721_dst,
            small_wrapper721_id)
            \/ small_wrapper721_uTransfer(small_wrapper721_u, small_wrapper721_u,
            small_wrapper721_dst, small_wrapper721_id))
        \/ small_wrapper721_approve(small_wrapper721_u, 1, small_wrapper721_id)
        \/ small_wrapper721_setMode((3 - small_wrapper721_mode))

(*
  @type: (() => Bool);
*)
q_step == small_wrapper721_stepAll


View == <<small_wrapper721_wr, small_wrapper721_und, small_wrapper721_mode>>

==============================================================================
