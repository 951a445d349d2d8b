\* generated by tools/export_tla.py from merkle.qnt ed94aeca7c4c2cb953616f5086eddc7cf2e51e9e520256b30a064d673ef62944
--------------------------------- MODULE merkle_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_merkle_SIZES == { 1, 2, 3 }

(*
  @type: (() => Int);
*)
small_merkle_ATOMS == 2

(*
  @type: (() => Set(Int));
*)
small_merkle_PATTERNS == {0}

(*
  @type: (() => Set(Int));
*)
small_merkle_SPINES == {1}

(*
  @type: ((Int, Int) => Int);
*)
small_merkle_minOf(small_merkle_a_2495, small_merkle_b_2495) ==
  IF small_merkle_a_2495 < small_merkle_b_2495
  THEN small_merkle_a_2495
  ELSE small_merkle_b_2495

(*
  @type: ((Int, Int) => Int);
*)
small_merkle_maxOf(small_merkle_a_2508, small_merkle_b_2508) ==
  IF small_merkle_a_2508 > small_merkle_b_2508
  THEN small_merkle_a_2508
  ELSE small_merkle_b_2508

VARIABLE
  (*
    @type: Seq(Seq(Int));
  *)
  small_merkle_nodes

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_merkle_tree

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_merkle_spine

VARIABLE
  (*
    @type: Int;
  *)
  small_merkle_tip

VARIABLE
  (*
    @type: Int;
  *)
  small_merkle_pattern

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) };
  *)
  small_merkle_obs

(*
  @type: (() => { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) });
*)
small_merkle_noObs == [op |-> "init", args |-> <<>>, ret |-> <<>>, bad |-> ""]

(*
  @type: ((Bool) => Int);
*)
small_merkle_bit(small_merkle_b_2482) == IF small_merkle_b_2482 THEN 1 ELSE 0

(*
  @type: (() => Int);
*)
small_merkle_EXTRA == -1

(*
  @type: ((Int) => Int);
*)
small_merkle_parent(small_merkle_i_283) == (small_merkle_i_283 - 1) \div 2

(*
  @type: ((Int) => Int);
*)
small_merkle_sibling(small_merkle_i_273) ==
  IF small_merkle_i_273 % 2 = 1
  THEN small_merkle_i_273 + 1
  ELSE small_merkle_i_273 - 1

(*
  @type: ((Seq(Seq(Int)), Int, Int) => Int);
*)
small_merkle_find(small_merkle_ns_66, small_merkle_a_66, small_merkle_b_66) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA1(small_merkle_r_64, small_merkle_i_64) ==
    IF small_merkle_ns_66[(small_merkle_i_64 + 1)]
      = <<
        (small_merkle_minOf(small_merkle_a_66, small_merkle_b_66)), (small_merkle_maxOf(small_merkle_a_66,
        small_merkle_b_66))
      >>
    THEN small_merkle_ATOMS + small_merkle_i_64
    ELSE small_merkle_r_64
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, (-1), (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((Len(small_merkle_ns_66) - 0), __QUINT_LAMBDA0)))

(*
  @type: (() => Int);
*)
small_merkle_nterms == small_merkle_ATOMS + Len(small_merkle_nodes)

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int), Int, Bool, Str) => Bool);
*)
small_merkle_answer(small_merkle_leaves_653, small_merkle_proof_653, small_merkle_flags_653,
small_merkle_root_653, small_merkle_ok_653, small_merkle_bad_653) ==
  small_merkle_obs'
      := [op |-> "multi",
        args |->
          <<
            small_merkle_leaves_653, small_merkle_proof_653, small_merkle_flags_653,
            <<small_merkle_root_653>>
          >>,
        ret |->
          IF small_merkle_bad_653 /= ""
          THEN <<>>
          ELSE <<<<(small_merkle_bit(small_merkle_ok_653))>>>>,
        bad |-> small_merkle_bad_653]
    /\ small_merkle_nodes' := small_merkle_nodes
    /\ small_merkle_tree' := small_merkle_tree
    /\ small_merkle_spine' := small_merkle_spine
    /\ small_merkle_tip' := small_merkle_tip
    /\ small_merkle_pattern' := small_merkle_pattern

(*
  @type: (() => Int);
*)
small_merkle_nleaves == (Len(small_merkle_tree) + 1) \div 2

(*
  @type: ((Int, Int) => Bool);
*)
small_merkle_within(small_merkle_x_399, small_merkle_t_399) ==
  small_merkle_x_399
    \in LET (*
      @type: ((Set(Int), Int) => Set(Int));
    *)
    __QUINT_LAMBDA16(small_merkle_s_395, small_merkle_k_395) ==
      LET (*
        @type: (() => Int);
      *)
      small_merkle_i == (Len(small_merkle_nodes) - 1) - small_merkle_k_395
      IN
      IF small_merkle_ATOMS + small_merkle_i \in small_merkle_s_395
      THEN small_merkle_s_395
        \union { small_merkle_nodes[(small_merkle_i + 1)][(0 + 1)],
          small_merkle_nodes[(small_merkle_i + 1)][(1 + 1)] }
      ELSE small_merkle_s_395
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA16, {small_merkle_t_399}, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA15(__quint_var7) == (0 + __quint_var7) - 1
    IN
    MkSeq((Len(small_merkle_nodes) - 0), __QUINT_LAMBDA15)))

(*
  @type: ((Seq(Int), Int) => Seq(Int));
*)
small_merkle_path(small_merkle_tr_330, small_merkle_i_330) ==
  LET (*
    @type: (({ i: Int, l: Seq(Int) }, Int) => { i: Int, l: Seq(Int) });
  *)
  __QUINT_LAMBDA22(small_merkle_s_326, small_merkle_k_326) ==
    IF small_merkle_s_326["i"] = 0
    THEN small_merkle_s_326
    ELSE [i |-> small_merkle_parent(small_merkle_s_326["i"]),
      l |->
        Append(small_merkle_s_326["l"], small_merkle_tr_330[
          (small_merkle_sibling(small_merkle_s_326["i"]) + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA22, [i |-> small_merkle_i_330, l |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA21(__quint_var10) == (0 + __quint_var10) - 1
  IN
  MkSeq((6 - 0), __QUINT_LAMBDA21)))[
    "l"
  ]

(*
  @type: ((Seq(Int), Seq(Int)) => { flags: Seq(Int), proof: Seq(Int), stack: Seq(Int) });
*)
small_merkle_multiProof(small_merkle_tr_943, small_merkle_sel_943) ==
  IF Len(small_merkle_sel_943) = 0
  THEN [stack |-> <<>>,
    proof |-> <<small_merkle_tr_943[(0 + 1)]>>,
    flags |-> <<>>]
  ELSE LET (*
    @type: (({ flags: Seq(Int), proof: Seq(Int), stack: Seq(Int) }, Int) => { flags: Seq(Int), proof: Seq(Int), stack: Seq(Int) });
  *)
  __QUINT_LAMBDA26(small_merkle_s_940, small_merkle_k_940) ==
    IF small_merkle_s_940["stack"][(0 + 1)] = 0
    THEN small_merkle_s_940
    ELSE LET (*
      @type: (() => Int);
    *)
    small_merkle_j == small_merkle_s_940["stack"][(0 + 1)]
    IN
    LET (*
      @type: (() => Bool);
    *)
    small_merkle_pair ==
      Len(small_merkle_s_940["stack"]) > 1
        /\ small_merkle_s_940["stack"][(1 + 1)]
          = small_merkle_sibling((small_merkle_j))
    IN
    LET (*
      @type: (() => Seq(Int));
    *)
    small_merkle_left ==
      SubSeq(small_merkle_s_940["stack"], ((IF small_merkle_pair THEN 2 ELSE 1)
        + 1), (Len(small_merkle_s_940["stack"])))
    IN
    [stack |->
        Append((small_merkle_left), (small_merkle_parent((small_merkle_j)))),
      proof |->
        IF small_merkle_pair
        THEN small_merkle_s_940["proof"]
        ELSE Append(small_merkle_s_940["proof"], small_merkle_tr_943[
          (small_merkle_sibling((small_merkle_j)) + 1)
        ]),
      flags |->
        Append(small_merkle_s_940["flags"], (small_merkle_bit((small_merkle_pair))))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA26, [stack |-> small_merkle_sel_943,
    proof |-> <<>>,
    flags |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA25(__quint_var12) == (0 + __quint_var12) - 1
  IN
  MkSeq((Len(small_merkle_tr_943) - 0), __QUINT_LAMBDA25)))

(*
  @type: ((Seq(Int)) => Seq(Int));
*)
small_merkle_at(small_merkle_l_1011) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA29(small_merkle_r_1009, small_merkle_i_1009) ==
    Append(small_merkle_r_1009, small_merkle_tree[(small_merkle_i_1009 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA29, <<>>, small_merkle_l_1011)

(*
  @type: ((Seq(Seq(Int)), Int, Int) => Seq(Seq(Int)));
*)
small_merkle_intern(small_merkle_ns_121, small_merkle_a_121, small_merkle_b_121) ==
  IF small_merkle_find(small_merkle_ns_121, small_merkle_a_121, small_merkle_b_121)
    >= 0
  THEN small_merkle_ns_121
  ELSE Append(small_merkle_ns_121, <<
    (small_merkle_minOf(small_merkle_a_121, small_merkle_b_121)), (small_merkle_maxOf(small_merkle_a_121,
    small_merkle_b_121))
  >>)

(*
  @type: ((Seq(Seq(Int)), Int, Int) => Int);
*)
small_merkle_join(small_merkle_ns_91, small_merkle_a_91, small_merkle_b_91) ==
  IF small_merkle_a_91 < 0 \/ small_merkle_b_91 < 0
  THEN -1
  ELSE small_merkle_find(small_merkle_ns_91, small_merkle_a_91, small_merkle_b_91)

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int), Int, { bad: Str, h: Int, p: Int, queue: Seq(Int) }) => Bool);
*)
small_merkle_ran(small_merkle_leaves_773, small_merkle_proof_773, small_merkle_flags_773,
small_merkle_root_773, small_merkle_r_773) ==
  small_merkle_answer(small_merkle_leaves_773, small_merkle_proof_773, small_merkle_flags_773,
  small_merkle_root_773, (small_merkle_r_773["bad"] = ""
    /\ small_merkle_r_773["queue"][(Len(small_merkle_r_773["queue"]) - 1 + 1)]
      = small_merkle_root_773), small_merkle_r_773["bad"])

(*
  @type: (() => Bool);
*)
small_merkle_sound ==
  small_merkle_obs["op"] = "verify" /\ small_merkle_obs["ret"] = <<<<1>>>>
    => small_merkle_within(small_merkle_obs["args"][(0 + 1)][(0 + 1)], small_merkle_obs[
        "args"
      ][
        (2 + 1)
      ][
        (0 + 1)
      ])
      /\ LET (*
        @type: ((Bool, Int) => Bool);
      *)
      __QUINT_LAMBDA18(small_merkle_ok_2211, small_merkle_k_2211) ==
        small_merkle_ok_2211
          /\ small_merkle_within(small_merkle_obs["args"][(1 + 1)][
            (small_merkle_k_2211 + 1)
          ], small_merkle_obs["args"][(2 + 1)][(0 + 1)])
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA18, TRUE, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA17(__quint_var8) == (0 + __quint_var8) - 1
      IN
      MkSeq((Len(small_merkle_obs["args"][(1 + 1)]) - 0), __QUINT_LAMBDA17)))

(*
  @type: (() => Bool);
*)
small_merkle_soundMulti ==
  small_merkle_obs["op"] = "multi" /\ small_merkle_obs["ret"] = <<<<1>>>>
    => LET (*
      @type: ((Bool, Int) => Bool);
    *)
    __QUINT_LAMBDA20(small_merkle_ok_2257, small_merkle_k_2257) ==
      small_merkle_ok_2257
        /\ small_merkle_within(small_merkle_obs["args"][(0 + 1)][
          (small_merkle_k_2257 + 1)
        ], small_merkle_obs["args"][(3 + 1)][(0 + 1)])
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA20, TRUE, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA19(__quint_var9) == (0 + __quint_var9) - 1
    IN
    MkSeq((Len(small_merkle_obs["args"][(0 + 1)]) - 0), __QUINT_LAMBDA19)))

(*
  @type: ((Int) => Seq(Int));
*)
small_merkle_selected(small_merkle_mask_993) ==
  LET (*
    @type: (({ l: Seq(Int), m: Int }, Int) => { l: Seq(Int), m: Int });
  *)
  __QUINT_LAMBDA28(small_merkle_s_989, small_merkle_k_989) ==
    [m |-> small_merkle_s_989["m"] \div 2,
      l |->
        IF small_merkle_s_989["m"] % 2 = 1
        THEN Append(small_merkle_s_989["l"], ((2 * small_merkle_nleaves - 2)
          - small_merkle_k_989))
        ELSE small_merkle_s_989["l"]]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA28, [m |-> small_merkle_mask_993, l |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA27(__quint_var13) == (0 + __quint_var13) - 1
  IN
  MkSeq((small_merkle_nleaves - 0), __QUINT_LAMBDA27)))[
    "l"
  ]

(*
  @type: ((Seq(Seq(Int)), Seq(Int)) => { ns: Seq(Seq(Int)), tip: Int });
*)
small_merkle_lean(small_merkle_ns_1156, small_merkle_l_1156) ==
  LET (*
    @type: (({ ns: Seq(Seq(Int)), tip: Int }, Int) => { ns: Seq(Seq(Int)), tip: Int });
  *)
  __QUINT_LAMBDA3(small_merkle_s_1154, small_merkle_i_1154) ==
    LET (*
      @type: (() => Seq(Seq(Int)));
    *)
    small_merkle_more ==
      small_merkle_intern(small_merkle_s_1154["ns"], small_merkle_s_1154["tip"],
      small_merkle_l_1156[(small_merkle_i_1154 + 1)])
    IN
    [ns |-> small_merkle_more,
      tip |->
        small_merkle_find((small_merkle_more), small_merkle_s_1154["tip"], small_merkle_l_1156[
          (small_merkle_i_1154 + 1)
        ])]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, [ns |-> small_merkle_ns_1156,
    tip |-> small_merkle_l_1156[(0 + 1)]], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (1 + __quint_var1) - 1
  IN
  MkSeq((Len(small_merkle_l_1156) - 1), __QUINT_LAMBDA2)))

(*
  @type: ((Seq(Int)) => { ns: Seq(Seq(Int)), tr: Seq(Int) });
*)
small_merkle_grow(small_merkle_leaves_242) ==
  LET (*@type: (() => Int); *) small_merkle_n == Len(small_merkle_leaves_242) IN
  LET (*
    @type: (() => Seq(Int));
  *)
  small_merkle_start ==
    LET (*
      @type: ((Seq(Int), Int) => Seq(Int));
    *)
    __QUINT_LAMBDA5(small_merkle_l_163, small_merkle_i_163) ==
      Append(small_merkle_l_163, (IF small_merkle_i_163 < small_merkle_n - 1
      THEN 0
      ELSE small_merkle_leaves_242[
        ((2 * small_merkle_n - 2) - small_merkle_i_163 + 1)
      ]))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA5, <<>>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
    IN
    MkSeq(((2 * small_merkle_n - 1) - 0), __QUINT_LAMBDA4)))
  IN
  LET (*
    @type: (({ ns: Seq(Seq(Int)), tr: Seq(Int) }, Int) => { ns: Seq(Seq(Int)), tr: Seq(Int) });
  *)
  __QUINT_LAMBDA7(small_merkle_s_238, small_merkle_k_238) ==
    LET (*
      @type: (() => Int);
    *)
    small_merkle_i == (small_merkle_n - 2) - small_merkle_k_238
    IN
    LET (*
      @type: (() => Seq(Seq(Int)));
    *)
    small_merkle_more ==
      small_merkle_intern(small_merkle_s_238["ns"], small_merkle_s_238["tr"][
        ((2 * small_merkle_i + 1) + 1)
      ], small_merkle_s_238["tr"][((2 * small_merkle_i + 2) + 1)])
    IN
    [ns |-> small_merkle_more,
      tr |->
        [
          small_merkle_s_238["tr"] EXCEPT
            ![small_merkle_i + 1] =
              small_merkle_find((small_merkle_more), small_merkle_s_238["tr"][
                ((2 * small_merkle_i + 1) + 1)
              ], small_merkle_s_238["tr"][((2 * small_merkle_i + 2) + 1)])
        ]]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA7, [ns |-> <<>>, tr |-> small_merkle_start], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq(((small_merkle_n - 1) - 0), __QUINT_LAMBDA6)))

(*
  @type: ((Seq(Seq(Int)), Int, Seq(Int)) => Int);
*)
small_merkle_climb(small_merkle_ns_352, small_merkle_leaf_352, small_merkle_proof_352) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA12(small_merkle_x_350, small_merkle_y_350) ==
    small_merkle_join(small_merkle_ns_352, small_merkle_x_350, small_merkle_y_350)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA12, small_merkle_leaf_352, small_merkle_proof_352)

(*
  @type: ((Seq(Seq(Int)), Seq(Int), Seq(Int), Seq(Int)) => { bad: Str, h: Int, p: Int, queue: Seq(Int) });
*)
small_merkle_consume(small_merkle_ns_595, small_merkle_leaves_595, small_merkle_proof_595,
small_merkle_flags_595) ==
  LET (*
    @type: (({ bad: Str, h: Int, p: Int, queue: Seq(Int) }, Int) => { bad: Str, h: Int, p: Int, queue: Seq(Int) });
  *)
  __QUINT_LAMBDA14(small_merkle_s_593, small_merkle_i_593) ==
    IF small_merkle_s_593["bad"] /= ""
    THEN small_merkle_s_593
    ELSE IF small_merkle_flags_595[(small_merkle_i_593 + 1)] = 1
    THEN IF small_merkle_s_593["h"] + 1 >= Len(small_merkle_s_593["queue"])
    THEN [ small_merkle_s_593 EXCEPT !["bad"] = "InvalidRootChild" ]
    ELSE [
      [
        small_merkle_s_593 EXCEPT
          !["queue"] =
            Append(small_merkle_s_593["queue"], (small_merkle_join(small_merkle_ns_595,
            small_merkle_s_593["queue"][(small_merkle_s_593["h"] + 1)], small_merkle_s_593[
              "queue"
            ][
              ((small_merkle_s_593["h"] + 1) + 1)
            ])))
      ] EXCEPT
        !["h"] = small_merkle_s_593["h"] + 2
    ]
    ELSE IF small_merkle_s_593["p"] >= Len(small_merkle_proof_595)
    THEN [ small_merkle_s_593 EXCEPT !["bad"] = "InvalidProofLength" ]
    ELSE [
      [
        [
          small_merkle_s_593 EXCEPT
            !["queue"] =
              Append(small_merkle_s_593["queue"], (small_merkle_join(small_merkle_ns_595,
              small_merkle_s_593["queue"][(small_merkle_s_593["h"] + 1)], small_merkle_proof_595[
                (small_merkle_s_593["p"] + 1)
              ])))
        ] EXCEPT
          !["h"] = small_merkle_s_593["h"] + 1
      ] EXCEPT
        !["p"] = small_merkle_s_593["p"] + 1
    ]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA14, [queue |-> small_merkle_leaves_595,
    h |-> 0,
    p |-> 0,
    bad |-> ""], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA13(__quint_var6) == (0 + __quint_var6) - 1
  IN
  MkSeq((Len(small_merkle_flags_595) - 0), __QUINT_LAMBDA13)))

(*
  @type: ((Int, Int) => Bool);
*)
small_merkle_make(small_merkle_a_822, small_merkle_b_822) ==
  LET (*
    @type: (() => Seq(Seq(Int)));
  *)
  small_merkle_more ==
    small_merkle_intern(small_merkle_nodes, small_merkle_a_822, small_merkle_b_822)
  IN
  small_merkle_obs'
      := [op |-> "make",
        args |-> <<<<small_merkle_a_822>>, <<small_merkle_b_822>>>>,
        ret |->
          <<
            <<
              (small_merkle_find((small_merkle_more), small_merkle_a_822, small_merkle_b_822))
            >>
          >>,
        bad |-> ""]
    /\ small_merkle_nodes' := (small_merkle_more)
    /\ small_merkle_tree' := small_merkle_tree
    /\ small_merkle_spine' := small_merkle_spine
    /\ small_merkle_tip' := small_merkle_tip
    /\ small_merkle_pattern' := small_merkle_pattern

(*
  @type: (({ ns: Seq(Seq(Int)), tr: Seq(Int) }, Seq(Int), Int) => Bool);
*)
small_merkle_seed(small_merkle_g_1210, small_merkle_sp_1210, small_merkle_pat_1210) ==
  LET (*
    @type: (() => { ns: Seq(Seq(Int)), tip: Int });
  *)
  small_merkle_h ==
    small_merkle_lean(small_merkle_g_1210["ns"], small_merkle_sp_1210)
  IN
  small_merkle_nodes = (small_merkle_h)["ns"]
    /\ small_merkle_tree = small_merkle_g_1210["tr"]
    /\ small_merkle_spine = small_merkle_sp_1210
    /\ small_merkle_tip = (small_merkle_h)["tip"]
    /\ small_merkle_pattern = small_merkle_pat_1210
    /\ small_merkle_obs
      = [
        (small_merkle_noObs) EXCEPT
          !["args"] = <<<<(small_merkle_ATOMS)>>, <<small_merkle_pat_1210>>>>
      ]

(*
  @type: ((Int, Seq(Int), Int) => Bool);
*)
small_merkle_verify(small_merkle_leaf_449, small_merkle_proof_449, small_merkle_root_449) ==
  small_merkle_obs'
      := [op |-> "verify",
        args |->
          <<
            <<small_merkle_leaf_449>>, small_merkle_proof_449, <<
              small_merkle_root_449
            >>
          >>,
        ret |->
          <<
            <<
              (small_merkle_bit((small_merkle_climb(small_merkle_nodes, small_merkle_leaf_449,
              small_merkle_proof_449)
                = small_merkle_root_449)))
            >>
          >>,
        bad |-> ""]
    /\ small_merkle_nodes' := small_merkle_nodes
    /\ small_merkle_tree' := small_merkle_tree
    /\ small_merkle_spine' := small_merkle_spine
    /\ small_merkle_tip' := small_merkle_tip
    /\ small_merkle_pattern' := small_merkle_pattern

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int), Int) => Bool);
*)
small_merkle_multi(small_merkle_leaves_731, small_merkle_proof_731, small_merkle_flags_731,
small_merkle_root_731) ==
  IF Len(small_merkle_leaves_731) + Len(small_merkle_proof_731)
    /= Len(small_merkle_flags_731) + 1
  THEN small_merkle_answer(small_merkle_leaves_731, small_merkle_proof_731, small_merkle_flags_731,
  small_merkle_root_731, FALSE, "InvalidTotalHashes")
  ELSE IF Len(small_merkle_flags_731) = 0
  THEN small_merkle_answer(small_merkle_leaves_731, small_merkle_proof_731, small_merkle_flags_731,
  small_merkle_root_731, ((IF Len(small_merkle_leaves_731) > 0
  THEN small_merkle_leaves_731[(0 + 1)]
  ELSE small_merkle_proof_731[(0 + 1)])
    = small_merkle_root_731), "")
  ELSE IF Len(small_merkle_leaves_731) = 0
  THEN small_merkle_answer(small_merkle_leaves_731, small_merkle_proof_731, small_merkle_flags_731,
  small_merkle_root_731, FALSE, "NoLeaves")
  ELSE small_merkle_ran(small_merkle_leaves_731, small_merkle_proof_731, small_merkle_flags_731,
  small_merkle_root_731, (small_merkle_consume(small_merkle_nodes, small_merkle_leaves_731,
  small_merkle_proof_731, small_merkle_flags_731)))

(*
  @type: (() => Bool);
*)
small_merkle_complete ==
  LET (*
    @type: ((Bool, Int) => Bool);
  *)
  __QUINT_LAMBDA24(small_merkle_ok_2282, small_merkle_i_2282) ==
    small_merkle_ok_2282
      /\ small_merkle_climb(small_merkle_nodes, small_merkle_tree[
        (small_merkle_i_2282 + 1)
      ], (small_merkle_path(small_merkle_tree, small_merkle_i_2282)))
        = small_merkle_tree[(0 + 1)]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA24, TRUE, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA23(__quint_var11) == (0 + __quint_var11) - 1
  IN
  MkSeq((Len(small_merkle_tree) - 0), __QUINT_LAMBDA23)))

(*
  @type: ((Int) => Bool);
*)
small_merkle_honest(small_merkle_mask_2369) ==
  LET (*
    @type: (() => { flags: Seq(Int), proof: Seq(Int), stack: Seq(Int) });
  *)
  small_merkle_m ==
    small_merkle_multiProof(small_merkle_tree, (small_merkle_selected(small_merkle_mask_2369)))
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  small_merkle_l ==
    small_merkle_at((small_merkle_selected(small_merkle_mask_2369)))
  IN
  LET (*
    @type: (() => { bad: Str, h: Int, p: Int, queue: Seq(Int) });
  *)
  small_merkle_r ==
    small_merkle_consume(small_merkle_nodes, (small_merkle_l), (small_merkle_m)[
      "proof"
    ], (small_merkle_m)["flags"])
  IN
  Len((small_merkle_l)) + Len((small_merkle_m)["proof"])
      = Len((small_merkle_m)["flags"]) + 1
    /\ (IF Len((small_merkle_m)["flags"]) = 0
    THEN (IF Len((small_merkle_l)) > 0
    THEN (small_merkle_l)[(0 + 1)]
    ELSE (small_merkle_m)["proof"][(0 + 1)])
      = small_merkle_tree[(0 + 1)]
    ELSE (small_merkle_r)["bad"] = ""
      /\ (small_merkle_r)["queue"][(Len((small_merkle_r)["queue"]) - 1 + 1)]
        = small_merkle_tree[(0 + 1)])

(*
  @type: (() => Bool);
*)
small_merkle_init ==
  \E small_merkle_sz \in small_merkle_SIZES:
    \E small_merkle_base \in 0 .. small_merkle_ATOMS - 1:
      \E small_merkle_twin \in 0 .. 3:
        \E small_merkle_pat \in small_merkle_PATTERNS:
          \E small_merkle_depth \in small_merkle_SPINES:
            \E small_merkle_by \in 1 .. small_merkle_ATOMS:
              small_merkle_seed((small_merkle_grow(LET (*
                @type: ((Seq(Int), Int) => Seq(Int));
              *)
              __QUINT_LAMBDA9(small_merkle_l_1262, small_merkle_i_1262) ==
                Append(small_merkle_l_1262, (IF small_merkle_twin = 0
                  /\ small_merkle_i_1262 = small_merkle_sz - 1
                THEN small_merkle_base
                ELSE (small_merkle_base + small_merkle_i_1262)
                  % small_merkle_ATOMS))
              IN
              ApaFoldSeqLeft(__QUINT_LAMBDA9, <<>>, (LET (*
                @type: ((Int) => Int);
              *)
              __QUINT_LAMBDA8(__quint_var4) == (0 + __quint_var4) - 1
              IN
              MkSeq((small_merkle_sz - 0), __QUINT_LAMBDA8))))), LET (*
                @type: ((Seq(Int), Int) => Seq(Int));
              *)
              __QUINT_LAMBDA11(small_merkle_l_1280, small_merkle_i_1280) ==
                Append(small_merkle_l_1280, ((small_merkle_base
                  + small_merkle_i_1280 * small_merkle_by)
                  % small_merkle_ATOMS))
              IN
              ApaFoldSeqLeft(__QUINT_LAMBDA11, <<>>, (LET (*
                @type: ((Int) => Int);
              *)
              __QUINT_LAMBDA10(__quint_var5) == (0 + __quint_var5) - 1
              IN
              MkSeq((small_merkle_depth - 0), __QUINT_LAMBDA10))), small_merkle_pat)

(*
  @type: (() => Bool);
*)
small_merkle_stepAll ==
  \E small_merkle_nl \in 0 .. 2:
    \E small_merkle_np \in 0 .. 2:
      \E small_merkle_a \in 0 .. small_merkle_nterms - 1:
        \E small_merkle_b \in 0 .. small_merkle_nterms - 1:
          \E small_merkle_c \in 0 .. small_merkle_nterms - 1:
            \E small_merkle_root \in 0 .. small_merkle_nterms - 1:
              \E small_merkle_f \in { <<>>,
                <<0>>,
                <<1>>,
                <<0, 0>>,
                <<0, 1>>,
                <<1, 0>>,
                <<1, 1>>,
                <<0, 0, 0>>,
                <<1, 0, 1>>,
                <<0, 1, 1>>,
                <<1, 1, 0>>,
                <<1, 1, 1>>,
                <<0, 0, 1>> }:
                small_merkle_verify(small_merkle_a, (SubSeq(<<
                    small_merkle_b, small_merkle_c
                  >>, (0 + 1), small_merkle_np)), small_merkle_root)
                  \/ small_merkle_multi((SubSeq(<<
                    small_merkle_a, small_merkle_b
                  >>, (0 + 1), small_merkle_nl)), (SubSeq(<<
                    small_merkle_c, small_merkle_a
                  >>, (0 + 1), small_merkle_np)), small_merkle_f, small_merkle_root)
                  \/ (Len(small_merkle_nodes)
                      < (small_merkle_nleaves + Len(small_merkle_spine))
                        + small_merkle_EXTRA
                    /\ small_merkle_make(small_merkle_a, small_merkle_b))

(*
  @type: (() => Bool);
*)
small_merkle_completeMulti ==
  small_merkle_obs["op"] = "init"
    => LET (*
      @type: ((Bool, Int) => Bool);
    *)
    __QUINT_LAMBDA31(small_merkle_ok_2399, small_merkle_m_2399) ==
      small_merkle_ok_2399
        /\ small_merkle_honest((small_merkle_m_2399 * 37
          % 2 ^ small_merkle_nleaves))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA31, TRUE, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA30(__quint_var14) == (0 + __quint_var14) - 1
    IN
    MkSeq(((IF small_merkle_nleaves <= 6 THEN 2 ^ small_merkle_nleaves ELSE 8)
      - 0), __QUINT_LAMBDA30)))

(*
  @type: (() => Bool);
*)
q_init == small_merkle_init

(*
  @type: (() => Bool);
*)
q_step == small_merkle_stepAll

(*
  @type: (() => Bool);
*)
small_merkle_safety ==
  ((small_merkle_sound /\ small_merkle_soundMulti) /\ small_merkle_complete)
    /\ small_merkle_completeMulti

(*
  @type: (() => Bool);
*)
q_inv == small_merkle_safety


View == <<small_merkle_nodes, small_merkle_tree, small_merkle_spine, small_merkle_tip, small_merkle_pattern>>

==============================================================================
