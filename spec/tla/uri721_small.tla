\* generated by tools/export_tla.py from uri721.qnt 16f8bac35b062a5d54fcd8f601e539e146f1707a9afeef8755fea8252325263d
--------------------------------- MODULE uri721_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Seq(Int)));
*)
small_uri721_STRS == { <<>>, <<97>>, <<48, 49>> }

VARIABLE
  (*
    @type: Set(Int);
  *)
  small_uri721_alive

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_uri721_base

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_uri721_name

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_uri721_symbol

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  small_uri721_own

(*
  @type: (() => Set(Int));
*)
small_uri721_IDS == { 0, 12 }

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  small_uri721_shown

(*
  @type: ((Int) => Seq(Int));
*)
small_uri721_decimal(small_uri721_n_764) ==
  LET (*
    @type: (() => { out: Seq(Int), rest: Int });
  *)
  small_uri721_r ==
    LET (*
      @type: (({ out: Seq(Int), rest: Int }, Int) => { out: Seq(Int), rest: Int });
    *)
    __QUINT_LAMBDA1(small_uri721_a_757, small_uri721_i_757) ==
      IF small_uri721_i_757 > 0 /\ small_uri721_a_757["rest"] = 0
      THEN small_uri721_a_757
      ELSE [rest |-> small_uri721_a_757["rest"] \div 10,
        out |->
          <<(48 + (small_uri721_a_757["rest"] % 10))>>
            \o small_uri721_a_757["out"]]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, [rest |-> small_uri721_n_764, out |-> <<>>],
    (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((78 - 0), __QUINT_LAMBDA0)))
  IN
  (small_uri721_r)["out"]

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  small_uri721_plain

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_uri721_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_uri721_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_uri721_guard(small_uri721_bad_672, small_uri721_sig_672, small_uri721_args_672) ==
  IF small_uri721_bad_672
  THEN <<[sig |-> small_uri721_sig_672, args |-> small_uri721_args_672]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_uri721_MISSING == "ERC721NonexistentToken(uint256)"

(*
  @type: ((Seq(Int), Seq(Int), Int) => Seq(Int));
*)
small_uri721_resolve(small_uri721_b_58, small_uri721_o_58, small_uri721_id_58) ==
  IF small_uri721_b_58 = <<>>
  THEN small_uri721_o_58
  ELSE IF small_uri721_o_58 = <<>>
  THEN small_uri721_b_58 \o small_uri721_decimal(small_uri721_id_58)
  ELSE small_uri721_b_58 \o small_uri721_o_58

(*
  @type: (() => Bool);
*)
small_uri721_init ==
  \E small_uri721_b \in small_uri721_STRS:
    \E small_uri721_n \in small_uri721_STRS:
      \E small_uri721_s \in small_uri721_STRS:
        \E small_uri721_k \in 0 .. 2:
          LET (*
            @type: (() => Seq(Int));
          *)
          small_uri721_bb == IF small_uri721_k = 0 THEN <<>> ELSE small_uri721_b
          IN
          small_uri721_alive = {}
            /\ small_uri721_base = small_uri721_bb
            /\ small_uri721_name = small_uri721_n
            /\ small_uri721_symbol = small_uri721_s
            /\ small_uri721_own
              = [ small_uri721___337 \in small_uri721_IDS |-> <<>> ]
            /\ small_uri721_shown
              = [
                small_uri721_i_347 \in small_uri721_IDS |->
                  small_uri721_resolve((small_uri721_bb), <<>>, small_uri721_i_347)
              ]
            /\ small_uri721_plain
              = [
                small_uri721_i_357 \in small_uri721_IDS |->
                  small_uri721_resolve((small_uri721_bb), <<>>, small_uri721_i_357)
              ]
            /\ small_uri721_obs
              = [
                (small_uri721_initObs) EXCEPT
                  !["args"] =
                    <<(small_uri721_bb), small_uri721_n, small_uri721_s>>
              ]

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), Set(Int), (Int -> Seq(Int))) => Bool);
*)
small_uri721_finish(small_uri721_op_153, small_uri721_by_153, small_uri721_args_153,
small_uri721_errs_153, small_uri721_ret_153, small_uri721_evs_153, small_uri721_al_153,
small_uri721_o_153) ==
  small_uri721_obs'
      := [op |-> small_uri721_op_153,
        at |-> 0,
        by |-> small_uri721_by_153,
        pay |-> 0,
        args |-> small_uri721_args_153,
        errs |-> small_uri721_errs_153,
        ret |-> small_uri721_ret_153,
        evs |-> small_uri721_evs_153]
    /\ small_uri721_alive'
      := (IF small_uri721_errs_153 = <<>>
      THEN small_uri721_al_153
      ELSE small_uri721_alive)
    /\ small_uri721_own'
      := (IF small_uri721_errs_153 = <<>>
      THEN small_uri721_o_153
      ELSE small_uri721_own)
    /\ small_uri721_base' := small_uri721_base
    /\ small_uri721_name' := small_uri721_name
    /\ small_uri721_symbol' := small_uri721_symbol
    /\ small_uri721_shown'
      := [
        small_uri721_i_145 \in small_uri721_IDS |->
          small_uri721_resolve(small_uri721_base, (IF small_uri721_errs_153
            = <<>>
          THEN small_uri721_o_153[small_uri721_i_145]
          ELSE small_uri721_own[small_uri721_i_145]), small_uri721_i_145)
      ]
    /\ small_uri721_plain' := small_uri721_plain

(*
  @type: (() => Bool);
*)
small_uri721_safety ==
  (\A small_uri721_i_460 \in small_uri721_IDS:
      small_uri721_shown[small_uri721_i_460]
        = small_uri721_resolve(small_uri721_base, small_uri721_own[
          small_uri721_i_460
        ], small_uri721_i_460))
    /\ (\A small_uri721_i_475 \in small_uri721_IDS:
      small_uri721_base /= <<>>
        \/ small_uri721_shown[small_uri721_i_475]
          = small_uri721_own[small_uri721_i_475])
    /\ (\A small_uri721_i_492 \in small_uri721_IDS:
      small_uri721_own[small_uri721_i_492] /= <<>>
        \/ small_uri721_shown[small_uri721_i_492]
          = small_uri721_plain[small_uri721_i_492])
    /\ (\A small_uri721_i_518 \in small_uri721_IDS:
      (small_uri721_own[small_uri721_i_518] = <<>> \/ small_uri721_base = <<>>)
        \/ Len(small_uri721_shown[small_uri721_i_518])
          = Len(small_uri721_base) + Len(small_uri721_own[small_uri721_i_518]))

(*
  @type: (() => Bool);
*)
q_init == small_uri721_init

(*
  @type: ((Int) => Bool);
*)
small_uri721_mint(small_uri721_id_194) ==
  small_uri721_finish("mint(address,uint256)()", 1, <<
    <<1>>, <<small_uri721_id_194>>
  >>, (small_uri721_guard((small_uri721_id_194 \in small_uri721_alive), "ERC721InvalidSender(address)",
  <<<<0>>>>)), <<>>, <<
    [at |-> 0,
      sig |-> "Transfer(address indexed,address indexed,uint256 indexed)",
      args |-> <<<<0>>, <<1>>, <<small_uri721_id_194>>>>]
  >>, (small_uri721_alive \union {small_uri721_id_194}), small_uri721_own)

(*
  @type: ((Int) => Bool);
*)
small_uri721_burn(small_uri721_id_234) ==
  small_uri721_finish("burn(uint256)()", 1, <<<<small_uri721_id_234>>>>, (small_uri721_guard(~(small_uri721_id_234
    \in small_uri721_alive), (small_uri721_MISSING), <<<<small_uri721_id_234>>>>)),
  <<>>, <<
    [at |-> 0,
      sig |-> "Transfer(address indexed,address indexed,uint256 indexed)",
      args |-> <<<<1>>, <<0>>, <<small_uri721_id_234>>>>]
  >>, (small_uri721_alive \ {small_uri721_id_234}), small_uri721_own)

(*
  @type: ((Int, Int, Seq(Int)) => Bool);
*)
small_uri721_setUri(small_uri721_by_267, small_uri721_id_267, small_uri721_s_267) ==
  small_uri721_finish("setTokenUri(uint256,string)()", small_uri721_by_267, <<
    <<small_uri721_id_267>>, small_uri721_s_267
  >>, <<>>, <<>>, <<
    [at |-> 0,
      sig |-> "MetadataUpdate(uint256)",
      args |-> <<<<small_uri721_id_267>>>>]
  >>, small_uri721_alive, [
    small_uri721_own EXCEPT
      ![small_uri721_id_267] = small_uri721_s_267
  ])

(*
  @type: ((Int, Int) => Bool);
*)
small_uri721_readUri(small_uri721_by_299, small_uri721_id_299) ==
  small_uri721_finish("tokenUri(uint256)(string)", small_uri721_by_299, <<
    <<small_uri721_id_299>>
  >>, (small_uri721_guard(~(small_uri721_id_299 \in small_uri721_alive), (small_uri721_MISSING),
  <<<<small_uri721_id_299>>>>)), <<
    (small_uri721_resolve(small_uri721_base, small_uri721_own[
      small_uri721_id_299
    ], small_uri721_id_299))
  >>, <<>>, small_uri721_alive, small_uri721_own)

(*
  @type: (() => Bool);
*)
q_inv == small_uri721_safety

(*
  @type: (() => Bool);
*)
small_uri721_stepAll ==
  \E small_uri721_id \in small_uri721_IDS:
    \E small_uri721_s \in small_uri721_STRS:
      small_uri721_mint(small_uri721_id)
        \/ small_uri721_burn(small_uri721_id)
        \/ small_uri721_setUri(1, small_uri721_id, small_uri721_s)
        \/ small_uri721_readUri(1, small_uri721_id)

(*
  @type: (() => Bool);
*)
q_step == small_uri721_stepAll


View == <<small_uri721_alive, small_uri721_base, small_uri721_name, small_uri721_symbol, small_uri721_own, small_uri721_shown, small_uri721_plain>>

==============================================================================
