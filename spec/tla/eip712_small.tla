\* generated by tools/export_tla.py from eip712.qnt 23f92103f672f0a476872863cf8c0e6c557de741a65c58950d484b6101d51583
--------------------------------- MODULE eip712_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  small_eip712_chain

VARIABLE
  (*
    @type: Set(<<Int, Int, Int>>);
  *)
  small_eip712_seen

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_eip712_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_eip712_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Set(Int));
*)
small_eip712_CONTRACTS == 0 .. 1

(*
  @type: (() => Set(Int));
*)
small_eip712_STRUCTS == 1 .. 3

(*
  @type: (() => Set(Int));
*)
small_eip712_CHAINS == 1 .. 2

(*
  @type: ((Int, Int, Int) => Int);
*)
small_eip712_code(small_eip712_c_37, small_eip712_ch_37, small_eip712_s_37) ==
  (small_eip712_c_37 * 100 + small_eip712_ch_37) * 1000000 + small_eip712_s_37

(*
  @type: (() => Bool);
*)
small_eip712_init ==
  small_eip712_chain = 1
    /\ small_eip712_seen = {}
    /\ small_eip712_obs
      = [ (small_eip712_initObs) EXCEPT !["args"] = <<<<1>>>> ]

(*
  @type: ((Int, Int) => Bool);
*)
small_eip712_digest(small_eip712_c_83, small_eip712_s_83) ==
  small_eip712_obs'
      := [op |-> "!digest(bytes32)(uint256)",
        at |-> small_eip712_c_83,
        by |-> 1,
        pay |-> 0,
        args |-> <<<<small_eip712_s_83>>>>,
        errs |-> <<>>,
        ret |->
          <<
            <<
              (small_eip712_code(small_eip712_c_83, small_eip712_chain, small_eip712_s_83))
            >>
          >>,
        evs |-> <<>>]
    /\ small_eip712_seen'
      := (small_eip712_seen
        \union {<<small_eip712_c_83, small_eip712_chain, small_eip712_s_83>>})
    /\ small_eip712_chain' := small_eip712_chain

(*
  @type: ((Int) => Bool);
*)
small_eip712_separator(small_eip712_c_119) ==
  small_eip712_obs'
      := [op |-> "!separator()(uint256)",
        at |-> small_eip712_c_119,
        by |-> 1,
        pay |-> 0,
        args |-> <<>>,
        errs |-> <<>>,
        ret |->
          <<<<(small_eip712_code(small_eip712_c_119, small_eip712_chain, 0))>>>>,
        evs |-> <<>>]
    /\ small_eip712_seen' := small_eip712_seen
    /\ small_eip712_chain' := small_eip712_chain

(*
  @type: ((Int) => Bool);
*)
small_eip712_setChain(small_eip712_c_215) ==
  small_eip712_obs'
      := [
        [ (small_eip712_initObs) EXCEPT !["op"] = "!chain(uint256)()" ] EXCEPT
          !["args"] = <<<<small_eip712_c_215>>>>
      ]
    /\ small_eip712_chain' := small_eip712_c_215
    /\ small_eip712_seen' := small_eip712_seen

(*
  @type: (() => Bool);
*)
small_eip712_safety ==
  \A small_eip712_x_318 \in small_eip712_seen:
    \A small_eip712_y_316 \in small_eip712_seen:
      small_eip712_x_318 = small_eip712_y_316
        \/ small_eip712_code(small_eip712_x_318[1], small_eip712_x_318[2], small_eip712_x_318[
          3
        ])
          /= small_eip712_code(small_eip712_y_316[1], small_eip712_y_316[2], small_eip712_y_316[
            3
          ])

(*
  @type: (() => Bool);
*)
q_init == small_eip712_init

(*
  @type: (() => Bool);
*)
small_eip712_stepAll ==
  \E small_eip712_c \in small_eip712_CONTRACTS:
    \E small_eip712_s \in small_eip712_STRUCTS:
      \E small_eip712_ch \in small_eip712_CHAINS:
        small_eip712_digest(small_eip712_c, small_eip712_s)
          \/ small_eip712_separator(small_eip712_c)
          \/ small_eip712_setChain(small_eip712_ch)

(*
  @type: (() => Bool);
*)
q_inv == small_eip712_safety

(*
  @type: (() => Bool);
*)
q_step == small_eip712_stepAll


View == <<small_eip712_chain, small_eip712_seen>>

==============================================================================
