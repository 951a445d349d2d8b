\* generated by tools/export_tla.py from ownable.qnt ee744f7fdde2b9d3505ea31b6c557695b0cb7c7f3acd81e80d739a27c0f565ee
--------------------------------- MODULE ownable_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_ownable_USERS == { 1, 2, 3 }

VARIABLE
  (*
    @type: Int;
  *)
  small_ownable_owner

VARIABLE
  (*
    @type: Int;
  *)
  small_ownable_hits

VARIABLE
  (*
    @type: Bool;
  *)
  small_ownable_gone

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_ownable_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_ownable_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_ownable_HITS == 2

(*
  @type: (() => Str);
*)
small_ownable_MOVED == "OwnershipTransferred(address indexed,address indexed)"

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_ownable_guard(small_ownable_bad_454, small_ownable_sig_454, small_ownable_args_454) ==
  IF small_ownable_bad_454
  THEN <<[sig |-> small_ownable_sig_454, args |-> small_ownable_args_454]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_ownable_E_AUTH == "OwnableUnauthorizedAccount(address)"

(*
  @type: (() => Str);
*)
small_ownable_E_OWNER == "OwnableInvalidOwner(address)"

(*
  @type: (() => Set(Int));
*)
small_ownable_ADDRS == small_ownable_USERS \union {0}

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Bool, Int, Int) => Bool);
*)
small_ownable_finish(small_ownable_op_116, small_ownable_by_116, small_ownable_args_116,
small_ownable_ret_116, small_ownable_errs_116, small_ownable_moved_116, small_ownable_o_116,
small_ownable_h_116) ==
  small_ownable_obs'
      := [op |-> small_ownable_op_116,
        at |-> 0,
        by |-> small_ownable_by_116,
        pay |-> 0,
        args |-> small_ownable_args_116,
        errs |-> small_ownable_errs_116,
        ret |-> small_ownable_ret_116,
        evs |->
          IF small_ownable_moved_116
          THEN <<
            [at |-> 0,
              sig |-> small_ownable_MOVED,
              args |-> <<<<small_ownable_owner>>, <<small_ownable_o_116>>>>]
          >>
          ELSE <<>>]
    /\ small_ownable_owner'
      := (IF small_ownable_errs_116 = <<>> /\ small_ownable_moved_116
      THEN small_ownable_o_116
      ELSE small_ownable_owner)
    /\ small_ownable_hits'
      := (IF small_ownable_errs_116 = <<>>
      THEN small_ownable_h_116
      ELSE small_ownable_hits)

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_ownable_only(small_ownable_by_40) ==
  small_ownable_guard((small_ownable_by_40 /= small_ownable_owner), (small_ownable_E_AUTH),
  <<<<small_ownable_by_40>>>>)

(*
  @type: (() => Bool);
*)
small_ownable_renouncedForGood == small_ownable_gone => small_ownable_owner = 0

(*
  @type: (() => Bool);
*)
small_ownable_init ==
  \E small_ownable_o \in small_ownable_ADDRS:
    small_ownable_owner = small_ownable_o
      /\ small_ownable_hits = 0
      /\ small_ownable_gone = (small_ownable_o = 0)
      /\ small_ownable_obs
        = [ (small_ownable_initObs) EXCEPT !["args"] = <<<<small_ownable_o>>>> ]

(*
  @type: ((Int) => Bool);
*)
small_ownable_restricted(small_ownable_by_192) ==
  small_ownable_finish("restricted()()", small_ownable_by_192, <<>>, <<>>, (small_ownable_only(small_ownable_by_192)),
    FALSE, small_ownable_owner, (small_ownable_hits + 1))
    /\ small_ownable_gone' := small_ownable_gone

(*
  @type: ((Int, Int) => Bool);
*)
small_ownable_transferOwnership(small_ownable_by_148, small_ownable_t_148) ==
  small_ownable_finish("transferOwnership(address)()", small_ownable_by_148, <<
      <<small_ownable_t_148>>
    >>, <<>>, (small_ownable_only(small_ownable_by_148)
      \o small_ownable_guard((small_ownable_t_148 = 0), (small_ownable_E_OWNER),
      <<<<0>>>>)), TRUE, small_ownable_t_148, small_ownable_hits)
    /\ small_ownable_gone' := small_ownable_gone

(*
  @type: ((Int) => Bool);
*)
small_ownable_renounceOwnership(small_ownable_by_171) ==
  small_ownable_finish("renounceOwnership()()", small_ownable_by_171, <<>>, <<>>,
    (small_ownable_only(small_ownable_by_171)), TRUE, 0, small_ownable_hits)
    /\ small_ownable_gone'
      := (small_ownable_gone \/ small_ownable_by_171 = small_ownable_owner)

(*
  @type: ((Int, Int) => Bool);
*)
small_ownable_setOwner(small_ownable_by_236, small_ownable_t_236) ==
  small_ownable_finish("assign(address)()", small_ownable_by_236, <<
      <<small_ownable_t_236>>
    >>, <<>>, <<>>, TRUE, small_ownable_t_236, small_ownable_hits)
    /\ small_ownable_gone' := (small_ownable_t_236 = 0)

(*
  @type: (() => Bool);
*)
small_ownable_safety ==
  small_ownable_renouncedForGood /\ small_ownable_owner \in small_ownable_ADDRS

(*
  @type: (() => Bool);
*)
q_init == small_ownable_init

(*
  @type: (() => Bool);
*)
small_ownable_stepAll ==
  \E small_ownable_by \in small_ownable_USERS:
    \E small_ownable_t \in small_ownable_ADDRS:
      (small_ownable_hits < small_ownable_HITS
          /\ small_ownable_restricted(small_ownable_by))
        \/ small_ownable_transferOwnership(small_ownable_by, small_ownable_t)
        \/ small_ownable_renounceOwnership(small_ownable_by)
        \/ small_ownable_setOwner(small_ownable_by, small_ownable_t)

(*
  @type: (() => Bool);
*)
q_inv == small_ownable_safety

(*
  @type: (() => Bool);
*)
q_step == small_ownable_stepAll


View == <<small_ownable_owner, small_ownable_hits, small_ownable_gone>>

==============================================================================
