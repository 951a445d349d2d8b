\* generated by tools/export_tla.py from ownable2.qnt bdf6d77fe774b76b101557f0a3ea8654b6373ce4f0f07ad6bbaf67a7405026a0
--------------------------------- MODULE ownable2_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_ownable2_USERS == { 1, 2, 3 }

VARIABLE
  (*
    @type: Int;
  *)
  small_ownable2_owner

VARIABLE
  (*
    @type: Int;
  *)
  small_ownable2_pending

VARIABLE
  (*
    @type: Int;
  *)
  small_ownable2_hits

VARIABLE
  (*
    @type: Int;
  *)
  small_ownable2_nominee

VARIABLE
  (*
    @type: Bool;
  *)
  small_ownable2_fresh

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_ownable2_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_ownable2_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_ownable2_HITS == 2

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_ownable2_guard(small_ownable2_bad_552, small_ownable2_sig_552, small_ownable2_args_552) ==
  IF small_ownable2_bad_552
  THEN <<[sig |-> small_ownable2_sig_552, args |-> small_ownable2_args_552]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_ownable2_E_AUTH == "OwnableUnauthorizedAccount(address)"

(*
  @type: (() => Str);
*)
small_ownable2_STARTED ==
  "OwnershipTransferStarted(address indexed,address indexed)"

(*
  @type: (() => Str);
*)
small_ownable2_MOVED == "OwnershipTransferred(address indexed,address indexed)"

(*
  @type: (() => Set(Int));
*)
small_ownable2_ADDRS == small_ownable2_USERS \union {0}

(*
  @type: ((Str, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), Int, Int, Int) => Bool);
*)
small_ownable2_finish(small_ownable2_op_115, small_ownable2_by_115, small_ownable2_args_115,
small_ownable2_ret_115, small_ownable2_errs_115, small_ownable2_evs_115, small_ownable2_o_115,
small_ownable2_p_115, small_ownable2_h_115) ==
  small_ownable2_obs'
      := [op |-> small_ownable2_op_115,
        at |-> 0,
        by |-> small_ownable2_by_115,
        pay |-> 0,
        args |-> small_ownable2_args_115,
        errs |-> small_ownable2_errs_115,
        ret |-> small_ownable2_ret_115,
        evs |-> small_ownable2_evs_115]
    /\ small_ownable2_owner'
      := (IF small_ownable2_errs_115 = <<>>
      THEN small_ownable2_o_115
      ELSE small_ownable2_owner)
    /\ small_ownable2_pending'
      := (IF small_ownable2_errs_115 = <<>>
      THEN small_ownable2_p_115
      ELSE small_ownable2_pending)
    /\ small_ownable2_hits'
      := (IF small_ownable2_errs_115 = <<>>
      THEN small_ownable2_h_115
      ELSE small_ownable2_hits)

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_ownable2_only(small_ownable2_by_44) ==
  small_ownable2_guard((small_ownable2_by_44 /= small_ownable2_owner), (small_ownable2_E_AUTH),
  <<<<small_ownable2_by_44>>>>)

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }));
*)
small_ownable2_moved(small_ownable2_t_133) ==
  <<
    [at |-> 0,
      sig |-> small_ownable2_MOVED,
      args |-> <<<<small_ownable2_owner>>, <<small_ownable2_t_133>>>>]
  >>

(*
  @type: (() => Bool);
*)
small_ownable2_noStaleNominee ==
  small_ownable2_pending
    = (IF small_ownable2_fresh THEN small_ownable2_nominee ELSE 0)

(*
  @type: (() => Bool);
*)
small_ownable2_noOwnerNoNominee ==
  small_ownable2_owner = 0 => small_ownable2_pending = 0

(*
  @type: (() => Bool);
*)
small_ownable2_init ==
  \E small_ownable2_o \in small_ownable2_ADDRS:
    small_ownable2_owner = small_ownable2_o
      /\ small_ownable2_pending = 0
      /\ small_ownable2_hits = 0
      /\ small_ownable2_nominee = 0
      /\ small_ownable2_fresh = FALSE
      /\ small_ownable2_obs
        = [
          (small_ownable2_initObs) EXCEPT
            !["args"] = <<<<small_ownable2_o>>>>
        ]

(*
  @type: ((Int) => Bool);
*)
small_ownable2_restricted(small_ownable2_by_267) ==
  small_ownable2_finish("restricted()()", small_ownable2_by_267, <<>>, <<>>, (small_ownable2_only(small_ownable2_by_267)),
    <<>>, small_ownable2_owner, small_ownable2_pending, (small_ownable2_hits + 1))
    /\ small_ownable2_nominee' := small_ownable2_nominee
    /\ small_ownable2_fresh' := small_ownable2_fresh

(*
  @type: ((Int, Int) => Bool);
*)
small_ownable2_transferOwnership(small_ownable2_by_180, small_ownable2_t_180) ==
  small_ownable2_finish("transferOwnership(address)()", small_ownable2_by_180, <<
      <<small_ownable2_t_180>>
    >>, <<>>, (small_ownable2_only(small_ownable2_by_180)), <<
      [at |-> 0,
        sig |-> small_ownable2_STARTED,
        args |-> <<<<small_ownable2_owner>>, <<small_ownable2_t_180>>>>]
    >>, small_ownable2_owner, small_ownable2_t_180, small_ownable2_hits)
    /\ small_ownable2_nominee'
      := (IF small_ownable2_by_180 = small_ownable2_owner
      THEN small_ownable2_t_180
      ELSE small_ownable2_nominee)
    /\ small_ownable2_fresh'
      := (small_ownable2_fresh \/ small_ownable2_by_180 = small_ownable2_owner)

(*
  @type: ((Int) => Bool);
*)
small_ownable2_acceptOwnership(small_ownable2_by_214) ==
  small_ownable2_finish("acceptOwnership()()", small_ownable2_by_214, <<>>, <<>>,
    (small_ownable2_guard((small_ownable2_by_214 /= small_ownable2_pending), (small_ownable2_E_AUTH),
    <<<<small_ownable2_by_214>>>>)), (small_ownable2_moved(small_ownable2_by_214)),
    small_ownable2_by_214, 0, small_ownable2_hits)
    /\ small_ownable2_nominee' := small_ownable2_nominee
    /\ small_ownable2_fresh'
      := (small_ownable2_fresh
        /\ small_ownable2_by_214 /= small_ownable2_pending)

(*
  @type: ((Int) => Bool);
*)
small_ownable2_renounceOwnership(small_ownable2_by_242) ==
  small_ownable2_finish("renounceOwnership()()", small_ownable2_by_242, <<>>, <<
      
    >>, (small_ownable2_only(small_ownable2_by_242)), (small_ownable2_moved(0)),
    0, 0, small_ownable2_hits)
    /\ small_ownable2_nominee' := small_ownable2_nominee
    /\ small_ownable2_fresh'
      := (small_ownable2_fresh /\ small_ownable2_by_242 /= small_ownable2_owner)

(*
  @type: (() => Bool);
*)
small_ownable2_safety ==
  small_ownable2_noStaleNominee /\ small_ownable2_noOwnerNoNominee

(*
  @type: (() => Bool);
*)
q_init == small_ownable2_init

(*
  @type: (() => Bool);
*)
small_ownable2_stepAll ==
  \E small_ownable2_by \in small_ownable2_USERS:
    \E small_ownable2_t \in small_ownable2_ADDRS:
      (small_ownable2_hits < small_ownable2_HITS
          /\ small_ownable2_restricted(small_ownable2_by))
        \/ small_ownable2_transferOwnership(small_ownable2_by, small_ownable2_t)
        \/ small_ownable2_acceptOwnership(small_ownable2_by)
        \/ small_ownable2_renounceOwnership(small_ownable2_by)

(*
  @type: (() => Bool);
*)
q_inv == small_ownable2_safety

(*
  @type: (() => Bool);
*)
q_step == small_ownable2_stepAll


View == <<small_ownable2_owner, small_ownable2_pending, small_ownable2_hits, small_ownable2_nominee, small_ownable2_fresh>>

==============================================================================
