\* generated by tools/export_tla.py from nonces.qnt b5fcace3cc5c702e4d49267e6767b2de03681b091c273487dac7ddb0bf688159
--------------------------------- MODULE nonces_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_nonces_nonce

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_nonces_start

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_nonces_uses

(*
  @type: (() => Set(Int));
*)
small_nonces_USERS == { 0, 1, 2 }

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_nonces_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_nonces_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_nonces_UMAX == 6

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_nonces_guard(small_nonces_bad_480, small_nonces_sig_480, small_nonces_args_480) ==
  IF small_nonces_bad_480
  THEN <<[sig |-> small_nonces_sig_480, args |-> small_nonces_args_480]>>
  ELSE <<>>

(*
  @type: (((Int -> Int)) => Bool);
*)
small_nonces_initWith(small_nonces_m_236) ==
  small_nonces_nonce = small_nonces_m_236
    /\ small_nonces_start = small_nonces_m_236
    /\ small_nonces_uses = [ small_nonces___213 \in small_nonces_USERS |-> 0 ]
    /\ small_nonces_obs
      = [
        (small_nonces_initObs) EXCEPT
          !["args"] =
            <<
              <<small_nonces_m_236[0]>>, <<small_nonces_m_236[1]>>, <<
                small_nonces_m_236[2]
              >>
            >>
      ]

(*
  @type: ((Str, Int, Int, Seq(Seq(Int)), Seq(Seq(Int)), Seq({ args: Seq(Seq(Int)), sig: Str }), Bool) => Bool);
*)
small_nonces_call(small_nonces_op_103, small_nonces_by_103, small_nonces_who_103,
small_nonces_args_103, small_nonces_ret_103, small_nonces_errs_103, small_nonces_consume_103) ==
  small_nonces_obs'
      := [op |-> small_nonces_op_103,
        at |-> 0,
        by |-> small_nonces_by_103,
        pay |-> 0,
        args |-> small_nonces_args_103,
        errs |-> small_nonces_errs_103,
        ret |-> small_nonces_ret_103,
        evs |-> <<>>]
    /\ small_nonces_nonce'
      := (IF small_nonces_errs_103 = <<>> /\ small_nonces_consume_103
      THEN [
        small_nonces_nonce EXCEPT
          ![small_nonces_who_103] = small_nonces_nonce[small_nonces_who_103] + 1
      ]
      ELSE small_nonces_nonce)
    /\ small_nonces_uses'
      := (IF small_nonces_errs_103 = <<>> /\ small_nonces_consume_103
      THEN [
        small_nonces_uses EXCEPT
          ![small_nonces_who_103] = small_nonces_uses[small_nonces_who_103] + 1
      ]
      ELSE small_nonces_uses)
    /\ small_nonces_start' := small_nonces_start

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_nonces_full(small_nonces_who_117) ==
  small_nonces_guard((small_nonces_nonce[small_nonces_who_117]
    = small_nonces_UMAX), "#empty", <<>>)

(*
  @type: (() => Bool);
*)
small_nonces_safety ==
  \A small_nonces_a_368 \in small_nonces_USERS:
    small_nonces_nonce[small_nonces_a_368]
        = small_nonces_start[small_nonces_a_368]
          + small_nonces_uses[small_nonces_a_368]
      /\ small_nonces_nonce[small_nonces_a_368] <= small_nonces_UMAX

(*
  @type: (() => Bool);
*)
small_nonces_initAll ==
  small_nonces_initWith([ small_nonces___326 \in small_nonces_USERS |-> 0 ])

(*
  @type: ((Int, Int) => Bool);
*)
small_nonces_useNonce(small_nonces_by_139, small_nonces_who_139) ==
  small_nonces_call("useNonce(address)(uint256)", small_nonces_by_139, small_nonces_who_139,
  <<<<small_nonces_who_139>>>>, <<<<small_nonces_nonce[small_nonces_who_139]>>>>,
  (small_nonces_full(small_nonces_who_139)), TRUE)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_nonces_useChecked(small_nonces_by_176, small_nonces_who_176, small_nonces_n_176) ==
  small_nonces_call("useCheckedNonce(address,uint256)()", small_nonces_by_176, small_nonces_who_176,
  <<<<small_nonces_who_176>>, <<small_nonces_n_176>>>>, <<>>, (small_nonces_guard((small_nonces_n_176
    /= small_nonces_nonce[small_nonces_who_176]), "InvalidAccountNonce(address,uint256)",
  <<<<small_nonces_who_176>>, <<small_nonces_nonce[small_nonces_who_176]>>>>)
    \o small_nonces_full(small_nonces_who_176)), TRUE)

(*
  @type: (() => Bool);
*)
q_inv == small_nonces_safety

(*
  @type: (() => Bool);
*)
q_init == small_nonces_initAll

(*
  @type: (() => Bool);
*)
small_nonces_stepAll ==
  \E small_nonces_who \in small_nonces_USERS:
    \E small_nonces_n \in 0 .. small_nonces_UMAX:
      small_nonces_useNonce(1, small_nonces_who)
        \/ small_nonces_useChecked(1, small_nonces_who, small_nonces_n)

(*
  @type: (() => Bool);
*)
q_step == small_nonces_stepAll


View == <<small_nonces_nonce, small_nonces_start, small_nonces_uses>>

==============================================================================
