\* generated by tools/export_tla.py from ecdsa.qnt 5b9e3a6d4b5fb14daa3a7f053741fc6d6f6363d3452a94ee408457e836b44d46
--------------------------------- MODULE ecdsa_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Bool;
  *)
  small_ecdsa_forged

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_ecdsa_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_ecdsa_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Set(Int));
*)
small_ecdsa_KEYS == { 1, 2 }

(*
  @type: (() => Set(Int));
*)
small_ecdsa_DIGESTS == { 0, 1 }

(*
  @type: (() => Str);
*)
small_ecdsa_HIGH == "ECDSAInvalidSignatureS(bytes32)"

(*
  @type: (() => Str);
*)
small_ecdsa_INVALID == "ECDSAInvalidSignature()"

(*
  @type: (() => Int);
*)
small_ecdsa_OTHER == 240

(*
  @type: (() => Bool);
*)
small_ecdsa_init ==
  small_ecdsa_forged = FALSE /\ small_ecdsa_obs = small_ecdsa_initObs

(*
  @type: ((Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_ecdsa_errsOf(small_ecdsa_class_72) ==
  IF small_ecdsa_class_72 = 1 \/ small_ecdsa_class_72 = 9
  THEN <<[sig |-> small_ecdsa_HIGH, args |-> <<<<7>>>>]>>
  ELSE IF small_ecdsa_class_72 \in { 2, 3, 4, 5, 6, 10 }
  THEN <<[sig |-> small_ecdsa_INVALID, args |-> <<>>]>>
  ELSE IF small_ecdsa_class_72 = 11
  THEN <<
    [sig |-> small_ecdsa_HIGH, args |-> <<<<7>>>>], [sig |-> small_ecdsa_INVALID,
      args |-> <<>>]
  >>
  ELSE <<>>

(*
  @type: ((Int, Int) => Int);
*)
small_ecdsa_answer(small_ecdsa_class_85, small_ecdsa_key_85) ==
  IF small_ecdsa_class_85 = 0 THEN small_ecdsa_key_85 ELSE small_ecdsa_OTHER

(*
  @type: (() => Bool);
*)
small_ecdsa_safety == ~small_ecdsa_forged

(*
  @type: (() => Bool);
*)
q_init == small_ecdsa_init

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_ecdsa_recover(small_ecdsa_key_147, small_ecdsa_digest_147, small_ecdsa_class_147,
small_ecdsa_salt_147) ==
  small_ecdsa_obs'
      := [op |-> "!recover(uint256)(address)",
        at |-> 0,
        by |-> 1,
        pay |-> 0,
        args |->
          <<
            <<small_ecdsa_key_147>>, <<small_ecdsa_digest_147>>, <<
              small_ecdsa_class_147
            >>, <<small_ecdsa_salt_147>>
          >>,
        errs |-> small_ecdsa_errsOf(small_ecdsa_class_147),
        ret |->
          <<
            <<(small_ecdsa_answer(small_ecdsa_class_147, small_ecdsa_key_147))>>
          >>,
        evs |-> <<>>]
    /\ (small_ecdsa_forged' := small_ecdsa_forged
      \/ ((small_ecdsa_class_147 /= 0
          /\ small_ecdsa_errsOf(small_ecdsa_class_147) = <<>>)
        /\ small_ecdsa_answer(small_ecdsa_class_147, small_ecdsa_key_147)
          = small_ecdsa_key_147))

(*
  @type: (() => Bool);
*)
q_inv == small_ecdsa_safety

(*
  @type: (() => Bool);
*)
small_ecdsa_stepAll ==
  \E small_ecdsa_k \in small_ecdsa_KEYS:
    \E small_ecdsa_d \in small_ecdsa_DIGESTS:
      \E small_ecdsa_c \in 0 .. 11:
        small_ecdsa_recover(small_ecdsa_k, small_ecdsa_d, small_ecdsa_c, 0)

(*
  @type: (() => Bool);
*)
q_step == small_ecdsa_stepAll


View == <<small_ecdsa_forged>>

==============================================================================
