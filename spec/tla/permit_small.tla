\* generated by tools/export_tla.py from permit.qnt ef5eea51fdcebdcaa4142b28a74d97a19b322ac0634b85963d4ced777f51a66b
--------------------------------- MODULE permit_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int };
  *)
  small_permit_tok

(*
  @type: ((Set(Int)) => { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int });
*)
small_permit_emptyTok(small_permit_addrs_1185) ==
  [bal |-> [ small_permit___1171 \in small_permit_addrs_1185 |-> 0 ],
    allow |->
      [
        small_permit___1179 \in
          small_permit_addrs_1185 \X small_permit_addrs_1185 |->
          0
      ],
    supply |-> 0]

(*
  @type: (() => Set(Int));
*)
small_permit_USERS == { 1, 2 }

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small_permit_nonce

VARIABLE
  (*
    @type: Int;
  *)
  small_permit_time

VARIABLE
  (*
    @type: Int;
  *)
  small_permit_chain

VARIABLE
  (*
    @type: Seq({ chain: Int, contract: Int, deadline: Int, mangle: Int, name: Int, nonce: Int, owner: Int, signer: Int, spender: Int, value: Int });
  *)
  small_permit_made

VARIABLE
  (*
    @type: Set({ chain: Int, contract: Int, deadline: Int, mangle: Int, name: Int, nonce: Int, owner: Int, signer: Int, spender: Int, value: Int });
  *)
  small_permit_used

VARIABLE
  (*
    @type: Bool;
  *)
  small_permit_twice

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) };
  *)
  small_permit_obs

(*
  @type: (() => { args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) });
*)
small_permit_initObs ==
  [op |-> "init",
    at |-> 0,
    by |-> 0,
    pay |-> 0,
    args |-> <<>>,
    errs |-> <<>>,
    ret |-> <<>>,
    evs |-> <<>>]

(*
  @type: (() => Int);
*)
small_permit_NMAX == 2

(*
  @type: ((Bool, Str, Seq(Seq(Int))) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_permit_guard(small_permit_bad_2043, small_permit_sig_2043, small_permit_args_2043) ==
  IF small_permit_bad_2043
  THEN <<[sig |-> small_permit_sig_2043, args |-> small_permit_args_2043]>>
  ELSE <<>>

(*
  @type: (() => Str);
*)
small_permit_E_APPROVER == "ERC20InvalidApprover(address)"

(*
  @type: (() => Str);
*)
small_permit_E_SPENDER == "ERC20InvalidSpender(address)"

(*
  @type: (() => Str);
*)
small_permit_APPROVAL == "Approval(address indexed,address indexed,uint256)"

(*
  @type: (() => Str);
*)
small_permit_E_SIGNER == "ERC2612InvalidSigner(address,address)"

(*
  @type: (() => Str);
*)
small_permit_E_EXPIRED == "ERC2612ExpiredSignature(uint256)"

(*
  @type: (() => Int);
*)
small_permit_KEEP == 0

(*
  @type: (() => Set(Int));
*)
small_permit_ADDRS == small_permit_USERS \union {0}

(*
  @type: (({ allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, Int, Int, Int, Int) => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
*)
small_permit_tApprove(small_permit_k_1354, small_permit_at_1354, small_permit_o_1354,
small_permit_s_1354, small_permit_v_1354) ==
  [tok |->
      [
        small_permit_k_1354 EXCEPT
          !["allow"] =
            [
              small_permit_k_1354["allow"] EXCEPT
                ![<<small_permit_o_1354, small_permit_s_1354>>] =
                  small_permit_v_1354
            ]
      ],
    errs |->
      small_permit_guard((small_permit_o_1354 = 0), (small_permit_E_APPROVER), <<
        <<0>>
      >>)
        \o small_permit_guard((small_permit_s_1354 = 0), (small_permit_E_SPENDER),
        <<<<0>>>>),
    evs |->
      <<
        [at |-> small_permit_at_1354,
          sig |-> small_permit_APPROVAL,
          args |->
            <<
              <<small_permit_o_1354>>, <<small_permit_s_1354>>, <<
                small_permit_v_1354
              >>
            >>]
      >>]

(*
  @type: (({ chain: Int, contract: Int, deadline: Int, mangle: Int, name: Int, nonce: Int, owner: Int, signer: Int, spender: Int, value: Int }, Int, Int, Int, Int) => Bool);
*)
small_permit_authentic(small_permit_s_152, small_permit_owner_152, small_permit_spender_152,
small_permit_v_152, small_permit_deadline_152) ==
  small_permit_s_152["owner"] = small_permit_owner_152
    /\ small_permit_s_152["spender"] = small_permit_spender_152
    /\ small_permit_s_152["value"] = small_permit_v_152
    /\ small_permit_s_152["deadline"] = small_permit_deadline_152
    /\ small_permit_s_152["nonce"] = small_permit_nonce[small_permit_owner_152]
    /\ small_permit_s_152["chain"] = small_permit_chain
    /\ small_permit_s_152["contract"] = 0
    /\ small_permit_s_152["name"] = 0

(*
  @type: (({ args: Seq(Seq(Int)), at: Int, by: Int, errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), op: Str, pay: Int, ret: Seq(Seq(Int)) }, { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int }, (Int -> Int)) => Bool);
*)
small_permit_commit(small_permit_o_96, small_permit_t_96, small_permit_n_96) ==
  small_permit_obs' := small_permit_o_96
    /\ small_permit_tok'
      := (IF small_permit_o_96["errs"] = <<>>
      THEN small_permit_t_96
      ELSE small_permit_tok)
    /\ small_permit_nonce'
      := (IF small_permit_o_96["errs"] = <<>>
      THEN small_permit_n_96
      ELSE small_permit_nonce)
    /\ small_permit_time' := small_permit_time
    /\ small_permit_chain' := small_permit_chain

(*
  @type: ((Str, Int, Int, Int) => Bool);
*)
small_permit_env(small_permit_op_619, small_permit_x_619, small_permit_t_619, small_permit_c_619) ==
  small_permit_obs'
      := [
        [ (small_permit_initObs) EXCEPT !["op"] = small_permit_op_619 ] EXCEPT
          !["args"] = <<<<small_permit_x_619>>>>
      ]
    /\ small_permit_time' := small_permit_t_619
    /\ small_permit_chain' := small_permit_c_619
    /\ small_permit_tok' := small_permit_tok
    /\ small_permit_nonce' := small_permit_nonce
    /\ small_permit_used' := small_permit_used
    /\ small_permit_twice' := small_permit_twice
    /\ small_permit_made' := small_permit_made

(*
  @type: (() => Bool);
*)
small_permit_safety == ~small_permit_twice

(*
  @type: (() => Bool);
*)
small_permit_init ==
  small_permit_tok = small_permit_emptyTok((small_permit_ADDRS))
    /\ small_permit_nonce = [ small_permit___648 \in small_permit_ADDRS |-> 0 ]
    /\ small_permit_time = 1000
    /\ small_permit_chain = 1
    /\ small_permit_made = <<>>
    /\ small_permit_used = {}
    /\ small_permit_twice = FALSE
    /\ small_permit_obs
      = [ (small_permit_initObs) EXCEPT !["args"] = <<<<1000>>, <<1>>>> ]

(*
  @type: (({ chain: Int, contract: Int, deadline: Int, mangle: Int, name: Int, nonce: Int, owner: Int, signer: Int, spender: Int, value: Int }, Int, Int, Int, Int) => Seq({ args: Seq(Seq(Int)), sig: Str }));
*)
small_permit_sigErrs(small_permit_s_270, small_permit_owner_270, small_permit_spender_270,
small_permit_v_270, small_permit_deadline_270) ==
  IF small_permit_s_270["mangle"] = 1
  THEN <<[sig |-> "~ECDSAInvalidSignatureS(bytes32)", args |-> <<<<0>>>>]>>
  ELSE IF small_permit_s_270["mangle"] \in { 2, 3, 4, 5 }
  THEN <<[sig |-> "ECDSAInvalidSignature()", args |-> <<>>]>>
  ELSE IF small_permit_s_270["mangle"] = 7
  THEN <<
    [sig |-> "~ERC2612InvalidSigner(address,address)",
      args |-> <<<<0>>, <<0>>>>], [sig |-> "ECDSAInvalidSignature()",
      args |-> <<>>]
  >>
  ELSE IF small_permit_s_270["mangle"] = 6
  THEN <<
    [sig |-> "~ERC2612InvalidSigner(address,address)",
      args |-> <<<<0>>, <<0>>>>], [sig |-> "ECDSAInvalidSignature()",
      args |-> <<>>]
  >>
  ELSE IF ~(small_permit_authentic(small_permit_s_270, small_permit_owner_270, small_permit_spender_270,
  small_permit_v_270, small_permit_deadline_270))
  THEN <<
    [sig |-> "~ERC2612InvalidSigner(address,address)",
      args |-> <<<<0>>, <<0>>>>]
  >>
  ELSE small_permit_guard((small_permit_s_270["signer"]
    /= small_permit_owner_270), (small_permit_E_SIGNER), <<
    <<small_permit_s_270["signer"]>>, <<small_permit_owner_270>>
  >>)

(*
  @type: ((Int) => Bool);
*)
small_permit_advance(small_permit_t_629) ==
  small_permit_env("!time(uint256)()", small_permit_t_629, small_permit_t_629, small_permit_chain)

(*
  @type: ((Int) => Bool);
*)
small_permit_setChain(small_permit_c_639) ==
  small_permit_env("!chain(uint256)()", small_permit_c_639, small_permit_time, small_permit_c_639)

(*
  @type: (() => Bool);
*)
q_inv == small_permit_safety

(*
  @type: (() => Bool);
*)
q_init == small_permit_init

(*
  @type: ((Int, Int, Int, Int, Int, { chain: Int, contract: Int, deadline: Int, mangle: Int, name: Int, nonce: Int, owner: Int, signer: Int, spender: Int, value: Int }) => Bool);
*)
small_permit_permit(small_permit_by_421, small_permit_owner_421, small_permit_spender_421,
small_permit_v_421, small_permit_deadline_421, small_permit_s_421) ==
  LET (*
    @type: (() => { errs: Seq({ args: Seq(Seq(Int)), sig: Str }), evs: Seq({ args: Seq(Seq(Int)), at: Int, sig: Str }), tok: { allow: (<<Int, Int>> -> Int), bal: (Int -> Int), supply: Int } });
  *)
  small_permit_r ==
    small_permit_tApprove(small_permit_tok, 0, small_permit_owner_421, small_permit_spender_421,
    small_permit_v_421)
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_permit_se ==
    small_permit_sigErrs(small_permit_s_421, small_permit_owner_421, small_permit_spender_421,
    small_permit_v_421, small_permit_deadline_421)
  IN
  LET (*
    @type: (() => Seq({ args: Seq(Seq(Int)), sig: Str }));
  *)
  small_permit_errs ==
    (small_permit_guard((small_permit_time > small_permit_deadline_421), (small_permit_E_EXPIRED),
    <<<<small_permit_deadline_421>>>>)
      \o small_permit_se)
      \o (small_permit_r)["errs"]
  IN
  small_permit_commit([op |-> "!permit(address,address,uint256,uint256)()",
      at |-> 0,
      by |-> small_permit_by_421,
      pay |-> 0,
      args |->
        <<
          <<small_permit_owner_421>>, <<small_permit_spender_421>>, <<
            small_permit_v_421
          >>, <<small_permit_deadline_421>>, <<
            small_permit_s_421["signer"], small_permit_s_421["owner"], small_permit_s_421[
              "spender"
            ], small_permit_s_421["value"], small_permit_s_421["nonce"], small_permit_s_421[
              "deadline"
            ], small_permit_s_421["chain"], small_permit_s_421["contract"], small_permit_s_421[
              "name"
            ], small_permit_s_421["mangle"]
          >>
        >>,
      errs |-> small_permit_errs,
      ret |-> <<>>,
      evs |-> (small_permit_r)["evs"]], (small_permit_r)["tok"], [
      small_permit_nonce EXCEPT
        ![small_permit_owner_421] =
          small_permit_nonce[small_permit_owner_421] + 1
    ])
    /\ small_permit_used'
      := (IF small_permit_errs = <<>>
      THEN small_permit_used \union {small_permit_s_421}
      ELSE small_permit_used)
    /\ (small_permit_twice' := small_permit_twice
      \/ (small_permit_errs = <<>> /\ small_permit_s_421 \in small_permit_used))
    /\ small_permit_made'
      := (IF Len(small_permit_made) < small_permit_KEEP
      THEN Append(small_permit_made, small_permit_s_421)
      ELSE small_permit_made)

(*
  @type: (() => Bool);
*)
small_permit_stepAll ==
  \E small_permit_o \in small_permit_USERS:
    \E small_permit_by \in small_permit_USERS:
      \E small_permit_n \in 0 .. small_permit_NMAX:
        \E small_permit_d \in { 1000, 1001 }:
          \E small_permit_mg \in { 0, 1 }:
            \E small_permit_c \in { 1, 2 }:
              (small_permit_nonce[small_permit_o] < small_permit_NMAX
                  /\ small_permit_permit(1, small_permit_o, 1, 1, small_permit_d,
                  [signer |-> small_permit_by,
                    owner |-> small_permit_o,
                    spender |-> 1,
                    value |-> 1,
                    nonce |-> small_permit_n,
                    deadline |-> small_permit_d,
                    chain |-> small_permit_c,
                    contract |-> 0,
                    name |-> 0,
                    mangle |-> small_permit_mg]))
                \/ (small_permit_time < 1002
                  /\ small_permit_advance((small_permit_time + 1)))
                \/ small_permit_setChain(small_permit_c)

(*
  @type: (() => Bool);
*)
q_step == small_permit_stepAll


View == <<small_permit_tok, small_permit_nonce, small_permit_time, small_permit_chain, small_permit_made, small_permit_used, small_permit_twice>>

==============================================================================
