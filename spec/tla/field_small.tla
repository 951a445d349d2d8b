\* generated by tools/export_tla.py from field.qnt fb6bcfdda43fd8d10b29b2a00b341db26aacb7e79fc4941d0bc4930e527d8aae
--------------------------------- MODULE field_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_field_FIDS == { 0, 1 }

(*
  @type: (() => Int);
*)
small_field_NREG == 2

VARIABLE
  (*
    @type: Int;
  *)
  small_field_fid

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_field_regs

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) };
  *)
  small_field_obs

(*
  @type: (() => { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) });
*)
small_field_noObs == [op |-> "init", args |-> <<>>, ret |-> <<>>, bad |-> ""]

(*
  @type: (() => Int);
*)
small_field_LIMB == 2

(*
  @type: (() => Seq(Int));
*)
small_field_WIDTH == <<2, 2>>

(*
  @type: (() => Seq(Int));
*)
small_field_MODS == <<5, 13>>

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
small_field_powmod(small_field_b_1737, small_field_e_1737, small_field_p_1737, small_field_n_1737) ==
  LET (*
    @type: (({ acc: Int, base: Int, e: Int }, Int) => { acc: Int, base: Int, e: Int });
  *)
  __QUINT_LAMBDA3(small_field_s_1733, small_field_i_1733) ==
    [acc |->
        IF small_field_s_1733["e"] % 2 = 1
        THEN small_field_s_1733["acc"] * small_field_s_1733["base"]
          % small_field_p_1737
        ELSE small_field_s_1733["acc"],
      base |->
        small_field_s_1733["base"] * small_field_s_1733["base"]
          % small_field_p_1737,
      e |-> small_field_s_1733["e"] \div 2]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, [acc |-> 1 % small_field_p_1737,
    base |-> small_field_b_1737 % small_field_p_1737,
    e |-> small_field_e_1737], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((small_field_n_1737 - 0), __QUINT_LAMBDA2)))[
    "acc"
  ]

(*
  @type: (() => Seq(Int));
*)
small_field_GENS == <<2, 2>>

(*
  @type: (() => Seq(Seq(Int)));
*)
small_field_FACTORS == <<<<2>>, <<2, 3>>>>

(*
  @type: (() => Bool);
*)
small_field_init ==
  \E small_field_f \in small_field_FIDS:
    LET (*
      @type: (() => Seq(Int));
    *)
    small_field_zeros ==
      LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA1(small_field_l_737, small_field_i_737) ==
        Append(small_field_l_737, 0)
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
      IN
      MkSeq((small_field_NREG - 0), __QUINT_LAMBDA0)))
    IN
    small_field_fid = small_field_f
      /\ small_field_regs = small_field_zeros
      /\ small_field_obs
        = [ (small_field_noObs) EXCEPT !["args"] = <<<<small_field_f>>>> ]

(*
  @type: (() => Int);
*)
small_field_nbits ==
  small_field_LIMB * (small_field_WIDTH)[(small_field_fid + 1)]

(*
  @type: ((Str, Seq(Seq(Int)), Int, Int, Bool) => Bool);
*)
small_field_write(small_field_op_103, small_field_args_103, small_field_k_103, small_field_v_103,
small_field_bad_103) ==
  small_field_obs'
      := [op |-> small_field_op_103,
        args |-> small_field_args_103,
        ret |-> IF small_field_bad_103 THEN <<>> ELSE <<<<small_field_v_103>>>>,
        bad |-> IF small_field_bad_103 THEN "panic" ELSE ""]
    /\ small_field_regs'
      := (IF small_field_bad_103
      THEN small_field_regs
      ELSE [
        small_field_regs EXCEPT
          ![small_field_k_103 + 1] = small_field_v_103
      ])
    /\ small_field_fid' := small_field_fid

(*
  @type: (() => Int);
*)
small_field_p == (small_field_MODS)[(small_field_fid + 1)]

(*
  @type: (() => Bool);
*)
q_init == small_field_init

(*
  @type: (() => Int);
*)
small_field_cap == 2 ^ small_field_nbits

(*
  @type: ((Int, Int) => Bool);
*)
small_field_fromBig(small_field_k_161, small_field_v_161) ==
  small_field_write("fromBig", <<<<small_field_k_161>>, <<small_field_v_161>>>>,
  small_field_k_161, (small_field_v_161 % small_field_p), FALSE)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_field_add(small_field_i_262, small_field_j_262, small_field_k_262) ==
  small_field_write("add", <<
    <<small_field_i_262>>, <<small_field_j_262>>, <<small_field_k_262>>
  >>, small_field_k_262, ((small_field_regs[(small_field_i_262 + 1)]
    + small_field_regs[(small_field_j_262 + 1)])
    % small_field_p), FALSE)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_field_sub(small_field_i_293, small_field_j_293, small_field_k_293) ==
  small_field_write("sub", <<
    <<small_field_i_293>>, <<small_field_j_293>>, <<small_field_k_293>>
  >>, small_field_k_293, (((small_field_regs[(small_field_i_293 + 1)]
    + small_field_p)
    - small_field_regs[(small_field_j_293 + 1)])
    % small_field_p), FALSE)

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_field_mul(small_field_i_322, small_field_j_322, small_field_k_322) ==
  small_field_write("mul", <<
    <<small_field_i_322>>, <<small_field_j_322>>, <<small_field_k_322>>
  >>, small_field_k_322, (small_field_regs[(small_field_i_322 + 1)]
    * small_field_regs[(small_field_j_322 + 1)]
    % small_field_p), FALSE)

(*
  @type: ((Int) => Int);
*)
small_field_inv(small_field_x_56) ==
  small_field_powmod(small_field_x_56, (small_field_p - 2), (small_field_p), (small_field_nbits))

(*
  @type: ((Int, Int) => Bool);
*)
small_field_neg(small_field_i_379, small_field_k_379) ==
  small_field_write("neg", <<<<small_field_i_379>>, <<small_field_k_379>>>>, small_field_k_379,
  ((small_field_p - small_field_regs[(small_field_i_379 + 1)]) % small_field_p),
  FALSE)

(*
  @type: ((Int, Int, Int, Int, Int) => Bool);
*)
small_field_pow(small_field_i_515, small_field_k_515, small_field_w_515, small_field_e_515,
small_field_bits_515) ==
  small_field_write("pow", <<
    <<small_field_i_515>>, <<small_field_k_515>>, <<small_field_w_515>>, <<
      small_field_e_515
    >>
  >>, small_field_k_515, (small_field_powmod(small_field_regs[
    (small_field_i_515 + 1)
  ], small_field_e_515, (small_field_p), small_field_bits_515)), FALSE)

(*
  @type: (() => Bool);
*)
small_field_canonical ==
  LET (*
    @type: ((Bool, Int) => Bool);
  *)
  __QUINT_LAMBDA5(small_field_a_1451, small_field_i_1451) ==
    (small_field_a_1451 /\ small_field_regs[(small_field_i_1451 + 1)] >= 0)
      /\ small_field_regs[(small_field_i_1451 + 1)] < small_field_p
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, TRUE, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((Len(small_field_regs) - 0), __QUINT_LAMBDA4)))

(*
  @type: (() => Bool);
*)
small_field_generates ==
  small_field_obs["op"] = "constants"
    /\ small_field_fid < Len((small_field_GENS))
    => LET (*
      @type: ((Bool, Int) => Bool);
    *)
    __QUINT_LAMBDA7(small_field_a_1534, small_field_i_1534) ==
      small_field_a_1534
        /\ small_field_powmod((small_field_GENS)[(small_field_fid + 1)], ((small_field_p
          - 1)
          \div (small_field_FACTORS)[(small_field_fid + 1)][
            (small_field_i_1534 + 1)
          ]), (small_field_p), (small_field_nbits))
          /= 1
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA7, TRUE, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
    IN
    MkSeq((Len((small_field_FACTORS)[(small_field_fid + 1)]) - 0), __QUINT_LAMBDA6)))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_field_div(small_field_i_356, small_field_j_356, small_field_k_356) ==
  small_field_write("div", <<
    <<small_field_i_356>>, <<small_field_j_356>>, <<small_field_k_356>>
  >>, small_field_k_356, (small_field_regs[(small_field_i_356 + 1)]
    * small_field_inv(small_field_regs[(small_field_j_356 + 1)])
    % small_field_p), (small_field_regs[(small_field_j_356 + 1)] = 0))

(*
  @type: ((Int, Int) => Bool);
*)
small_field_inverse(small_field_i_482, small_field_k_482) ==
  small_field_obs'
      := [op |-> "inverse",
        args |-> <<<<small_field_i_482>>, <<small_field_k_482>>>>,
        ret |->
          IF small_field_regs[(small_field_i_482 + 1)] = 0
          THEN <<<<>>>>
          ELSE <<
            <<(small_field_inv(small_field_regs[(small_field_i_482 + 1)]))>>
          >>,
        bad |-> ""]
    /\ small_field_regs'
      := (IF small_field_regs[(small_field_i_482 + 1)] = 0
      THEN small_field_regs
      ELSE [
        small_field_regs EXCEPT
          ![small_field_k_482 + 1] =
            small_field_inv(small_field_regs[(small_field_i_482 + 1)])
      ])
    /\ small_field_fid' := small_field_fid

(*
  @type: (() => Bool);
*)
small_field_safety == small_field_canonical /\ small_field_generates

(*
  @type: (() => Bool);
*)
small_field_stepAll ==
  \E small_field_i \in 0 .. small_field_NREG - 1:
    \E small_field_j \in 0 .. small_field_NREG - 1:
      \E small_field_k \in 0 .. small_field_NREG - 1:
        \E small_field_v \in 0 .. small_field_cap - 1:
          small_field_fromBig(small_field_k, small_field_v)
            \/ small_field_add(small_field_i, small_field_j, small_field_k)
            \/ small_field_sub(small_field_i, small_field_j, small_field_k)
            \/ small_field_mul(small_field_i, small_field_j, small_field_k)
            \/ small_field_div(small_field_i, small_field_j, small_field_k)
            \/ small_field_neg(small_field_i, small_field_k)
            \/ small_field_inverse(small_field_i, small_field_k)
            \/ small_field_pow(small_field_i, small_field_k, 6, small_field_v, (small_field_nbits))

(*
  @type: (() => Bool);
*)
q_inv == small_field_safety

(*
  @type: (() => Bool);
*)
q_step == small_field_stepAll


View == <<small_field_fid, small_field_regs>>

==============================================================================
