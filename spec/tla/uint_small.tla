\* generated by tools/export_tla.py from uint.qnt 84f4fa69add78057ba4fc2a0704dc804f0a6af18780540259ae87c90a3f3eeb6
--------------------------------- MODULE uint_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_uint_NS == { 1, 2 }

(*
  @type: (() => Int);
*)
small_uint_NREG == 2

VARIABLE
  (*
    @type: Int;
  *)
  small_uint_n

VARIABLE
  (*
    @type: Seq(Int);
  *)
  small_uint_regs

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) };
  *)
  small_uint_obs

(*
  @type: (() => { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) });
*)
small_uint_noObs == [op |-> "init", args |-> <<>>, ret |-> <<>>, bad |-> ""]

(*
  @type: (() => Int);
*)
small_uint_LIMB == 2

(*
  @type: ((Seq(Int), Int) => Int);
*)
small_uint_fromDigits(small_uint_d_223, small_uint_base_223) ==
  LET (*
    @type: (({ m: Int, v: Int }, Int) => { m: Int, v: Int });
  *)
  __QUINT_LAMBDA2(small_uint_s_219, small_uint_x_219) ==
    [v |-> small_uint_s_219["v"] + small_uint_x_219 * small_uint_s_219["m"],
      m |-> small_uint_s_219["m"] * small_uint_base_223]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, [v |-> 0, m |-> 1], small_uint_d_223)[
    "v"
  ]

(*
  @type: ((Int, Int, Int) => Seq(Int));
*)
small_uint_digits(small_uint_x_186, small_uint_base_186, small_uint_len_186) ==
  LET (*
    @type: (({ l: Seq(Int), x: Int }, Int) => { l: Seq(Int), x: Int });
  *)
  __QUINT_LAMBDA4(small_uint_s_182, small_uint_i_182) ==
    [x |-> small_uint_s_182["x"] \div small_uint_base_186,
      l |->
        Append(small_uint_s_182["l"], (small_uint_s_182["x"]
          % small_uint_base_186))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA4, [x |-> small_uint_x_186, l |-> <<>>], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA3(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((small_uint_len_186 - 0), __QUINT_LAMBDA3)))[
    "l"
  ]

(*
  @type: ((Bool) => Int);
*)
small_uint_bit(small_uint_b_2343) == IF small_uint_b_2343 THEN 1 ELSE 0

(*
  @type: ((Int, Int) => Int);
*)
small_uint_bitlen(small_uint_x_2499, small_uint_n_2499) ==
  LET (*
    @type: (({ k: Int, x: Int }, Int) => { k: Int, x: Int });
  *)
  __QUINT_LAMBDA6(small_uint_s_2495, small_uint_i_2495) ==
    IF small_uint_s_2495["x"] = 0
    THEN small_uint_s_2495
    ELSE [x |-> small_uint_s_2495["x"] \div 2, k |-> small_uint_s_2495["k"] + 1]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA6, [x |-> small_uint_x_2499, k |-> 0], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA5(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((small_uint_n_2499 - 0), __QUINT_LAMBDA5)))[
    "k"
  ]

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
small_uint_bitop(small_uint_a_372, small_uint_b_372, small_uint_len_372, small_uint_op_372) ==
  LET (*
    @type: (({ a: Int, b: Int, m: Int, v: Int }, Int) => { a: Int, b: Int, m: Int, v: Int });
  *)
  __QUINT_LAMBDA8(small_uint_s_368, small_uint_i_368) ==
    LET (*@type: (() => Int); *) small_uint_x == small_uint_s_368["a"] % 2 IN
    LET (*@type: (() => Int); *) small_uint_y == small_uint_s_368["b"] % 2 IN
    LET (*
      @type: (() => Int);
    *)
    small_uint_z ==
      IF small_uint_op_372 = 0
      THEN small_uint_x * small_uint_y
      ELSE IF small_uint_op_372 = 1
      THEN (small_uint_x + small_uint_y) - small_uint_x * small_uint_y
      ELSE (small_uint_x + small_uint_y) % 2
    IN
    [a |-> small_uint_s_368["a"] \div 2,
      b |-> small_uint_s_368["b"] \div 2,
      m |-> 2 * small_uint_s_368["m"],
      v |-> small_uint_s_368["v"] + small_uint_z * small_uint_s_368["m"]]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA8, [a |-> small_uint_a_372,
    b |-> small_uint_b_372,
    m |-> 1,
    v |-> 0], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA7(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq((small_uint_len_372 - 0), __QUINT_LAMBDA7)))[
    "v"
  ]

(*
  @type: (() => Bool);
*)
small_uint_init ==
  \E small_uint_w \in small_uint_NS:
    LET (*
      @type: (() => Seq(Int));
    *)
    small_uint_zeros ==
      LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA1(small_uint_l_1283, small_uint_i_1283) ==
        Append(small_uint_l_1283, 0)
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
      IN
      MkSeq((small_uint_NREG - 0), __QUINT_LAMBDA0)))
    IN
    small_uint_n = small_uint_w
      /\ small_uint_regs = small_uint_zeros
      /\ small_uint_obs
        = [ (small_uint_noObs) EXCEPT !["args"] = <<<<small_uint_w>>>> ]

(*
  @type: (() => Int);
*)
small_uint_nbits == small_uint_LIMB * small_uint_n

(*
  @type: (() => Int);
*)
small_uint_limbTop == 2 ^ small_uint_LIMB

(*
  @type: ((Str, Seq(Seq(Int)), Int, Int, Bool) => Bool);
*)
small_uint_fill(small_uint_op_145, small_uint_args_145, small_uint_k_145, small_uint_v_145,
small_uint_bad_145) ==
  small_uint_obs'
      := [op |-> small_uint_op_145,
        args |-> small_uint_args_145,
        ret |-> IF small_uint_bad_145 THEN <<>> ELSE <<<<small_uint_v_145>>>>,
        bad |-> IF small_uint_bad_145 THEN "panic" ELSE ""]
    /\ small_uint_regs'
      := (IF small_uint_bad_145
      THEN small_uint_regs
      ELSE [ small_uint_regs EXCEPT ![small_uint_k_145 + 1] = small_uint_v_145 ])
    /\ small_uint_n' := small_uint_n

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int)), Int, Int) => Bool);
*)
small_uint_write(small_uint_op_67, small_uint_args_67, small_uint_ret_67, small_uint_k_67,
small_uint_v_67) ==
  small_uint_obs'
      := [op |-> small_uint_op_67,
        args |-> small_uint_args_67,
        ret |-> small_uint_ret_67,
        bad |-> ""]
    /\ small_uint_regs'
      := [ small_uint_regs EXCEPT ![small_uint_k_67 + 1] = small_uint_v_67 ]
    /\ small_uint_n' := small_uint_n

(*
  @type: (() => Bool);
*)
small_uint_logical ==
  small_uint_obs["op"] = "logic"
    => small_uint_obs["ret"][(1 + 1)][(0 + 1)]
      - small_uint_obs["ret"][(0 + 1)][(0 + 1)]
      = small_uint_obs["ret"][(2 + 1)][(0 + 1)]

(*
  @type: (() => Bool);
*)
q_init == small_uint_init

(*
  @type: (() => Int);
*)
small_uint_cap == 2 ^ small_uint_nbits

(*
  @type: ((Int, Seq(Int)) => Bool);
*)
small_uint_load(small_uint_k_394, small_uint_limbs_394) ==
  LET (*
    @type: (() => Int);
  *)
  small_uint_v ==
    small_uint_fromDigits(small_uint_limbs_394, (small_uint_limbTop))
  IN
  small_uint_fill("load", <<<<small_uint_k_394>>, small_uint_limbs_394>>, small_uint_k_394,
  (small_uint_v), FALSE)

(*
  @type: ((Int, Int) => Bool);
*)
small_uint_div2(small_uint_i_798, small_uint_k_798) ==
  small_uint_write("div2", <<<<small_uint_i_798>>, <<small_uint_k_798>>>>, <<
    <<(small_uint_regs[(small_uint_i_798 + 1)] \div 2)>>
  >>, small_uint_k_798, (small_uint_regs[(small_uint_i_798 + 1)] \div 2))

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
small_uint_add(small_uint_i_609, small_uint_j_609, small_uint_k_609, small_uint_c_609) ==
  LET (*
    @type: (() => Int);
  *)
  small_uint_s ==
    small_uint_regs[(small_uint_i_609 + 1)]
      + small_uint_regs[(small_uint_j_609 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_uint_t == small_uint_s + small_uint_c_609
  IN
  small_uint_write("add", <<
    <<small_uint_i_609>>, <<small_uint_j_609>>, <<small_uint_k_609>>, <<
      small_uint_c_609
    >>
  >>, <<
    <<(small_uint_s % small_uint_cap), (small_uint_s \div small_uint_cap)>>, <<
      (small_uint_s % small_uint_cap), (small_uint_s \div small_uint_cap)
    >>, <<(small_uint_s % small_uint_cap)>>, (IF small_uint_s < small_uint_cap
    THEN <<(small_uint_s)>>
    ELSE <<>>), <<
      (small_uint_t % small_uint_cap), (small_uint_t \div small_uint_cap)
    >>
  >>, small_uint_k_609, (small_uint_s % small_uint_cap))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_uint_sub(small_uint_i_661, small_uint_j_661, small_uint_k_661) ==
  LET (*
    @type: (() => Int);
  *)
  small_uint_d ==
    ((small_uint_regs[(small_uint_i_661 + 1)] + small_uint_cap)
      - small_uint_regs[(small_uint_j_661 + 1)])
      % small_uint_cap
  IN
  LET (*
    @type: (() => Int);
  *)
  small_uint_bo ==
    small_uint_bit((small_uint_regs[(small_uint_i_661 + 1)]
      < small_uint_regs[(small_uint_j_661 + 1)]))
  IN
  small_uint_write("sub", <<
    <<small_uint_i_661>>, <<small_uint_j_661>>, <<small_uint_k_661>>
  >>, <<
    <<(small_uint_d), (small_uint_bo)>>, <<(small_uint_d), (small_uint_bo)>>, <<
      (small_uint_d)
    >>
  >>, small_uint_k_661, (small_uint_d))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_uint_mul(small_uint_i_733, small_uint_j_733, small_uint_k_733) ==
  LET (*
    @type: (() => Int);
  *)
  small_uint_m ==
    small_uint_regs[(small_uint_i_733 + 1)]
      * small_uint_regs[(small_uint_j_733 + 1)]
  IN
  LET (*@type: (() => Int); *) small_uint_lo == small_uint_m % small_uint_cap IN
  LET (*
    @type: (() => Int);
  *)
  small_uint_hi == small_uint_m \div small_uint_cap
  IN
  small_uint_obs'
      := [op |-> "mul",
        args |->
          <<<<small_uint_i_733>>, <<small_uint_j_733>>, <<small_uint_k_733>>>>,
        ret |->
          <<
            <<(small_uint_lo), (small_uint_hi)>>, (IF small_uint_hi = 0
            THEN <<(small_uint_lo)>>
            ELSE <<>>)
          >>,
        bad |-> ""]
    /\ small_uint_regs'
      := [
        [ small_uint_regs EXCEPT ![small_uint_k_733 + 1] = small_uint_lo ] EXCEPT
          ![((small_uint_k_733 + 1) % small_uint_NREG) + 1] = small_uint_hi
      ]
    /\ small_uint_n' := small_uint_n

(*
  @type: ((Int, Int) => Bool);
*)
small_uint_mul2(small_uint_i_771, small_uint_k_771) ==
  small_uint_write("mul2", <<<<small_uint_i_771>>, <<small_uint_k_771>>>>, <<
    <<
      (2 * small_uint_regs[(small_uint_i_771 + 1)] % small_uint_cap), ((2
        * small_uint_regs[(small_uint_i_771 + 1)])
        \div small_uint_cap)
    >>
  >>, small_uint_k_771, (2 * small_uint_regs[(small_uint_i_771 + 1)]
    % small_uint_cap))

(*
  @type: ((Int, Int, Int, Int, Int) => Bool);
*)
small_uint_rem(small_uint_l_895, small_uint_h_895, small_uint_d_895, small_uint_k_895,
small_uint_at_895) ==
  LET (*
    @type: (() => Int);
  *)
  small_uint_w ==
    small_uint_regs[(small_uint_h_895 + 1)] * small_uint_cap
      + small_uint_regs[(small_uint_l_895 + 1)]
  IN
  LET (*
    @type: (() => Bool);
  *)
  small_uint_bad == small_uint_regs[(small_uint_d_895 + 1)] = 0
  IN
  LET (*
    @type: (() => Int);
  *)
  small_uint_v ==
    IF small_uint_bad
    THEN 0
    ELSE small_uint_w % small_uint_regs[(small_uint_d_895 + 1)]
  IN
  small_uint_obs'
      := [op |-> "rem",
        args |->
          <<
            <<small_uint_l_895>>, <<small_uint_h_895>>, <<small_uint_d_895>>, <<
              small_uint_k_895
            >>, <<small_uint_at_895>>
          >>,
        ret |->
          IF small_uint_bad
          THEN <<>>
          ELSE <<
            <<(small_uint_v)>>, <<
              (small_uint_bitlen((small_uint_w), (2 * small_uint_nbits)))
            >>, <<(small_uint_w \div 2 ^ small_uint_at_895 % 2)>>
          >>,
        bad |-> IF small_uint_bad THEN "panic" ELSE ""]
    /\ small_uint_regs'
      := (IF small_uint_bad
      THEN small_uint_regs
      ELSE [ small_uint_regs EXCEPT ![small_uint_k_895 + 1] = small_uint_v ])
    /\ small_uint_n' := small_uint_n

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_uint_logic(small_uint_i_957, small_uint_j_957, small_uint_k_957) ==
  LET (*
    @type: (() => Int);
  *)
  small_uint_x ==
    small_uint_bitop(small_uint_regs[(small_uint_i_957 + 1)], small_uint_regs[
      (small_uint_j_957 + 1)
    ], (small_uint_nbits), 2)
  IN
  small_uint_write("logic", <<
    <<small_uint_i_957>>, <<small_uint_j_957>>, <<small_uint_k_957>>
  >>, <<
    <<
      (small_uint_bitop(small_uint_regs[(small_uint_i_957 + 1)], small_uint_regs[
        (small_uint_j_957 + 1)
      ], (small_uint_nbits), 0))
    >>, <<
      (small_uint_bitop(small_uint_regs[(small_uint_i_957 + 1)], small_uint_regs[
        (small_uint_j_957 + 1)
      ], (small_uint_nbits), 1))
    >>, <<(small_uint_x)>>, <<
      ((small_uint_cap - 1) - small_uint_regs[(small_uint_i_957 + 1)])
    >>
  >>, small_uint_k_957, (small_uint_x))

(*
  @type: (() => Bool);
*)
small_uint_inRange ==
  LET (*
    @type: ((Bool, Int) => Bool);
  *)
  __QUINT_LAMBDA10(small_uint_a_2257, small_uint_i_2257) ==
    (small_uint_a_2257 /\ small_uint_regs[(small_uint_i_2257 + 1)] >= 0)
      /\ small_uint_regs[(small_uint_i_2257 + 1)] < small_uint_cap
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA10, TRUE, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA9(__quint_var4) == (0 + __quint_var4) - 1
  IN
  MkSeq((Len(small_uint_regs) - 0), __QUINT_LAMBDA9)))

(*
  @type: (() => Bool);
*)
small_uint_stepAll ==
  \E small_uint_i \in 0 .. small_uint_NREG - 1:
    \E small_uint_j \in 0 .. small_uint_NREG - 1:
      \E small_uint_k \in 0 .. small_uint_NREG - 1:
        \E small_uint_v \in 0 .. small_uint_cap - 1:
          small_uint_load(small_uint_k, (small_uint_digits(small_uint_v, (small_uint_limbTop),
            small_uint_n)))
            \/ small_uint_add(small_uint_i, small_uint_j, small_uint_k, (small_uint_v
              % small_uint_limbTop))
            \/ small_uint_sub(small_uint_i, small_uint_j, small_uint_k)
            \/ small_uint_mul(small_uint_i, small_uint_j, small_uint_k)
            \/ small_uint_mul2(small_uint_i, small_uint_k)
            \/ small_uint_div2(small_uint_i, small_uint_k)
            \/ small_uint_rem(small_uint_i, small_uint_j, 0, small_uint_k, 1)
            \/ small_uint_logic(small_uint_i, small_uint_j, small_uint_k)

(*
  @type: (() => Bool);
*)
small_uint_safety == small_uint_inRange /\ small_uint_logical

(*
  @type: (() => Bool);
*)
q_step == small_uint_stepAll

(*
  @type: (() => Bool);
*)
q_inv == small_uint_safety


View == <<small_uint_n, small_uint_regs>>

==============================================================================
