\* generated by tools/export_tla.py from curve.qnt 75fcb9968ad927d0a9c2a6db89e39f49fe047e3e5965b4733fc4fba6008d1d84
--------------------------------- MODULE curve_small ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
small_curve_IDS == { 0, 1 }

(*
  @type: (() => Int);
*)
small_curve_NREG == 2

(*
  @type: ((Seq(Int)) => Seq(Int));
*)
small_curve_list(small_curve_q_833) == small_curve_q_833

VARIABLE
  (*
    @type: Int;
  *)
  small_curve_id

VARIABLE
  (*
    @type: Seq(Seq(Int));
  *)
  small_curve_regs

VARIABLE
  (*
    @type: { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) };
  *)
  small_curve_obs

(*
  @type: (() => { args: Seq(Seq(Int)), bad: Str, op: Str, ret: Seq(Seq(Int)) });
*)
small_curve_noObs == [op |-> "init", args |-> <<>>, ret |-> <<>>, bad |-> ""]

(*
  @type: (() => Seq(Seq(Seq(Int))));
*)
small_curve_POINTS ==
  <<
    <<<<0, 1>>, <<0, 4>>, <<1, 2>>, <<1, 3>>, <<3, 2>>, <<3, 3>>>>, <<
      <<0, 1>>, <<0, 6>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 0>>, <<
        4, 3
      >>, <<4, 4>>, <<5, 0>>, <<6, 0>>
    >>
  >>

(*
  @type: ((Int, Int) => Int);
*)
small_curve_pos(small_curve_x_46, small_curve_p_46) ==
  ((small_curve_x_46 % small_curve_p_46) + small_curve_p_46) % small_curve_p_46

(*
  @type: ((Int, Int, Int, Int) => Int);
*)
small_curve_powmod(small_curve_b_2397, small_curve_e_2397, small_curve_p_2397, small_curve_n_2397) ==
  LET (*
    @type: (({ acc: Int, base: Int, e: Int }, Int) => { acc: Int, base: Int, e: Int });
  *)
  __QUINT_LAMBDA3(small_curve_s_2393, small_curve_i_2393) ==
    [acc |->
        IF small_curve_s_2393["e"] % 2 = 1
        THEN small_curve_s_2393["acc"] * small_curve_s_2393["base"]
          % small_curve_p_2397
        ELSE small_curve_s_2393["acc"],
      base |->
        small_curve_s_2393["base"] * small_curve_s_2393["base"]
          % small_curve_p_2397,
      e |-> small_curve_s_2393["e"] \div 2]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, [acc |-> 1 % small_curve_p_2397,
    base |-> small_curve_b_2397 % small_curve_p_2397,
    e |-> small_curve_e_2397], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((small_curve_n_2397 - 0), __QUINT_LAMBDA2)))[
    "acc"
  ]

(*
  @type: (() => Seq(Seq(Int)));
*)
small_curve_CURVES ==
  <<<<5, 2, 1, 7, 1, 0, 1, 1, 1>>, <<7, 0, 1, 3, 4, 0, 1, 1, 1>>>>

(*
  @type: (() => Int);
*)
small_curve_LIMB == 4

(*
  @type: ((Seq(Int), Seq(Int)) => Seq(Int));
*)
small_curve_negate(small_curve_c_196, small_curve_q_196) ==
  IF Len(small_curve_q_196) = 0
  THEN small_curve_q_196
  ELSE <<
    small_curve_q_196[(0 + 1)], ((small_curve_c_196[(0 + 1)]
      - small_curve_q_196[(1 + 1)])
      % small_curve_c_196[(0 + 1)])
  >>

(*
  @type: ((Int, Int) => Int);
*)
small_curve_bitlen(small_curve_x_2438, small_curve_n_2438) ==
  LET (*
    @type: (({ k: Int, x: Int }, Int) => { k: Int, x: Int });
  *)
  __QUINT_LAMBDA5(small_curve_s_2434, small_curve_i_2434) ==
    IF small_curve_s_2434["x"] = 0
    THEN small_curve_s_2434
    ELSE [x |-> small_curve_s_2434["x"] \div 2,
      k |-> small_curve_s_2434["k"] + 1]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, [x |-> small_curve_x_2438, k |-> 0], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((small_curve_n_2438 - 0), __QUINT_LAMBDA4)))[
    "k"
  ]

(*
  @type: (() => { x: Int, y: Int, z: Int });
*)
small_curve_none == [x |-> 0, y |-> 1, z |-> 0]

(*
  @type: ((Seq(Int), Seq(Int)) => Bool);
*)
small_curve_onCurve(small_curve_c_167, small_curve_q_167) ==
  Len(small_curve_q_167) = 0
    \/ small_curve_q_167[(1 + 1)] * small_curve_q_167[(1 + 1)]
      % small_curve_c_167[(0 + 1)]
      = (((small_curve_q_167[(0 + 1)] * small_curve_q_167[(0 + 1)])
        * small_curve_q_167[(0 + 1)]
        + small_curve_c_167[(1 + 1)] * small_curve_q_167[(0 + 1)])
        + small_curve_c_167[(2 + 1)])
        % small_curve_c_167[(0 + 1)]

(*
  @type: ((Bool) => Int);
*)
small_curve_bit(small_curve_b_2282) == IF small_curve_b_2282 THEN 1 ELSE 0

(*
  @type: ((Int) => Bool);
*)
small_curve_start(small_curve_i_1398) ==
  LET (*
    @type: (() => Seq(Seq(Int)));
  *)
  small_curve_empty ==
    LET (*
      @type: ((Seq(Seq(Int)), Int) => Seq(Seq(Int)));
    *)
    __QUINT_LAMBDA1(small_curve_l_1379, small_curve_k_1379) ==
      Append(small_curve_l_1379, (small_curve_list(<<>>)))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
      @type: ((Int) => Int);
    *)
    __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
    IN
    MkSeq((small_curve_NREG - 0), __QUINT_LAMBDA0)))
  IN
  small_curve_id = small_curve_i_1398
    /\ small_curve_regs = small_curve_empty
    /\ small_curve_obs
      = [ (small_curve_noObs) EXCEPT !["args"] = <<<<small_curve_i_1398>>>> ]

(*
  @type: ((Str, Seq(Seq(Int)), Int, Seq(Int)) => Bool);
*)
small_curve_write(small_curve_op_868, small_curve_args_868, small_curve_k_868, small_curve_v_868) ==
  small_curve_obs'
      := [op |-> small_curve_op_868,
        args |-> small_curve_args_868,
        ret |-> <<small_curve_v_868>>,
        bad |-> ""]
    /\ small_curve_regs'
      := [
        small_curve_regs EXCEPT
          ![small_curve_k_868 + 1] = small_curve_v_868
      ]
    /\ small_curve_id' := small_curve_id

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int), Int) => Seq(Int));
*)
small_curve_along(small_curve_c_242, small_curve_q_242, small_curve_r_242, small_curve_l_242) ==
  LET (*
    @type: (() => Int);
  *)
  small_curve_x ==
    small_curve_pos(((small_curve_l_242 * small_curve_l_242
      - small_curve_q_242[(0 + 1)])
      - small_curve_r_242[(0 + 1)]), small_curve_c_242[(0 + 1)])
  IN
  <<
    (small_curve_x), (small_curve_pos((small_curve_l_242
      * (small_curve_q_242[(0 + 1)] - small_curve_x)
      - small_curve_q_242[(1 + 1)]), small_curve_c_242[(0 + 1)]))
  >>

(*
  @type: ((Int, Int, Int) => Int);
*)
small_curve_inv(small_curve_x_62, small_curve_p_62, small_curve_n_62) ==
  small_curve_powmod(small_curve_x_62, (small_curve_p_62 - 2), small_curve_p_62,
  small_curve_n_62)

(*
  @type: (() => Int);
*)
small_curve_nb ==
  small_curve_LIMB * (small_curve_CURVES)[(small_curve_id + 1)][(7 + 1)]

(*
  @type: ((Seq(Int), { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
small_curve_twice(small_curve_c_491, small_curve_h_491) ==
  LET (*
    @type: (() => Int);
  *)
  small_curve_w ==
    ((small_curve_c_491[(1 + 1)] * small_curve_h_491["z"])
      * small_curve_h_491["z"]
      + (3 * small_curve_h_491["x"]) * small_curve_h_491["x"])
      % small_curve_c_491[(0 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_s ==
    small_curve_h_491["y"] * small_curve_h_491["z"] % small_curve_c_491[(0 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_t ==
    (small_curve_h_491["x"] * small_curve_h_491["y"]) * small_curve_s
      % small_curve_c_491[(0 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_u ==
    small_curve_pos((small_curve_w * small_curve_w - 8 * small_curve_t), small_curve_c_491[
      (0 + 1)
    ])
  IN
  [x |-> (2 * small_curve_u) * small_curve_s % small_curve_c_491[(0 + 1)],
    y |->
      small_curve_pos((small_curve_w * (4 * small_curve_t - small_curve_u)
        - (((8 * small_curve_h_491["y"]) * small_curve_h_491["y"])
          * small_curve_s)
          * small_curve_s), small_curve_c_491[(0 + 1)]),
    z |->
      ((8 * small_curve_s) * small_curve_s) * small_curve_s
        % small_curve_c_491[(0 + 1)]]

(*
  @type: (() => Int);
*)
small_curve_cofactor == (small_curve_CURVES)[(small_curve_id + 1)][(4 + 1)]

(*
  @type: ((Int, Seq(Int), Bool) => Bool);
*)
small_curve_create(small_curve_k_1003, small_curve_q_1003, small_curve_ok_1003) ==
  small_curve_obs'
      := [op |-> "create",
        args |-> <<<<small_curve_k_1003>>, small_curve_q_1003>>,
        ret |-> IF small_curve_ok_1003 THEN <<small_curve_q_1003>> ELSE <<>>,
        bad |-> IF small_curve_ok_1003 THEN "" ELSE "panic"]
    /\ small_curve_regs'
      := (IF small_curve_ok_1003
      THEN [
        small_curve_regs EXCEPT
          ![small_curve_k_1003 + 1] = small_curve_q_1003
      ]
      ELSE small_curve_regs)
    /\ small_curve_id' := small_curve_id

(*
  @type: (() => Int);
*)
small_curve_ns ==
  small_curve_LIMB * (small_curve_CURVES)[(small_curve_id + 1)][(8 + 1)]

(*
  @type: ((Str, Seq(Seq(Int)), Seq(Seq(Int))) => Bool);
*)
small_curve_see(small_curve_op_899, small_curve_args_899, small_curve_ret_899) ==
  small_curve_obs'
      := [op |-> small_curve_op_899,
        args |-> small_curve_args_899,
        ret |-> small_curve_ret_899,
        bad |-> ""]
    /\ small_curve_regs' := small_curve_regs
    /\ small_curve_id' := small_curve_id

(*
  @type: (() => Bool);
*)
small_curve_closed ==
  LET (*
    @type: ((Bool, Int) => Bool);
  *)
  __QUINT_LAMBDA9(small_curve_ok_1964, small_curve_i_1964) ==
    small_curve_ok_1964
      /\ small_curve_onCurve((small_curve_CURVES)[(small_curve_id + 1)], small_curve_regs[
        (small_curve_i_1964 + 1)
      ])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA9, TRUE, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA8(__quint_var4) == (0 + __quint_var4) - 1
  IN
  MkSeq((Len(small_curve_regs) - 0), __QUINT_LAMBDA8)))

(*
  @type: (() => Int);
*)
small_curve_order == (small_curve_CURVES)[(small_curve_id + 1)][(3 + 1)]

(*
  @type: (() => Bool);
*)
small_curve_init ==
  \E small_curve_i \in small_curve_IDS: small_curve_start(small_curve_i)

(*
  @type: ((Int, Seq(Int)) => Bool);
*)
small_curve_load(small_curve_k_914, small_curve_q_914) ==
  small_curve_write("load", <<<<small_curve_k_914>>, small_curve_q_914>>, small_curve_k_914,
  small_curve_q_914)

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int), Int) => Seq(Int));
*)
small_curve_plus(small_curve_c_357, small_curve_q_357, small_curve_r_357, small_curve_n_357) ==
  IF Len(small_curve_q_357) = 0
  THEN small_curve_r_357
  ELSE IF Len(small_curve_r_357) = 0
  THEN small_curve_q_357
  ELSE IF small_curve_q_357[(0 + 1)] /= small_curve_r_357[(0 + 1)]
  THEN small_curve_along(small_curve_c_357, small_curve_q_357, small_curve_r_357,
  (small_curve_pos(((small_curve_r_357[(1 + 1)] - small_curve_q_357[(1 + 1)])
    * small_curve_inv((small_curve_pos((small_curve_r_357[(0 + 1)]
      - small_curve_q_357[(0 + 1)]), small_curve_c_357[(0 + 1)])), small_curve_c_357[
      (0 + 1)
    ], small_curve_n_357)), small_curve_c_357[(0 + 1)])))
  ELSE IF (small_curve_q_357[(1 + 1)] + small_curve_r_357[(1 + 1)])
    % small_curve_c_357[(0 + 1)]
    = 0
  THEN <<>>
  ELSE small_curve_along(small_curve_c_357, small_curve_q_357, small_curve_r_357,
  (((3 * small_curve_q_357[(0 + 1)]) * small_curve_q_357[(0 + 1)]
    + small_curve_c_357[(1 + 1)])
    * small_curve_inv((2 * small_curve_q_357[(1 + 1)]
      % small_curve_c_357[(0 + 1)]), small_curve_c_357[(0 + 1)], small_curve_n_357)
    % small_curve_c_357[(0 + 1)]))

(*
  @type: ((Int, Int) => Bool);
*)
small_curve_neg(small_curve_i_1145, small_curve_k_1145) ==
  small_curve_write("neg", <<<<small_curve_i_1145>>, <<small_curve_k_1145>>>>, small_curve_k_1145,
  (small_curve_negate((small_curve_CURVES)[(small_curve_id + 1)], small_curve_regs[
    (small_curve_i_1145 + 1)
  ])))

(*
  @type: ((Seq(Int), { x: Int, y: Int, z: Int }, Int) => Seq(Int));
*)
small_curve_toPoint(small_curve_c_715, small_curve_h_715, small_curve_n_715) ==
  IF small_curve_h_715["z"] = 0
  THEN <<>>
  ELSE LET (*
    @type: (() => Int);
  *)
  small_curve_i ==
    small_curve_inv(small_curve_h_715["z"], small_curve_c_715[(0 + 1)], small_curve_n_715)
  IN
  <<
    (small_curve_h_715["x"] * small_curve_i % small_curve_c_715[(0 + 1)]), (small_curve_h_715[
      "y"
    ]
      * small_curve_i
      % small_curve_c_715[(0 + 1)])
  >>

(*
  @type: ((Seq(Int), { x: Int, y: Int, z: Int }, { x: Int, y: Int, z: Int }) => { x: Int, y: Int, z: Int });
*)
small_curve_joined(small_curve_c_669, small_curve_h_669, small_curve_g_669) ==
  IF small_curve_h_669["z"] = 0
  THEN small_curve_g_669
  ELSE IF small_curve_g_669["z"] = 0
  THEN small_curve_h_669
  ELSE LET (*
    @type: (() => Int);
  *)
  small_curve_u ==
    small_curve_pos((small_curve_g_669["y"] * small_curve_h_669["z"]
      - small_curve_h_669["y"] * small_curve_g_669["z"]), small_curve_c_669[
      (0 + 1)
    ])
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_v ==
    small_curve_pos((small_curve_g_669["x"] * small_curve_h_669["z"]
      - small_curve_h_669["x"] * small_curve_g_669["z"]), small_curve_c_669[
      (0 + 1)
    ])
  IN
  IF small_curve_v = 0
  THEN IF small_curve_u = 0
  THEN small_curve_twice(small_curve_c_669, small_curve_h_669)
  ELSE small_curve_none
  ELSE LET (*
    @type: (() => Int);
  *)
  small_curve_zz ==
    small_curve_h_669["z"] * small_curve_g_669["z"] % small_curve_c_669[(0 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_vv == small_curve_v * small_curve_v % small_curve_c_669[(0 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_vvv == small_curve_vv * small_curve_v % small_curve_c_669[(0 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_e ==
    (small_curve_vv * small_curve_h_669["x"]) * small_curve_g_669["z"]
      % small_curve_c_669[(0 + 1)]
  IN
  LET (*
    @type: (() => Int);
  *)
  small_curve_f ==
    small_curve_pos((((small_curve_u * small_curve_u) * small_curve_zz
      - small_curve_vvv)
      - 2 * small_curve_e), small_curve_c_669[(0 + 1)])
  IN
  [x |-> small_curve_v * small_curve_f % small_curve_c_669[(0 + 1)],
    y |->
      small_curve_pos((small_curve_u * (small_curve_e - small_curve_f)
        - (small_curve_vvv * small_curve_h_669["y"]) * small_curve_g_669["z"]), small_curve_c_669[
        (0 + 1)
      ]),
    z |-> small_curve_vvv * small_curve_zz % small_curve_c_669[(0 + 1)]]

(*
  @type: ((Int, Int) => Bool);
*)
small_curve_equal(small_curve_i_1336, small_curve_j_1336) ==
  small_curve_see("equal", <<<<small_curve_i_1336>>, <<small_curve_j_1336>>>>, <<
    <<
      (small_curve_bit((small_curve_regs[(small_curve_i_1336 + 1)]
        = small_curve_regs[(small_curve_j_1336 + 1)])))
    >>
  >>)

(*
  @type: (() => Bool);
*)
small_curve_safety == small_curve_closed

(*
  @type: (() => Bool);
*)
q_init == small_curve_init

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_curve_add(small_curve_i_1089, small_curve_j_1089, small_curve_k_1089) ==
  small_curve_write("add", <<
    <<small_curve_i_1089>>, <<small_curve_j_1089>>, <<small_curve_k_1089>>
  >>, small_curve_k_1089, (small_curve_plus((small_curve_CURVES)[
    (small_curve_id + 1)
  ], small_curve_regs[(small_curve_i_1089 + 1)], small_curve_regs[
    (small_curve_j_1089 + 1)
  ], (small_curve_nb))))

(*
  @type: ((Int, Int, Int) => Bool);
*)
small_curve_sub(small_curve_i_1123, small_curve_j_1123, small_curve_k_1123) ==
  small_curve_write("sub", <<
    <<small_curve_i_1123>>, <<small_curve_j_1123>>, <<small_curve_k_1123>>
  >>, small_curve_k_1123, (small_curve_plus((small_curve_CURVES)[
    (small_curve_id + 1)
  ], small_curve_regs[(small_curve_i_1123 + 1)], (small_curve_negate((small_curve_CURVES)[
    (small_curve_id + 1)
  ], small_curve_regs[(small_curve_j_1123 + 1)])), (small_curve_nb))))

(*
  @type: ((Int, Int) => Bool);
*)
small_curve_double(small_curve_i_1171, small_curve_k_1171) ==
  small_curve_write("double", <<<<small_curve_i_1171>>, <<small_curve_k_1171>>>>,
  small_curve_k_1171, (small_curve_plus((small_curve_CURVES)[
    (small_curve_id + 1)
  ], small_curve_regs[(small_curve_i_1171 + 1)], small_curve_regs[
    (small_curve_i_1171 + 1)
  ], (small_curve_nb))))

(*
  @type: ((Seq(Int), Int, Seq(Int), Int, Int) => Seq(Int));
*)
small_curve_times(small_curve_c_799, small_curve_k_799, small_curve_q_799, small_curve_len_799,
small_curve_n_799) ==
  IF Len(small_curve_q_799) = 0
  THEN <<>>
  ELSE small_curve_toPoint(small_curve_c_799, LET (*
    @type: (({ acc: { x: Int, y: Int, z: Int }, base: { x: Int, y: Int, z: Int }, k: Int }, Int) => { acc: { x: Int, y: Int, z: Int }, base: { x: Int, y: Int, z: Int }, k: Int });
  *)
  __QUINT_LAMBDA7(small_curve_s_792, small_curve_i_792) ==
    [acc |->
        IF small_curve_s_792["k"] % 2 = 1
        THEN small_curve_joined(small_curve_c_799, small_curve_s_792["acc"], small_curve_s_792[
          "base"
        ])
        ELSE small_curve_s_792["acc"],
      base |-> small_curve_twice(small_curve_c_799, small_curve_s_792["base"]),
      k |-> small_curve_s_792["k"] \div 2]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA7, [acc |-> small_curve_none,
    base |->
      [x |-> small_curve_q_799[(0 + 1)],
        y |-> small_curve_q_799[(1 + 1)],
        z |-> 1],
    k |-> small_curve_k_799], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq((small_curve_bitlen(small_curve_k_799, small_curve_len_799) - 0), __QUINT_LAMBDA6)))[
    "acc"
  ], small_curve_n_799)

(*
  @type: ((Int, Int, Int, Int, Int) => Bool);
*)
small_curve_mul(small_curve_i_1206, small_curve_k_1206, small_curve_form_1206, small_curve_e_1206,
small_curve_len_1206) ==
  small_curve_write("mul", <<
    <<small_curve_i_1206>>, <<small_curve_k_1206>>, <<small_curve_form_1206>>, <<
      small_curve_e_1206
    >>
  >>, small_curve_k_1206, (small_curve_times((small_curve_CURVES)[
    (small_curve_id + 1)
  ], small_curve_e_1206, small_curve_regs[(small_curve_i_1206 + 1)], small_curve_len_1206,
  (small_curve_nb))))

(*
  @type: ((Int, Int) => Bool);
*)
small_curve_cofactorMul(small_curve_i_1231, small_curve_k_1231) ==
  small_curve_write("cofactor", <<
    <<small_curve_i_1231>>, <<small_curve_k_1231>>
  >>, small_curve_k_1231, (small_curve_times((small_curve_CURVES)[
    (small_curve_id + 1)
  ], (small_curve_cofactor), small_curve_regs[(small_curve_i_1231 + 1)], (small_curve_nb),
  (small_curve_nb))))

(*
  @type: ((Seq(Int), Seq(Int), Int, Int) => Bool);
*)
small_curve_inSubgroup(small_curve_c_827, small_curve_q_827, small_curve_n_827, small_curve_len_827) ==
  small_curve_c_827[(4 + 1)] = 1
    \/ small_curve_times(small_curve_c_827, small_curve_c_827[(3 + 1)], small_curve_q_827,
    small_curve_len_827, small_curve_n_827)
      = <<>>

(*
  @type: ((Int, Seq(Int)) => Bool);
*)
small_curve_tryNew(small_curve_k_1026, small_curve_q_1026) ==
  small_curve_create(small_curve_k_1026, small_curve_q_1026, (small_curve_onCurve((small_curve_CURVES)[
      (small_curve_id + 1)
    ], small_curve_q_1026)
    /\ small_curve_inSubgroup((small_curve_CURVES)[(small_curve_id + 1)], small_curve_q_1026,
    (small_curve_nb), (small_curve_ns))))

(*
  @type: ((Seq(Int), Seq(Int), Seq(Int)) => Bool);
*)
small_curve_laws3(small_curve_q_2082, small_curve_r_2082, small_curve_s_2082) ==
  small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], (small_curve_plus((small_curve_CURVES)[
      (small_curve_id + 1)
    ], small_curve_q_2082, small_curve_r_2082, (small_curve_nb))), small_curve_s_2082,
    (small_curve_nb))
      = small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], small_curve_q_2082,
      (small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], small_curve_r_2082,
      small_curve_s_2082, (small_curve_nb))), (small_curve_nb))
    /\ small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], small_curve_q_2082,
    small_curve_r_2082, (small_curve_nb))
      = small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], small_curve_r_2082,
      small_curve_q_2082, (small_curve_nb))
    /\ small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], small_curve_q_2082,
    (small_curve_negate((small_curve_CURVES)[(small_curve_id + 1)], small_curve_q_2082)),
    (small_curve_nb))
      = <<>>
    /\ small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], small_curve_q_2082,
    (small_curve_plus((small_curve_CURVES)[(small_curve_id + 1)], small_curve_q_2082,
    small_curve_q_2082, (small_curve_nb))), (small_curve_nb))
      = small_curve_times((small_curve_CURVES)[(small_curve_id + 1)], 3, small_curve_q_2082,
      3, (small_curve_nb))
    /\ small_curve_times((small_curve_CURVES)[(small_curve_id + 1)], (small_curve_order
      * small_curve_cofactor), small_curve_q_2082, (small_curve_nb
      + small_curve_ns), (small_curve_nb))
      = <<>>
    /\ small_curve_inSubgroup((small_curve_CURVES)[(small_curve_id + 1)], (small_curve_times((small_curve_CURVES)[
      (small_curve_id + 1)
    ], (small_curve_cofactor), small_curve_q_2082, (small_curve_nb), (small_curve_nb))),
    (small_curve_nb), (small_curve_ns))

(*
  @type: (() => Bool);
*)
small_curve_stepAll ==
  \E small_curve_i \in 0 .. small_curve_NREG - 1:
    \E small_curve_j \in 0 .. small_curve_NREG - 1:
      \E small_curve_k \in 0 .. small_curve_NREG - 1:
        \E small_curve_q \in 0
          .. Len((small_curve_POINTS)[(small_curve_id + 1)]) - 1:
          \E small_curve_e \in 0 .. 7:
            small_curve_load(small_curve_k, (small_curve_POINTS)[
                (small_curve_id + 1)
              ][
                (small_curve_q + 1)
              ])
              \/ small_curve_add(small_curve_i, small_curve_j, small_curve_k)
              \/ small_curve_sub(small_curve_i, small_curve_j, small_curve_k)
              \/ small_curve_neg(small_curve_i, small_curve_k)
              \/ small_curve_double(small_curve_i, small_curve_k)
              \/ small_curve_mul(small_curve_i, small_curve_k, 0, small_curve_e,
              4)
              \/ small_curve_cofactorMul(small_curve_i, small_curve_k)
              \/ small_curve_tryNew(small_curve_k, (small_curve_POINTS)[
                (small_curve_id + 1)
              ][
                (small_curve_q + 1)
              ])
              \/ small_curve_equal(small_curve_i, small_curve_j)

(*
  @type: (() => Bool);
*)
small_curve_laws ==
  small_curve_safety
    /\ (small_curve_obs["op"] = "init"
      => LET (*
        @type: ((Bool, Int) => Bool);
      *)
      __QUINT_LAMBDA15(small_curve_x_2143, small_curve_i_2143) ==
        small_curve_x_2143
          /\ LET (*
            @type: ((Bool, Int) => Bool);
          *)
          __QUINT_LAMBDA14(small_curve_y_2140, small_curve_j_2140) ==
            small_curve_y_2140
              /\ LET (*
                @type: ((Bool, Int) => Bool);
              *)
              __QUINT_LAMBDA13(small_curve_z_2137, small_curve_k_2137) ==
                small_curve_z_2137
                  /\ small_curve_laws3((small_curve_POINTS)[
                    (small_curve_id + 1)
                  ][
                    (small_curve_i_2143 + 1)
                  ], (small_curve_POINTS)[(small_curve_id + 1)][
                    (small_curve_j_2140 + 1)
                  ], (small_curve_POINTS)[(small_curve_id + 1)][
                    (small_curve_k_2137 + 1)
                  ])
              IN
              ApaFoldSeqLeft(__QUINT_LAMBDA13, TRUE, (LET (*
                @type: ((Int) => Int);
              *)
              __QUINT_LAMBDA12(__quint_var7) == (0 + __quint_var7) - 1
              IN
              MkSeq((Len((small_curve_POINTS)[(small_curve_id + 1)]) - 0), __QUINT_LAMBDA12)))
          IN
          ApaFoldSeqLeft(__QUINT_LAMBDA14, TRUE, (LET (*
            @type: ((Int) => Int);
          *)
          __QUINT_LAMBDA11(__quint_var6) == (0 + __quint_var6) - 1
          IN
          MkSeq((Len((small_curve_POINTS)[(small_curve_id + 1)]) - 0), __QUINT_LAMBDA11)))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA15, TRUE, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA10(__quint_var5) == (0 + __quint_var5) - 1
      IN
      MkSeq((Len((small_curve_POINTS)[(small_curve_id + 1)]) - 0), __QUINT_LAMBDA10))))

(*
  @type: (() => Bool);
*)
q_step == small_curve_stepAll

(*
  @type: (() => Bool);
*)
q_inv == small_curve_laws


View == <<small_curve_id, small_curve_regs>>

==============================================================================
