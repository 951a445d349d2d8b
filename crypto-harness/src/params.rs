//! Generated by tools/gen_params.py.
#![allow(long_running_const_eval)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use openzeppelin_crypto::{arithmetic::uint::{from_str_hex, Uint}, curve::{sw::{Affine, SWCurveConfig}, CurveConfig},
    field::fp::{Fp, FpParams}, poseidon2::params::PoseidonParams};

pub struct M0;
impl FpParams<1> for M0 { const MODULUS: Uint<1> = from_str_hex("3"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M1;
impl FpParams<1> for M1 { const MODULUS: Uint<1> = from_str_hex("5"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M2;
impl FpParams<1> for M2 { const MODULUS: Uint<1> = from_str_hex("11"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M3;
impl FpParams<1> for M3 { const MODULUS: Uint<1> = from_str_hex("61"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M4;
impl FpParams<1> for M4 { const MODULUS: Uint<1> = from_str_hex("10001"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M5;
impl FpParams<1> for M5 { const MODULUS: Uint<1> = from_str_hex("1fffffffffffffff"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M6;
impl FpParams<1> for M6 { const MODULUS: Uint<1> = from_str_hex("7fffffffffffffe7"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M7;
impl FpParams<1> for M7 { const MODULUS: Uint<1> = from_str_hex("ffffffffffffffc5"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M8;
impl FpParams<2> for M8 { const MODULUS: Uint<2> = from_str_hex("61"); const GENERATOR: Fp<Self, 2> = Fp::new(from_str_hex("2")); }
pub struct M9;
impl FpParams<2> for M9 { const MODULUS: Uint<2> = from_str_hex("ffffffffffffffc5"); const GENERATOR: Fp<Self, 2> = Fp::new(from_str_hex("2")); }
pub struct M10;
impl FpParams<2> for M10 { const MODULUS: Uint<2> = from_str_hex("7fffffffffffffffffffffffffffffff"); const GENERATOR: Fp<Self, 2> = Fp::new(from_str_hex("2")); }
pub struct M11;
impl FpParams<2> for M11 { const MODULUS: Uint<2> = from_str_hex("ffffffffffffffffffffffffffffff61"); const GENERATOR: Fp<Self, 2> = Fp::new(from_str_hex("2")); }
pub struct M12;
impl FpParams<3> for M12 { const MODULUS: Uint<3> = from_str_hex("7fffffffffffffffffffffffffffffffffffffffffffffed"); const GENERATOR: Fp<Self, 3> = Fp::new(from_str_hex("2")); }
pub struct M13;
impl FpParams<3> for M13 { const MODULUS: Uint<3> = from_str_hex("ffffffffffffffffffffffffffffffffffffffffffffff13"); const GENERATOR: Fp<Self, 3> = Fp::new(from_str_hex("2")); }
pub struct M14;
impl FpParams<4> for M14 { const MODULUS: Uint<4> = from_str_hex("61"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M15;
impl FpParams<4> for M15 { const MODULUS: Uint<4> = from_str_hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M16;
impl FpParams<4> for M16 { const MODULUS: Uint<4> = from_str_hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M17;
impl FpParams<4> for M17 { const MODULUS: Uint<4> = from_str_hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M18;
impl FpParams<4> for M18 { const MODULUS: Uint<4> = from_str_hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M19;
impl FpParams<5> for M19 { const MODULUS: Uint<5> = from_str_hex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff3b"); const GENERATOR: Fp<Self, 5> = Fp::new(from_str_hex("2")); }
pub struct M20;
impl FpParams<6> for M20 { const MODULUS: Uint<6> = from_str_hex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"); const GENERATOR: Fp<Self, 6> = Fp::new(from_str_hex("2")); }
pub struct M21;
impl FpParams<6> for M21 { const MODULUS: Uint<6> = from_str_hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec3"); const GENERATOR: Fp<Self, 6> = Fp::new(from_str_hex("2")); }
pub struct M22;
impl FpParams<7> for M22 { const MODULUS: Uint<7> = from_str_hex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff35"); const GENERATOR: Fp<Self, 7> = Fp::new(from_str_hex("2")); }
pub struct M23;
impl FpParams<7> for M23 { const MODULUS: Uint<7> = from_str_hex("7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffebb"); const GENERATOR: Fp<Self, 7> = Fp::new(from_str_hex("2")); }
pub struct M24;
impl FpParams<8> for M24 { const MODULUS: Uint<8> = from_str_hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7"); const GENERATOR: Fp<Self, 8> = Fp::new(from_str_hex("2")); }
pub struct M25;
impl FpParams<9> for M25 { const MODULUS: Uint<9> = from_str_hex("1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"); const GENERATOR: Fp<Self, 9> = Fp::new(from_str_hex("2")); }
pub struct M26;
impl FpParams<10> for M26 { const MODULUS: Uint<10> = from_str_hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffecf"); const GENERATOR: Fp<Self, 10> = Fp::new(from_str_hex("2")); }
pub struct M27;
impl FpParams<11> for M27 { const MODULUS: Uint<11> = from_str_hex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff0b"); const GENERATOR: Fp<Self, 11> = Fp::new(from_str_hex("2")); }
pub struct M28;
impl FpParams<12> for M28 { const MODULUS: Uint<12> = from_str_hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffcc7"); const GENERATOR: Fp<Self, 12> = Fp::new(from_str_hex("2")); }
pub struct M29;
impl FpParams<13> for M29 { const MODULUS: Uint<13> = from_str_hex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff71"); const GENERATOR: Fp<Self, 13> = Fp::new(from_str_hex("2")); }
pub struct M30;
impl FpParams<13> for M30 { const MODULUS: Uint<13> = from_str_hex("7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff8b3"); const GENERATOR: Fp<Self, 13> = Fp::new(from_str_hex("2")); }
#[macro_export]
macro_rules! on_field { ($id:expr, $go:ident) => { match $id {
        0 => $go!(openzeppelin_crypto::field::instance::FpVesta, 4),
        1 => $go!(openzeppelin_crypto::field::instance::FpBabyBear, 1),
        2 => $go!(openzeppelin_crypto::field::instance::FpBLS12, 4),
        3 => $go!(openzeppelin_crypto::field::instance::FpBN256, 4),
        4 => $go!(openzeppelin_crypto::field::instance::FpGoldiLocks, 1),
        5 => $go!(openzeppelin_crypto::field::instance::FpPallas, 4),
        6 => $go!(Fp<crate::params::M0, 1>, 1),
        7 => $go!(Fp<crate::params::M1, 1>, 1),
        8 => $go!(Fp<crate::params::M2, 1>, 1),
        9 => $go!(Fp<crate::params::M3, 1>, 1),
        10 => $go!(Fp<crate::params::M4, 1>, 1),
        11 => $go!(Fp<crate::params::M5, 1>, 1),
        12 => $go!(Fp<crate::params::M6, 1>, 1),
        13 => $go!(Fp<crate::params::M7, 1>, 1),
        14 => $go!(Fp<crate::params::M8, 2>, 2),
        15 => $go!(Fp<crate::params::M9, 2>, 2),
        16 => $go!(Fp<crate::params::M10, 2>, 2),
        17 => $go!(Fp<crate::params::M11, 2>, 2),
        18 => $go!(Fp<crate::params::M12, 3>, 3),
        19 => $go!(Fp<crate::params::M13, 3>, 3),
        20 => $go!(Fp<crate::params::M14, 4>, 4),
        21 => $go!(Fp<crate::params::M15, 4>, 4),
        22 => $go!(Fp<crate::params::M16, 4>, 4),
        23 => $go!(Fp<crate::params::M17, 4>, 4),
        24 => $go!(Fp<crate::params::M18, 4>, 4),
        25 => $go!(Fp<crate::params::M19, 5>, 5),
        26 => $go!(Fp<crate::params::M20, 6>, 6),
        27 => $go!(Fp<crate::params::M21, 6>, 6),
        28 => $go!(Fp<crate::params::M22, 7>, 7),
        29 => $go!(Fp<crate::params::M23, 7>, 7),
        30 => $go!(Fp<crate::params::M24, 8>, 8),
        31 => $go!(Fp<crate::params::M25, 9>, 9),
        32 => $go!(Fp<crate::params::M26, 10>, 10),
        33 => $go!(Fp<crate::params::M27, 11>, 11),
        34 => $go!(Fp<crate::params::M28, 12>, 12),
        35 => $go!(Fp<crate::params::M29, 13>, 13),
        36 => $go!(Fp<crate::params::M30, 13>, 13),
        _ => panic!("harness: field"),
    } } }
pub struct M31;
impl FpParams<1> for M31 { const MODULUS: Uint<1> = from_str_hex("65"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E0;
impl CurveConfig for E0 { type BaseField = Fp<M3, 1>; type ScalarField = Fp<M31, 1>; const COFACTOR: &'static [u64] = &[1]; const COFACTOR_INV: Fp<M31, 1> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E0 { const COEFF_A: Fp<M3, 1> = Fp::new(from_str_hex("2")); const COEFF_B: Fp<M3, 1> = Fp::new(from_str_hex("e")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("3")), Fp::new(from_str_hex("c"))); }
pub struct M32;
impl FpParams<1> for M32 { const MODULUS: Uint<1> = from_str_hex("67"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E1;
impl CurveConfig for E1 { type BaseField = Fp<M32, 1>; type ScalarField = Fp<M3, 1>; const COFACTOR: &'static [u64] = &[1, 0]; const COFACTOR_INV: Fp<M3, 1> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E1 { const COEFF_A: Fp<M32, 1> = Fp::new(from_str_hex("0")); const COEFF_B: Fp<M32, 1> = Fp::new(from_str_hex("5")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("2")), Fp::new(from_str_hex("2a"))); }
pub struct M33;
impl FpParams<1> for M33 { const MODULUS: Uint<1> = from_str_hex("d"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E2;
impl CurveConfig for E2 { type BaseField = Fp<M31, 1>; type ScalarField = Fp<M33, 1>; const COFACTOR: &'static [u64] = &[8]; const COFACTOR_INV: Fp<M33, 1> = Fp::new(from_str_hex("5")); }
impl SWCurveConfig for E2 { const COEFF_A: Fp<M31, 1> = Fp::new(from_str_hex("1")); const COEFF_B: Fp<M31, 1> = Fp::new(from_str_hex("a")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("11")), Fp::new(from_str_hex("1e"))); }
pub struct M34;
impl FpParams<1> for M34 { const MODULUS: Uint<1> = from_str_hex("3d"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct M35;
impl FpParams<1> for M35 { const MODULUS: Uint<1> = from_str_hex("13"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E3;
impl CurveConfig for E3 { type BaseField = Fp<M34, 1>; type ScalarField = Fp<M35, 1>; const COFACTOR: &'static [u64] = &[4, 0]; const COFACTOR_INV: Fp<M35, 1> = Fp::new(from_str_hex("5")); }
impl SWCurveConfig for E3 { const COEFF_A: Fp<M34, 1> = Fp::new(from_str_hex("0")); const COEFF_B: Fp<M34, 1> = Fp::new(from_str_hex("8")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("32")), Fp::new(from_str_hex("12"))); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E4;
impl CurveConfig for E4 { type BaseField = Fp<M34, 1>; type ScalarField = Fp<M33, 1>; const COFACTOR: &'static [u64] = &[4]; const COFACTOR_INV: Fp<M33, 1> = Fp::new(from_str_hex("a")); }
impl SWCurveConfig for E4 { const COEFF_A: Fp<M34, 1> = Fp::new(from_str_hex("1")); const COEFF_B: Fp<M34, 1> = Fp::new(from_str_hex("0")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("24")), Fp::new(from_str_hex("18"))); }
pub struct M36;
impl FpParams<1> for M36 { const MODULUS: Uint<1> = from_str_hex("7"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E5;
impl CurveConfig for E5 { type BaseField = Fp<M1, 1>; type ScalarField = Fp<M36, 1>; const COFACTOR: &'static [u64] = &[1, 0]; const COFACTOR_INV: Fp<M36, 1> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E5 { const COEFF_A: Fp<M1, 1> = Fp::new(from_str_hex("2")); const COEFF_B: Fp<M1, 1> = Fp::new(from_str_hex("1")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("0")), Fp::new(from_str_hex("1"))); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E6;
impl CurveConfig for E6 { type BaseField = Fp<M36, 1>; type ScalarField = Fp<M0, 1>; const COFACTOR: &'static [u64] = &[4]; const COFACTOR_INV: Fp<M0, 1> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E6 { const COEFF_A: Fp<M36, 1> = Fp::new(from_str_hex("0")); const COEFF_B: Fp<M36, 1> = Fp::new(from_str_hex("1")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("0")), Fp::new(from_str_hex("1"))); }
pub struct M37;
impl FpParams<2> for M37 { const MODULUS: Uint<2> = from_str_hex("7f"); const GENERATOR: Fp<Self, 2> = Fp::new(from_str_hex("2")); }
pub struct M38;
impl FpParams<1> for M38 { const MODULUS: Uint<1> = from_str_hex("7f"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E7;
impl CurveConfig for E7 { type BaseField = Fp<M37, 2>; type ScalarField = Fp<M38, 1>; const COFACTOR: &'static [u64] = &[1, 0]; const COFACTOR_INV: Fp<M38, 1> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E7 { const COEFF_A: Fp<M37, 2> = Fp::new(from_str_hex("7c")); const COEFF_B: Fp<M37, 2> = Fp::new(from_str_hex("5")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("5")), Fp::new(from_str_hex("31"))); }
pub struct M39;
impl FpParams<4> for M39 { const MODULUS: Uint<4> = from_str_hex("53"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M40;
impl FpParams<2> for M40 { const MODULUS: Uint<2> = from_str_hex("1f"); const GENERATOR: Fp<Self, 2> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E8;
impl CurveConfig for E8 { type BaseField = Fp<M39, 4>; type ScalarField = Fp<M40, 2>; const COFACTOR: &'static [u64] = &[3]; const COFACTOR_INV: Fp<M40, 2> = Fp::new(from_str_hex("15")); }
impl SWCurveConfig for E8 { const COEFF_A: Fp<M39, 4> = Fp::new(from_str_hex("1")); const COEFF_B: Fp<M39, 4> = Fp::new(from_str_hex("11")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("51")), Fp::new(from_str_hex("43"))); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E9;
impl CurveConfig for E9 { type BaseField = Fp<M15, 4>; type ScalarField = Fp<M16, 4>; const COFACTOR: &'static [u64] = &[1, 0]; const COFACTOR_INV: Fp<M16, 4> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E9 { const COEFF_A: Fp<M15, 4> = Fp::new(from_str_hex("0")); const COEFF_B: Fp<M15, 4> = Fp::new(from_str_hex("7")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")), Fp::new(from_str_hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"))); }
pub struct M41;
impl FpParams<4> for M41 { const MODULUS: Uint<4> = from_str_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E10;
impl CurveConfig for E10 { type BaseField = Fp<M17, 4>; type ScalarField = Fp<M41, 4>; const COFACTOR: &'static [u64] = &[1]; const COFACTOR_INV: Fp<M41, 4> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E10 { const COEFF_A: Fp<M17, 4> = Fp::new(from_str_hex("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc")); const COEFF_B: Fp<M17, 4> = Fp::new(from_str_hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296")), Fp::new(from_str_hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"))); }
pub struct M42;
impl FpParams<4> for M42 { const MODULUS: Uint<4> = from_str_hex("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M43;
impl FpParams<4> for M43 { const MODULUS: Uint<4> = from_str_hex("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E11;
impl CurveConfig for E11 { type BaseField = Fp<M42, 4>; type ScalarField = Fp<M43, 4>; const COFACTOR: &'static [u64] = &[1, 0]; const COFACTOR_INV: Fp<M43, 4> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E11 { const COEFF_A: Fp<M42, 4> = Fp::new(from_str_hex("0")); const COEFF_B: Fp<M42, 4> = Fp::new(from_str_hex("3")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("1")), Fp::new(from_str_hex("2"))); }
pub struct M44;
impl FpParams<4> for M44 { const MODULUS: Uint<4> = from_str_hex("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
pub struct M45;
impl FpParams<4> for M45 { const MODULUS: Uint<4> = from_str_hex("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E12;
impl CurveConfig for E12 { type BaseField = Fp<M44, 4>; type ScalarField = Fp<M45, 4>; const COFACTOR: &'static [u64] = &[1]; const COFACTOR_INV: Fp<M45, 4> = Fp::new(from_str_hex("1")); }
impl SWCurveConfig for E12 { const COEFF_A: Fp<M44, 4> = Fp::new(from_str_hex("0")); const COEFF_B: Fp<M44, 4> = Fp::new(from_str_hex("5")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("40000000000000000000000000000000224698fc094cf91b992d30ed00000000")), Fp::new(from_str_hex("2"))); }
pub struct M46;
impl FpParams<4> for M46 { const MODULUS: Uint<4> = from_str_hex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E13;
impl CurveConfig for E13 { type BaseField = Fp<M18, 4>; type ScalarField = Fp<M46, 4>; const COFACTOR: &'static [u64] = &[8, 0]; const COFACTOR_INV: Fp<M46, 4> = Fp::new(from_str_hex("600000000000000000000000000000007d39db37d1cdad06106e529e2dc2f79")); }
impl SWCurveConfig for E13 { const COEFF_A: Fp<M18, 4> = Fp::new(from_str_hex("2aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa984914a144")); const COEFF_B: Fp<M18, 4> = Fp::new(from_str_hex("7b425ed097b425ed097b425ed097b425ed097b425ed097b4260b5e9c7710c864")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("2aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaad245a")), Fp::new(from_str_hex("5f51e65e475f794b1fe122d388b72eb36dc2b28192839e4dd6163a5d81312c14"))); }
pub struct M47;
impl FpParams<4> for M47 { const MODULUS: Uint<4> = from_str_hex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"); const GENERATOR: Fp<Self, 4> = Fp::new(from_str_hex("2")); }
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct E14;
impl CurveConfig for E14 { type BaseField = Fp<M20, 6>; type ScalarField = Fp<M47, 4>; const COFACTOR: &'static [u64] = &[10088250816726084267, 4137836090706223446]; const COFACTOR_INV: Fp<M47, 4> = Fp::new(from_str_hex("73eda753299d7d44e34f0b31458fbb21d07c8ff73bf14809ec0000020005fffb")); }
impl SWCurveConfig for E14 { const COEFF_A: Fp<M20, 6> = Fp::new(from_str_hex("0")); const COEFF_B: Fp<M20, 6> = Fp::new(from_str_hex("4")); const GENERATOR: Affine<Self> = Affine::new_unchecked(Fp::new(from_str_hex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb")), Fp::new(from_str_hex("8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"))); }
#[macro_export]
macro_rules! on_curve { ($id:expr, $go:ident) => { match $id {
        0 => $go!(crate::params::E0, Fp<crate::params::M3, 1>, 1, Fp<crate::params::M31, 1>, 1),
        1 => $go!(crate::params::E1, Fp<crate::params::M32, 1>, 1, Fp<crate::params::M3, 1>, 1),
        2 => $go!(crate::params::E2, Fp<crate::params::M31, 1>, 1, Fp<crate::params::M33, 1>, 1),
        3 => $go!(crate::params::E3, Fp<crate::params::M34, 1>, 1, Fp<crate::params::M35, 1>, 1),
        4 => $go!(crate::params::E4, Fp<crate::params::M34, 1>, 1, Fp<crate::params::M33, 1>, 1),
        5 => $go!(crate::params::E5, Fp<crate::params::M1, 1>, 1, Fp<crate::params::M36, 1>, 1),
        6 => $go!(crate::params::E6, Fp<crate::params::M36, 1>, 1, Fp<crate::params::M0, 1>, 1),
        7 => $go!(crate::params::E7, Fp<crate::params::M37, 2>, 2, Fp<crate::params::M38, 1>, 1),
        8 => $go!(crate::params::E8, Fp<crate::params::M39, 4>, 4, Fp<crate::params::M40, 2>, 2),
        9 => $go!(crate::params::E9, Fp<crate::params::M15, 4>, 4, Fp<crate::params::M16, 4>, 4),
        10 => $go!(crate::params::E10, Fp<crate::params::M17, 4>, 4, Fp<crate::params::M41, 4>, 4),
        11 => $go!(crate::params::E11, Fp<crate::params::M42, 4>, 4, Fp<crate::params::M43, 4>, 4),
        12 => $go!(crate::params::E12, Fp<crate::params::M44, 4>, 4, Fp<crate::params::M45, 4>, 4),
        13 => $go!(crate::params::E13, Fp<crate::params::M18, 4>, 4, Fp<crate::params::M46, 4>, 4),
        14 => $go!(crate::params::E14, Fp<crate::params::M20, 6>, 6, Fp<crate::params::M47, 4>, 4),
        _ => panic!("harness: curve"),
    } } }
pub struct S0;
impl PoseidonParams<Fp<M3, 1>> for S0 { const T: usize = 2; const D: u8 = 5; const CAPACITY: usize = 1; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 1;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M3, 1>] = &[Fp::new(from_str_hex("1")), Fp::new(from_str_hex("2"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M3, 1>]] = &[
        &[Fp::new(from_str_hex("16")), Fp::new(from_str_hex("5"))],
        &[Fp::new(from_str_hex("29")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("57")), Fp::new(from_str_hex("25"))],
    ];
}
pub struct S1;
impl PoseidonParams<Fp<M3, 1>> for S1 { const T: usize = 3; const D: u8 = 5; const CAPACITY: usize = 1; const ROUNDS_F: usize = 4; const ROUNDS_P: usize = 3;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M3, 1>] = &[Fp::new(from_str_hex("1")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("2"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M3, 1>]] = &[
        &[Fp::new(from_str_hex("5")), Fp::new(from_str_hex("29")), Fp::new(from_str_hex("4f"))],
        &[Fp::new(from_str_hex("57")), Fp::new(from_str_hex("25")), Fp::new(from_str_hex("50"))],
        &[Fp::new(from_str_hex("12")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("43")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("4a")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("60")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("44"))],
        &[Fp::new(from_str_hex("1")), Fp::new(from_str_hex("48")), Fp::new(from_str_hex("5b"))],
    ];
}
pub struct S2;
impl PoseidonParams<Fp<M5, 1>> for S2 { const T: usize = 3; const D: u8 = 7; const CAPACITY: usize = 2; const ROUNDS_F: usize = 4; const ROUNDS_P: usize = 2;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M5, 1>] = &[Fp::new(from_str_hex("1")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("2"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M5, 1>]] = &[
        &[Fp::new(from_str_hex("215cc6a07f")), Fp::new(from_str_hex("27b70db55fa8fc")), Fp::new(from_str_hex("1ef839eb67ad27e6"))],
        &[Fp::new(from_str_hex("16470fffdf68a854")), Fp::new(from_str_hex("14770ffbfbc38e4c")), Fp::new(from_str_hex("1973c82112769fd8"))],
        &[Fp::new(from_str_hex("15e2c1c591801413")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("d8e06a5bbb2c39")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("8e6c0054f402760")), Fp::new(from_str_hex("b645a5213471120")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("1ffffffffffffffe")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("2d1d574d2c1d24e"))],
    ];
}
pub struct S3;
impl PoseidonParams<Fp<M2, 1>> for S3 { const T: usize = 4; const D: u8 = 3; const CAPACITY: usize = 1; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 2;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M2, 1>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("e")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("f"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M2, 1>]] = &[
        &[Fp::new(from_str_hex("10")), Fp::new(from_str_hex("4")), Fp::new(from_str_hex("e")), Fp::new(from_str_hex("10"))],
        &[Fp::new(from_str_hex("d")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("a")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("5")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("10")), Fp::new(from_str_hex("1"))],
    ];
}
pub struct S4;
impl PoseidonParams<Fp<M7, 1>> for S4 { const T: usize = 4; const D: u8 = 5; const CAPACITY: usize = 3; const ROUNDS_F: usize = 4; const ROUNDS_P: usize = 3;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M7, 1>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("b8")), Fp::new(from_str_hex("29547")), Fp::new(from_str_hex("215cc6a07f"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M7, 1>]] = &[
        &[Fp::new(from_str_hex("4027b70db563fda1")), Fp::new(from_str_hex("d0a37e3e45b83194")), Fp::new(from_str_hex("eb0366b90857d6ca")), Fp::new(from_str_hex("5cfc3fbc430497d1"))],
        &[Fp::new(from_str_hex("43e3579676af0a28")), Fp::new(from_str_hex("d6d914a2cd6175f4")), Fp::new(from_str_hex("56d02ce0cb9aba8b")), Fp::new(from_str_hex("2e350120b2fd1dd0"))],
        &[Fp::new(from_str_hex("26442ba554349a56")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("b16a85ea1d30b7de")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("7990e61da315effa")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("a8c25069c57fbff4")), Fp::new(from_str_hex("570715cfb810e66b")), Fp::new(from_str_hex("864a461b6dd0d3ce")), Fp::new(from_str_hex("7596d4e8f5d7252e"))],
        &[Fp::new(from_str_hex("894e59a4ad6e5213")), Fp::new(from_str_hex("7c84622e262800ae")), Fp::new(from_str_hex("eaa26e478b7f037e")), Fp::new(from_str_hex("c30e2409076a3f5e"))],
    ];
}
pub struct S5;
impl PoseidonParams<Fp<M3, 1>> for S5 { const T: usize = 8; const D: u8 = 5; const CAPACITY: usize = 4; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 2;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M3, 1>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("57")), Fp::new(from_str_hex("16")), Fp::new(from_str_hex("5")), Fp::new(from_str_hex("29")), Fp::new(from_str_hex("4f")), Fp::new(from_str_hex("57")), Fp::new(from_str_hex("25"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M3, 1>]] = &[
        &[Fp::new(from_str_hex("50")), Fp::new(from_str_hex("12")), Fp::new(from_str_hex("2")), Fp::new(from_str_hex("36")), Fp::new(from_str_hex("43")), Fp::new(from_str_hex("4e")), Fp::new(from_str_hex("5")), Fp::new(from_str_hex("4a"))],
        &[Fp::new(from_str_hex("4b")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("3b")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("45")), Fp::new(from_str_hex("2b")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("60")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("47")), Fp::new(from_str_hex("3")), Fp::new(from_str_hex("42"))],
    ];
}
pub struct S6;
impl PoseidonParams<Fp<M4, 1>> for S6 { const T: usize = 12; const D: u8 = 3; const CAPACITY: usize = 1; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 3;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M4, 1>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("b8")), Fp::new(from_str_hex("9545")), Fp::new(from_str_hex("43da")), Fp::new(from_str_hex("d257")), Fp::new(from_str_hex("dfcb")), Fp::new(from_str_hex("a4c4")), Fp::new(from_str_hex("7c2e")), Fp::new(from_str_hex("cc40")), Fp::new(from_str_hex("2151")), Fp::new(from_str_hex("d497")), Fp::new(from_str_hex("c2c7"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M4, 1>]] = &[
        &[Fp::new(from_str_hex("2ca2")), Fp::new(from_str_hex("49d4")), Fp::new(from_str_hex("8b87")), Fp::new(from_str_hex("e9ea")), Fp::new(from_str_hex("c4ff")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("10000")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("df33")), Fp::new(from_str_hex("a810")), Fp::new(from_str_hex("dd9d")), Fp::new(from_str_hex("7c7d"))],
        &[Fp::new(from_str_hex("7ac9")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("1")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("74b4")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("e612")), Fp::new(from_str_hex("b53b")), Fp::new(from_str_hex("e93d")), Fp::new(from_str_hex("54ef")), Fp::new(from_str_hex("782")), Fp::new(from_str_hex("d5bf")), Fp::new(from_str_hex("7afb")), Fp::new(from_str_hex("d3e4")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("10000")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("4b49"))],
    ];
}
pub struct M48;
impl FpParams<1> for M48 { const MODULUS: Uint<1> = from_str_hex("78000001"); const GENERATOR: Fp<Self, 1> = Fp::new(from_str_hex("2")); }
pub struct S7;
impl PoseidonParams<Fp<M48, 1>> for S7 { const T: usize = 16; const D: u8 = 7; const CAPACITY: usize = 8; const ROUNDS_F: usize = 4; const ROUNDS_P: usize = 4;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M48, 1>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("b8")), Fp::new(from_str_hex("29547")), Fp::new(from_str_hex("14c6a038")), Fp::new(from_str_hex("24821bc3")), Fp::new(from_str_hex("9c07c1d")), Fp::new(from_str_hex("46623a6")), Fp::new(from_str_hex("696ba50f")), Fp::new(from_str_hex("1fbfeb70")), Fp::new(from_str_hex("5641a0da")), Fp::new(from_str_hex("44d86c1b")), Fp::new(from_str_hex("62954782")), Fp::new(from_str_hex("1916dbe")), Fp::new(from_str_hex("654a82dd")), Fp::new(from_str_hex("4bcf4959")), Fp::new(from_str_hex("2d42dc27"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M48, 1>]] = &[
        &[Fp::new(from_str_hex("1fcfd212")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("78000000")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("4500724c")), Fp::new(from_str_hex("38c44fdb")), Fp::new(from_str_hex("6aff6b40")), Fp::new(from_str_hex("4b2353f7")), Fp::new(from_str_hex("3c277918")), Fp::new(from_str_hex("5230dd2a")), Fp::new(from_str_hex("489ec155")), Fp::new(from_str_hex("36e5bd51")), Fp::new(from_str_hex("59031762")), Fp::new(from_str_hex("2082f72")), Fp::new(from_str_hex("776b3f7d")), Fp::new(from_str_hex("6fbbab7"))],
        &[Fp::new(from_str_hex("2121fcc9")), Fp::new(from_str_hex("6f6a0630")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("78000000")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("5eac802")), Fp::new(from_str_hex("3a2229c4")), Fp::new(from_str_hex("d91dc48")), Fp::new(from_str_hex("43df009e")), Fp::new(from_str_hex("54660c8a")), Fp::new(from_str_hex("101e1ac5")), Fp::new(from_str_hex("72081661")), Fp::new(from_str_hex("4e4b3cfc")), Fp::new(from_str_hex("4b818097")), Fp::new(from_str_hex("604e9f6a")), Fp::new(from_str_hex("cda3b25"))],
        &[Fp::new(from_str_hex("4c8465cc")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("6104220c")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("2f534fc1")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("1576c226")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("b8379ce")), Fp::new(from_str_hex("1c63ea42")), Fp::new(from_str_hex("71763132")), Fp::new(from_str_hex("1556fb8d")), Fp::new(from_str_hex("28978834")), Fp::new(from_str_hex("5064f36f")), Fp::new(from_str_hex("1b63f30")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("78000000")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("12dbf3f7")), Fp::new(from_str_hex("32aa6d47")), Fp::new(from_str_hex("25c23060")), Fp::new(from_str_hex("71cd27c3")), Fp::new(from_str_hex("20c994b9")), Fp::new(from_str_hex("77bf5193"))],
        &[Fp::new(from_str_hex("6d3fe784")), Fp::new(from_str_hex("5465a217")), Fp::new(from_str_hex("571a7adb")), Fp::new(from_str_hex("33173e5f")), Fp::new(from_str_hex("5291e63d")), Fp::new(from_str_hex("38c73a03")), Fp::new(from_str_hex("eb9f3e6")), Fp::new(from_str_hex("54eb017a")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("78000000")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("f11948a")), Fp::new(from_str_hex("d1d3f0c")), Fp::new(from_str_hex("72100f33")), Fp::new(from_str_hex("724a7b5a")), Fp::new(from_str_hex("211190ea"))],
    ];
}
pub struct S8;
impl PoseidonParams<Fp<M3, 1>> for S8 { const T: usize = 20; const D: u8 = 5; const CAPACITY: usize = 5; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 3;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M3, 1>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("57")), Fp::new(from_str_hex("16")), Fp::new(from_str_hex("5")), Fp::new(from_str_hex("29")), Fp::new(from_str_hex("4f")), Fp::new(from_str_hex("57")), Fp::new(from_str_hex("25")), Fp::new(from_str_hex("50")), Fp::new(from_str_hex("12")), Fp::new(from_str_hex("2")), Fp::new(from_str_hex("36")), Fp::new(from_str_hex("43")), Fp::new(from_str_hex("4e")), Fp::new(from_str_hex("5")), Fp::new(from_str_hex("4a")), Fp::new(from_str_hex("4b")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("60")), Fp::new(from_str_hex("1"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M3, 1>]] = &[
        &[Fp::new(from_str_hex("44")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("48")), Fp::new(from_str_hex("5b")), Fp::new(from_str_hex("3b")), Fp::new(from_str_hex("15")), Fp::new(from_str_hex("35")), Fp::new(from_str_hex("3e")), Fp::new(from_str_hex("2")), Fp::new(from_str_hex("b")), Fp::new(from_str_hex("11")), Fp::new(from_str_hex("54")), Fp::new(from_str_hex("45")), Fp::new(from_str_hex("2b")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("60")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("47")), Fp::new(from_str_hex("3")), Fp::new(from_str_hex("42"))],
        &[Fp::new(from_str_hex("4c")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("2")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("49")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("14")), Fp::new(from_str_hex("49")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("60")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("58")), Fp::new(from_str_hex("2d")), Fp::new(from_str_hex("44")), Fp::new(from_str_hex("44")), Fp::new(from_str_hex("47")), Fp::new(from_str_hex("19")), Fp::new(from_str_hex("40")), Fp::new(from_str_hex("3b")), Fp::new(from_str_hex("5b")), Fp::new(from_str_hex("26")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("3a")), Fp::new(from_str_hex("3")), Fp::new(from_str_hex("c")), Fp::new(from_str_hex("0"))],
    ];
}
pub struct S9;
impl PoseidonParams<Fp<M10, 2>> for S9 { const T: usize = 24; const D: u8 = 5; const CAPACITY: usize = 8; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 1;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M10, 2>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("b8")), Fp::new(from_str_hex("29547")), Fp::new(from_str_hex("215cc6a07f")), Fp::new(from_str_hex("15bd4027b70db55efb12")), Fp::new(from_str_hex("9c21a6da3f5237410e7667c0bbb76b3")), Fp::new(from_str_hex("6d08025104e8eb0be777cf3359ab8d68")), Fp::new(from_str_hex("140acb4f3d48dafee9c98d0d43a42522")), Fp::new(from_str_hex("68dd6e1a0d2274666e22bc8d432b7178")), Fp::new(from_str_hex("6c977202bb455a6d6e78b9a15fe32945")), Fp::new(from_str_hex("3b85298251d3bacea714a1587d3e759a")), Fp::new(from_str_hex("4d211dcdbd86d65ce0ac1925a1303773")), Fp::new(from_str_hex("31e6df47d91ad839140af395649fc58")), Fp::new(from_str_hex("746af0a088d18506de0dd79de762df05")), Fp::new(from_str_hex("23bce350f085f2528d50683433b6d0ec")), Fp::new(from_str_hex("5387a779a3a04ca10f230cb9e623fefb")), Fp::new(from_str_hex("7922176bbd2b6598d0ba5c56eb35f01")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("7ffffffffffffffffffffffffffffffe")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("66035a9979a9de829ad3a44fe5633bfc")), Fp::new(from_str_hex("3d7c5759f58cbb1ec4d3ede16c91a0e8")), Fp::new(from_str_hex("1d07a2d73cf2fbe337ada9cdcb06fe1d")), Fp::new(from_str_hex("7e326fba8f52746dcb6f5625b7d79a4c"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M10, 2>]] = &[
        &[Fp::new(from_str_hex("648332bd761999f3ab44eb91f6dcf6b8")), Fp::new(from_str_hex("20da3773c06e1203e76df427031186d5")), Fp::new(from_str_hex("3baee010eebca51adcc2984fc53d4aee")), Fp::new(from_str_hex("3d7465ad6f68e00a51b6beaf9b1f74b6")), Fp::new(from_str_hex("38ce912badcabcf0c302db624d3128f")), Fp::new(from_str_hex("5681b5134bd5787d7300b45a02d45cda")), Fp::new(from_str_hex("134cb17cdec42b81a5e38fcdf3af3f9f")), Fp::new(from_str_hex("3711ea3b5ea99fbdd4efab49e3e3507d")), Fp::new(from_str_hex("2884da8f78260a5a42666e7299429efb")), Fp::new(from_str_hex("4310f115bd54bbe462090e04f8d7ade")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("7ffffffffffffffffffffffffffffffe")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("6844248fa85b89c0ed7bd1ee73e0eb53")), Fp::new(from_str_hex("282a97622bd38b89a51098eca5b0992d")), Fp::new(from_str_hex("467ec2254c87afb34811f9875b188a83")), Fp::new(from_str_hex("3f24729b0d855e7fbea033708ca80eae")), Fp::new(from_str_hex("ed8d1e8025b61e2efb6ec5cb2c58e8b")), Fp::new(from_str_hex("65c704f30e4bd4901502bb1666436869")), Fp::new(from_str_hex("63db7c033d385ca614e20eaa855d886e")), Fp::new(from_str_hex("722ec00f5cdca0d11e6d281c48a476be")), Fp::new(from_str_hex("9ada7f9edc85f03079f525839ebc9fb")), Fp::new(from_str_hex("75c39d06e3ab83f47a57818708cda4d7")), Fp::new(from_str_hex("29cc80a8af6ac799cbac8ec9a7a92b39"))],
        &[Fp::new(from_str_hex("23514214fe89ed10e6fc65906ae21b8b")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("71f718465244d127fdb14cc8eba4c07e")), Fp::new(from_str_hex("1c81bebe42a09d4786827001e86748b7")), Fp::new(from_str_hex("794779300dc7a53e8d97a70ec7e052ac")), Fp::new(from_str_hex("eefeec486cf0f27946ca9ce98c8ead9")), Fp::new(from_str_hex("4fce9fc2284cd23c2e26c0eaa54fb769")), Fp::new(from_str_hex("52d1e0aa15c22038227c174539748e99")), Fp::new(from_str_hex("7c435f15dd0fa2c8afe5e66bf60ad7e4")), Fp::new(from_str_hex("3fc64b74c24e4a6ba20f6a4b7aa5a2ee")), Fp::new(from_str_hex("45967475fa552e5934179f8fc6a9a075")), Fp::new(from_str_hex("744f3ac5f84cbd1ccec7cbacaab35707")), Fp::new(from_str_hex("1ae2f8e7207a5772ec994878afd4f890")), Fp::new(from_str_hex("7e52b0f20f032c36b6fc3b0deb3f561c")), Fp::new(from_str_hex("76c0c39737f98168afa214e65af789c9")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("7ffffffffffffffffffffffffffffffe")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("59b696a3480fe71fb78afe177e88dc9c")), Fp::new(from_str_hex("a382d89731120ffda7da395450bc221")), Fp::new(from_str_hex("7a1311d17368414d155761fb7067a5ad")), Fp::new(from_str_hex("5ba3eced44b9014a3fcdacb2d049b22c")), Fp::new(from_str_hex("153e257c2dbf84fa3e114d9007d861a8")), Fp::new(from_str_hex("24494ee18da818087911e12ca9259fb9")), Fp::new(from_str_hex("7fff8175eed41016660ace7ce1f55010")), Fp::new(from_str_hex("748e051e88f539f91338ff7da25e97da"))],
    ];
}
pub struct S10;
impl PoseidonParams<Fp<M3, 1>> for S10 { const T: usize = 2; const D: u8 = 5; const CAPACITY: usize = 0; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 1;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M3, 1>] = &[Fp::new(from_str_hex("1")), Fp::new(from_str_hex("2"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M3, 1>]] = &[
        &[Fp::new(from_str_hex("16")), Fp::new(from_str_hex("5"))],
        &[Fp::new(from_str_hex("29")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("57")), Fp::new(from_str_hex("25"))],
    ];
}
pub struct S11;
impl PoseidonParams<Fp<M11, 2>> for S11 { const T: usize = 8; const D: u8 = 3; const CAPACITY: usize = 7; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 2;
    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<M11, 2>] = &[Fp::new(from_str_hex("6")), Fp::new(from_str_hex("b8")), Fp::new(from_str_hex("29547")), Fp::new(from_str_hex("215cc6a07f")), Fp::new(from_str_hex("15bd4027b70db55efb12")), Fp::new(from_str_hex("89c21a6da3f5237410e76681b4e6e09d")), Fp::new(from_str_hex("27d7d8c7d8f03bf1f9b16e3308db249b")), Fp::new(from_str_hex("b52aa31f77707e6da006b4aede58c330"))];
    const ROUND_CONSTANTS: &'static [&'static [Fp<M11, 2>]] = &[
        &[Fp::new(from_str_hex("d73e31d76c4f8020daa331c56422de93")), Fp::new(from_str_hex("9bdb5f0215ed9cb0036c0979c43572b3")), Fp::new(from_str_hex("d631914592b6954a858c830e42f210ca")), Fp::new(from_str_hex("122e270ac6570693ee340fddbddb3999")), Fp::new(from_str_hex("839d3617f27ae98c01502c39bf2d9b0f")), Fp::new(from_str_hex("53404edc3457da13e351481455ee97de")), Fp::new(from_str_hex("86d91f3dbd7a5f76fbb164e6b9a17fa")), Fp::new(from_str_hex("4354f3e24f156918c800976649378011"))],
        &[Fp::new(from_str_hex("b6e783ff9d50579aef6bc4909f806279")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("6c2237f52e936fea826668a7cdd2a44f")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("0"))],
        &[Fp::new(from_str_hex("a600f249dadccd4dd9c1dc1f5315a0cb")), Fp::new(from_str_hex("666b8b6f07321311dfca73a5053051bb")), Fp::new(from_str_hex("0")), Fp::new(from_str_hex("ffffffffffffffffffffffffffffff60")), Fp::new(from_str_hex("1")), Fp::new(from_str_hex("436c27762a17ed69a1dbe243dedacd8")), Fp::new(from_str_hex("a0cd4abb7ac3d55512e30ac91a019b9b")), Fp::new(from_str_hex("6bfb290ea4d2555bdfe404149ec4ba55"))],
    ];
}
#[macro_export]
macro_rules! on_sponge { ($id:expr, $go:ident) => { match $id {
        0 => $go!(openzeppelin_crypto::poseidon2::instance::bn256::BN256Params, openzeppelin_crypto::field::instance::FpBN256),
        1 => $go!(openzeppelin_crypto::poseidon2::instance::bls12::BLS2Params, openzeppelin_crypto::field::instance::FpBLS12),
        2 => $go!(openzeppelin_crypto::poseidon2::instance::bls12::BLS3Params, openzeppelin_crypto::field::instance::FpBLS12),
        3 => $go!(openzeppelin_crypto::poseidon2::instance::bls12::BLS4Params, openzeppelin_crypto::field::instance::FpBLS12),
        4 => $go!(openzeppelin_crypto::poseidon2::instance::goldilocks::Goldilocks12Params, openzeppelin_crypto::field::instance::FpGoldiLocks),
        5 => $go!(openzeppelin_crypto::poseidon2::instance::babybear::BabyBear24Params, openzeppelin_crypto::field::instance::FpBabyBear),
        6 => $go!(openzeppelin_crypto::poseidon2::instance::pallas::PallasParams, openzeppelin_crypto::field::instance::FpPallas),
        7 => $go!(openzeppelin_crypto::poseidon2::instance::vesta::VestaParams, openzeppelin_crypto::field::instance::FpVesta),
        8 => $go!(crate::params::S0, Fp<crate::params::M3, 1>),
        9 => $go!(crate::params::S1, Fp<crate::params::M3, 1>),
        10 => $go!(crate::params::S2, Fp<crate::params::M5, 1>),
        11 => $go!(crate::params::S3, Fp<crate::params::M2, 1>),
        12 => $go!(crate::params::S4, Fp<crate::params::M7, 1>),
        13 => $go!(crate::params::S5, Fp<crate::params::M3, 1>),
        14 => $go!(crate::params::S6, Fp<crate::params::M4, 1>),
        15 => $go!(crate::params::S7, Fp<crate::params::M48, 1>),
        16 => $go!(crate::params::S8, Fp<crate::params::M3, 1>),
        17 => $go!(crate::params::S9, Fp<crate::params::M10, 2>),
        18 => $go!(crate::params::S10, Fp<crate::params::M3, 1>),
        19 => $go!(crate::params::S11, Fp<crate::params::M11, 2>),
        _ => panic!("harness: sponge"),
    } } }
