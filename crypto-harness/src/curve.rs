//! Short Weierstrass curves.
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use num_bigint::BigInt;
use num_traits::{One, Zero};
use openzeppelin_crypto::{
    arithmetic::uint::Uint,
    bits::BitIteratorBE,
    curve::{
        batch_inversion,
        sw::{Affine, Projective, SWCurveConfig},
        AffineRepr, CurveConfig, CurveGroup, PrimeGroup,
    },
    field::{group::AdditiveGroup, prime::PrimeField, Field},
};
use serde_json::Value;
use zeroize::Zeroize;

use crate::{
    itf,
    num::{b, limbs, uint, us},
    on_curve,
    poseidon::Elem,
    Domain, Obs, Out,
};

struct Machine<E: SWCurveConfig, const S: usize> {
    regs: Vec<Projective<E>>,
}

pub fn make(init: &Obs) -> Box<dyn Domain> {
    macro_rules! go {
        ($e:ty, $fq:ty, $n:literal, $fr:ty, $s:literal) => {
            Box::new(Machine::<$e, $s> { regs: vec![Projective::<$e>::zero(); 4] })
        };
    }
    on_curve!(init.us(0), go)
}

fn digest(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl<E: SWCurveConfig, const S: usize> Machine<E, S>
where
    E: SWCurveConfig,
    E::BaseField: Elem,
    E::ScalarField: Elem + PrimeField<BigInt = Uint<S>>,
{
    fn affine(v: &[BigInt]) -> Affine<E> {
        if v.is_empty() {
            Affine::identity()
        } else {
            Affine::new_unchecked(E::BaseField::load(&v[0]), E::BaseField::load(&v[1]))
        }
    }
    /// Another representation of the same point.
    fn rescale(q: Projective<E>, n: usize) -> Projective<E> {
        let mut l = E::BaseField::load(&BigInt::from([1u64, 2, 3, u64::MAX, 1, 6][n % 6] % small_modulus::<E::BaseField>()));
        if n % 5 == 4 {
            l = -E::BaseField::one();
        }
        if l.is_zero() {
            l = E::BaseField::one();
        }
        let l2 = l.square();
        if q.is_zero() {
            return Projective::new_unchecked(l2, l2 * l, E::BaseField::zero());
        }
        Projective::new_unchecked(q.x * l2, q.y * l2 * l, q.z * l)
    }
    fn show(q: &Affine<E>) -> Vec<BigInt> {
        match (q.xy(), q.x(), q.y(), q.is_zero()) {
            (Some((x, y)), Some(x1), Some(y1), false) if x == x1 && y == y1 => vec![x.show(), y.show()],
            (None, None, None, true) => vec![],
            _ => vec![BigInt::from(-1)],
        }
    }
    fn mul(q: &Projective<E>, n: usize, form: usize, e: &BigInt) -> Projective<E> {
        let a = q.into_affine();
        macro_rules! int {
            ($t:ty) => {{
                let e = <$t>::try_from(e).expect("harness: scalar");
                if n % 2 == 0 { q.mul_bigint(e) } else { a.mul_bigint(e) }
            }};
        }
        match crate::num::form(form) {
            0 => int!(u8),
            1 => int!(u16),
            2 => int!(u32),
            3 => int!(u64),
            4 => int!(u128),
            5 => int!(usize),
            6 if n % 2 == 0 => q.mul_bigint(uint::<S>(e)),
            6 => a.mul_bigint(uint::<S>(e)),
            7 => {
                let mut s = E::ScalarField::load(e);
                match n % 6 {
                    0 => *q * s,
                    1 => *q * &s,
                    2 => a * s,
                    3 => a * &s,
                    4 => *q * &mut s,
                    _ => {
                        let mut r = *q;
                        r *= &s;
                        r
                    }
                }
            }
            8 => {
                let l = limbs(e, 13);
                let bits: Vec<bool> = (&l[..]).bit_be_iter().collect();
                q.mul_bits_be(bits.into_iter().skip(n % 7))
            }
            f => {
                let l = limbs(e, f - 9);
                if n % 2 == 0 { q.mul_bigint(&l[..]) } else { a.mul_bigint(&l[..]) }
            }
        }
    }
}

/// Reduces small test factors for fields whose modulus is below them.
fn small_modulus<F: Elem>() -> u64 {
    u64::try_from((-F::one()).show()).map_or(u64::MAX, |m| m.saturating_add(1))
}

impl<E, const S: usize> Domain for Machine<E, S>
where
    E: SWCurveConfig + CurveConfig,
    E::BaseField: Elem,
    E::ScalarField: Elem + PrimeField<BigInt = Uint<S>>,
{
    fn step(&mut self, obs: &Obs, n: usize) -> Out {
        let a = |i: usize| us(&obs.args[i][0]);
        let r = |i: usize| self.regs[a(i)];
        let (k, v): (usize, Projective<E>) = match obs.op.as_str() {
            "load" => {
                let q = Self::affine(&obs.args[1]);
                (a(0), if n % 2 == 0 { q.into() } else { q.into_group() })
            }
            "generator" => (a(0), if n % 2 == 0 { Projective::generator() } else { <Affine<E> as AffineRepr>::generator().into() }),
            "zero" => {
                let v = match n % 5 {
                    0 => Projective::zero(),
                    1 => Projective::default(),
                    2 => <Projective<E> as AdditiveGroup>::ZERO,
                    3 => Affine::<E>::default().into(),
                    _ => <Affine<E> as AffineRepr>::zero().into(),
                };
                (a(0), v)
            }
            "zeroize" => {
                let mut v = r(0);
                v.zeroize();
                (a(0), v)
            }
            "create" => {
                let q = Self::affine(&obs.args[1]);
                let v = if n % 2 == 0 {
                    Affine::new(q.x, q.y).into()
                } else {
                    let s = Self::rescale(q.into(), n);
                    Projective::new(s.x, s.y, s.z)
                };
                (a(0), v)
            }
            "test" => {
                let q = Self::affine(&obs.args[0]);
                let on = q.is_on_curve();
                return Ok(vec![vec![b(on)], if on { vec![b(q.is_in_correct_subgroup_assuming_on_curve())] } else { vec![] }]);
            }
            op @ ("add" | "sub") => {
                let (x, mut y) = (r(0), r(1));
                let (p, q) = (x.into_affine(), y.into_affine());
                macro_rules! via {
                    ($o:tt, $oa:tt) => {
                        match n % 14 {
                            0 => x $o y,
                            1 => x $o &y,
                            2 => x $o &mut y,
                            3 => &x $o y,
                            4 => &x $o &y,
                            5 => &x $o &mut y,
                            6 => x $o q,
                            7 => x $o &q,
                            8 => p $o q,
                            9 => p $o &q,
                            10 => p $o y,
                            11 => p $o &y,
                            12 => { let mut z = x; z $oa &y; z }
                            _ => { let mut z = x; z $oa q; z }
                        }
                    };
                }
                (a(2), if op == "add" { via!(+, +=) } else { via!(-, -=) })
            }
            "neg" => {
                let mut x = r(0);
                let v = match n % 3 {
                    0 => -x,
                    1 => *x.neg_in_place(),
                    _ => (-x.into_affine()).into(),
                };
                (a(1), v)
            }
            "double" => {
                let mut x = r(0);
                (a(1), if n % 2 == 0 { x.double() } else { *x.double_in_place() })
            }
            "mul" => (a(1), Self::mul(&r(0), n, a(2), &obs.args[3][0])),
            "cofactor" => {
                let q = r(0).into_affine();
                let v = match n % 3 {
                    0 => q.mul_by_cofactor().into(),
                    1 => q.clear_cofactor().into(),
                    _ => q.mul_by_cofactor_to_group(),
                };
                (a(1), v)
            }
            "cofactorInv" => (a(1), r(0).into_affine().mul_by_cofactor_inv().into()),
            "sum" => {
                let l: Vec<Projective<E>> = obs.args[0].iter().map(|i| self.regs[us(i)]).collect();
                let m: Vec<Affine<E>> = l.iter().map(|q| q.into_affine()).collect();
                let v = match n % 4 {
                    0 => l.iter().sum(),
                    1 => l.into_iter().sum(),
                    2 => m.iter().sum(),
                    _ => m.into_iter().sum(),
                };
                (a(1), v)
            }
            "normalize" => {
                let l: Vec<Projective<E>> = obs.args[0].iter().map(|i| self.regs[us(i)]).collect();
                let out = if n % 3 == 0 {
                    l.iter().map(|q| Affine::from(*q)).collect()
                } else {
                    Projective::normalize_batch(&l)
                };
                return Ok(out.iter().map(Self::show).collect());
            }
            "equal" => {
                let (x, y) = (r(0), r(1));
                let (p, q) = (x.into_affine(), y.into_affine());
                let eq = x == y;
                let all = [y == x, p == q, p == y, x == q, digest(&x) == digest(&y), digest(&p) == digest(&q)];
                if all.iter().any(|e| *e != eq) {
                    return Err(format!("equality of representations {eq} {all:?}"));
                }
                return Ok(vec![vec![b(eq)]]);
            }
            "batchInversion" => {
                let mut l: Vec<E::BaseField> = obs.args[0].iter().map(E::BaseField::load).collect();
                batch_inversion(&mut l);
                return Ok(vec![l.iter().map(E::BaseField::show).collect()]);
            }
            o => panic!("harness: {o}"),
        };
        self.regs[k] = if n % 4 == 3 { v } else { Self::rescale(v, n / 2) };
        Ok(vec![Self::show(&v.into_affine())])
    }

    fn state(&mut self, state: &Value, n: usize) -> Result<(), String> {
        for (i, w) in itf::lists(itf::var(state, "regs")).iter().enumerate() {
            let q = self.regs[i];
            let got = Self::show(&q.into_affine());
            if got != *w || q.is_zero() != w.is_empty() || q != Self::affine(w) || Self::affine(w) != q {
                return Err(format!("register {i} holds {got:?}, specified {w:?} (step {n})"));
            }
        }
        Ok(())
    }
}
