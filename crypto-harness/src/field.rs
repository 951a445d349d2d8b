//! Prime fields.
use num_bigint::BigInt;
use num_traits::{One, Zero};
use openzeppelin_crypto::{
    arithmetic::uint::Uint,
    field::{
        fp::{Fp, FpParams},
        group::AdditiveGroup,
        prime::PrimeField,
        Field,
    },
};
use serde_json::Value;
use zeroize::Zeroize;

use crate::{
    itf,
    num::{b, big, form, limbs, uint, us},
    on_field, Domain, Obs, Out,
};

pub struct Machine<P: FpParams<N>, const N: usize> {
    regs: Vec<Fp<P, N>>,
    own: bool,
    narrow: fn(Fp<P, N>, usize) -> BigInt,
}

fn no_narrow<P: FpParams<N>, const N: usize>(_: Fp<P, N>, _: usize) -> BigInt {
    panic!("harness: only one-limb fields convert to primitives")
}
fn narrow<P: FpParams<1>>(x: Fp<P, 1>, w: usize) -> BigInt {
    match w {
        0 => u8::from(x).into(),
        1 => u16::from(x).into(),
        2 => u32::from(x).into(),
        3 => u64::from(x).into(),
        4 => u128::from(x).into(),
        5 => i8::from(x).into(),
        6 => i16::from(x).into(),
        7 => i32::from(x).into(),
        8 => i64::from(x).into(),
        _ => i128::from(x).into(),
    }
}

/// Lets the one-limb conversions be reached from generic code.
trait Pick {
    type E;
    fn pick() -> fn(Self::E, usize) -> BigInt;
}
macro_rules! pick {
    ($($n:literal)*) => {$(
        impl<P: FpParams<$n>> Pick for Fp<P, $n> {
            type E = Self;
            fn pick() -> fn(Self, usize) -> BigInt { no_narrow }
        }
    )*};
}
impl<P: FpParams<1>> Pick for Fp<P, 1> {
    type E = Self;
    fn pick() -> fn(Self, usize) -> BigInt {
        narrow
    }
}
pick!(2 3 4 5 6 7 8 9 10 11 12 13);

pub fn make(init: &Obs) -> Box<dyn Domain> {
    let id = init.us(0);
    macro_rules! go {
        ($f:ty, $n:literal) => {
            Box::new(Machine::<_, $n> {
                regs: vec![<$f>::ZERO; 5],
                own: id < 6,
                narrow: <$f as Pick>::pick(),
            })
        };
    }
    on_field!(id, go)
}

impl<P: FpParams<N>, const N: usize> Machine<P, N>
where
    Fp<P, N>: PrimeField<BigInt = Uint<N>>,
{
    fn pow(x: &Fp<P, N>, w: usize, e: &BigInt) -> Fp<P, N> {
        let l = |n| limbs(e, n);
        match form(w) {
            0 => x.pow(l(1)[0] as u8),
            1 => x.pow(l(1)[0] as u16),
            2 => x.pow(l(1)[0] as u32),
            3 => x.pow(l(1)[0]),
            4 => x.pow(l(2)[0] as u128 | (l(2)[1] as u128) << 64),
            5 => x.pow(l(1)[0] as usize),
            6 => x.pow(uint::<N>(e)),
            w => x.pow(&l(w - 10)[..]),
        }
    }
}

impl<P: FpParams<N>, const N: usize> Domain for Machine<P, N> {
    fn step(&mut self, obs: &Obs, n: usize) -> Out {
        let a = |i: usize| us(&obs.args[i][0]);
        let r = |i: usize| self.regs[i];
        let one = |x: &Fp<P, N>| vec![big(&x.into_bigint())];
        let dest = |k: usize| a(k);
        let pick = |i: usize| -> Vec<Fp<P, N>> { obs.args[i].iter().map(|k| self.regs[us(k)]).collect() };
        // The same operation is reachable through several operators.
        let (k, v) = match obs.op.as_str() {
            "fromBig" => {
                let u = uint::<N>(&obs.args[1][0]);
                let v = match n % 3 {
                    0 => Fp::new(u),
                    1 => Fp::from_bigint(u),
                    _ => u.into(),
                };
                (dest(0), v)
            }
            "fromUnsigned" => {
                let v = &obs.args[2][0];
                let v: Fp<P, N> = match a(1) {
                    0 if n % 3 == 0 && (v.is_zero() || v.is_one()) => v.is_one().into(),
                    0 => u8::try_from(v).unwrap().into(),
                    1 => u16::try_from(v).unwrap().into(),
                    2 => u32::try_from(v).unwrap().into(),
                    3 => u64::try_from(v).unwrap().into(),
                    _ => u128::try_from(v).unwrap().into(),
                };
                (dest(0), v)
            }
            "fromSigned" => {
                let v = &obs.args[2][0];
                let v: Fp<P, N> = match a(1) {
                    0 => i8::try_from(v).unwrap().into(),
                    1 => i16::try_from(v).unwrap().into(),
                    2 => i32::try_from(v).unwrap().into(),
                    3 => i64::try_from(v).unwrap().into(),
                    _ => i128::try_from(v).unwrap().into(),
                };
                (dest(0), v)
            }
            "zeroize" => {
                let mut x = r(a(0));
                x.zeroize();
                (a(0), x)
            }
            op @ ("add" | "sub" | "mul" | "div") => {
                let (x, mut y) = (r(a(0)), r(a(1)));
                macro_rules! via {
                    ($o:tt, $oa:tt) => {
                        match n % 7 {
                            0 => x $o y,
                            1 => x $o &y,
                            2 => x $o &mut y,
                            3 => &x $o &y,
                            4 => { let mut z = x; z $oa y; z }
                            5 => { let mut z = x; z $oa &y; z }
                            _ => { let mut z = x; z $oa &mut y; z }
                        }
                    };
                }
                let v = match op {
                    "add" => via!(+, +=),
                    "sub" => via!(-, -=),
                    "mul" => via!(*, *=),
                    _ => via!(/, /=),
                };
                (a(2), v)
            }
            "neg" => {
                let mut x = r(a(0));
                (a(1), if n % 2 == 0 { -x } else { *x.neg_in_place() })
            }
            "double" => {
                let mut x = r(a(0));
                (a(1), if n % 2 == 0 { x.double() } else { *x.double_in_place() })
            }
            "square" => {
                let mut x = r(a(0));
                (a(1), if n % 2 == 0 { x.square() } else { *x.square_in_place() })
            }
            "inverse" => {
                let mut x = r(a(0));
                let before = x;
                let v = if n % 2 == 0 { x.inverse() } else { x.inverse_in_place().copied() };
                match v {
                    None => {
                        return if x == before { Ok(vec![vec![]]) } else { Err("changed".into()) };
                    }
                    Some(v) => (a(1), v),
                }
            }
            "pow" => (a(1), Self::pow(&r(a(0)), a(2), &obs.args[3][0])),
            "sumOfProducts" => {
                let (x, y) = (pick(0), pick(1));
                let v = if x.len() == 2 {
                    Fp::sum_of_products(&[x[0], x[1]], &[y[0], y[1]])
                } else {
                    Fp::sum_of_products(&[x[0], x[1], x[2]], &[y[0], y[1], y[2]])
                };
                (a(2), v)
            }
            "sum" => {
                let x = pick(0);
                (a(1), if n % 2 == 0 { x.iter().sum() } else { x.into_iter().sum() })
            }
            "product" => {
                let x = pick(0);
                (a(1), if n % 2 == 0 { x.iter().product() } else { x.into_iter().product() })
            }
            "compare" => {
                let (x, y) = (r(a(0)), r(a(1)));
                return Ok(vec![vec![(x.cmp(&y) as i8).into()], vec![b(x == y)], vec![b(x.is_zero())], vec![b(x.is_one())]]);
            }
            "toInt" => return Ok(vec![vec![(self.narrow)(r(a(0)), a(1))]]),
            "constants" => {
                return Ok(vec![
                    vec![big(&<Fp<P, N> as PrimeField>::MODULUS)],
                    vec![<Fp<P, N> as PrimeField>::MODULUS_BIT_SIZE.into()],
                    one(&if n % 2 == 0 { Fp::ZERO } else { Fp::zero() }),
                    one(&if n % 2 == 0 { Fp::ONE } else { Fp::one() }),
                    vec![big(&Fp::<P, N>::characteristic())],
                    vec![Fp::<P, N>::extension_degree().into()],
                    if self.own { one(&Fp::GENERATOR) } else { vec![] },
                ])
            }
            o => panic!("harness: {o}"),
        };
        self.regs[k] = v;
        Ok(vec![one(&v)])
    }

    fn state(&mut self, state: &Value, _n: usize) -> Result<(), String> {
        for (i, w) in itf::list(itf::var(state, "regs")).iter().enumerate() {
            let x = self.regs[i];
            let got = big(&x.into_bigint());
            if got != *w {
                return Err(format!("register {i} holds {got}, specified {w}"));
            }
            // Equality is equality of representatives, so they are unique.
            if x != Fp::from_bigint(uint::<N>(w)) {
                return Err(format!("register {i} is not the canonical representative of {w}"));
            }
        }
        Ok(())
    }
}
