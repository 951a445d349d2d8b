//! Fixed-width unsigned integers and limbs.
use std::panic::{catch_unwind, AssertUnwindSafe};

use num_bigint::BigInt;
use openzeppelin_crypto::{
    arithmetic::{
        limb,
        uint::{from_str_hex, from_str_radix, Uint, WideUint},
        BigInteger,
    },
    bits::BitIteratorBE,
};
use serde_json::Value;

use crate::{
    itf,
    num::{b, big, form, limbs, uint, us},
    Domain, Obs, Out,
};

pub struct Machine<const N: usize> {
    regs: Vec<Uint<N>>,
}

pub fn make(init: &Obs) -> Box<dyn Domain> {
    macro_rules! of {
        ($($n:literal)*) => {
            match init.us(0) {
                $($n => Box::new(Machine::<$n> { regs: vec![Uint::ZERO; 4] }),)*
                n => panic!("harness: {n} limbs"),
            }
        };
    }
    of!(1 2 3 4 5 6 7 8 9 10 11 12 13)
}

/// None if `f` panics.  In WebAssembly that cannot be caught, so a call that
/// must panic (`want` is empty) is left out.
fn may_panic<T>(want: &[BigInt], f: impl FnOnce() -> T) -> Option<T> {
    if cfg!(target_family = "wasm") && want.is_empty() {
        return None;
    }
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn opt<const N: usize>(v: Option<Uint<N>>) -> Vec<BigInt> {
    v.iter().map(big).collect()
}
fn flags(it: impl Iterator<Item = bool>) -> Vec<BigInt> {
    it.map(b).collect()
}
fn pair<const N: usize>(v: &Uint<N>, c: bool) -> Vec<BigInt> {
    vec![big(v), b(c)]
}

fn prim_bits(ty: usize, v: &BigInt) -> Out {
    macro_rules! go {
        ($t:ty) => {{
            let v = <$t>::try_from(v).expect("harness: primitive");
            Ok(vec![flags(v.bit_be_iter()), flags(v.bit_be_trimmed_iter())])
        }};
    }
    match form(ty) {
        0 => go!(u8),
        1 => go!(u16),
        2 => go!(u32),
        3 => go!(u64),
        4 => go!(u128),
        _ => go!(usize),
    }
}

fn limb_ops(x: &[u64]) -> Out {
    let (p, q, r, s) = (x[0], x[1], x[2], x[3]);
    let two = |(l, h): (u64, u64)| vec![l.into(), h.into()];
    let e = s % 2 == 1;
    let (mut t, mut u) = (p, p);
    let tc = limb::adc_assign(&mut t, q, e);
    let uc = limb::sbb_assign(&mut u, q, e);
    Ok(vec![
        vec![limb::widening_mul(p, q).into()],
        two(limb::mac(p, q, r)),
        two(limb::carrying_mac(p, q, r, s)),
        two(limb::adc(p, q, s)),
        two(limb::sbb(p, q, e as u64)),
        vec![t.into(), b(tc)],
        vec![u.into(), b(uc)],
    ])
}

impl<const N: usize> Domain for Machine<N> {
    fn step(&mut self, obs: &Obs, n: usize) -> Out {
        let a = |i: usize| us(&obs.args[i][0]);
        let r = |i: usize| self.regs[a(i)];
        let (k, v, ret) = match obs.op.as_str() {
            "load" => {
                let l: Vec<u64> = obs.args[1].iter().map(|x| u64::try_from(x).unwrap()).collect();
                let l: [u64; N] = l.try_into().expect("harness: limbs");
                let mut v = Uint::new(l);
                if n % 3 == 0 {
                    v = Uint::default();
                    v.as_mut().copy_from_slice(&l);
                }
                if v.into_limbs() != l || v.as_ref() != l {
                    return Err("other limbs".into());
                }
                (a(0), v, vec![vec![big(&v)]])
            }
            "constants" => {
                let ret = vec![
                    vec![big(&Uint::<N>::ZERO)],
                    vec![big(&Uint::<N>::ONE)],
                    vec![big(&Uint::<N>::MAX)],
                    vec![Uint::<N>::BITS.into()],
                    vec![Uint::<N>::NUM_LIMBS.into()],
                    vec![Uint::<N>::LIMB_BITS.into()],
                    vec![big(&Uint::<N>::default())],
                ];
                (a(0), Uint::MAX, ret)
            }
            "fromPrim" => {
                let v = &obs.args[2][0];
                macro_rules! go {
                    ($t:ty, $f:ident) => {{
                        let p = <$t>::try_from(v).expect("harness: primitive");
                        if n % 2 == 0 { Uint::<N>::$f(p) } else { Uint::<N>::from(p) }
                    }};
                }
                let v = match form(a(1)) {
                    0 => go!(u8, from_u8),
                    1 => go!(u16, from_u16),
                    2 => go!(u32, from_u32),
                    3 => go!(u64, from_u64),
                    4 => go!(u128, from_u128),
                    _ => go!(usize, from_usize),
                };
                (a(0), v, vec![vec![big(&v)]])
            }
            "fromBytes" => {
                let l: Vec<u8> = obs.args[1].iter().map(|x| u8::try_from(x).unwrap()).collect();
                let v = if n % 2 == 0 { Uint::from_bytes_le(&l) } else { Uint::ct_from_le_slice(&l) };
                (a(0), v, vec![vec![big(&v)]])
            }
            "parse" => {
                let s: String = obs.args[2]
                    .iter()
                    .enumerate()
                    .map(|(i, d)| match us(d) {
                        36 => ['_', ' ', '/', ':', '@', '`'][(n + i) % 6],
                        37 => '\u{e9}',
                        38 => '-',
                        d => {
                            let c = char::from_digit(d as u32, 36).unwrap();
                            if (n + i) % 2 == 0 { c.to_ascii_uppercase() } else { c }
                        }
                    })
                    .collect();
                let v = if a(3) == 1 { from_str_hex(&s) } else { from_str_radix(&s, a(1) as u32) };
                (a(0), v, vec![vec![big(&v)]])
            }
            "add" => {
                let (x, y) = (r(0), r(1));
                let (v, c) = x.ct_checked_add(&y);
                let mut z = x;
                let c2 = z.checked_add_assign(&y);
                let (t, tc) = x.ct_adc(&y, u64::try_from(&obs.args[3][0]).unwrap());
                let ret = vec![
                    pair(&v, c),
                    pair(&z, c2),
                    vec![big(&x.ct_wrapping_add(&y))],
                    opt(may_panic(&obs.ret[3], || x.ct_add(&y))),
                    vec![big(&t), tc.into()],
                ];
                (a(2), v, ret)
            }
            "sub" => {
                let (x, y) = (r(0), r(1));
                let (v, c) = x.ct_checked_sub(&y);
                let mut z = x;
                let c2 = z.checked_sub_assign(&y);
                (a(2), v, vec![pair(&v, c), pair(&z, c2), vec![big(&x.ct_wrapping_sub(&y))]])
            }
            "mul" => {
                let (x, y) = (r(0), r(1));
                let (lo, hi) = x.ct_widening_mul(&y);
                let ret = vec![vec![big(&lo), big(&hi)], opt(may_panic(&obs.ret[1], || x.ct_mul(&y)))];
                let k = a(2);
                self.regs[k] = lo;
                self.regs[(k + 1) % 4] = hi;
                return Ok(ret);
            }
            "mul2" => {
                let mut v = r(0);
                let c = v.checked_mul2_assign();
                (a(1), v, vec![pair(&v, c)])
            }
            "div2" => {
                let mut v = r(0);
                v.div2_assign();
                (a(1), v, vec![vec![big(&v)]])
            }
            "rem" => {
                let w = WideUint::new(r(0), r(1));
                let v = w.ct_rem(&r(2));
                (a(3), v, vec![vec![big(&v)], vec![w.ct_num_bits().into()], vec![b(w.ct_get_bit(a(4)))]])
            }
            "logic" => {
                let (x, y) = (r(0), r(1));
                let (p, q, s) = match n % 3 {
                    0 => (x & y, x | y, x ^ y),
                    1 => (x & &y, x | &y, x ^ &y),
                    _ => {
                        let (mut p, mut q, mut s) = (x, x, x);
                        p &= y;
                        q |= &y;
                        s ^= y;
                        (p, q, s)
                    }
                };
                (a(2), s, vec![vec![big(&p)], vec![big(&q)], vec![big(&s)], vec![big(&!x)]])
            }
            "compare" => {
                let (x, y) = (r(0), r(1));
                return Ok(vec![
                    vec![b(x.ct_ge(&y)), b(x.ct_gt(&y)), b(x.ct_le(&y)), b(x.ct_lt(&y)), b(x.ct_eq(&y)), b(x.ct_ne(&y))],
                    vec![(x.cmp(&y) as i8).into()],
                    vec![b(x == y)],
                ]);
            }
            "inspect" => {
                let (x, at) = (r(0), a(1));
                let v = if n % 2 == 0 {
                    (x.num_bits(), x.is_odd(), x.is_even(), x.is_zero(), x.get_bit(at))
                } else {
                    (x.ct_num_bits(), x.ct_is_odd(), x.ct_is_even(), x.ct_is_zero(), x.ct_get_bit(at))
                };
                return Ok(vec![vec![v.0.into()], vec![b(v.1)], vec![b(v.2)], vec![b(v.3)], vec![b(v.4)]]);
            }
            "bytes" => {
                let x = r(0);
                let s = match n % 3 {
                    0 => format!("{x:X}"),
                    1 => format!("{x}"),
                    _ => format!("{x:?}"),
                };
                let hex = s.chars().map(|c| c.to_digit(16).map_or(BigInt::from(-1), BigInt::from)).collect();
                return Ok(vec![x.into_bytes_le().into_iter().map(BigInt::from).collect(), hex]);
            }
            "bits" => {
                let x = r(0);
                let l: &[u64] = x.as_ref();
                return Ok(vec![
                    flags(x.bit_be_iter()),
                    flags(x.bit_be_trimmed_iter()),
                    flags(l.bit_be_iter()),
                    flags(l.bit_be_trimmed_iter()),
                ]);
            }
            "primBits" => return prim_bits(a(0), &obs.args[1][0]),
            "limbs" => {
                let x: Vec<u64> = obs.args.iter().map(|x| u64::try_from(&x[0]).unwrap()).collect();
                return limb_ops(&x);
            }
            o => panic!("harness: {o}"),
        };
        self.regs[k] = v;
        Ok(ret)
    }

    fn state(&mut self, state: &Value, _n: usize) -> Result<(), String> {
        for (i, w) in itf::list(itf::var(state, "regs")).iter().enumerate() {
            if self.regs[i] != uint::<N>(w) || limbs(w, N) != self.regs[i].as_limbs() {
                return Err(format!("register {i} holds {}, specified {w}", big(&self.regs[i])));
            }
        }
        Ok(())
    }
}
