//! Conversions between unbounded integers and the library's limbs.
use num_bigint::{BigInt, BigUint, Sign};
use openzeppelin_crypto::arithmetic::uint::Uint;

pub fn limbs(v: &BigInt, n: usize) -> Vec<u64> {
    assert!(v.sign() != Sign::Minus, "harness: negative");
    let mut d = v.magnitude().to_u64_digits();
    assert!(d.len() <= n, "harness: {v} has more than {n} limbs");
    d.resize(n, 0);
    d
}
pub fn uint<const N: usize>(v: &BigInt) -> Uint<N> {
    Uint::new(limbs(v, N).try_into().unwrap())
}
pub fn big<const N: usize>(u: &Uint<N>) -> BigInt {
    from_limbs(u.as_limbs())
}
pub fn from_limbs(l: &[u64]) -> BigInt {
    let bytes: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
    BigUint::from_bytes_le(&bytes).into()
}
pub fn b(x: bool) -> BigInt {
    (x as u8).into()
}
pub fn us(v: &BigInt) -> usize {
    usize::try_from(v).expect("harness: small integer")
}
/// Integer type number `form` (5 is usize), or u64 where usize is narrower.
pub fn form(form: usize) -> usize {
    if form == 5 && usize::BITS < 64 {
        3
    } else {
        form
    }
}
