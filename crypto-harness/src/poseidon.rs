//! The Poseidon2 sponge.
use num_bigint::BigInt;
use openzeppelin_crypto::{
    arithmetic::uint::Uint,
    field::{
        fp::{Fp, FpParams},
        prime::PrimeField,
    },
    poseidon2::{params::PoseidonParams, Poseidon2},
};

use crate::{
    num::{big, uint},
    on_sponge, Domain, Obs, Out,
};

pub trait Elem: PrimeField {
    fn load(v: &BigInt) -> Self;
    fn show(&self) -> BigInt;
}
impl<P: FpParams<N>, const N: usize> Elem for Fp<P, N>
where
    Fp<P, N>: PrimeField<BigInt = Uint<N>>,
{
    fn load(v: &BigInt) -> Self {
        Self::from_bigint(uint::<N>(v))
    }
    fn show(&self) -> BigInt {
        big(&self.into_bigint())
    }
}

struct Machine<P: PoseidonParams<F>, F: Elem>(Poseidon2<P, F>);

pub fn make(init: &Obs) -> Box<dyn Domain> {
    use openzeppelin_crypto::field::fp::Fp;
    macro_rules! go {
        ($p:ty, $f:ty) => {
            Box::new(Machine::<$p, $f>(Poseidon2::new()))
        };
    }
    on_sponge!(init.us(0), go)
}


impl<P: PoseidonParams<F>, F: Elem> Domain for Machine<P, F> {
    fn step(&mut self, obs: &Obs, n: usize) -> Out {
        let elems = |i: usize| -> Vec<F> { obs.args[i].iter().map(F::load).collect() };
        match obs.op.as_str() {
            "fresh" => {
                self.0 = if n % 2 == 0 { Poseidon2::new() } else { Poseidon2::default() };
                Ok(vec![vec![Poseidon2::<P, F>::state_size().into()]])
            }
            "absorb" => {
                self.0.absorb(&elems(0)[0]);
                Ok(vec![])
            }
            "absorbBatch" => {
                self.0.absorb_batch(&elems(0));
                Ok(vec![])
            }
            "permute" => {
                self.0.permute();
                Ok(vec![])
            }
            "squeeze" => Ok(vec![vec![self.0.squeeze().show()]]),
            "squeezeBatch" => Ok(vec![self.0.squeeze_batch(obs.us(0)).iter().map(F::show).collect()]),
            o => panic!("harness: {o}"),
        }
    }
}
