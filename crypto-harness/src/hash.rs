//! Keccak hashing and Merkle proofs.
use num_bigint::BigInt;
use openzeppelin_crypto::{
    hash::{commutative_hash_pair, hash_pair, BuildHasher, Hash, Hasher},
    keccak::{Keccak256, KeccakBuilder},
    merkle::{MultiProofError, Verifier},
};
use serde_json::Value;

use crate::{
    itf,
    num::{b, us},
    Domain, Obs, Out,
};

/// Keccak-256, written from its definition.
pub fn keccak(data: &[u8]) -> [u8; 32] {
    let mut a = [0u64; 25];
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % 136 != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() |= 0x80;
    for block in m.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        permute(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    out
}

fn permute(a: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |s, y| s ^ a[x + 5 * y])).collect();
        for i in 0..25 {
            a[i] ^= c[(i + 4) % 5] ^ c[(i + 1) % 5].rotate_left(1);
        }
        let (mut x, mut y, mut cur) = (1usize, 0usize, a[1]);
        for t in 0..24u32 {
            (x, y) = (y, (2 * x + 3 * y) % 5);
            let here = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
            cur = here;
        }
        for y in 0..5 {
            let row: Vec<u64> = (0..5).map(|x| a[x + 5 * y]).collect();
            for x in 0..5 {
                a[x + 5 * y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            if lfsr & 1 == 1 {
                a[0] ^= 1 << ((1u32 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        }
    }
}

fn bytes(l: &[BigInt]) -> Vec<u8> {
    l.iter().map(|x| u8::try_from(x).expect("harness: byte")).collect()
}
fn ints(l: &[u8]) -> Vec<BigInt> {
    l.iter().map(|&x| x.into()).collect()
}

/// A value of any length that feeds itself to the hasher in pieces.
#[derive(PartialEq, PartialOrd)]
struct Text(Vec<u8>, usize);
impl Hash for Text {
    fn hash<H: Hasher>(&self, state: &mut H) {
        if self.1 == 0 {
            state.update(&self.0);
        } else {
            for c in self.0.chunks(self.1) {
                state.update(c);
            }
        }
    }
}

pub struct Keccaks {
    live: Vec<Keccak256>,
}
impl Keccaks {
    pub fn new() -> Self {
        Keccaks { live: (0..3).map(|_| KeccakBuilder.build_hasher()).collect() }
    }
}

impl Domain for Keccaks {
    fn step(&mut self, obs: &Obs, n: usize) -> Out {
        let digest = match obs.op.as_str() {
            "update" => {
                let x = bytes(&obs.args[1]);
                let h = &mut self.live[us(&obs.args[0][0])];
                if n % 2 == 0 { h.update(&x) } else { h.update(x) }
                return Ok(vec![]);
            }
            "finalize" => {
                let h = &mut self.live[us(&obs.args[0][0])];
                std::mem::replace(h, KeccakBuilder.build_hasher()).finalize()
            }
            "hashOne" => {
                let x = bytes(&obs.args[0]);
                match <[u8; 32]>::try_from(x.as_slice()) {
                    Ok(a) if n % 2 == 0 => KeccakBuilder.hash_one(a),
                    _ => KeccakBuilder.hash_one(Text(x, us(&obs.args[1][0]))),
                }
            }
            op @ ("hashPair" | "commutative") => {
                let mut h = KeccakBuilder.build_hasher();
                let p = bytes(&obs.args[0]);
                if !p.is_empty() {
                    h.update(p);
                }
                let (x, y) = (bytes(&obs.args[1]), bytes(&obs.args[2]));
                let c = op == "commutative";
                match (<[u8; 32]>::try_from(x.as_slice()), <[u8; 32]>::try_from(y.as_slice())) {
                    (Ok(x), Ok(y)) if c => commutative_hash_pair(&x, &y, h),
                    (Ok(x), Ok(y)) => hash_pair(&x, &y, h),
                    _ if c => commutative_hash_pair(&Text(x, n % 4), &Text(y, n % 4), h),
                    _ => hash_pair(&Text(x, n % 4), &Text(y, n % 3), h),
                }
            }
            o => panic!("harness: {o}"),
        };
        Ok(vec![ints(&digest)])
    }

    fn expect(&self, obs: &Obs) -> Vec<Vec<BigInt>> {
        obs.ret.iter().map(|l| ints(&keccak(&bytes(l)))).collect()
    }
}

/// Another hash function, to be used through the builder interface.
struct Other;
struct OtherHasher(Vec<u8>);
impl BuildHasher for Other {
    type Hasher = OtherHasher;
    fn build_hasher(&self) -> OtherHasher {
        OtherHasher(b"other".to_vec())
    }
}
impl Hasher for OtherHasher {
    type Output = [u8; 32];
    fn update(&mut self, input: impl AsRef<[u8]>) {
        self.0.extend_from_slice(input.as_ref());
    }
    fn finalize(self) -> [u8; 32] {
        keccak(&self.0)
    }
}

pub struct Merkle {
    atoms: usize,
    /// The bytes of every term, under the default and under the other hash.
    terms: [Vec<[u8; 32]>; 2],
}

fn atom(i: usize, pattern: usize) -> [u8; 32] {
    let i = i as u8;
    let mut x = [0u8; 32];
    match pattern {
        // alike but for one byte at the end, at the start, in the middle
        0 => x[31] = i,
        1 => x[0] = i.wrapping_mul(0x2b).wrapping_add(0x60),
        2 => {
            x = [0xff; 32];
            x[8 + i as usize] = 0x7f;
        }
        // orders of first and last bytes disagree
        3 => {
            x[0] = i / 3;
            x[31] = 0xff - i;
        }
        4 => x = [i.wrapping_mul(23); 32],
        _ => x = keccak(&[i]),
    }
    x
}

impl Merkle {
    pub fn new(init: &Obs, state: &Value) -> Self {
        let atoms = init.us(0);
        let leaves: Vec<_> = (0..atoms).map(|i| atom(i, init.us(1))).collect();
        let mut m = Merkle { atoms, terms: [leaves.clone(), leaves] };
        m.complete(state);
        m
    }
    /// Computes the bytes of terms that are new in the specification's table.
    fn complete(&mut self, state: &Value) {
        for pair in itf::lists(itf::var(state, "nodes")).iter().skip(self.terms[0].len() - self.atoms) {
            for (t, prefix) in self.terms.iter_mut().zip([&b""[..], b"other"]) {
                let (x, y) = (t[us(&pair[0])], t[us(&pair[1])]);
                let (x, y) = if x < y { (x, y) } else { (y, x) };
                t.push(keccak(&[prefix, &x, &y].concat()));
            }
        }
    }
}

impl Domain for Merkle {
    fn step(&mut self, obs: &Obs, n: usize) -> Out {
        let other = n % 2;
        let t = &self.terms[other];
        let term = |v: &BigInt| t[us(v)];
        let terms = |i: usize| -> Vec<[u8; 32]> { obs.args[i].iter().map(term).collect() };
        match obs.op.as_str() {
            "verify" => {
                let (leaf, proof, root) = (term(obs.n(0)), terms(1), term(obs.n(2)));
                let mut ok = match n % 4 {
                    0 => Verifier::verify(&proof, root, leaf),
                    2 => Verifier::verify_with_builder(&proof, root, leaf, &KeccakBuilder),
                    _ => Verifier::verify_with_builder(&proof, root, leaf, &Other),
                };
                // A root or leaf that is no term at all is never accepted.
                let mut x = root;
                x[(n / 4) % 32] ^= 1 << (n % 8);
                let stray = match other {
                    0 => Verifier::verify(&proof, x, leaf),
                    _ => Verifier::verify_with_builder(&proof, x, leaf, &Other),
                };
                if stray && !t.contains(&x) {
                    ok = !ok;
                }
                Ok(vec![vec![b(ok)]])
            }
            "multi" => {
                let (leaves, proof, root) = (terms(0), terms(1), term(obs.n(3)));
                let flags: Vec<bool> = obs.args[2].iter().map(|x| us(x) == 1).collect();
                let r = match n % 4 {
                    0 => Verifier::verify_multi_proof(&proof, &flags, root, &leaves),
                    2 => Verifier::verify_multi_proof_with_builder(&proof, &flags, root, &leaves, &KeccakBuilder),
                    _ => Verifier::verify_multi_proof_with_builder(&proof, &flags, root, &leaves, &Other),
                };
                match r {
                    Ok(ok) => Ok(vec![vec![b(ok)]]),
                    Err(e) => Err(match e {
                        MultiProofError::InvalidProofLength => "InvalidProofLength",
                        MultiProofError::InvalidRootChild => "InvalidRootChild",
                        MultiProofError::InvalidTotalHashes => "InvalidTotalHashes",
                        MultiProofError::NoLeaves => "NoLeaves",
                    }
                    .into()),
                }
            }
            "make" => {
                let (x, y) = (term(obs.n(0)), term(obs.n(1)));
                let (p, q) = match other {
                    0 => (
                        commutative_hash_pair(&x, &y, KeccakBuilder.build_hasher()),
                        commutative_hash_pair(&y, &x, KeccakBuilder.build_hasher()),
                    ),
                    _ => (commutative_hash_pair(&x, &y, Other.build_hasher()), commutative_hash_pair(&y, &x, Other.build_hasher())),
                };
                let (lo, hi) = if x < y { (x, y) } else { (y, x) };
                let prefix = if other == 1 { &b"other"[..] } else { b"" };
                let want = keccak(&[prefix, &lo, &hi].concat());
                if p != want || q != want {
                    return Err("other hash".into());
                }
                Ok(obs.ret.clone())
            }
            o => panic!("harness: {o}"),
        }
    }

    fn state(&mut self, state: &Value, _n: usize) -> Result<(), String> {
        self.complete(state);
        Ok(())
    }
}

#[cfg(test)]
mod test {
    #[test]
    fn own_keccak() {
        let hex: String = super::keccak(b"").iter().map(|x| format!("{x:02x}")).collect();
        assert_eq!(hex, "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
    }
}
