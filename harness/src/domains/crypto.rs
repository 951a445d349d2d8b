//! Signatures: ERC-2612 permits, nonces, ECDSA recovery, EIP-712.  Digests,
//! signatures and expected separators are computed here independently.
use alloy_primitives::{Address, B256, U256};
use k256::ecdsa::{SigningKey, VerifyingKey};
use openzeppelin_stylus::{
    token::erc20::{
        self,
        extensions::{permit, Erc20Permit},
        Erc20,
    },
    utils::{
        cryptography::{
            ecdsa,
            eip712::{to_typed_data_hash, IEip712},
        },
        nonces::{self, Nonces},
    },
};
use serde_json::Value;
use stylus_sdk::prelude::*;

use super::*;
use crate::{host::{self, bug}, router};

pub fn key(variant: u64, n: u64) -> SigningKey {
    let mut h = keccak(&[&b"key"[..], &variant.to_be_bytes(), &n.to_be_bytes()].concat());
    loop {
        if let Ok(k) = SigningKey::from_slice(&h) {
            return k;
        }
        h = keccak(&h);
    }
}
pub fn account(k: &SigningKey) -> Addr {
    let pt = VerifyingKey::from(k).to_encoded_point(false);
    let h = keccak(&pt.as_bytes()[1..]);
    let mut a = [0u8; 20];
    a.copy_from_slice(&h[12..]);
    a
}
/// (v, r, s) with low s.
fn sign(k: &SigningKey, digest: &Word) -> (u8, U256, U256) {
    let (sig, rid) = k.sign_prehash_recoverable(digest).unwrap();
    let (sig, flip) = match sig.normalize_s() {
        Some(s) => (s, 1),
        None => (sig, 0),
    };
    let b = sig.to_bytes();
    (
        27 + (rid.to_byte() ^ flip),
        U256::from_be_slice(&b[..32]),
        U256::from_be_slice(&b[32..]),
    )
}
fn order() -> U256 {
    U256::from_str_radix("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
        .unwrap()
}
fn w(v: U256) -> Word {
    v.to_be_bytes::<32>()
}
fn n64(v: U256) -> u64 {
    v.try_into().unwrap_or_else(|_| bug("u64"))
}

/// The EIP-712 domain separator, from the standard.
fn separator(name: &str, version: &str, chain: U256, at: Addr) -> Word {
    let th = keccak(
        b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)",
    );
    keccak(
        &[
            th,
            keccak(name.as_bytes()),
            keccak(version.as_bytes()),
            w(chain),
            w(addr_word(at)),
        ]
        .concat(),
    )
}
fn typed(sep: Word, st: Word) -> Word {
    keccak(&[&[0x19u8, 1][..], &sep, &st].concat())
}

// ------------------------------------------------------------------- permit
const NAME: &str = "Permit Token";
const VERSION: &str = "7";

#[storage]
pub struct Dom {}
impl IEip712 for Dom {
    const NAME: &'static str = NAME;
    const VERSION: &'static str = VERSION;
}

#[storage]
pub struct PermitH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    nonces: Nonces,
    #[borrow]
    permit: Erc20Permit<Dom>,
}
unsafe impl TopLevelStorage for PermitH {}
#[public]
#[inherit(Erc20, Nonces, Erc20Permit<Dom>)]
impl PermitH {
    fn mint(&mut self, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, value)
    }
    #[allow(clippy::too_many_arguments)]
    fn permit(
        &mut self,
        owner: Address,
        spender: Address,
        value: U256,
        deadline: U256,
        v: u8,
        r: B256,
        s: B256,
    ) -> Result<(), permit::Error> {
        self.permit.permit(
            owner, spender, value, deadline, v, r, s, &mut self.erc20, &mut self.nonces,
        )
    }
}

fn do_permit(c: &mut Ctx, o: &Obs) -> Out {
    let s = &o.args[4];
    let th = keccak(if s[8] == U256::from(3) {
        &b"Permit(address owner,address spender,uint256 amount,uint256 nonce,uint256 deadline)"[..]
    } else {
        &b"Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)"[..]
    });
    let st = keccak(
        &[
            th,
            w(addr_word(c.addr(s[1]))),
            w(addr_word(c.addr(s[2]))),
            w(s[3]),
            w(s[4]),
            w(s[5]),
        ]
        .concat(),
    );
    let sep = separator(
        if s[8] == U256::from(1) { "Permit Tokem" } else { NAME },
        if s[8] == U256::from(2) { "8" } else { VERSION },
        s[6],
        c.contract(s[7]),
    );
    let (mut v, mut r, mut ss) = sign(&key(c.variant, n64(s[0])), &typed(sep, st));
    match n64(s[9]) {
        0 => {}
        1 => {
            ss = order() - ss;
            v ^= 27 ^ 28;
        }
        2 => v -= 27,
        3 => v = if r.bit(0) { 29 + (r.byte(1) % 200) } else { 2 + r.byte(1) % 25 },
        4 => r = U256::ZERO,
        5 => ss = U256::ZERO,
        6 => v ^= 27 ^ 28,
        7 => r ^= U256::from(1) << (ss.byte(3) as usize % 250),
        m => bug(format!("mangle {m}")),
    }
    let sig = abi::parse("permit(address,address,uint256,uint256,uint8,bytes32,bytes32)");
    let mut args = o.args[..4].to_vec();
    args.extend([vec![U256::from(v)], vec![r], vec![ss]]);
    let data = abi::calldata(&sig, &args, &|x| c.addr(x));
    host::call(c.addr(o.by), c.contract(U256::ZERO), U256::ZERO, &data, false)
}

fn set_env(o: &Obs) -> bool {
    match o.op.as_str() {
        "!time(uint256)()" => with(|w| w.timestamp = n64(o.args[0][0])),
        "!chain(uint256)()" => with(|w| w.chain_id = n64(o.args[0][0])),
        _ => return false,
    }
    true
}

pub static PERMIT: Domain = Domain {
    name: "permit",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        c.keyed = true;
        c.deploy(0, Code::Stylus(router!(PermitH), false));
        with(|w| {
            w.timestamp = n64(o.args[0][0]);
            w.chain_id = n64(o.args[1][0]);
        });
    },
    custom: |c, o| {
        if set_env(o) {
            return None;
        }
        match o.op.split('(').next().unwrap() {
            "!permit" => Some(do_permit(c, o)),
            _ => no_custom(c, o),
        }
    },
    proj: &[
        proj("tok.bal", "balanceOf(address)(uint256)"),
        proj("tok.allow", "allowance(address,address)(uint256)"),
        proj("tok.supply", "totalSupply()(uint256)"),
        proj("nonce", "nonces(address)(uint256)"),
    ],
    extra: |c, _, st| {
        let at = c.contract(U256::ZERO);
        let want = separator(NAME, VERSION, itf::int(itf::var(st, "chain")), at);
        let got = host::call(
            c.addr(U256::from(1)),
            at,
            U256::ZERO,
            &keccak(b"DOMAIN_SEPARATOR()")[..4],
            true,
        );
        if got == Ok(want.to_vec()) {
            Ok(())
        } else {
            Err(("domain", format!("DOMAIN_SEPARATOR {got:02x?}")))
        }
    },
};

// ------------------------------------------------------------------- nonces
#[storage]
pub struct NoncesH {
    #[borrow]
    nonces: Nonces,
}
unsafe impl TopLevelStorage for NoncesH {}
#[public]
#[inherit(Nonces)]
impl NoncesH {
    fn use_nonce(&mut self, owner: Address) -> U256 {
        self.nonces.use_nonce(owner)
    }
    fn use_checked_nonce(&mut self, owner: Address, n: U256) -> Result<(), nonces::Error> {
        self.nonces.use_checked_nonce(owner, n)
    }
}
pub static NONCES: Domain = Domain {
    name: "nonces",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(NoncesH), false));
        for (i, v) in o.args.iter().enumerate() {
            let who = addr_word(c.addr(U256::from(i)));
            poke(a, keccak(&[w(who), slot(0)].concat()), v[0]);
        }
    },
    custom: no_custom,
    proj: &[proj("nonce", "nonces(address)(uint256)")],
    extra: no_extra,
};

// -------------------------------------------------------------------- ecdsa
#[storage]
pub struct EcdsaH {}
unsafe impl TopLevelStorage for EcdsaH {}
#[public]
impl EcdsaH {
    fn recover(&mut self, hash: B256, v: u8, r: B256, s: B256) -> Result<Address, ecdsa::Error> {
        ecdsa::recover(self, hash, v, r, s)
    }
}
/// The x coordinate of the generator times a salted scalar: on the curve.
fn curve_x(salt: u64) -> U256 {
    let pt = VerifyingKey::from(&key(77, salt)).to_encoded_point(false);
    U256::from_be_slice(&pt.as_bytes()[1..33])
}
fn do_recover(c: &mut Ctx, o: &Obs) -> Out {
    let salt = n64(o.args[3][0]);
    let class = n64(o.args[2][0]);
    let k = key(c.variant, n64(o.args[0][0]));
    // Digest 0 is the zero word, 1 the all-ones word; others are hashes.
    let d = n64(o.args[1][0]);
    let digest = match d {
        0 => [0u8; 32],
        1 => [0xff; 32],
        _ => keccak(&d.to_be_bytes()),
    };
    let mut hash = digest;
    let (mut v, mut r, mut s) = sign(&k, &digest);
    let half = order() >> 1;
    match class {
        0 => {}
        1 => {
            s = order() - s;
            v ^= 27 ^ 28;
        }
        2 => v = (salt & 1) as u8,
        3 => {
            // anything but 0, 1, 27, 28
            let all: Vec<u8> = (2..=255).filter(|x| *x != 27 && *x != 28).collect();
            v = all[salt as usize % all.len()];
        }
        4 => r = U256::ZERO,
        5 => s = U256::ZERO,
        6 => {
            r = match salt % 3 {
                0 => order(),
                1 => order() + U256::from(1 + salt),
                _ => U256::MAX,
            }
        }
        7 => {
            if salt & 1 == 0 {
                v ^= 27 ^ 28;
            } else {
                hash[salt as usize / 2 % 32] ^= 1 << (salt / 64 % 8);
            }
        }
        8 => {
            s = half - U256::from(salt % 3);
            r = curve_x(salt);
        }
        9 => s = match salt % 4 {
            0 => half + U256::from(1),
            1 => half + U256::from(2 + salt),
            2 => U256::MAX,
            _ => order() + U256::from(salt),
        },
        10 => {
            // an x with no point on the curve: independent recovery fails
            r = U256::from(salt) + U256::from(1);
            loop {
                let mut inp = vec![];
                inp.extend(hash);
                inp.extend(w(U256::from(v)));
                inp.extend(w(r));
                inp.extend(w(s));
                if host::ecrecover(&inp).is_empty() {
                    break;
                }
                r += U256::from(1);
            }
        }
        11 => {
            s = order() - s;
            v = (salt % 27) as u8;
        }
        _ => bug("class"),
    }
    let sig = abi::parse("recover(bytes32,uint8,bytes32,bytes32)");
    let args = vec![vec![U256::from_be_bytes(hash)], vec![U256::from(v)], vec![r], vec![s]];
    let data = abi::calldata(&sig, &args, &|x| c.addr(x));
    let out = host::call(c.addr(o.by), c.contract(U256::ZERO), U256::ZERO, &data, false);
    // Symbolic names for values the specification does not compute.
    match out {
        Ok(b) => {
            let mut inp = hash.to_vec();
            inp.extend(&data[36..]);
            let indep = host::ecrecover(&inp);
            if class != 0 && !indep.is_empty() && b == indep {
                if b[12..] == account(&k) {
                    return Ok(b);
                }
                return Ok(w(addr_word(c.addr(U256::from(240)))).to_vec());
            }
            Ok(b)
        }
        Err(e) => {
            let hs = abi::calldata(
                &abi::parse("ECDSAInvalidSignatureS(bytes32)"),
                &[vec![s]],
                &|x| c.addr(x),
            );
            if e == hs {
                return Err(abi::calldata(
                    &abi::parse("ECDSAInvalidSignatureS(bytes32)"),
                    &[vec![U256::from(7)]],
                    &|x| c.addr(x),
                ));
            }
            Err(e)
        }
    }
}
pub static ECDSA: Domain = Domain {
    name: "ecdsa",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.keyed = true;
        c.deploy(0, Code::Stylus(router!(EcdsaH), false));
    },
    custom: |c, o| match o.op.split('(').next().unwrap() {
        "!recover" => Some(do_recover(c, o)),
        _ => no_custom(c, o),
    },
    proj: &[],
    extra: no_extra,
};

// ------------------------------------------------------------------- eip712
macro_rules! dom {
    ($t:ident, $n:expr, $v:expr) => {
        #[storage]
        pub struct $t {}
        unsafe impl TopLevelStorage for $t {}
        impl IEip712 for $t {
            const NAME: &'static str = $n;
            const VERSION: &'static str = $v;
        }
        #[public]
        impl $t {
            fn digest(&self, s: B256) -> B256 {
                self.hash_typed_data_v4(s)
            }
            fn separator(&self) -> B256 {
                self.domain_separator_v4()
            }
            fn typed(&self, d: B256, s: B256) -> B256 {
                to_typed_data_hash(&d, &s)
            }
            fn fields(&self) -> alloc::vec::Vec<u8> {
                let (f, n, v, c, a, s, e) = self.eip712_domain();
                let mut out = f.to_vec();
                out.extend((n.len() as u32).to_be_bytes());
                out.extend(n.as_bytes());
                out.extend((v.len() as u32).to_be_bytes());
                out.extend(v.as_bytes());
                out.extend(c.to_be_bytes::<32>());
                out.extend(a.as_slice());
                out.extend(s);
                out.extend((e.len() as u32).to_be_bytes());
                out
            }
        }
    };
}
const LONG: &str = "A name of more than one 136-byte Keccak block: 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789";
dom!(D0, "ab", "c");
dom!(D1, "a", "bc");
dom!(D2, "", "");
dom!(D3, LONG, "1");
dom!(D4, "1", LONG);
dom!(D5, "\u{e9}\u{1F980}", "1.0");
const DOMS: [(&str, &str); 6] =
    [("ab", "c"), ("a", "bc"), ("", ""), (LONG, "1"), ("1", LONG), ("\u{e9}\u{1F980}", "1.0")];

fn eip(c: &mut Ctx, o: &Obs) -> Option<Out> {
    if set_env(o) {
        return None;
    }
    let i = n64(o.at);
    let at = c.contract(o.at);
    let (name, version) = DOMS[i as usize / 2];
    let chain = with(|w| w.chain_id);
    let sep = separator(name, version, U256::from(chain), at);
    // 1 and 2 are the extreme words, the rest hashes.
    let word = |x: U256| match n64(x) {
        1 => [0u8; 32],
        2 => [0xffu8; 32],
        n => keccak(&n.to_be_bytes()),
    };
    let call = |text: &str, args: &[Word]| {
        let mut data = keccak(text.as_bytes())[..4].to_vec();
        args.iter().for_each(|a| data.extend(a));
        host::call(c.addr(o.by), at, U256::ZERO, &data, false)
    };
    let (got, want) = match o.op.split('(').next().unwrap() {
        "!digest" => {
            let s = word(o.args[0][0]);
            (call("digest(bytes32)", &[s]), typed(sep, s))
        }
        "!separator" => (call("separator()", &[]), sep),
        "!typed" => {
            let (a, b) = (word(o.args[0][0]), word(o.args[1][0]));
            (call("typed(bytes32,bytes32)", &[a, b]), typed(a, b))
        }
        "!domain" => {
            let mut d = vec![0x0f];
            d.extend((name.len() as u32).to_be_bytes());
            d.extend(name.as_bytes());
            d.extend((version.len() as u32).to_be_bytes());
            d.extend(version.as_bytes());
            d.extend(w(U256::from(chain)));
            d.extend(at);
            d.extend([0u8; 32]);
            d.extend([0u8; 4]);
            let want = abi::encode(
                &["uint8[]"],
                &[d.iter().map(|b| U256::from(*b)).collect()],
                &|x| c.addr(x),
            );
            let got = call("fields()", &[]);
            return Some(if got == Ok(want) { Ok(vec![]) } else { got });
        }
        _ => return no_custom(c, o),
    };
    // The code the specification gave this digest, unless it deviates from the
    // standard or was already given to other inputs.
    Some(match got {
        Ok(b) if b == want => {
            let code = o.ret[0][0];
            let seen = *c.memo.entry(want).or_insert(code);
            Ok(w(seen).to_vec())
        }
        x => x,
    })
}
pub static EIP712: Domain = Domain {
    name: "eip712",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        with(|w| w.chain_id = n64(o.args[0][0]));
        c.deploy(0, Code::Stylus(router!(D0), false));
        c.deploy(1, Code::Stylus(router!(D0), false));
        c.deploy(2, Code::Stylus(router!(D1), false));
        c.deploy(3, Code::Stylus(router!(D1), false));
        c.deploy(4, Code::Stylus(router!(D2), false));
        c.deploy(5, Code::Stylus(router!(D2), false));
        c.deploy(6, Code::Stylus(router!(D3), false));
        c.deploy(7, Code::Stylus(router!(D3), false));
        c.deploy(8, Code::Stylus(router!(D4), false));
        c.deploy(9, Code::Stylus(router!(D4), false));
        c.deploy(10, Code::Stylus(router!(D5), false));
        c.deploy(11, Code::Stylus(router!(D5), false));
    },
    custom: eip,
    proj: &[],
    extra: no_extra,
};
