//! One `Domain` per specification: how to deploy it, how to perform the steps
//! that are not plain ABI calls, and which getters project the real state onto
//! which specification variables.
use std::collections::{HashMap, HashSet};

use alloy_primitives::U256;
use serde_json::Value;

use crate::{
    abi, host,
    host::{keccak, with, Addr, Code, Out, Word},
    itf,
};

pub mod access;
pub mod crypto;
pub mod erc20;
pub mod erc20x;
pub mod finance;
pub mod multi;
pub mod nft;
mod suite;
mod uri;
pub mod utils;

pub type Args = Vec<Vec<U256>>;

pub struct Obs {
    pub op: String,
    pub at: U256,
    pub by: U256,
    pub pay: U256,
    pub args: Args,
    pub errs: Vec<(String, Args)>,
    pub ret: Args,
    pub evs: Vec<(U256, String, Args)>,
}

impl Obs {
    pub fn read(v: &Value) -> Self {
        let arr = |x: &Value| x.as_array().cloned().unwrap_or_default();
        // Results and records are specified for successful calls only.
        let ok = arr(&v["errs"]).is_empty();
        let or_none = |x: &Value| if ok { x.clone() } else { serde_json::json!([]) };
        Obs {
            op: v["op"].as_str().expect("op").to_string(),
            at: itf::int(&v["at"]),
            by: itf::int(&v["by"]),
            pay: itf::int(&v["pay"]),
            args: itf::lists(&v["args"]),
            errs: arr(&v["errs"])
                .iter()
                .map(|e| (e["sig"].as_str().unwrap().to_string(), itf::lists(&e["args"])))
                .collect(),
            ret: itf::lists(&or_none(&v["ret"])),
            evs: arr(&or_none(&v["evs"]))
                .iter()
                .map(|e| {
                    (
                        itf::int(&e["at"]),
                        e["sig"].as_str().unwrap().to_string(),
                        itf::lists(&e["args"]),
                    )
                })
                .collect(),
        }
    }
}

/// A state variable of the specification and the getter that exposes it.
pub struct Proj {
    pub var: &'static str,
    pub at: u64,
    pub sig: &'static str,
    /// Error expected instead of a value when the specification says 0.
    pub zero_err: Option<&'static str>,
    pub skip_zero_key: bool,
}

pub const fn proj(var: &'static str, sig: &'static str) -> Proj {
    Proj { var, at: 0, sig, zero_err: None, skip_zero_key: false }
}

pub struct Domain {
    pub name: &'static str,
    pub setup: fn(&mut Ctx, &Obs, &Value),
    pub custom: fn(&mut Ctx, &Obs) -> Option<Out>,
    pub proj: &'static [Proj],
    pub extra: fn(&mut Ctx, &Obs, &Value) -> Result<(), (&'static str, String)>,
}

/// An ordinary message call.  Arguments beyond the function's own are the
/// script of the mock contracts for this step.
pub fn plain(ctx: &Ctx, obs: &Obs) -> Out {
    let sig = abi::parse(&obs.op);
    let n = sig.ins.len();
    with(|w| w.script = obs.args[n.min(obs.args.len())..].to_vec());
    let data = abi::calldata(&sig, &obs.args[..n], &|v| ctx.addr(v));
    host::call(ctx.addr(obs.by), ctx.contract(obs.at), obs.pay, &data, false)
}

/// What a read must give: values, or a revert with this error.
pub type Want<'a> = Result<Vec<Vec<U256>>, (&'a str, Args)>;

/// Calls a getter of contract `at` and compares.
pub fn expect(c: &Ctx, at: u64, sig: &str, args: &[Vec<U256>], want: Want) -> Result<(), String> {
    let s = abi::parse(sig);
    let data = abi::calldata(&s, args, &|v| c.addr(v));
    let got = host::call(
        c.addr(U256::from(1)),
        c.contract(U256::from(at)),
        U256::ZERO,
        &data,
        true,
    );
    let want = match want {
        Ok(v) => Ok(abi::result(&s, &v, &|v| c.addr(v))),
        Err((e, a)) if e == "#empty" => {
            let _ = a;
            Err(vec![])
        }
        Err((e, a)) => Err(abi::calldata(&abi::parse(e), &a, &|v| c.addr(v))),
    };
    if got == want {
        Ok(())
    } else {
        Err(format!("{sig}{args:?}: got {got:02x?}, specified {want:02x?}"))
    }
}

pub fn no_custom(_: &mut Ctx, o: &Obs) -> Option<Out> {
    panic!("unknown step {}", o.op)
}
pub fn no_extra(_: &mut Ctx, _: &Obs, _: &Value) -> Result<(), (&'static str, String)> {
    Ok(())
}

/// The concretisation of one trace: specification integers to addresses.
pub struct Ctx {
    pub variant: u64,
    /// Accounts are those of real secp256k1 keys.
    pub keyed: bool,
    pub memo: HashMap<[u8; 32], U256>,
    pub ignored_logs: HashSet<Addr>,
}

impl Ctx {
    pub fn new(variant: u64) -> Self {
        Ctx { variant, keyed: false, memo: HashMap::new(), ignored_logs: HashSet::new() }
    }

    /// Distinct concrete addresses for the specification's small integers.
    /// The shape varies from trace to trace: random bytes; a shared prefix or
    /// suffix with one differing byte; mostly zero bytes; mostly 0xff bytes.
    pub fn addr(&self, v: U256) -> Addr {
        if v.is_zero() {
            return [0u8; 20];
        }
        let n: u64 = v.try_into().expect("address index");
        assert!(n < 250, "address index {n}");
        if self.keyed && n < 100 {
            return crypto::account(&crypto::key(self.variant, n));
        }
        let h = keccak(&[self.variant.to_be_bytes(), n.to_be_bytes()].concat());
        let common = keccak(&self.variant.to_be_bytes());
        let mut a = [0u8; 20];
        match self.variant % 6 {
            0 | 5 => a.copy_from_slice(&h[..20]),
            1 => {
                a.copy_from_slice(&common[..20]);
                a[19] = n as u8;
            }
            2 => {
                a.copy_from_slice(&common[..20]);
                a[0] = n as u8;
            }
            3 => {
                a[0] = 0x01;
                a[10] = n as u8;
            }
            _ => {
                a = [0xff; 20];
                a[11] = n as u8;
            }
        }
        a
    }

    /// Contract number `at` lives at the address of index 100 + at.
    pub fn contract(&self, at: U256) -> Addr {
        self.addr(at + U256::from(100))
    }

    pub fn deploy(&self, at: u64, code: Code) -> Addr {
        let a = self.contract(U256::from(at));
        with(|w| w.code.insert(a, code));
        a
    }
}

pub fn slot(n: u64) -> Word {
    U256::from(n).to_be_bytes::<32>()
}

/// Writes a raw storage word, as a Solidity constructor would.
pub fn poke(at: Addr, slot: Word, v: U256) {
    with(|w| w.st.storage.insert((at, slot), v.to_be_bytes::<32>()));
}

/// Writes a string as Solidity lays it out.
pub fn poke_str(at: Addr, s: Word, bytes: &[U256]) {
    let b: Vec<u8> = bytes.iter().map(|v| v.byte(0)).collect();
    let mut w = [0u8; 32];
    if b.len() < 32 {
        w[..b.len()].copy_from_slice(&b);
        w[31] = (b.len() * 2) as u8;
        poke(at, s, U256::from_be_bytes(w));
        return;
    }
    poke(at, s, U256::from(b.len() * 2 + 1));
    let first = U256::from_be_bytes(keccak(&s));
    for (i, c) in b.chunks(32).enumerate() {
        let mut w = [0u8; 32];
        w[..c.len()].copy_from_slice(c);
        poke(at, (first + U256::from(i)).to_be_bytes::<32>(), U256::from_be_bytes(w));
    }
}

pub fn addr_word(a: Addr) -> U256 {
    U256::from_be_slice(&a)
}

#[macro_export]
macro_rules! router {
    ($t:ty) => {
        |input: Vec<u8>| {
            stylus_sdk::abi::router_entrypoint::<$t, $t>(
                input,
                stylus_sdk::host::VM(stylus_sdk::host::WasmVM {}),
            )
        }
    };
}

pub fn find(name: &str) -> Option<&'static Domain> {
    ALL.iter().copied().find(|d| d.name == name)
}

static ALL: &[&Domain] = &[
    &erc20::ERC20,
    &suite::SUITE20,
    &suite::SUITE721,
    &suite::SUITE1155,
    &erc20x::FLASH,
    &erc20x::SAFE,
    &erc20x::WRAPPER,
    &erc20x::VAULT,
    &nft::ERC721,
    &nft::ENUMERABLE,
    &nft::CONSECUTIVE,
    &nft::WRAPPER,
    &uri::URI721,
    &uri::URI1155,
    &multi::ERC1155,
    &multi::SUPPLY,
    &crypto::PERMIT,
    &crypto::NONCES,
    &crypto::ECDSA,
    &crypto::EIP712,
    &access::OWNABLE,
    &access::OWNABLE2,
    &access::CONTROL,
    &access::PAUSABLE,
    &access::ROYALTY,
    &finance::VESTING,
    &utils::CHECKPOINTS,
    &utils::BITMAP,
    &utils::MATH,
    &utils::ERC165,
];
