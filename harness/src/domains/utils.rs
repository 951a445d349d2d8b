//! Checkpoints, bitmaps, arithmetic helpers, and ERC-165.
use alloc::string::String;

use alloy_primitives::{
    aliases::I256,
    Address, FixedBytes, Uint, B256, U256, U32,
};
use openzeppelin_stylus::{
    access::{control::AccessControl, ownable::Ownable, ownable_two_step::Ownable2Step},
    finance::vesting_wallet::VestingWallet,
    token::{
        common::erc2981::Erc2981,
        erc1155::{
            extensions::{Erc1155MetadataUri, Erc1155Supply},
            Erc1155,
        },
        erc20::{
            extensions::{Erc20FlashMint, Erc20Metadata, Erc20Wrapper, Erc4626},
            utils::SafeErc20,
            Erc20,
        },
        erc721::{
            extensions::{consecutive::Erc721Consecutive, Erc721Enumerable, Erc721Metadata},
            Erc721,
        },
    },
    utils::{
        introspection::erc165::{Erc165, IErc165},
        math::alloy::{Math, Rounding},
        structs::{
            bitmap::BitMap,
            checkpoints::{self, Trace, S160, S208, S224},
        },
    },
};
use openzeppelin_stylus_proc::interface_id;
use serde_json::Value;
use stylus_sdk::{abi::Bytes, prelude::*, storage::StorageU256};

use super::*;
use crate::router;

// -------------------------------------------------------------- checkpoints
#[storage]
#[allow(dead_code)]
pub struct TraceH {
    kind: StorageU256,
    a: Trace<S160>,
    b: Trace<S208>,
    c: Trace<S224>,
    guard: StorageU256,
}
unsafe impl TopLevelStorage for TraceH {}

/// Runs the body on the trace selected by `kind`, with `n!` narrowing keys and
/// values to its widths.
macro_rules! on_trace {
    ($self:ident, $t:ident, $k:ident, $v:ident, $body:expr) => {
        match $self.kind.get().to::<u64>() {
            0 => {
                #[allow(unused)]
                let ($k, $v) = (|x: U256| Uint::<96, 2>::from(x), |x: U256| Uint::<160, 3>::from(x));
                let $t = &mut $self.a;
                $body
            }
            1 => {
                #[allow(unused)]
                let ($k, $v) = (|x: U256| Uint::<48, 1>::from(x), |x: U256| Uint::<208, 4>::from(x));
                let $t = &mut $self.b;
                $body
            }
            _ => {
                #[allow(unused)]
                let ($k, $v) = (|x: U256| Uint::<32, 1>::from(x), |x: U256| Uint::<224, 4>::from(x));
                let $t = &mut $self.c;
                $body
            }
        }
    };
}
#[public]
impl TraceH {
    fn push(&mut self, key: U256, value: U256) -> Result<(U256, U256), checkpoints::Error> {
        on_trace!(self, t, k, v, t.push(k(key), v(value)).map(|(o, n)| (U256::from(o), U256::from(n))))
    }
    fn push_many(&mut self, keys: Vec<U256>, values: Vec<U256>) -> Result<(), checkpoints::Error> {
        for (key, value) in keys.into_iter().zip(values) {
            on_trace!(self, t, k, v, t.push(k(key), v(value)).map(|_| ()))?;
        }
        Ok(())
    }
    fn lookups(&mut self, keys: Vec<U256>) -> Vec<U256> {
        let (mut l, mut u, mut r) = (vec![], vec![], vec![]);
        for key in keys {
            on_trace!(self, t, k, v, {
                l.push(U256::from(t.lower_lookup(k(key))));
                u.push(U256::from(t.upper_lookup(k(key))));
                r.push(U256::from(t.upper_lookup_recent(k(key))));
            })
        }
        [l, u, r].concat()
    }
    fn latest(&mut self) -> U256 {
        on_trace!(self, t, k, v, U256::from(t.latest()))
    }
    fn latest_checkpoint(&mut self) -> (bool, U256, U256) {
        on_trace!(self, t, k, v, match t.latest_checkpoint() {
            Some((a, b)) => (true, U256::from(a), U256::from(b)),
            None => (false, U256::ZERO, U256::ZERO),
        })
    }
    fn length(&mut self) -> U256 {
        on_trace!(self, t, k, v, t.length())
    }
    fn at(&mut self, pos: U32) -> (U256, U256) {
        on_trace!(self, t, k, v, {
            let (a, b) = t.at(pos);
            (U256::from(a), U256::from(b))
        })
    }
}
pub static CHECKPOINTS: Domain = Domain {
    name: "checkpoints",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(TraceH), false));
        poke(a, slot(0), o.args[0][0]);
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| {
        let cps = itf::var(st, "cps").as_array().cloned().unwrap_or_default();
        expect(c, 0, "length()(uint256)", &[], Ok(vec![vec![U256::from(cps.len())]])).map_err(|e| ("cps", e))?;
        for (i, p) in cps.iter().enumerate() {
            let want = vec![vec![itf::int(&p["k"])], vec![itf::int(&p["v"])]];
            expect(c, 0, "at(uint32)(uint256,uint256)", &[vec![U256::from(i)]], Ok(want)).map_err(|e| ("cps", e))?;
        }
        Ok(())
    },
};

// ------------------------------------------------------------------- bitmap
#[storage]
#[allow(dead_code)]
pub struct BitmapH {
    before: StorageU256,
    map: BitMap,
    after: StorageU256,
}
unsafe impl TopLevelStorage for BitmapH {}
#[public]
impl BitmapH {
    fn get(&self, i: U256) -> bool {
        self.map.get(i)
    }
    fn set(&mut self, i: U256) {
        self.map.set(i);
    }
    fn unset(&mut self, i: U256) {
        self.map.unset(i);
    }
    fn set_to(&mut self, i: U256, v: bool) {
        self.map.set_to(i, v);
    }
}
pub static BITMAP: Domain = Domain {
    name: "bitmap",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(BitmapH), false));
    },
    custom: no_custom,
    proj: &[proj("bits", "get(uint256)(bool)")],
    extra: no_extra,
};

// --------------------------------------------------------------------- math
#[storage]
#[allow(dead_code)]
pub struct MathH {
    unused: StorageU256,
}
unsafe impl TopLevelStorage for MathH {}
#[public]
impl MathH {
    fn sqrts(&self, xs: Vec<U256>) -> Vec<U256> {
        xs.into_iter().map(|x| Math::sqrt(x)).collect()
    }
    fn averages(&self, xs: Vec<U256>, ys: Vec<U256>) -> Vec<U256> {
        xs.into_iter().zip(ys).map(|(x, y)| x.average(y)).collect()
    }
    fn mul_div(&self, x: U256, y: U256, d: U256, up: bool) -> U256 {
        x.mul_div(y, d, if up { Rounding::Ceil } else { Rounding::Floor })
    }
}
pub static MATH: Domain = Domain {
    name: "math",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(MathH), false));
    },
    custom: no_custom,
    proj: &[],
    extra: no_extra,
};

// ------------------------------------------------------------------- erc165
#[interface_id]
#[allow(unused)]
pub trait IOwn1 {
    fn plain_name(&self);
    #[selector(name = "renamedByAttribute")]
    fn other_name(&self, a: u8, b: B256, c: bool);
    #[allow(clippy::ptr_arg)]
    #[selector(name = "withNumber2Inside")]
    fn with_number(&mut self, a: Vec<Address>, s: String) -> bool;
    fn overloaded(&self, a: U256) -> U256;
    #[selector(name = "overloaded")]
    fn overloaded_too(&self, a: U256, b: Bytes) -> U256;
}
struct Own1;
impl IOwn1 for Own1 {
    fn plain_name(&self) {}
    fn other_name(&self, _: u8, _: B256, _: bool) {}
    fn with_number(&mut self, _: Vec<Address>, _: String) -> bool {
        true
    }
    fn overloaded(&self, a: U256) -> U256 {
        a
    }
    fn overloaded_too(&self, a: U256, _: Bytes) -> U256 {
        a
    }
}
#[interface_id]
#[allow(unused)]
pub trait IOwn2 {
    fn only(a: I256) -> bool;
}
struct Own2;
impl IOwn2 for Own2 {
    fn only(_: I256) -> bool {
        true
    }
}

type Supports = fn(u32) -> bool;
/// Counts the ids a contract supports, over all 2^32.
type Sweep = fn() -> u64;

macro_rules! contracts {
    ($($n:literal => $t:ty),*) => { &[$(($n, |i| <$t as IErc165>::supports_interface(FixedBytes(i.to_be_bytes())),
        || count(|i| <$t as IErc165>::supports_interface(FixedBytes(i.to_be_bytes()))))),*,
        ("Own1", |i| i == <Own1 as IOwn1>::INTERFACE_ID, || 1),
        ("Own2", |i| i == <Own2 as IOwn2>::INTERFACE_ID, || 1)] };
}
fn count(f: impl Fn(u32) -> bool + Sync) -> u64 {
    let f = &f;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                s.spawn(move || {
                    let (lo, hi) = (t << 29, (t + 1) << 29);
                    (lo..hi).map(|i| f(i as u32) as u64).sum::<u64>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    })
}
static CONTRACTS: &[(&str, Supports, Sweep)] = contracts! {
    "Erc165" => Erc165, "Erc20" => Erc20, "Erc20Metadata" => Erc20Metadata, "Erc4626" => Erc4626,
    "Erc20FlashMint" => Erc20FlashMint, "Erc20Wrapper" => Erc20Wrapper, "SafeErc20" => SafeErc20,
    "Erc721" => Erc721, "Erc721Metadata" => Erc721Metadata, "Erc721Enumerable" => Erc721Enumerable,
    "Erc721Consecutive" => Erc721Consecutive, "Erc1155" => Erc1155,
    "Erc1155MetadataUri" => Erc1155MetadataUri, "Erc1155Supply" => Erc1155Supply, "Erc2981" => Erc2981,
    "Ownable" => Ownable, "Ownable2Step" => Ownable2Step, "AccessControl" => AccessControl,
    "VestingWallet" => VestingWallet
};
pub static ERC165: Domain = Domain {
    name: "erc165",
    setup: |_: &mut Ctx, _: &Obs, _: &Value| {},
    custom: |_, _| None,
    proj: &[],
    extra: |_, o, st| {
        if o.op.starts_with("!sweep") {
            for e in itf::var(st, "totals")["#map"].as_array().unwrap() {
                let name = e[0].as_str().unwrap();
                let want: u64 = itf::int(&e[1]).to();
                let (_, _, sweep) = CONTRACTS.iter().find(|c| c.0 == name).expect("contract");
                let got = sweep();
                if got != want {
                    return Err(("totals", format!("{name} supports {got} of the 2^32 ids, specified {want}")));
                }
            }
            return Ok(());
        }
        let name = itf::var(st, "contract").as_str().unwrap();
        let (_, supports, _) = CONTRACTS.iter().find(|c| c.0 == name).expect("contract");
        let mut id: u32 = itf::int(itf::var(st, "noise")).to();
        let query: Vec<&str> =
            itf::set(itf::var(st, "query")).into_iter().map(|f| f.as_str().unwrap()).collect();
        for f in &query {
            id ^= u32::from_be_bytes(keccak(f.as_bytes())[..4].try_into().unwrap());
        }
        let want = !itf::int(itf::var(st, "answer")).is_zero();
        let got = supports(id);
        if got != want {
            return Err(("answer", format!("{name}: supports {id:#010x} ({query:?}) is {got}, specified {want}")));
        }
        Ok(())
    },
};
