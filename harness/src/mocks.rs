//! Counterparties of the contracts under test, written independently of them.
use alloy_primitives::U256;

use crate::{
    abi,
    domains::Ctx,
    host::{self, bug, keccak, with, Addr, Out, Word},
};

fn word(data: &[u8], i: usize) -> U256 {
    let b = data.get(4 + 32 * i..4 + 32 * i + 32).unwrap_or(&[]);
    U256::try_from_be_slice(b).unwrap_or_default()
}
fn address(data: &[u8], i: usize) -> Addr {
    let w = word(data, i).to_be_bytes::<32>();
    let mut a = [0u8; 20];
    a.copy_from_slice(&w[12..]);
    a
}
fn sel(s: &str) -> [u8; 4] {
    let h = keccak(s.as_bytes());
    [h[0], h[1], h[2], h[3]]
}
fn topic(a: Addr) -> Word {
    let mut w = [0u8; 32];
    w[12..].copy_from_slice(&a);
    w
}
fn ok(v: U256) -> Out {
    Ok(v.to_be_bytes::<32>().to_vec())
}

// ---------------------------------------------------------------------------
// A scripted contract: it records each callback it receives, performs the
// calls its script lists (ignoring their outcome), and answers as scripted.

const CALLBACKS: &[&str] = &[
    "onFlashLoan(address,address,uint256,uint256,bytes)",
    "onERC721Received(address,address,uint256,bytes)",
    "onERC1155Received(address,address,uint256,uint256,bytes)",
    "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)",
    HOOK,
];
/// How a token of mode 12 tells a receiving contract.
const HOOK: &str = "tokensReceived()";

/// Calls a script may make, by kind.
const KINDS: &[(u64, &str)] = &[
    (1, "transfer(address,uint256)"),
    (2, "approve(address,uint256)"),
    (3, "burn(uint256)"),
    (4, "flashLoan(address,address,uint256,bytes)"),
    (5, "transferFrom(address,address,uint256)"),
    (6, "setApprovalForAll(address,bool)"),
    (7, "mint(address,uint256)"),
    (8, "release()"),
    (9, "safeTransferFrom(address,address,uint256)"),
    (10, "safeTransferFrom(address,address,uint256,uint256,bytes)"),
    (11, "release(address)"),
];

/// Revert data used by scripted receivers ("answer 4").
pub const REASON: [u8; 8] = [0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4];

pub fn actor(this: Addr, _caller: Addr, value: U256, data: &[u8]) -> Out {
    let (script, n, variant) = with(|w| {
        let n = w.callbacks;
        w.callbacks += 1;
        (w.script.clone(), U256::from(n), w.variant)
    });
    let mut magic = [0u8; 32];
    if data.is_empty() {
        host::push_log(
            this,
            vec![keccak(b"received(uint256)")],
            value.to_be_bytes::<32>().to_vec(),
        );
    } else {
        let Some(name) = CALLBACKS.iter().find(|c| sel(c) == data[..4]) else {
            return Err(vec![]);
        };
        host::push_log(this, vec![keccak(name.as_bytes())], data[4..].to_vec());
        if name.starts_with("onFlashLoan") {
            magic = keccak(b"ERC3156FlashBorrower.onFlashLoan");
        } else {
            magic[..4].copy_from_slice(&data[..4]);
        }
    }
    let ctx = Ctx::new(variant);
    let mut answer = 0u64;
    for item in script.iter().filter(|i| i[0] == n) {
        let kind: u64 = item[1].try_into().unwrap_or(0);
        if kind == 99 {
            answer = item[2].try_into().unwrap();
            continue;
        }
        let Some((_, s)) = KINDS.iter().find(|(k, _)| *k == kind) else {
            bug(format!("script kind {kind}"))
        };
        let sig = abi::parse(s);
        let args: Vec<Vec<U256>> = sig
            .ins
            .iter()
            .enumerate()
            .map(|(i, (t, _))| if t == "bytes" { vec![] } else { vec![item[3 + i]] })
            .collect();
        let cd = abi::calldata(&sig, &args, &|v| ctx.addr(v));
        let _ = host::call(this, ctx.contract(item[2]), U256::ZERO, &cd, false);
    }
    match answer {
        0 => Ok(if data.is_empty() { vec![] } else { magic.to_vec() }),
        1 => {
            magic[3] ^= 1;
            Ok(magic.to_vec())
        }
        2 => Ok(vec![]),
        3 => Err(vec![]),
        4 => Err(REASON.to_vec()),
        5 => Ok(magic[..31].to_vec()),
        6 => Ok([magic, [7u8; 32]].concat()),
        7 => Ok(vec![0u8; 32]),
        8 => {
            magic.rotate_right(28);
            Ok(magic.to_vec())
        }
        9 => Ok(vec![0xff; 32]),
        10 => {
            // The acknowledgement of the other ERC-1155 callback.
            let single = sel(CALLBACKS[2]);
            let other = if magic[..4] == single { sel(CALLBACKS[3]) } else { single };
            magic[..4].copy_from_slice(&other);
            Ok(magic.to_vec())
        }
        _ => bug(format!("answer {answer}")),
    }
}

// ---------------------------------------------------------------------------
// A native ERC-20 whose answers can be made to misbehave (cfg "mode").

fn key(tag: u8, a: &Addr, b: &Addr) -> Word {
    keccak(&[&[tag][..], a, b].concat())
}
fn load(this: Addr, k: Word) -> U256 {
    with(|w| U256::from_be_bytes(w.st.storage.get(&(this, k)).copied().unwrap_or_default()))
}
fn store(this: Addr, k: Word, v: U256) {
    let st = with(|w| w.frames.last().is_some_and(|f| f.is_static));
    if !st {
        with(|w| w.st.storage.insert((this, k), v.to_be_bytes::<32>()));
    }
}
const NONE: Addr = [0u8; 20];

/// Modes: 0 returns true; 1 returns nothing; 2 refuses by returning false;
/// 3 reverts; 4 returns 2; 5 refuses (reverting) to change a non-zero allowance
/// to a non-zero one; 6 same, returning false; 7 returns true and 32 more
/// bytes; 8 getters revert too; 9 returns one byte 0x01; 10 takes effect but
/// returns false; 11 returns a word with a stray high bit; 12 as 0,
/// and tells a receiving mock contract.
pub fn token(this: Addr, caller: Addr, _value: U256, data: &[u8]) -> Out {
    if data.len() < 4 {
        return Err(vec![]);
    }
    let mode: u64 = host::cfg(this, "mode").try_into().unwrap();
    let s = &data[..4];
    let bal = |a: &Addr| load(this, key(1, a, &NONE));
    let getters_fail = mode == 8 && !with(|w| w.probing);
    if s == sel("balanceOf(address)") {
        return if getters_fail { Err(vec![]) } else { ok(bal(&address(data, 0))) };
    }
    if s == sel("allowance(address,address)") {
        return if getters_fail {
            Err(vec![])
        } else {
            ok(load(this, key(2, &address(data, 0), &address(data, 1))))
        };
    }
    if s == sel("totalSupply()") {
        return ok(load(this, key(3, &NONE, &NONE)));
    }
    if s == sel("mint(address,uint256)") {
        let (to, v) = (address(data, 0), word(data, 1));
        let Some(sup) = load(this, key(3, &NONE, &NONE)).checked_add(v) else {
            return Err(vec![]);
        };
        if to == NONE {
            return Err(vec![]);
        }
        store(this, key(3, &NONE, &NONE), sup);
        store(this, key(1, &to, &NONE), bal(&to) + v);
        return Ok(vec![]);
    }
    if s == sel("slash(address,uint256)") {
        let (from, v) = (address(data, 0), word(data, 1));
        store(this, key(3, &NONE, &NONE), load(this, key(3, &NONE, &NONE)) - v);
        store(this, key(1, &from, &NONE), bal(&from) - v);
        return Ok(vec![]);
    }
    let is_approve = s == sel("approve(address,uint256)");
    let refuse: Option<Out> = match mode {
        2 => Some(ok(U256::ZERO)),
        3 | 8 => Some(Err(crate::mocks::REASON.to_vec())),
        5 | 6 if is_approve => {
            let cur = load(this, key(2, &caller, &address(data, 0)));
            if !cur.is_zero() && !word(data, 1).is_zero() {
                Some(if mode == 5 { Err(vec![]) } else { ok(U256::ZERO) })
            } else {
                None
            }
        }
        _ => None,
    };
    if let Some(r) = refuse {
        return r;
    }
    if is_approve {
        let (sp, v) = (address(data, 0), word(data, 1));
        if sp == NONE {
            return Err(vec![]);
        }
        store(this, key(2, &caller, &sp), v);
        host::push_log(
            this,
            vec![keccak(b"Approval(address,address,uint256)"), topic(caller), topic(sp)],
            v.to_be_bytes::<32>().to_vec(),
        );
    } else {
        let (from, to, v) = if s == sel("transfer(address,uint256)") {
            (caller, address(data, 0), word(data, 1))
        } else if s == sel("transferFrom(address,address,uint256)") {
            let (f, t, v) = (address(data, 0), address(data, 1), word(data, 2));
            let k = key(2, &f, &caller);
            let al = load(this, k);
            if al < v {
                return Err(vec![]);
            }
            if al != U256::MAX {
                store(this, k, al - v);
            }
            (f, t, v)
        } else {
            return Err(vec![]);
        };
        if from == NONE || to == NONE || bal(&from) < v {
            return Err(vec![]);
        }
        store(this, key(1, &from, &NONE), bal(&from) - v);
        store(this, key(1, &to, &NONE), bal(&to) + v);
        host::push_log(
            this,
            vec![keccak(b"Transfer(address,address,uint256)"), topic(from), topic(to)],
            v.to_be_bytes::<32>().to_vec(),
        );
        let told = with(|w| matches!(w.code.get(&to), Some(host::Code::Mock(_))));
        if mode == 12 && told {
            host::call(this, to, U256::ZERO, &sel(HOOK), false)?;
        }
    }
    match mode {
        1 => Ok(vec![]),
        4 => ok(U256::from(2)),
        7 => Ok([U256::from(1).to_be_bytes::<32>(), [9u8; 32]].concat()),
        9 => Ok(vec![1]),
        10 => ok(U256::ZERO),
        11 => ok(U256::from(1) | (U256::from(1) << 255)),
        _ => ok(U256::from(1)),
    }
}

// ---------------------------------------------------------------------------
// A native ERC-721.  cfg "mode": 0 failures carry REASON; 2 they carry no data;
// 3 / 4 every transfer fails, with / without data.

fn id_key(tag: u8, id: U256) -> Word {
    keccak(&[&[tag][..], &id.to_be_bytes::<32>()].concat())
}
fn as_addr(v: U256) -> Addr {
    let w = v.to_be_bytes::<32>();
    let mut a = [0u8; 20];
    a.copy_from_slice(&w[12..]);
    a
}

pub fn nft(this: Addr, caller: Addr, _value: U256, data: &[u8]) -> Out {
    if data.len() < 4 {
        return Err(vec![]);
    }
    let mode: u64 = host::cfg(this, "mode").try_into().unwrap();
    let fail = || -> Out { Err(if mode == 2 || mode == 4 { vec![] } else { REASON.to_vec() }) };
    let s = &data[..4];
    let owner = |id: U256| as_addr(load(this, id_key(11, id)));
    let approved = |id: U256| as_addr(load(this, id_key(12, id)));
    let operator = |o: &Addr, by: &Addr| !load(this, key(13, o, by)).is_zero();
    let bal = |a: &Addr| load(this, key(14, a, &NONE));
    let one = U256::from(1);
    let put = |to: Addr, id: U256| {
        let from = owner(id);
        if from != NONE {
            store(this, key(14, &from, &NONE), bal(&from) - one);
        }
        store(this, key(14, &to, &NONE), bal(&to) + one);
        store(this, id_key(11, id), addr_value(to));
        store(this, id_key(12, id), U256::ZERO);
    };
    if s == sel("ownerOf(uint256)") {
        let o = owner(word(data, 0));
        return if o == NONE { Err(vec![]) } else { ok(addr_value(o)) };
    }
    if s == sel("balanceOf(address)") {
        return ok(bal(&address(data, 0)));
    }
    if s == sel("getApproved(uint256)") {
        return ok(addr_value(approved(word(data, 0))));
    }
    if s == sel("isApprovedForAll(address,address)") {
        return ok(U256::from(operator(&address(data, 0), &address(data, 1))));
    }
    if s == sel("mint(address,uint256)") {
        let (to, id) = (address(data, 0), word(data, 1));
        if to == NONE || owner(id) != NONE {
            return fail();
        }
        put(to, id);
        return Ok(vec![]);
    }
    if s == sel("approve(address,uint256)") {
        let (to, id) = (address(data, 0), word(data, 1));
        let o = owner(id);
        if o == NONE || (o != caller && !operator(&o, &caller)) {
            return fail();
        }
        store(this, id_key(12, id), addr_value(to));
        return Ok(vec![]);
    }
    if s == sel("setApprovalForAll(address,bool)") {
        if address(data, 0) == NONE {
            return fail();
        }
        store(this, key(13, &caller, &address(data, 0)), word(data, 1));
        return Ok(vec![]);
    }
    let safe = s == sel("safeTransferFrom(address,address,uint256)")
        || s == sel("safeTransferFrom(address,address,uint256,bytes)");
    if !safe && s != sel("transferFrom(address,address,uint256)") {
        return Err(vec![]);
    }
    let (from, to, id) = (address(data, 0), address(data, 1), word(data, 2));
    let o = owner(id);
    if mode >= 3
        || to == NONE
        || o == NONE
        || o != from
        || (o != caller && !operator(&o, &caller) && approved(id) != caller)
    {
        return fail();
    }
    put(to, id);
    if safe && with(|w| w.code.contains_key(&to)) {
        let payload = if data.len() >= 4 + 32 * 5 {
            let n: usize = word(data, 4).try_into().unwrap();
            data[4 + 32 * 5..4 + 32 * 5 + n].to_vec()
        } else {
            vec![]
        };
        let sig = abi::parse("onERC721Received(address,address,uint256,bytes)");
        let bytes: Vec<U256> = payload.iter().map(|b| U256::from(*b)).collect();
        let words = [vec![addr_value(caller)], vec![addr_value(from)], vec![id], bytes];
        let cd = abi::calldata(&sig, &words, &as_addr);
        match host::call(this, to, U256::ZERO, &cd, false) {
            Ok(b) if b.len() >= 32 && b[..4] == cd[..4] => {}
            Err(e) if !e.is_empty() => return Err(e),
            _ => return fail(),
        }
    }
    Ok(vec![])
}

fn addr_value(a: Addr) -> U256 {
    U256::from_be_slice(&a)
}
