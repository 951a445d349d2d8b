//! Just enough of the Solidity ABI to encode calls, results, errors and events
//! from a textual signature and the integers of a specification trace.
use alloy_primitives::U256;

use crate::host::{keccak, Addr, Word};

pub struct Sig {
    pub name: String,
    /// (type, indexed)
    pub ins: Vec<(String, bool)>,
    pub outs: Vec<(String, bool)>,
    pub selector_text: String,
}

fn split(list: &str) -> Vec<(String, bool)> {
    if list.is_empty() {
        return vec![];
    }
    list.split(',')
        .map(|t| {
            let t = t.trim();
            match t.strip_suffix(" indexed") {
                Some(s) => (s.to_string(), true),
                None => (t.to_string(), false),
            }
        })
        .collect()
}

pub fn parse(s: &str) -> Sig {
    let open = s.find('(').unwrap_or_else(|| panic!("bad signature {s}"));
    let close = s.find(')').unwrap();
    let name = s[..open].to_string();
    let ins = split(&s[open + 1..close]);
    let rest = &s[close + 1..];
    let outs = if rest.starts_with('(') {
        split(&rest[1..rest.len() - 1])
    } else {
        vec![]
    };
    let types: Vec<&str> = ins.iter().map(|(t, _)| t.as_str()).collect();
    let selector_text = format!("{}({})", name, types.join(","));
    Sig { name, ins, outs, selector_text }
}

impl Sig {
    pub fn selector(&self) -> [u8; 4] {
        let h = keccak(self.selector_text.as_bytes());
        [h[0], h[1], h[2], h[3]]
    }
    pub fn topic(&self) -> Word {
        keccak(self.selector_text.as_bytes())
    }
}

fn is_dynamic(ty: &str) -> bool {
    ty == "bytes" || ty == "string" || ty.ends_with("[]")
}

/// Encodes one static word.
pub fn word(ty: &str, v: U256, addr: &dyn Fn(U256) -> Addr) -> Word {
    if ty == "address" {
        let mut w = [0u8; 32];
        w[12..].copy_from_slice(&addr(v));
        return w;
    }
    if let Some(n) = ty.strip_prefix("bytes") {
        // bytesN: left aligned.
        let n: usize = n.parse().unwrap();
        let be = v.to_be_bytes::<32>();
        let mut w = [0u8; 32];
        w[..n].copy_from_slice(&be[32 - n..]);
        return w;
    }
    v.to_be_bytes::<32>()
}

fn tail(ty: &str, vals: &[U256], addr: &dyn Fn(U256) -> Addr) -> Vec<u8> {
    let mut out = U256::from(vals.len()).to_be_bytes::<32>().to_vec();
    if ty == "bytes" || ty == "string" {
        let mut b: Vec<u8> = vals.iter().map(|v| v.byte(0)).collect();
        while b.len() % 32 != 0 {
            b.push(0);
        }
        out.extend(b);
    } else {
        let el = &ty[..ty.len() - 2];
        for v in vals {
            out.extend(word(el, *v, addr));
        }
    }
    out
}

/// ABI-encodes a parameter tuple.
pub fn encode(
    tys: &[&str],
    vals: &[Vec<U256>],
    addr: &dyn Fn(U256) -> Addr,
) -> Vec<u8> {
    assert_eq!(tys.len(), vals.len(), "arity mismatch for {tys:?}");
    let mut head = vec![];
    let mut tails = vec![];
    let head_len = 32 * tys.len();
    for (ty, v) in tys.iter().zip(vals) {
        if is_dynamic(ty) {
            head.extend(U256::from(head_len + tails.len()).to_be_bytes::<32>());
            tails.extend(tail(ty, v, addr));
        } else {
            assert_eq!(v.len(), 1, "scalar expected for {ty}");
            head.extend(word(ty, v[0], addr));
        }
    }
    head.extend(tails);
    head
}

pub fn calldata(
    sig: &Sig,
    vals: &[Vec<U256>],
    addr: &dyn Fn(U256) -> Addr,
) -> Vec<u8> {
    let tys: Vec<&str> = sig.ins.iter().map(|(t, _)| t.as_str()).collect();
    let mut d = sig.selector().to_vec();
    d.extend(encode(&tys, vals, addr));
    d
}

pub fn result(
    sig: &Sig,
    vals: &[Vec<U256>],
    addr: &dyn Fn(U256) -> Addr,
) -> Vec<u8> {
    let tys: Vec<&str> = sig.outs.iter().map(|(t, _)| t.as_str()).collect();
    encode(&tys, vals, addr)
}

/// Encodes an event as (topics, data).
pub fn event(
    sig: &Sig,
    vals: &[Vec<U256>],
    addr: &dyn Fn(U256) -> Addr,
) -> (Vec<Word>, Vec<u8>) {
    let mut topics = vec![sig.topic()];
    let (mut tys, mut rest) = (vec![], vec![]);
    for ((ty, idx), v) in sig.ins.iter().zip(vals) {
        if *idx {
            topics.push(word(ty, v[0], addr));
        } else {
            tys.push(ty.as_str());
            rest.push(v.clone());
        }
    }
    (topics, encode(&tys, &rest, addr))
}
