//! A small, faithful stand-in for the Stylus/EVM host: accounts with code and
//! ETH, nested calls with rollback, static calls, logs, and the per-call
//! storage cache of the Stylus VM (reads are cached, writes become visible to
//! other call frames only when flushed).
//!
//! The real contract code runs unmodified on top of these `vm_hooks`.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    slice,
};

use alloy_primitives::U256;
use tiny_keccak::{Hasher, Keccak};

pub type Addr = [u8; 20];
pub type Word = [u8; 32];
pub type Out = Result<Vec<u8>, Vec<u8>>;

pub fn keccak(data: &[u8]) -> Word {
    let mut k = Keccak::v256();
    k.update(data);
    let mut out = [0u8; 32];
    k.finalize(&mut out);
    out
}

#[derive(Clone, Debug, PartialEq)]
pub struct Log {
    pub at: Addr,
    pub topics: Vec<Word>,
    pub data: Vec<u8>,
}

/// What an account does when it is called.
#[derive(Clone, Copy)]
pub enum Code {
    /// A Stylus contract: its router, and whether it was built `reentrant`.
    Stylus(fn(Vec<u8>) -> Out, bool),
    /// A native mock contract (receives itself, the caller, the value, data).
    Mock(fn(Addr, Addr, U256, &[u8]) -> Out),
}

#[derive(Clone, Default)]
pub struct State {
    pub storage: BTreeMap<(Addr, Word), Word>,
    pub eth: HashMap<Addr, U256>,
    pub logs: Vec<Log>,
}

pub struct Frame {
    pub this: Addr,
    pub caller: Addr,
    pub value: U256,
    pub is_static: bool,
    cache: HashMap<Word, (Word, bool)>,
    ret: Vec<u8>,
    poisoned: bool,
}

#[derive(Default)]
pub struct World {
    pub st: State,
    pub code: HashMap<Addr, Code>,
    pub frames: Vec<Frame>,
    pub timestamp: u64,
    pub number: u64,
    pub chain_id: u64,
    /// Calls made by contract code: (from, to, calldata, static).
    pub calls: Vec<(Addr, Addr, Vec<u8>, bool)>,
    /// How specification integers become addresses in this trace.
    pub variant: u64,
    /// Script of the current step: items [callback, kind, target, args..].
    pub script: Vec<Vec<U256>>,
    /// Callbacks received by scripted contracts so far in this step.
    pub callbacks: u64,
    /// The replayer is reading state (mocks then answer honestly).
    pub probing: bool,
    /// Mock configuration, free-form.
    pub cfg: HashMap<(Addr, &'static str), U256>,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

pub fn reset() {
    with(|w| {
        *w = World::default();
        w.timestamp = 1_700_000_000;
        w.number = 100;
        w.chain_id = 42161;
    })
}

pub fn cfg(a: Addr, k: &'static str) -> U256 {
    with(|w| w.cfg.get(&(a, k)).copied().unwrap_or_default())
}

/// Panic payload for faults of the harness itself (never of the contract).
pub struct HarnessBug(#[allow(dead_code)] pub String);

pub fn bug(msg: impl Into<String>) -> ! {
    let m = msg.into();
    eprintln!("harness bug: {m}");
    std::panic::panic_any(HarnessBug(m))
}

/// Appends a log record on behalf of a native mock.
pub fn push_log(at: Addr, topics: Vec<Word>, data: Vec<u8>) {
    with(|w| w.st.logs.push(Log { at, topics, data }));
}

/// Performs a message call.  Returns the callee's output or its revert data.
pub fn call(
    caller: Addr,
    to: Addr,
    value: U256,
    data: &[u8],
    is_static: bool,
) -> Out {
    let (snapshot, code, depth) = with(|w| {
        (w.st.clone(), w.code.get(&to).copied(), w.frames.len())
    });
    if depth > 24 {
        return Err(vec![]);
    }
    if !value.is_zero() {
        let ok = with(|w| {
            if is_static {
                return false;
            }
            let from = w.st.eth.get(&caller).copied().unwrap_or_default();
            if from < value {
                return false;
            }
            w.st.eth.insert(caller, from - value);
            let cur = w.st.eth.get(&to).copied().unwrap_or_default();
            w.st.eth.insert(to, cur.wrapping_add(value));
            true
        });
        if !ok {
            with(|w| w.st = snapshot);
            return Err(vec![]);
        }
    }
    let res = if let Some(code) = code {
        let reentered =
            with(|w| w.frames.iter().any(|f| f.this == to));
        with(|w| {
            w.frames.push(Frame {
                this: to,
                caller,
                value,
                is_static,
                cache: HashMap::new(),
                ret: vec![],
                poisoned: false,
            })
        });
        let r = match code {
            Code::Stylus(_, false) if reentered => Err(vec![]),
            Code::Stylus(router, _) => {
                let input = data.to_vec();
                let depth = with(|w| w.frames.len());
                match catch_unwind(AssertUnwindSafe(|| router(input))) {
                    Ok(Ok(out)) => {
                        flush(false);
                        Ok(out)
                    }
                    Ok(Err(e)) => Err(e),
                    Err(p) => {
                        with(|w| w.frames.truncate(depth));
                        if p.downcast_ref::<HarnessBug>().is_some() {
                            std::panic::resume_unwind(p);
                        }
                        Err(vec![])
                    }
                }
            }
            Code::Mock(f) => f(to, caller, value, data),
        };
        let poisoned = with(|w| {
            w.frames.truncate(depth + 1);
            w.frames.pop().map(|f| f.poisoned).unwrap_or(false)
        });
        if poisoned { Err(vec![]) } else { r }
    } else if to == precompile(1) {
        Ok(ecrecover(data))
    } else if to == precompile(2) || to == precompile(4) {
        Ok(data.to_vec())
    } else {
        Ok(vec![])
    };
    if res.is_err() {
        with(|w| w.st = snapshot);
    }
    res
}

pub fn precompile(n: u8) -> Addr {
    let mut a = [0u8; 20];
    a[19] = n;
    a
}

/// The `ecrecover` precompile with the real EVM's behaviour: 32 bytes on
/// success, *empty* output for anything invalid.
pub fn ecrecover(data: &[u8]) -> Vec<u8> {
    use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
    let mut inp = [0u8; 128];
    let n = data.len().min(128);
    inp[..n].copy_from_slice(&data[..n]);
    if inp[32..63].iter().any(|b| *b != 0) {
        return vec![];
    }
    let v = inp[63];
    if v != 27 && v != 28 {
        return vec![];
    }
    let Ok(sig) = Signature::from_slice(&inp[64..128]) else {
        return vec![];
    };
    // EVM accepts high-s values; k256 wants them normalised.
    let (sig, rec) = match sig.normalize_s() {
        Some(s) => (s, (v - 27) ^ 1),
        None => (sig, v - 27),
    };
    let Some(rid) = RecoveryId::from_byte(rec) else { return vec![] };
    match VerifyingKey::recover_from_prehash(&inp[..32], &sig, rid) {
        Ok(vk) => {
            let pt = vk.to_encoded_point(false);
            let h = keccak(&pt.as_bytes()[1..]);
            let mut out = vec![0u8; 32];
            out[12..].copy_from_slice(&h[12..]);
            out
        }
        Err(_) => vec![],
    }
}

fn flush(clear: bool) {
    with(|w| {
        let Some(f) = w.frames.last_mut() else { return };
        let this = f.this;
        for (k, (v, dirty)) in f.cache.iter_mut() {
            if *dirty {
                if f.is_static {
                    f.poisoned = true;
                }
                w.st.storage.insert((this, *k), *v);
                *dirty = false;
            }
        }
        if clear {
            f.cache.clear();
        }
    })
}

unsafe fn rd<const N: usize>(p: *const u8) -> [u8; N] {
    let mut a = [0u8; N];
    a.copy_from_slice(slice::from_raw_parts(p, N));
    a
}
unsafe fn wr(p: *mut u8, b: &[u8]) {
    slice::from_raw_parts_mut(p, b.len()).copy_from_slice(b);
}
unsafe fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 { &[] } else { slice::from_raw_parts(p, n) }
}
fn top<R>(f: impl FnOnce(&Frame) -> R) -> R {
    with(|w| f(w.frames.last().expect("no frame")))
}

#[no_mangle]
unsafe extern "C" fn native_keccak256(p: *const u8, n: usize, out: *mut u8) {
    wr(out, &keccak(bytes(p, n)));
}
#[no_mangle]
unsafe extern "C" fn storage_load_bytes32(key: *const u8, out: *mut u8) {
    let k: Word = rd(key);
    let v = with(|w| {
        let f = w.frames.last_mut().expect("no frame");
        if let Some((v, _)) = f.cache.get(&k) {
            return *v;
        }
        let v = w.st.storage.get(&(f.this, k)).copied().unwrap_or_default();
        f.cache.insert(k, (v, false));
        v
    });
    wr(out, &v);
}
#[no_mangle]
unsafe extern "C" fn storage_cache_bytes32(key: *const u8, val: *const u8) {
    let (k, v): (Word, Word) = (rd(key), rd(val));
    with(|w| {
        w.frames.last_mut().expect("no frame").cache.insert(k, (v, true));
    });
}
#[no_mangle]
unsafe extern "C" fn storage_flush_cache(clear: bool) {
    flush(clear);
}
#[no_mangle]
unsafe extern "C" fn msg_sender(p: *mut u8) {
    wr(p, &top(|f| f.caller));
}
#[no_mangle]
unsafe extern "C" fn msg_value(p: *mut u8) {
    wr(p, &top(|f| f.value.to_be_bytes::<32>()));
}
#[no_mangle]
unsafe extern "C" fn msg_reentrant() -> bool {
    with(|w| {
        let this = w.frames.last().map(|f| f.this);
        w.frames.iter().filter(|f| Some(f.this) == this).count() > 1
    })
}
#[no_mangle]
unsafe extern "C" fn contract_address(p: *mut u8) {
    wr(p, &top(|f| f.this));
}
#[no_mangle]
unsafe extern "C" fn chainid() -> u64 {
    with(|w| w.chain_id)
}
#[no_mangle]
unsafe extern "C" fn emit_log(p: *const u8, len: usize, topics: usize) {
    let b = bytes(p, len).to_vec();
    with(|w| {
        let f = w.frames.last_mut().expect("no frame");
        if f.is_static {
            f.poisoned = true;
        }
        let t = (0..topics)
            .map(|i| {
                let mut x = [0u8; 32];
                x.copy_from_slice(&b[32 * i..32 * i + 32]);
                x
            })
            .collect();
        let at = f.this;
        w.st.logs.push(Log { at, topics: t, data: b[32 * topics..].to_vec() });
    });
}
const EMPTY_CODEHASH: Word = [
    0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2,
    0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00, 0xb6, 0x53, 0xca, 0x82, 0x27, 0x3b,
    0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70,
];
fn has_code(a: &Addr) -> bool {
    with(|w| w.code.contains_key(a))
}
#[no_mangle]
unsafe extern "C" fn account_codehash(a: *const u8, out: *mut u8) {
    let a: Addr = rd(a);
    wr(out, &if has_code(&a) { [0x11u8; 32] } else { EMPTY_CODEHASH });
}
#[no_mangle]
unsafe extern "C" fn account_code_size(a: *const u8) -> usize {
    let a: Addr = rd(a);
    if has_code(&a) { 64 } else { 0 }
}
#[no_mangle]
unsafe extern "C" fn account_code(
    a: *const u8, offset: usize, size: usize, dest: *mut u8,
) -> usize {
    let a: Addr = rd(a);
    let len = if has_code(&a) { 64usize } else { 0 };
    let n = len.saturating_sub(offset).min(size);
    wr(dest, &vec![0xfeu8; n]);
    n
}
#[no_mangle]
unsafe extern "C" fn account_balance(a: *const u8, out: *mut u8) {
    let a: Addr = rd(a);
    let b = with(|w| w.st.eth.get(&a).copied().unwrap_or_default());
    wr(out, &b.to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn block_timestamp() -> u64 {
    with(|w| w.timestamp)
}
#[no_mangle]
unsafe extern "C" fn block_number() -> u64 {
    with(|w| w.number)
}
#[no_mangle]
unsafe extern "C" fn block_basefee(p: *mut u8) {
    wr(p, &[0u8; 32]);
}
#[no_mangle]
unsafe extern "C" fn block_coinbase(p: *mut u8) {
    wr(p, &[0u8; 20]);
}
#[no_mangle]
unsafe extern "C" fn block_gas_limit() -> u64 {
    u64::MAX
}
#[no_mangle]
unsafe extern "C" fn evm_gas_left() -> u64 {
    u64::MAX
}
#[no_mangle]
unsafe extern "C" fn evm_ink_left() -> u64 {
    u64::MAX
}
#[no_mangle]
unsafe extern "C" fn pay_for_memory_grow(_: u16) {}
#[no_mangle]
unsafe extern "C" fn tx_gas_price(p: *mut u8) {
    wr(p, &[0u8; 32]);
}
#[no_mangle]
unsafe extern "C" fn tx_ink_price() -> u32 {
    10_000
}
#[no_mangle]
unsafe extern "C" fn tx_origin(p: *mut u8) {
    let a = with(|w| w.frames.first().map(|f| f.caller).unwrap_or_default());
    wr(p, &a);
}
#[no_mangle]
unsafe extern "C" fn read_args(_: *mut u8) {
    unreachable!("harness routes calldata directly")
}
#[no_mangle]
unsafe extern "C" fn write_result(_: *const u8, _: usize) {
    unreachable!("harness routes results directly")
}
unsafe fn sub_call(
    to: *const u8, data: *const u8, len: usize, value: U256, is_static: bool,
    ret_len: *mut usize,
) -> u8 {
    let to: Addr = rd(to);
    let data = bytes(data, len).to_vec();
    let (this, st) = top(|f| (f.this, f.is_static));
    with(|w| w.calls.push((this, to, data.clone(), is_static)));
    let r = call(this, to, value, &data, is_static || st);
    let (status, out) = match r {
        Ok(o) => (0u8, o),
        Err(o) => (1u8, o),
    };
    *ret_len = out.len();
    with(|w| w.frames.last_mut().expect("no frame").ret = out);
    status
}
#[no_mangle]
unsafe extern "C" fn call_contract(
    to: *const u8, data: *const u8, len: usize, value: *const u8, _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    let v = U256::from_be_bytes::<32>(rd(value));
    sub_call(to, data, len, v, false, ret_len)
}
#[no_mangle]
unsafe extern "C" fn static_call_contract(
    to: *const u8, data: *const u8, len: usize, _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    sub_call(to, data, len, U256::ZERO, true, ret_len)
}
#[no_mangle]
unsafe extern "C" fn delegate_call_contract(
    _: *const u8, _: *const u8, _: usize, _: u64, ret_len: *mut usize,
) -> u8 {
    *ret_len = 0;
    1
}
#[no_mangle]
unsafe extern "C" fn read_return_data(
    dest: *mut u8, offset: usize, size: usize,
) -> usize {
    let r = top(|f| f.ret.clone());
    let n = r.len().saturating_sub(offset).min(size);
    if n > 0 {
        wr(dest, &r[offset..offset + n]);
    }
    n
}
#[no_mangle]
unsafe extern "C" fn return_data_size() -> usize {
    top(|f| f.ret.len())
}
#[no_mangle]
unsafe extern "C" fn create1(
    _: *const u8, _: usize, _: *const u8, addr: *mut u8, n: *mut usize,
) {
    wr(addr, &[0u8; 20]);
    *n = 0;
}
#[no_mangle]
unsafe extern "C" fn create2(
    _: *const u8, _: usize, _: *const u8, _: *const u8, addr: *mut u8,
    n: *mut usize,
) {
    wr(addr, &[0u8; 20]);
    *n = 0;
}
#[no_mangle]
unsafe extern "C" fn log_txt(_: *const u8, _: usize) {}
#[no_mangle]
unsafe extern "C" fn log_i32(_: i32) {}
#[no_mangle]
unsafe extern "C" fn log_i64(_: i64) {}
#[no_mangle]
unsafe extern "C" fn log_f32(_: f32) {}
#[no_mangle]
unsafe extern "C" fn log_f64(_: f64) {}
