//! The replayer of ../crypto-harness for the production target.  A trap is
//! reported by the caller (run.mjs), with the step and message kept here.
use std::{cell::RefCell, sync::atomic::{AtomicUsize, Ordering}};

static AT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

#[no_mangle]
pub extern "C" fn space(n: usize) -> *mut u8 {
    Vec::<u8>::with_capacity(n).leak_ptr()
}
trait LeakPtr {
    fn leak_ptr(self) -> *mut u8;
}
impl LeakPtr for Vec<u8> {
    fn leak_ptr(mut self) -> *mut u8 {
        let p = self.as_mut_ptr();
        std::mem::forget(self);
        p
    }
}
#[no_mangle]
pub extern "C" fn out_ptr() -> *const u8 {
    OUT.with(|o| o.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn out_len() -> usize {
    OUT.with(|o| o.borrow().len())
}
#[no_mangle]
pub extern "C" fn at() -> usize {
    AT.load(Ordering::SeqCst)
}

/// Input: spec, facets and trace, separated by newlines.
///
/// # Safety
/// `p` came from `space(n)` and holds n bytes.
#[no_mangle]
pub unsafe extern "C" fn replay(p: *mut u8, n: usize) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        OUT.with(|o| *o.borrow_mut() = m.into_bytes());
    }));
    let v = Vec::from_raw_parts(p, n, n);
    let s = String::from_utf8(v).expect("harness: text");
    let mut parts = s.splitn(3, '\n');
    let mut part = || parts.next().expect("harness: three parts");
    let (spec, facets, text) = (part(), part(), part());
    AT.store(0, Ordering::SeqCst);
    let r = conform_crypto::replay_wasm(spec, text, facets, &mut |n| AT.store(n, Ordering::SeqCst));
    OUT.with(|o| *o.borrow_mut() = r.to_string().into_bytes());
}
