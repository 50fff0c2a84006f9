//! Primitives of the symbolic harnesses.
//!
//! In the IR build these are the engine's intercepts; with feature `native` they
//! read concrete inputs, so that the very same harness source replays a model on
//! the real, natively compiled crate.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn __sym_byte(lo: u8, hi: u8) -> u8;
        fn __sym_cfg(i: u64) -> u64;
        fn __sym_assume(c: bool);
        fn __sym_fail(code: u64) -> !;
        fn __sym_assert(c: bool, code: u64);
        fn __sym_reach(k: u64);
        fn __sym_observe(x: u64);
        fn __sym_out(p: *const u8, n: usize);
        fn __sym_steps() -> u64;
        fn __sym_heap() -> u64;
        fn __sym_heap_peak() -> u64;
        fn __sym_hash_seed(k: u64);
    }
    #[inline(always)]
    pub fn byte(lo: u8, hi: u8) -> u8 {
        // no choice, no input
        if lo == hi {
            return lo;
        }
        unsafe { __sym_byte(lo, hi) }
    }
    #[inline(always)]
    pub fn cfg(i: u64) -> u64 {
        unsafe { __sym_cfg(i) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { __sym_assume(c) }
    }
    #[inline(always)]
    pub fn fail(code: u64) -> ! {
        unsafe { __sym_fail(code) }
    }
    #[inline(always)]
    pub fn check(c: bool, code: u64) {
        unsafe { __sym_assert(c, code) }
    }
    #[inline(always)]
    pub fn reach(k: u64) {
        unsafe { __sym_reach(k) }
    }
    #[inline(always)]
    pub fn observe(x: u64) {
        unsafe { __sym_observe(x) }
    }
    #[inline(always)]
    pub fn out(b: &[u8]) {
        unsafe { __sym_out(b.as_ptr(), b.len()) }
    }
    #[inline(always)]
    pub fn steps() -> u64 {
        unsafe { __sym_steps() }
    }
    /// Bytes allocated now; the peak is counted from here.
    #[inline(always)]
    pub fn heap() -> u64 {
        unsafe { __sym_heap() }
    }
    #[inline(always)]
    pub fn heap_peak() -> u64 {
        unsafe { __sym_heap_peak() }
    }
    /// From here on HashMap hashes otherwise; 0 is how it starts.
    #[inline(always)]
    pub fn hash_seed(k: u64) {
        unsafe { __sym_hash_seed(k) }
    }
    #[inline(always)]
    pub fn limit(_: u64) {}
    #[inline(always)]
    pub fn show(_: &[u8]) {}
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    #[derive(Default)]
    pub struct St {
        pub inputs: Vec<u8>,
        pub pos: usize,
        pub cfg: Vec<u64>,
        pub digest: u64,
        pub reach: u64,
    }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
    /// Bytes allocated and not freed, and their maximum since the last mark.
    pub static HEAP: AtomicU64 = AtomicU64::new(0);
    pub static PEAK: AtomicU64 = AtomicU64::new(0);

    /// Panic payloads that end a native run.
    pub enum End {
        Assume,
        Fail(u64),
        Input,
    }
    fn end(e: End) -> ! {
        std::panic::panic_any(e)
    }
    pub fn begin(cfg: &[u64], inputs: &[u8]) {
        ST.with(|s| {
            *s.borrow_mut() = St { inputs: inputs.to_vec(), pos: 0, cfg: cfg.to_vec(), digest: 0xcbf29ce484222325, reach: 0 }
        });
    }
    pub fn byte(lo: u8, hi: u8) -> u8 {
        if lo == hi {
            return lo;
        }
        let v = ST.with(|s| {
            let mut s = s.borrow_mut();
            let p = s.pos;
            s.pos += 1;
            s.inputs.get(p).copied()
        });
        // inputs the path never reached default to the lower end, as in the engine
        let v = v.unwrap_or(lo);
        if v < lo || v > hi {
            end(End::Input)
        }
        v
    }
    pub fn cfg(i: u64) -> u64 {
        ST.with(|s| s.borrow().cfg.get(i as usize).copied().unwrap_or(0))
    }
    pub fn assume(c: bool) {
        if !c {
            end(End::Assume)
        }
    }
    pub fn fail(code: u64) -> ! {
        end(End::Fail(code))
    }
    pub fn check(c: bool, code: u64) {
        if !c {
            fail(code)
        }
    }
    pub fn reach(k: u64) {
        ST.with(|s| s.borrow_mut().reach |= 1 << k);
    }
    fn obs(s: &mut St, x: u64) {
        for b in x.to_le_bytes() {
            s.digest = (s.digest ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn observe(x: u64) {
        ST.with(|s| obs(&mut s.borrow_mut(), x));
    }
    pub fn out(b: &[u8]) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            obs(&mut s, b.len() as u64);
            for c in b {
                s.digest = (s.digest ^ *c as u64).wrapping_mul(0x100000001b3);
            }
        });
    }
    pub fn steps() -> u64 {
        0
    }
    pub fn heap() -> u64 {
        let n = HEAP.load(Relaxed);
        PEAK.store(n, Relaxed);
        n
    }
    pub fn heap_peak() -> u64 {
        PEAK.load(Relaxed)
    }
    /// Every map of the native library has a seed of its own.
    pub fn hash_seed(_: u64) {}
    /// Prints the budget of steps when a replay is asked to.
    pub fn limit(n: u64) {
        if SHOW.load(Relaxed) != 0 {
            println!("limit {}", n);
        }
    }
    /// Prints a generated text when a replay is asked to.
    pub static SHOW: AtomicU64 = AtomicU64::new(0);
    pub fn show(b: &[u8]) {
        if SHOW.load(Relaxed) != 0 {
            println!("text {:?}", String::from_utf8_lossy(b));
        }
    }
}

pub use imp::*;

/// Asserts that two byte strings are equal, as one formula.
pub fn check_eq(a: &[u8], b: &[u8], code: u64) {
    check(a.len() == b.len(), code);
    let mut ok = true;
    let mut i = 0;
    while i < a.len() {
        ok &= a[i] == b[i];
        i += 1;
    }
    check(ok, code);
}

/// Reader of the job's configuration.
pub struct Cfg(u64);
impl Cfg {
    pub fn new() -> Self {
        Cfg(0)
    }
    pub fn next(&mut self) -> u64 {
        let v = cfg(self.0);
        self.0 += 1;
        v
    }
    pub fn n(&mut self) -> usize {
        self.next() as usize
    }
}
