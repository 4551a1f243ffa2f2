//! What a harness may do besides calling the code under test. In the IR build
//! these are external functions which the engine interprets; in the native
//! build they replay one recorded model.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_choice(n: u32) -> u32;
        fn sym_assume(b: bool);
        fn sym_fail(id: u32) -> !;
        fn sym_known(id: u32) -> !;
        fn sym_observe(v: u64);
        fn sym_cover(id: u32);
        fn sym_allocs() -> u64;
        fn sym_steps() -> u64;
        fn sym_param(i: u32) -> u64;
        fn sym_concretize(v: u64) -> u64;
        fn sym_expect_panic(b: bool);
    }
    #[inline(always)]
    pub fn fill(b: &mut [u8]) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    #[inline(always)]
    pub fn choice(n: u32) -> u32 {
        unsafe { sym_choice(n) }
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        unsafe { sym_assume(b) }
    }
    #[inline(always)]
    pub fn fail(id: u32) -> ! {
        unsafe { sym_fail(id) }
    }
    #[inline(always)]
    pub fn known(id: u32) -> ! {
        unsafe { sym_known(id) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
    #[inline(always)]
    pub fn cover(id: u32) {
        unsafe { sym_cover(id) }
    }
    #[inline(always)]
    pub fn allocs() -> u64 {
        unsafe { sym_allocs() }
    }
    /// Runs `f`; whether it took at most `limit` instructions.
    #[inline(always)]
    pub fn within<T>(limit: u64, f: impl FnOnce() -> T) -> (T, bool) {
        let a = unsafe { sym_steps() };
        let r = f();
        let d = unsafe { sym_steps() } - a;
        (r, d <= limit)
    }
    #[inline(always)]
    pub fn param(i: u32) -> u64 {
        unsafe { sym_param(i) }
    }
    /// Between two calls a Rust panic is the right outcome.
    #[inline(always)]
    pub fn expect_panic(b: bool) {
        unsafe { sym_expect_panic(b) }
    }
    #[inline(always)]
    pub fn conc(v: usize) -> usize {
        unsafe { sym_concretize(v as u64) as usize }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicU64, Ordering};

    pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
    pub struct Ctx {
        pub bytes: Vec<u8>,
        pub bpos: usize,
        pub choices: Vec<u32>,
        pub cpos: usize,
        pub params: Vec<u64>,
        pub obs: Vec<u64>,
        pub expect_panic: bool,
    }
    thread_local!(pub static CTX: RefCell<Ctx> = const { RefCell::new(Ctx {
        bytes: Vec::new(), bpos: 0, choices: Vec::new(), cpos: 0, params: Vec::new(), obs: Vec::new(), expect_panic: false }) });
    /// Outcomes leave the harness by unwinding.
    pub enum Outcome {
        Fail(u32),
        Known(u32),
        Assume,
    }
    fn leave(o: Outcome) -> ! {
        std::panic::resume_unwind(Box::new(o))
    }
    pub fn fill(b: &mut [u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            for x in b.iter_mut() {
                let p = c.bpos;
                *x = c.bytes.get(p).copied().unwrap_or(0);
                c.bpos += 1;
            }
        })
    }
    pub fn choice(n: u32) -> u32 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.cpos;
            c.cpos += 1;
            let v = c.choices.get(p).copied().unwrap_or(0);
            assert!(v < n, "recorded choice out of range");
            v
        })
    }
    pub fn assume(b: bool) {
        if !b {
            leave(Outcome::Assume)
        }
    }
    pub fn fail(id: u32) -> ! {
        leave(Outcome::Fail(id))
    }
    pub fn known(id: u32) -> ! {
        leave(Outcome::Known(id))
    }
    pub fn observe(v: u64) {
        CTX.with(|c| c.borrow_mut().obs.push(v))
    }
    pub fn cover(_: u32) {}
    pub fn allocs() -> u64 {
        ALLOCS.load(Ordering::Relaxed)
    }
    /// Counts the instructions of `f` one by one, with the processor's trap
    /// flag; only asked for when a counterexample is replayed, and not of
    /// unoptimized code.
    pub fn within<T>(limit: u64, f: impl FnOnce() -> T) -> (T, bool) {
        if !STEPPING.load(Ordering::Relaxed) || cfg!(debug_assertions) {
            return (f(), true);
        }
        tf::LEFT.store(limit, Ordering::Relaxed);
        let r = unsafe {
            tf::start();
            let r = f();
            tf::stop();
            r
        };
        (r, tf::LEFT.load(Ordering::Relaxed) > 0)
    }
    pub static STEPPING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    #[cfg(target_arch = "x86_64")]
    mod tf {
        use std::arch::asm;
        use std::sync::atomic::{AtomicU64, Ordering};
        pub static LEFT: AtomicU64 = AtomicU64::new(0);
        #[repr(C)]
        struct Action {
            handler: usize,
            mask: [u64; 16],
            flags: i32,
            restorer: usize,
        }
        extern "C" {
            fn sigaction(n: i32, a: *const Action, o: *mut Action) -> i32;
        }
        unsafe extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) {
            let l = LEFT.load(Ordering::Relaxed);
            if l > 0 {
                LEFT.store(l - 1, Ordering::Relaxed);
            }
            if l <= 1 {
                // over the limit: nothing more to count (uc_mcontext.gregs[REG_EFL])
                let efl = uc.add(40 + 17 * 8) as *mut u64;
                *efl &= !0x100;
            }
        }
        #[inline(never)]
        pub unsafe fn start() {
            let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
            assert!(sigaction(5, &a, std::ptr::null_mut()) == 0);
            asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
        #[inline(never)]
        pub unsafe fn stop() {
            asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
    pub fn param(i: u32) -> u64 {
        CTX.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    pub fn expect_panic(b: bool) {
        CTX.with(|c| c.borrow_mut().expect_panic = b)
    }
    pub fn conc(v: usize) -> usize {
        v
    }
}

pub use imp::*;

/// The property must hold here; `id` names the clause.
#[inline(always)]
#[track_caller]
pub fn check(b: bool, id: u32) {
    if !b {
        fail(id)
    }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
/// An input of 0..=`max` arbitrary bytes; every length is explored.
pub struct Input<const N: usize> {
    b: [u8; N],
    n: usize,
}
impl<const N: usize> Input<N> {
    pub fn any(max: usize) -> Self {
        let n = choice(max as u32 + 1) as usize;
        Self::exact(n)
    }
    pub fn exact(n: usize) -> Self {
        let mut b = [0u8; N];
        fill(&mut b[..n]);
        Input { b, n }
    }
    pub fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
}
pub fn flag() -> bool {
    choice(2) == 1
}
