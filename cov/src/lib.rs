//! Coverage feedback: what the compiler's coverage callbacks report while a case is checked. Binaries that are built with
//! them (see tools/covrustc) keep the cases that reach something new and search around these; without the callbacks
//! nothing here is ever called. Like the dictionary, this only says where to look.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

/// a comparison that did not come out equal: the constant, what it was compared with, how many bytes both have
pub type Pair = (u64, u64, u8);

const SLOTS: usize = 64;
const PLACES: usize = 1 << 16;

#[derive(Default)]
pub struct Cov {
    counts: Vec<u8>,
    touched: Vec<u32>,
    seen: Vec<u8>,
    pairs: Vec<Pair>,
    /// how near a comparison at some place with some value has come
    best: Vec<u8>,
    last: u32,
    nearer: bool,
}

thread_local! {
    static STATE: Cell<*mut Cov> = const { Cell::new(std::ptr::null_mut()) };
}
static GUARDS: AtomicU32 = AtomicU32::new(0);

/// whether the binary has the callbacks
pub fn available() -> bool {
    GUARDS.load(Ordering::Relaxed) > 0
}

impl Cov {
    pub fn new() -> Cov {
        let n = GUARDS.load(Ordering::Relaxed) as usize + 1;
        Cov { counts: vec![0; n], touched: vec![], seen: vec![0; n], pairs: vec![(0, 0, 0); SLOTS], best: vec![255; PLACES], last: 0, nearer: false }
    }

    /// runs `f` and says whether it reached something new
    pub fn watch<T>(&mut self, f: impl FnOnce() -> T) -> (T, bool) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                STATE.set(std::ptr::null_mut());
            }
        }
        self.clear();
        STATE.set(self);
        let off = Off;
        let r = f();
        drop(off);
        let mut new = self.nearer;
        for g in &self.touched {
            let g = *g as usize;
            let bit = match self.counts[g] {
                1 => 1,
                2 => 2,
                3 => 4,
                4..=7 => 8,
                8..=15 => 16,
                16..=31 => 32,
                32..=127 => 64,
                _ => 128,
            };
            if self.seen[g] & bit == 0 {
                self.seen[g] |= bit;
                new = true;
            }
        }
        (r, new)
    }

    fn clear(&mut self) {
        for g in self.touched.drain(..) {
            self.counts[g as usize] = 0;
        }
        self.pairs.fill((0, 0, 0));
        self.nearer = false;
    }

    /// comparisons of the last case
    pub fn pairs(&self) -> Vec<Pair> {
        self.pairs.iter().filter(|p| p.2 != 0).copied().collect()
    }

    #[inline(always)]
    fn pair(&mut self, a: u64, b: u64, n: u8) {
        if a != b {
            let h = (a ^ (n as u64) << 56).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 58;
            self.pairs[h as usize % SLOTS] = (a, b, n);
        }
    }

    /// the value that is compared with a constant
    #[inline(always)]
    fn near(&mut self, a: u64, b: u64) {
        let d = a.abs_diff(b);
        let level = if d < 64 { d as u8 } else { 128 - d.leading_zeros() as u8 };
        let h = (a ^ (self.last as u64) << 32).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48;
        let best = &mut self.best[h as usize % PLACES];
        if level < *best {
            *best = level;
            self.nearer = true;
        }
    }
}

#[inline(always)]
fn with(f: impl FnOnce(&mut Cov)) {
    let p = STATE.get();
    if !p.is_null() {
        // the state outlives `watch`, which is all that sets the pointer, and only this thread has it
        f(unsafe { &mut *p })
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let g = unsafe { *g };
    with(|c| {
        let n = &mut c.counts[g as usize];
        c.last = g;
        if *n == 0 {
            c.touched.push(g);
        }
        *n = n.saturating_add(1);
    })
}

macro_rules! compares {
    ($($n:ident $k:ident $t:ty),*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n(a: $t, b: $t) {
            with(|c| c.pair(a as u64, b as u64, size_of::<$t>() as u8))
        }
        #[unsafe(no_mangle)]
        pub extern "C" fn $k(a: $t, b: $t) {
            with(|c| {
                c.near(a as u64, b as u64);
                c.pair(a as u64, b as u64, size_of::<$t>() as u8)
            })
        }
    )*};
}
compares!(__sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64);

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    with(|c| {
        let (n, bits) = unsafe { (*cases as usize, *cases.add(1)) };
        // one of them, by turns
        if n > 0 {
            let k = unsafe { *cases.add(2 + (v as usize ^ c.touched.len()) % n) };
            c.pair(k, v, (bits / 8).clamp(1, 8) as u8);
        }
    })
}

// kept by the linker wherever the library is
#[used]
static KEEP: [unsafe extern "C" fn(*mut u32); 1] = [__sanitizer_cov_trace_pc_guard];
