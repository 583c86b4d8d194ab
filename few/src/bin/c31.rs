//! C31: time and memory proportional to the length of the input.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::LazyLock;
use vf::offer;
use vf::*;
use vh::data::*;

#[path = "../../../harness/src/gen/basen.rs"]
mod g01;
#[path = "../../../harness/src/gen/basen_decoded.rs"]
mod g02;
#[path = "../../../harness/src/gen/host.rs"]
mod g04;
#[path = "../../../harness/src/gen/ip.rs"]
mod g07;
#[path = "../../../harness/src/gen/lines.rs"]
mod g10;
#[path = "../../../harness/src/gen/mac_address.rs"]
mod g11;
#[path = "../../../harness/src/gen/texts.rs"]
mod g12;
#[path = "../../../harness/src/gen/uuid.rs"]
mod g14;
#[path = "../../../harness/src/gen/domain.rs"]
mod g15;
#[path = "../../../harness/src/gen/email.rs"]
mod g16;
#[path = "../../../harness/src/gen/integers.rs"]
mod g17;
#[path = "../../../harness/src/gen/numbers.rs"]
mod g18;
#[path = "../../../harness/src/gen/sizes.rs"]
mod g19;

static MORE: LazyLock<&'static [Cfg]> =
    LazyLock::new(|| join(&[g01::CFGS, g02::CFGS, g04::CFGS, g07::CFGS, g10::CFGS, g11::CFGS, g12::CFGS, g14::CFGS, g15::CFGS, g16::CFGS, g17::CFGS, g18::CFGS, g19::CFGS]));

/// counts what the current thread allocates
struct Meter;
thread_local! {
    static NOW: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn bump(d: i64) {
    let _ = NOW.try_with(|n| {
        let v = n.get() + d;
        n.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static METER: Meter = Meter;

/// processor time of this thread in microseconds: other load on the machine does not count
fn cpu() -> f64 {
    unsafe extern "C" {
        fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, &mut t);
    }
    t[0] as f64 * 1e6 + t[1] as f64 * 1e-3
}

const UNITS: &[&str] = &[
    "a", "0", "9", "=", ".", "-", ":", "@", "(", ")", "()", "\"", "\\", "[", "]", "{", "}", "[[", "{\"a\":", "/", "%", " ", "\0", "\n", "\t", "é", "ß", "🦀", "\u{3002}", "\u{ad}", "\u{200d}", "\u{300}", "a.", "1.", "1:", "ff:", "xn--", "a@", "+", "_", "AA", "\"a\",", "1,", "١", "1e", "e", "~", "*", "^", "\u{202e}", "\u{feff}", "K", "B", "é.", "xn--a.", "A", "Ⅷ", "ﷺ", "a/../", "?a=&", "#", "a b", "a \u{3000}", "\r\n", "(a)", "\\\"", ", ", "||", "%41", "@[", ":80",
];
const FRAMES: &[(&str, &str)] = &[("", ""), ("a@", ""), ("", "@a.com"), ("\"", "\"@b"), ("(", ")a@b"), ("a@b(", ")"), ("http://", "/"), ("http://a/", ""), ("http://[", "]"), ("ftp://localhost:", ""), ("[::", "]:80"), ("1.2.3.4:", ""), ("a@[", "]"), ("xn--", ".com"), ("a.com:", ""), ("1.", ""), ("1.0.0-", ""), ("1.0.0+", ""), (">=", ""), ("\"", "\""), ("[", "0]"), ("1", " KiB"), ("+886", ""), ("0.", "1"), ("-", ""), ("a", "a"), (" ", " ")];

struct C31;

fn total() -> usize {
    FEW.len() + MORE.len()
}

fn vname(i: usize) -> &'static str {
    if i < FEW.len() { FEW[i].v } else { MORE[i - FEW.len()].v }
}

/// microseconds and peak bytes of validating the text
fn cost(cfg: usize, s: &str) -> (f64, i64, bool) {
    if cfg >= FEW.len() {
        let c = &MORE[cfg - FEW.len()];
        let i = Input::Str(s.to_string());
        PEAK.set(NOW.get());
        let (m, t) = (NOW.get(), cpu());
        let o = c.exec(&i);
        return (cpu() - t, PEAK.get() - m, o.is_ok());
    }
    let w = &FEW[cfg];
    let d = D::Str(s.to_string());
    PEAK.set(NOW.get());
    let (m, t) = (NOW.get(), cpu());
    let a = (w.direct)(&d, true);
    let r = (cpu() - t, PEAK.get() - m, matches!(a, Dir::Out(Out::Ok(_))));
    r
}

/// nothing in the library comes near to these; anything of higher order exceeds them by far
const US_PER_BYTE: f64 = 12.0;
const BYTES_PER_BYTE: i64 = 400;
const SIZES: &[usize] = &[2 << 10, 16 << 10, 128 << 10, 1 << 20];

impl Property for C31 {
    fn long(&self) -> (u64, u64) {
        (0, 0)
    }
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> String {
        format!("texts of a repeated unit (70 fixed ones, and drawn ones) in 27 frames, of 2 KiB and 16 KiB, and of 128 KiB and 1 MiB where the time per byte grew, against validators of every kind and {} configurations; the processor time must stay below {US_PER_BYTE} µs per byte (about ten times what the slowest needs), the heap below {BYTES_PER_BYTE} bytes per byte. Non-trivial: accepted, or at least 20 ns per byte were spent", total())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["processor time of the thread and a counting allocator are the measures; a cost of higher order that shows beyond 1 MiB only goes unnoticed".into()]
    }
    fn cfg_names(&self) -> Vec<String> {
        FEW.iter().map(|w| w.name.to_string()).chain(MORE.iter().map(|c| c.name.to_string())).collect()
    }
    fn shards(&self) -> usize {
        64
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        let three = |a: &str, u: &str, b: &str| Input::List(vec![Input::Str(a.into()), Input::Str(u.into()), Input::Str(b.into())]);
        let mut k = 0usize;
        for i in 0..FEW.len() {
            for (a, b) in FRAMES {
                for u in UNITS {
                    k += 1;
                    if k % plan.shards != plan.shard || FEW[i].v == "phone" && k / plan.shards % 8 != 0 {
                        continue;
                    }
                    if !emit(i, three(a, u, b)) {
                        return;
                    }
                }
            }
        }
        for _ in 0..plan.n(1_500_000, 60_000_000) {
            let i = r.below(total());
            let v = vname(i);
            if v == "phone" && !r.chance(1, 8) {
                continue;
            }
            let (a, b) = *r.pick(FRAMES);
            let mut u = match r.below(4) {
                0 => genstr::random(r, 6),
                1 => offer::text(r, v, ""),
                _ => r.pick(UNITS).to_string(),
            };
            if u.is_empty() {
                u.push('a');
            }
            let x = match r.below(3) {
                0 => three("", &u, ""),
                1 => three(a, &u, b),
                _ => {
                    let t = offer::text(r, v, "");
                    let mut j = r.range(0, t.len());
                    while !t.is_char_boundary(j) {
                        j -= 1;
                    }
                    three(&t[..j], &u, &t[j..])
                }
            };
            if !emit(i, x) {
                return;
            }
        }
    }
    fn check(&self, cfg: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let Input::List(l) = i else { return Ok(()) };
        let [Input::Str(a), Input::Str(u), Input::Str(b)] = &l[..] else { return Ok(()) };
        if u.is_empty() {
            return Ok(());
        }
        let mut last = f64::MAX;
        note.class = "cheap";
        for (k, n) in SIZES.iter().enumerate() {
            let s = format!("{a}{}{b}", u.repeat(n.div_ceil(u.len())));
            let n = s.len() as f64;
            let (mut t, m, ok) = cost(cfg, &s);
            if t / n > US_PER_BYTE / 2.0 && k > 0 {
                t = t.min(cost(cfg, &s).0);
            }
            let rate = t / n;
            if ok {
                note.class = "accept";
            } else if rate > 0.02 {
                note.class = "scanned";
            }
            note.nontrivial |= ok || rate > 0.02;
            if k > 0 && rate > US_PER_BYTE {
                return Err(format!("{:.1} s for {} bytes", t / 1e6, s.len()));
            }
            // phonenumber builds its regular expressions at the first use
            let fixed = if vname(cfg) == "phone" { 256 << 20 } else { 4 << 20 };
            if m > BYTES_PER_BYTE * s.len() as i64 + fixed {
                return Err(format!("{m} bytes of heap for {} bytes", s.len()));
            }
            if k > 0 && rate < last * 1.7 + 0.02 {
                break;
            }
            if k > 1 {
                note.class = "looked at closer";
            }
            last = rate;
        }
        Ok(())
    }
}

fn main() {
    vh::main(&C31)
}
