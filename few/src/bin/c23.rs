//! C23: all entry points agree and nothing panics, aborts or hangs, whatever the input.
use std::sync::LazyLock;
use vf::offer;
use vf::*;
use vh::data::*;

#[path = "../../../harness/src/gen/basen.rs"]
mod g01;
#[path = "../../../harness/src/gen/basen_decoded.rs"]
mod g02;
#[path = "../../../harness/src/gen/boolean.rs"]
mod g03;
#[path = "../../../harness/src/gen/host.rs"]
mod g04;
#[path = "../../../harness/src/gen/http_ftp_url.rs"]
mod g05;
#[path = "../../../harness/src/gen/http_url.rs"]
mod g06;
#[path = "../../../harness/src/gen/ip.rs"]
mod g07;
#[path = "../../../harness/src/gen/ipv4.rs"]
mod g08;
#[path = "../../../harness/src/gen/ipv6.rs"]
mod g09;
#[path = "../../../harness/src/gen/lines.rs"]
mod g10;
#[path = "../../../harness/src/gen/mac_address.rs"]
mod g11;
#[path = "../../../harness/src/gen/texts.rs"]
mod g12;
#[path = "../../../harness/src/gen/url.rs"]
mod g13;
#[path = "../../../harness/src/gen/uuid.rs"]
mod g14;
#[path = "../../../harness/src/gen/domain.rs"]
mod g15;
#[path = "../../../harness/src/gen/email.rs"]
mod g16;

/// further option combinations, through their text (and bytes) entry points
static MORE: LazyLock<&'static [Cfg]> =
    LazyLock::new(|| join(&[g01::CFGS, g02::CFGS, g03::CFGS, g04::CFGS, g05::CFGS, g06::CFGS, g07::CFGS, g08::CFGS, g09::CFGS, g10::CFGS, g11::CFGS, g12::CFGS, g13::CFGS, g14::CFGS, g15::CFGS, g16::CFGS]));

struct C23;

fn names() -> Vec<String> {
    FEW.iter().map(|w| w.name.to_string()).chain(MORE.iter().map(|c| c.name.to_string())).collect()
}

fn vname(i: usize) -> &'static str {
    if i < FEW.len() { FEW[i].v } else { MORE[i - FEW.len()].v }
}

const UNITS: &[&str] = &[
    "a", "0", "9", "=", ".", "-", ":", "@", "(", ")", "()", "\"", "\\", "[", "]", "{", "}", "[[", "{\"a\":", "/", "%", " ", "\u{0}", "\n", "\t", "é", "ß", "🦀", "\u{3002}", "\u{ad}", "\u{200d}", "\u{300}", "a.", "1.", "1:", "ff:", "xn--", "a@", "+", "_", "AA", "\"a\",", "1,", "١", "1e", "e", "~", "*", "^", "\u{202e}", "\u{feff}", "K", "B",
];
/// pre- and suffixes that lead into the depths of each parser
const FRAMES: &[(&str, &str)] = &[("", ""), ("a@", ""), ("", "@a.com"), ("\"", "\"@b"), ("(", ")a@b"), ("a@b(", ")"), ("http://", "/"), ("http://a/", ""), ("http://[", "]"), ("ftp://localhost:", ""), ("[::", "]:80"), ("1.2.3.4:", ""), ("a@[", "]"), ("xn--", ".com"), ("a.com:", ""), ("1.", ""), ("1.0.0-", ""), ("1.0.0+", ""), (">=", ""), ("\"", "\""), ("[", "]"), ("1", " KiB"), ("+886", ""), ("0.", "1"), ("-", "")];

fn texts(plan: &Plan, n: usize, emit: &mut dyn FnMut(usize, String) -> bool) -> bool {
    let mut k = 0usize;
    let sizes: &[usize] = if plan.quick() { &[63, 64, 65, 254, 255, 256, 4000] } else { &[31, 32, 33, 62, 63, 64, 65, 66, 252, 253, 254, 255, 256, 257, 1023, 4096, 20_000] };
    for (fi, (a, b)) in FRAMES.iter().enumerate() {
        for (ui, u) in UNITS.iter().enumerate() {
            for (si, len) in sizes.iter().enumerate() {
                for i in 0..n {
                    // every frame and unit meets every validator; not every length does in the quick tier
                    if plan.quick() && (fi + ui + i) % sizes.len() != si {
                        continue;
                    }
                    k += 1;
                    if k % plan.shards != plan.shard {
                        continue;
                    }
                    if !emit(i, format!("{a}{}{b}", u.repeat(len.div_ceil(u.len())))) {
                        return false;
                    }
                }
            }
        }
    }
    // really large
    let large: &[usize] = if plan.quick() { &[200_000] } else { &[70_000, 1 << 20, 3 << 20] };
    for u in UNITS {
        for len in large {
            for i in 0..FEW.len().min(n) {
                k += 1;
                if k % plan.shards != plan.shard || plan.quick() && (k / plan.shards) % 4 != 0 {
                    continue;
                }
                if !emit(i, u.repeat(len.div_ceil(u.len()))) {
                    return false;
                }
            }
        }
    }
    true
}

fn wrap(i: usize, s: String) -> Input {
    if i < FEW.len() { D::Str(s).to_input() } else { Input::Str(s) }
}

impl Property for C23 {
    fn scale(&self) -> usize {
        4
    }
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> String {
        "long runs of 53 units in 25 frames, large and deeply nested inputs, every kind of character in every frame, arbitrary text and bytes, numbers of every kind around every limit, and valid inputs with mutations, against validators of every kind and about 900 option combinations; the text, owned, borrowed, bytes, integer, float, bool, char, JSON-value and validate-only entry points must give one verdict and one value. A panic, an abort, a stack overflow or two minutes without an answer is a violation. Non-trivial: accepted, or longer than 60 bytes, or more than one entry point involved".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the library is built with overflow checks and debug assertions".into()]
    }
    fn cfg_names(&self) -> Vec<String> {
        names()
    }
    fn shards(&self) -> usize {
        64
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        let n = FEW.len() + MORE.len();
        if !texts(plan, FEW.len(), &mut |i, s| emit(i, wrap(i, s))) {
            return;
        }
        // characters
        let step = if plan.quick() { 509 } else { 1 };
        let mut k = 0usize;
        for c in (0u32..0x250).chain((0x250..0x11_0000).step_by(step)) {
            let Some(c) = char::from_u32(c) else { continue };
            for i in 0..FEW.len() {
                k += 1;
                if k % plan.shards != plan.shard || FEW[i].v == "phone" && k / plan.shards % 8 != 0 {
                    continue;
                }
                let (a, b) = FRAMES[(k / 7 + i) % FRAMES.len()];
                if !emit(i, wrap(i, format!("{a}{c}{b}"))) || !emit(i, wrap(i, c.to_string())) {
                    return;
                }
            }
        }
        for _ in 0..plan.n(2_500_000, 150_000_000) {
            let i = r.below(n);
            let v = vname(i);
            if v == "phone" && !r.chance(1, 4) {
                continue;
            }
            let x = if i < FEW.len() && r.chance(1, 2) {
                let d = if r.chance(1, 10) { let v = offer::around(r); int(r, v) } else { offer::data(r, &FEW[i]) };
                d.to_input()
            } else {
                let mut s = match r.below(8) {
                    0 => genstr::random(r, 30),
                    1 => { let (a, b) = *r.pick(FRAMES); format!("{a}{}{b}", genstr::random(r, 6)) }
                    2 => { let a = offer::text(r, v, ""); let b = offer::text(r, v, ""); a + &b }
                    _ => offer::text(r, v, ""),
                };
                if r.chance(1, 3) {
                    s = genstr::mutate(r, &s, UNITS);
                }
                if i >= FEW.len() && v.starts_with("base") && r.bool() {
                    let mut b = s.into_bytes();
                    if !b.is_empty() && r.chance(1, 3) {
                        let j = r.below(b.len());
                        b[j] = r.next() as u8;
                    }
                    Input::Bytes(b)
                } else {
                    wrap(i, s)
                }
            };
            if !emit(i, x) {
                return;
            }
        }
    }
    fn check(&self, cfg: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let bad = |o: &Out| match o {
            Out::Broken(m) => Err(m.clone()),
            Out::Panic(m) => Err(format!("panic: {m}")),
            _ => Ok(()),
        };
        if cfg >= FEW.len() {
            if !matches!(i, Input::Str(_) | Input::Bytes(_)) {
                return Ok(());
            }
            let o = MORE[cfg - FEW.len()].exec(i);
            note.class = if o.is_ok() { "accept" } else { "reject" };
            note.nontrivial = o.is_ok();
            return bad(&o);
        }
        let Some(d) = D::from_input(i) else { return Ok(()) };
        let w = &FEW[cfg];
        let mut err = None;
        let o = guard(|| {
            let all = (w.every)(&d);
            let first = all.first().map(|x| x.clone());
            note.class = match &first {
                Some((_, Out::Ok(_))) => "accept",
                Some(_) => "reject",
                None => "no entry point",
            };
            note.nontrivial = all.len() > 1 || note.class == "accept" || matches!(&d, D::Str(s) if s.len() > 60);
            for (n, o) in &all {
                if let Err(m) = bad(o) {
                    err = Some(format!("{n}: {m}"));
                }
                let (f, a) = first.as_ref().unwrap();
                if a.is_ok() != o.is_ok() || a.is_ok() && a != o {
                    err = Some(format!("as {f} gives {a:?}, as {n} gives {o:?}"));
                }
            }
            // the other ways in must not panic either
            let _ = (w.conv)(&d);
            let _ = (w.de)(De { d: &d, human: true, own: Own::Transient });
            if let D::Str(s) = &d {
                let _ = (w.json)(s);
                let _ = (w.json_res)(s);
            }
            Out::Err(String::new())
        });
        bad(&o)?;
        match err {
            Some(m) => Err(m),
            None => Ok(()),
        }
    }
}

fn main() {
    vh::main(&C23)
}
