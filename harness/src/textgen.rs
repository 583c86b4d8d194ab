//! Shared by C08 and C09.
use vh::models::{Exp, textm};
use vh::*;

pub const RULE: &str = "for every configuration all strings up to length 5 (6 in thorough) over {letter, space, wide space, 3-byte letter, control, newline} in part, every ASCII char and whitespace alone / leading / inside / trailing, and random strings with whitespace margins, lengths around each bound (up to 65537, with long runs of whitespace) and injected control characters. Non-trivial: accepted, or rejected for exactly one reason";

const ALPHA: &[char] = &['a', ' ', '\u{3000}', '中', '\u{1}', '\n', '\t', '\u{7f}'];

fn body(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| match r.below(16) {
            0..=6 => 'x',
            7 => 'é',
            8 => '中',
            9 => '😀',
            10 => *r.pick(genstr::WS),
            11 => ' ',
            12 => *r.pick(&['\u{80}', '\u{9f}', '\u{ad}', '\u{200b}', '\u{feff}', '\u{180e}', '\u{200e}', '\u{2060}']),
            13 => '~',
            14 => '\t',
            _ => 'Z',
        })
        .collect()
}

/// a text of about `n` characters or bytes: one or two repeated characters, long runs of whitespace around and inside
fn long(r: &mut Rng, n: usize, bytes: bool) -> String {
    let mut s = String::with_capacity(n + 8);
    let put = |s: &mut String, c: char, k: usize| (0..k).for_each(|_| s.push(c));
    let len = |s: &str| if bytes { s.len() } else { s.chars().count() };
    let size = |c: char| if bytes { c.len_utf8() } else { 1 };
    let a = *r.pick(&['x', 'é', '中', '😀']);
    let w = *r.pick(genstr::WS);
    let w = if w == '\n' || w == '\r' || w == '\u{b}' || w == '\u{c}' { ' ' } else { w };
    let parts = match r.below(6) {
        0 => vec![(a, 100)],
        1 => vec![(w, 40), (a, 60)],
        2 => vec![(a, 60), (w, 40)],
        3 => vec![(a, 1), (w, 98), (a, 1)],
        4 => vec![(w, 10), (a, 20), (w, 40), (a, 20), (w, 10)],
        _ => vec![(w, 2), (a, 96), (w, 2)],
    };
    for (c, share) in parts {
        put(&mut s, c, n * share / 100 / size(c));
    }
    // fill up to the exact number, inside or at the end
    let d = n.saturating_sub(len(&s));
    let fill = "y".repeat(d);
    match r.below(3) {
        0 => s.push_str(&fill),
        1 => s.insert_str(0, &fill),
        _ => {
            let i = s.char_indices().nth(s.chars().count() / 2).map(|x| x.0).unwrap_or(0);
            s.insert_str(i, &fill);
        }
    }
    s
}

pub fn generate(cfgs: &'static [Cfg], plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    let mut k = 0usize;
    let shapes = ["{}", "{}a", "a{}", "a{}a", "ab{}", " {}", "{} ", "a {}", "{} a", "a{} ", " {}a", "{}{}", "aaa{}", "{}aaa", "aaaaaaaaaa{}aaaaaaaaaa", "          a{}aaaaaaaaaaaaaa", "  aaaaaaaaaaaaaaaaaaaaaa  {}  "];
    for ci in 0..cfgs.len() {
        for c in (0..=0x7fu32).chain(genstr::WS.iter().map(|c| *c as u32)).chain([0x9f, 0xad, 0x200b, 0x180e, 0xfeff, 0x2029, 0x202f, 0x205f, 0x1f600]) {
            let ch = char::from_u32(c).unwrap();
            for sh in shapes {
                k += 1;
                if k % plan.shards == plan.shard && !emit(ci, sh.replace("{}", &ch.to_string()).into()) {
                    return;
                }
            }
        }
    }
    let deep = if plan.quick() { 4 } else { 6 };
    for ci in 0..cfgs.len() {
        for len in 0..=deep {
            let mut go = true;
            genstr::enumerate(ALPHA, len, plan.shard, plan.shards, &mut |s| {
                go = emit(ci, s.into());
                go
            });
            if !go {
                return;
            }
        }
    }
    for _ in 0..plan.n(4_000_000, 250_000_000) {
        let ci = r.below(cfgs.len());
        let c = &cfgs[ci];
        let bounds: Vec<usize> = ["min", "trimmed_min", "max"].iter().filter_map(|o| c.opt(o).parse().ok()).filter(|b| (200..100_000).contains(b)).collect();
        if !bounds.is_empty() {
            let b = *r.pick(&bounds);
            if r.chance(1, if b > 1000 { 64 } else { 3 }) {
                let n = b + r.below(9) - 4;
                let s = long(r, n, c.opt("unit") == "byte");
                if !emit(ci, s.into()) {
                    return;
                }
                continue;
            }
        }
        let mut s = String::new();
        for _ in 0..if r.bool() { 0 } else { r.below(5) } {
            s.push(*r.pick(genstr::WS));
        }
        // aim the core at one of the bounds
        let aim = match r.below(5) {
            0 => c.opt("min").parse().unwrap_or(3),
            1 => c.opt("trimmed_min").parse().unwrap_or(2),
            2 => c.opt("max").parse().unwrap_or(5),
            _ => r.below(8),
        };
        let aim = if aim > 1000 { r.below(8) } else { aim } as i64
            + r.below(5) as i64
            - 2;
        s.push_str(&body(r, aim.max(0) as usize));
        for _ in 0..if r.bool() { 0 } else { r.below(5) } {
            s.push(*r.pick(genstr::WS));
        }
        if r.chance(1, 4) {
            let chars: Vec<char> = s.chars().collect();
            let i = r.range(0, chars.len());
            let mut v = chars;
            v.insert(i, *r.pick(&['\0', '\u{8}', '\n', '\u{b}', '\u{c}', '\r', '\u{e}', '\u{1f}', '\u{7f}', '\u{1b}']));
            s = v.into_iter().collect();
        }
        if !emit(ci, s.into()) {
            return;
        }
    }
}

pub fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let e = textm::judge(c, s);
    note.nontrivial = match &e {
        Exp::Ok(_) => true,
        Exp::Err(v) => v.len() == 1,
    };
    note.class = match &e {
        Exp::Ok(_) => "accept",
        Exp::Err(v) => match v[..] {
            ["TooShort"] => "too-short",
            ["TooLong"] => "too-long",
            ["Invalid"] => "control",
            _ => "several",
        },
    };
    e.judge(&c.exec(i))
}
