//! C05: signed and unsigned integers.
#[path = "../gen/integers.rs"]
mod gen_;
use gen_::CFGS;
use vh::models::num::{self, Big};
use vh::*;

fn near(r: &mut Rng, c: &Cfg) -> Big {
    // an interesting point, then a small step
    let (lo, hi) = num::bounds(c.ty);
    let mut pts = vec![lo, hi, Big::u(0), Big::i(-1)];
    for k in ["min", "max"] {
        if let Some(b) = Big::lit(c.opt(k)) {
            pts.push(b);
            pts.push(b);
            pts.push(b);
        }
    }
    for t in ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"] {
        let (a, b) = num::bounds(t);
        pts.push(a);
        pts.push(b);
    }
    let p = *r.pick(&pts);
    let d = r.below(7) as i128 - 3;
    if r.chance(1, 6) {
        let m = r.u128() >> r.below(128);
        return Big { neg: r.bool() && m != 0, mag: m };
    }
    // p + d without overflow beyond 128 bits of magnitude
    if d == 0 {
        return p;
    }
    let (dneg, dm) = (d < 0, d.unsigned_abs());
    if p.neg == dneg {
        match p.mag.checked_add(dm) {
            Some(m) => Big { neg: p.neg, mag: m },
            None => p,
        }
    } else if p.mag >= dm {
        let m = p.mag - dm;
        Big { neg: p.neg && m != 0, mag: m }
    } else {
        Big { neg: dneg, mag: dm - p.mag }
    }
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    // exhaustive: every value of 8 bits and a margin, in every configuration
    for ci in 0..CFGS.len() {
        if ci % plan.shards != plan.shard {
            continue;
        }
        let s = CFGS[ci].ty.starts_with('i');
        for v in -300i128..=300 {
            let i = if s {
                Input::I(v)
            } else if v >= 0 {
                Input::U(v as u128)
            } else {
                continue;
            };
            if !emit(ci, i) || !emit(ci, v.to_string().into()) {
                return;
            }
        }
    }
    for _ in 0..plan.n(4_000_000, 300_000_000) {
        let ci = r.below(CFGS.len());
        let c = &CFGS[ci];
        let b = near(r, c);
        let signed = c.ty.starts_with('i');
        let i: Input = match r.below(5) {
            0 | 1 => {
                if signed {
                    if b.neg && b.mag > 1 << 127 || !b.neg && b.mag >= 1 << 127 {
                        b.text().into()
                    } else if b.neg {
                        Input::I((b.mag as i128).wrapping_neg())
                    } else {
                        Input::I(b.mag as i128)
                    }
                } else if b.neg {
                    b.text().into()
                } else {
                    Input::U(b.mag)
                }
            }
            2 | 3 => {
                let mut t = b.text();
                match r.below(8) {
                    0 => t.insert(0, '+'),
                    1 => t = format!("{}{}", "0".repeat(r.below(50)), t),
                    2 if b.neg => t = format!("-{}{}", "0".repeat(r.below(50)), b.mag),
                    3 => t = format!("+{}{}", "0".repeat(r.below(5)), b.mag),
                    4 => {
                        let d = r.below(10);
                        t.push((b'0' + d as u8) as char)
                    }
                    _ => {}
                }
                t.into()
            }
            _ => vh::genstr::mutate(r, &b.text(), &["-", "+", "0", "--", ".", "e", "_", " ", "٣", "０", "0x", "9999999999999999999999999999999999999999999"]).into(),
        };
        if !emit(ci, i) {
            return;
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let e = match i {
        Input::Str(s) => {
            note.nontrivial = num::int_text(s, true).is_ok();
            num::int_str(c, s)
        }
        Input::I(v) => {
            note.nontrivial = true;
            num::int_value(c, &Big::i(*v))
        }
        Input::U(v) => {
            note.nontrivial = true;
            num::int_value(c, &Big::u(*v))
        }
        _ => return Ok(()),
    };
    note.class = match &e {
        models::Exp::Ok(_) => "accept",
        models::Exp::Err(v) => match v[..] {
            ["TooSmall"] => "too-small",
            ["TooLarge"] => "too-large",
            ["Forbidden"] => "forbidden",
            _ => "malformed-or-overflow",
        },
    };
    e.judge(&c.exec(i))
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C05",
        rule: "for every configuration all values -300..300, and values within 3 of a bound of the range, of the field type and of every other integer type, offered as integers through every entry point wide enough and as decimal texts (signs, leading zeros, one more digit, mutations). Non-trivial: an integer, or a text that is an optionally signed digit string",
        assumptions: &["the pointer size is that of the machine running the check"],
        cfgs: CFGS,
        generate,
        check,
    })
}
