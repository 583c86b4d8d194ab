//! C06: floating-point numbers.
#[path = "../gen/numbers.rs"]
mod gen_;
use gen_::CFGS;
use vh::models::{Exp, num};
use vh::*;

fn step64(x: f64, n: i64) -> f64 {
    let mut x = x;
    for _ in 0..n.abs() {
        x = if n > 0 { x.next_up() } else { x.next_down() };
    }
    x
}

fn point(r: &mut Rng, c: &Cfg) -> f64 {
    let special = [
        0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON,
        f32::MAX as f64, f32::MIN as f64, f32::MIN_POSITIVE as f64, 1e-45, 5e-324, 3.4028235677973366e38, 16777217.0, 1.0, -1.0, 0.5, 1e39, -1e39,
        9007199254740993.0,
    ];
    let mut pts = vec![];
    for k in ["min", "max"] {
        if let Ok(v) = c.opt(k).parse::<f64>() {
            pts.push(v);
            pts.push(v as f32 as f64);
        }
    }
    match r.below(8) {
        0 | 1 => *r.pick(&special),
        2..=5 if !pts.is_empty() => {
            let p = *r.pick(&pts);
            match r.below(4) {
                0 => step64(p, r.below(5) as i64 - 2),
                1 => {
                    let q = p as f32;
                    let q = match r.below(3) {
                        0 => q.next_up(),
                        1 => q.next_down(),
                        _ => q,
                    };
                    q as f64
                }
                // halfway between two f32 around the bound
                2 => {
                    let q = p as f32;
                    (q as f64 + q.next_up() as f64) / 2.0
                }
                _ => p + (r.below(201) as f64 - 100.0) / 50.0,
            }
        }
        6 => f64::from_bits(r.next()),
        _ => f32::from_bits(r.next() as u32) as f64,
    }
}

fn text(r: &mut Rng, v: f64) -> String {
    match r.below(6) {
        0 => format!("{v}"),
        1 => format!("{v:e}"),
        2 => format!("{v:?}"),
        3 => format!("{:.*}", r.below(25), v),
        4 => format!("{}", v as f32),
        _ => {
            let s = format!("{v}");
            let s = vh::genstr::recase(r, &s);
            if r.bool() { format!("+{s}") } else { s }
        }
    }
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    for ci in 0..CFGS.len() {
        if ci % plan.shards != plan.shard {
            continue;
        }
        for s in ["nan", "NaN", "NAN", "-nan", "+nan", "inf", "-inf", "+infinity", "INFINITY", "Infinit", "", ".", "+", "-", "1.", ".1", "1e", "1e5", "e5", "0x1", "1_0", " 1", "1 ", "nan ", "1e400", "-1e400", "1e-400", "--1", "１", "٣", "1,5", "1f32", "infinit", "nane5"] {
            if !emit(ci, s.into()) {
                return;
            }
        }
        // quarters from -8 to 8
        for k in -32..=32 {
            let v = k as f64 / 4.0;
            if !emit(ci, Input::F64(v.to_bits())) || !emit(ci, Input::F32((v as f32).to_bits())) || !emit(ci, format!("{v}").into()) {
                return;
            }
        }
    }
    for _ in 0..plan.n(4_000_000, 300_000_000) {
        let ci = r.below(CFGS.len());
        let v = point(r, &CFGS[ci]);
        let i = match r.below(5) {
            0 | 1 => Input::F64(v.to_bits()),
            2 => Input::F32((v as f32).to_bits()),
            3 => text(r, v).into(),
            _ => {
                let t = text(r, v);
                if r.chance(1, 2) { t.into() } else { vh::genstr::mutate(r, &t, &["e", "E", ".", "-", "+", "nan", "inf", "0", "_", "e308", "e-320"]).into() }
            }
        };
        if !emit(ci, i) {
            return;
        }
    }
}

/// decimal float literal grammar of Rust's FromStr
fn is_literal(s: &str) -> bool {
    let t = s.strip_prefix(['+', '-']).unwrap_or(s);
    let l = t.to_ascii_lowercase();
    if matches!(l.as_str(), "nan" | "inf" | "infinity") {
        return true;
    }
    let (m, e) = match l.split_once('e') {
        Some((m, e)) => (m, Some(e)),
        None => (l.as_str(), None),
    };
    let d = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if !d(i) || !d(f) || i.is_empty() && f.is_empty() {
        return false;
    }
    match e {
        None => true,
        Some(e) => {
            let e = e.strip_prefix(['+', '-']).unwrap_or(e);
            !e.is_empty() && d(e)
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let single = c.ty == "f32";
    let e = match i {
        Input::Str(s) => {
            note.nontrivial = is_literal(s);
            if !note.nontrivial {
                Exp::err("ParseFloatError")
            } else if single {
                num::float_value(c, s.parse::<f32>().expect("HARNESS: literal") as f64)
            } else {
                num::float_value(c, s.parse::<f64>().expect("HARNESS: literal"))
            }
        }
        Input::F64(b) => {
            note.nontrivial = true;
            let v = f64::from_bits(*b);
            num::float_value(c, if single { v as f32 as f64 } else { v })
        }
        Input::F32(b) => {
            note.nontrivial = true;
            num::float_value(c, f32::from_bits(*b) as f64)
        }
        _ => return Ok(()),
    };
    note.class = match &e {
        Exp::Ok(_) => "accept",
        Exp::Err(v) => match v[..] {
            ["TooSmall"] => "too-small",
            ["TooLarge"] => "too-large",
            ["Forbidden"] => "forbidden",
            ["NaNMust"] => "nan-must",
            ["NaNDisallow"] => "nan-disallow",
            ["ParseFloatError"] => "malformed",
            _ => "several",
        },
    };
    e.judge(&c.exec(i))
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C06",
        rule: "special values, values within 2 ULP of each bound in both precisions, halfway points between f32 neighbours, random bit patterns, offered as f64, f32 and as texts in several notations, plus mutated texts. Non-trivial: a float, or a text in the float literal grammar",
        assumptions: &["the standard library's float parsing is the reference for the value of a literal"],
        cfgs: CFGS,
        generate,
        check,
    })
}
