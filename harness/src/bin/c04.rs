//! C04: bit and byte sizes.
#[path = "../gen/sizes.rs"]
mod gen_;
use byte_unit::{Bit, Byte};
use gen_::CFGS;
use vh::models::Exp;
use vh::models::num::{Big, Rule};
use vh::*;

const UNITS: &[&str] = &["", "b", "B", "k", "K", "kb", "KB", "Kb", "kB", "kib", "KiB", "Kib", "KIB", "M", "MB", "Mb", "MiB", "Mib", "G", "GB", "Gbit", "GiB", "T", "TB", "TiB", "P", "PB", "PiB", "E", "EB", "EiB", "Eib", "Z", "ZiB", "Y", "YB", "bit", "Kbit", "byte", "m", "g", "mib"];

fn mult(u: &str) -> f64 {
    let l = u.to_ascii_lowercase();
    let p = match l.bytes().next() {
        Some(b'k') => 1,
        Some(b'm') => 2,
        Some(b'g') => 3,
        Some(b't') => 4,
        Some(b'p') => 5,
        Some(b'e') => 6,
        _ => 0,
    };
    let base: f64 = if l.contains("ib") { 1024.0 } else { 1000.0 };
    base.powi(p)
}

fn text(r: &mut Rng, c: &Cfg) -> String {
    let u = *r.pick(UNITS);
    let mut pts: Vec<f64> = vec![0.0, 1.0, 1024.0, u64::MAX as f64];
    for k in ["min", "max"] {
        if let Ok(v) = c.opt(k).parse::<f64>() {
            pts.extend([v, v, v]);
        }
    }
    let p = *r.pick(&pts);
    let m = mult(u);
    let n = match r.below(6) {
        0 => format!("{}", (p / m).floor()),
        1 => format!("{}", (p / m).floor() + r.below(5) as f64 - 2.0),
        2 => format!("{}", p / m),
        3 => format!("{}", (p + r.below(9) as f64 - 4.0) / m),
        4 => format!("{:.*}", r.below(12), p / m),
        _ => format!("{}", r.next() >> r.below(64)),
    };
    let sp = *r.pick(&["", "", "", " ", "  ", "\t"]);
    let u = if r.chance(1, 3) { vh::genstr::recase(r, u) } else { u.to_string() };
    format!("{n}{sp}{u}")
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    for ci in 0..CFGS.len() {
        if ci % plan.shards != plan.shard {
            continue;
        }
        let c = &CFGS[ci];
        for k in ["min", "max"] {
            let Ok(b) = c.opt(k).parse::<u128>() else { continue };
            for d in -3i128..=3 {
                let Some(v) = b.checked_add_signed(d) else { continue };
                let b8 = v / 8;
                for t in [format!("{v}"), format!("{v}b"), format!("{v} B"), format!("{b8}B"), format!("{b8} B"), format!("{}.{:03} kb", v / 1000, v % 1000), format!("{}.{:03} KB", v / 1000, v % 1000)] {
                    if !emit(ci, t.into()) {
                        return;
                    }
                }
                if !emit(ci, Input::U(v)) {
                    return;
                }
            }
        }
        for u in UNITS {
            for n in ["0", "1", "7", "8", "1.5", "0.001", "1000", "1024", "18446744073709551615", "18446744073709551616", "18.446744073709551615", "340282366920938463463374607431768211455", "1e3", "-1", "+1", ".5", "1.", "١"] {
                if !emit(ci, format!("{n}{u}").into()) || !emit(ci, format!("{n} {u}").into()) {
                    return;
                }
            }
        }
        for k in 0..128 {
            for d in -1i128..=1 {
                if !emit(ci, Input::U((1u128 << k).wrapping_add_signed(d))) {
                    return;
                }
            }
        }
    }
    for _ in 0..plan.n(2_500_000, 200_000_000) {
        let ci = r.below(CFGS.len());
        let c = &CFGS[ci];
        let i = match r.below(5) {
            0 => {
                let mut v = r.u128() >> r.below(128);
                for k in ["min", "max"] {
                    if let (Ok(b), true) = (c.opt(k).parse::<u128>(), r.chance(1, 3)) {
                        v = b.saturating_add_signed(r.below(5) as i128 - 2);
                    }
                }
                Input::U(v)
            }
            1 => {
                let t = text(r, c);
                vh::genstr::mutate(r, &t, UNITS).into()
            }
            _ => text(r, c).into(),
        };
        if !emit(ci, i) {
            return;
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    // the reading of the text and the capacity of the type are byte-unit's; the range is ours
    let amount: Result<u128, Exp> = match i {
        Input::Str(s) => {
            if c.ty == "Bit" {
                Bit::parse_str(s).map(|b| b.as_u128()).map_err(|_| Exp::any_err())
            } else {
                Byte::parse_str(s, c.opt("ignore_case") == "true").map(|b| b.as_u128()).map_err(|_| Exp::any_err())
            }
        }
        Input::U(u) => {
            let v = if c.ty == "Bit" { Bit::from_u128(*u).map(|b| b.as_u128()) } else { Byte::from_u128(*u).map(|b| b.as_u128()) };
            match v {
                Some(v) if v == *u => Ok(v),
                _ => Err(Exp::err("TooLarge")),
            }
        }
        _ => return Ok(()),
    };
    let e = match amount {
        Err(e) => e,
        Ok(v) => match Rule::of(c).judge(&Big::u(v)) {
            Some(e) => Exp::err(e),
            None => Exp::Ok(vec![("value", v.to_string())]),
        },
    };
    note.nontrivial = amount_readable(i, &e);
    note.class = match &e {
        Exp::Ok(_) => "accept",
        Exp::Err(v) => match v[..] {
            ["TooSmall"] => "too-small",
            ["TooLarge"] => "too-large",
            _ => "malformed",
        },
    };
    let out = c.exec(i);
    e.judge(&out)?;
    // exactness stated independently of byte-unit for plain digit texts and simple multiples
    if let (Input::Str(s), Out::Ok(_)) = (i, &out) {
        if let Some(v) = exact(c, s) {
            if out.field("value") != Some(v.to_string().as_str()) {
                return Err(format!("stored {:?}, but {s:?} means exactly {v}", out.field("value")));
            }
        }
    }
    Ok(())
}

fn amount_readable(i: &Input, e: &Exp) -> bool {
    matches!(i, Input::U(_)) || e.is_ok() || matches!(e, Exp::Err(v) if !v.is_empty())
}

/// own reading for `digits [k|M|G|T][i]?B` (byte) and `digits [k..][i]?b` (bit), upper-case prefix
fn exact(c: &Cfg, s: &str) -> Option<u128> {
    let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
    let d: u128 = s[..n].parse().ok()?;
    let u = s[n..].trim_start_matches(' ');
    if c.ty == "Byte" && c.opt("ignore_case") == "true" {
        return if u.is_empty() { Some(d) } else { None };
    }
    let unit = if c.ty == "Byte" { "B" } else { "b" };
    let p = match u.strip_suffix(unit) {
        Some(p) => p,
        None if u.is_empty() => "",
        None => return None,
    };
    let m: u128 = match p {
        "" => 1,
        "K" => 1000,
        "M" => 1000_000,
        "G" => 1000_000_000,
        "T" => 1000_000_000_000,
        "Ki" => 1 << 10,
        "Mi" => 1 << 20,
        "Gi" => 1 << 30,
        "Ti" => 1 << 40,
        _ => return None,
    };
    d.checked_mul(m)
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C04",
        rule: "size texts whose amount is at, around or far from each bound in every unit and notation, mutated texts, and integers around the bounds and every power of two. Non-trivial: an integer, or a text that is a readable size",
        assumptions: &["byte-unit's reading of a size text is the reference for notation; plain multiples are also computed independently", "the default 64-bit capacity of byte-unit"],
        cfgs: CFGS,
        generate,
        check,
    })
}
