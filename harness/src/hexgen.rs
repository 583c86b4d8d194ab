//! Shared by C10 and C11.
use vh::models::{Exp, hexid};
use vh::*;

pub const RULE: &str = "values printed by the validator and parsed back, values spelled with every subset of separators (right and wrong separator byte) in every letter case, every single character substituted or inserted at every position, and random mutations. Non-trivial: accepted, or as long as an accepted spelling";

fn value(r: &mut Rng, c: &Cfg) -> u128 {
    let mask = if c.v == "uuid" { u128::MAX } else { (1 << 48) - 1 };
    let v = match r.below(6) {
        0 => 0,
        1 => u128::MAX,
        2 => 1 << r.below(128),
        3 => 0xABCDEFABCDEFABCDEFABCDEFABCDEFAB,
        _ => r.u128() >> if r.bool() { 0 } else { r.below(128) },
    };
    v & mask
}

fn digits(r: &mut Rng, c: &Cfg, v: u128) -> String {
    let n: usize = hexid::groups(c.v).iter().sum();
    match r.below(4) {
        0 => format!("{v:0n$x}"),
        1 => {
            let s = format!("{v:0n$x}");
            genstr::recase(r, &s)
        }
        _ => {
            if c.opt("case") == "Lower" || (c.opt("case") == "Any" && r.bool()) {
                format!("{v:0n$x}")
            } else {
                format!("{v:0n$X}")
            }
        }
    }
}

pub fn generate(cfgs: &'static [Cfg], plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    let mut k = 0usize;
    for ci in 0..cfgs.len() {
        let c = &cfgs[ci];
        let nsep = hexid::groups(c.v).len() - 1;
        let own = hexid::sep(c).unwrap_or(b':') as char;
        for mask in 0..1u32 << nsep {
            for sep in [own, ':', '-', 'Z', '中', 'é'] {
                for f in 0..3 {
                    k += 1;
                    if k % plan.shards != plan.shard {
                        continue;
                    }
                    let v = value(r, c);
                    let n: usize = hexid::groups(c.v).iter().sum();
                    let h = match f {
                        0 => format!("{v:0n$x}"),
                        1 => format!("{v:0n$X}"),
                        _ => digits(r, c, v),
                    };
                    if !emit(ci, hexid::spell(c, &h, mask, sep).into()) {
                        return;
                    }
                }
            }
        }
        // one character substituted, inserted, removed everywhere
        for mask in [0, (1u32 << nsep) - 1] {
            let n: usize = hexid::groups(c.v).iter().sum();
            let v = if c.v == "uuid" { 0x0123456789ABCDEFFEDCBA9876543210u128 } else { 0xA1B2C3D4E5F6 };
            let h = if c.opt("case") == "Lower" { format!("{v:0n$x}") } else { format!("{v:0n$X}") };
            let base: Vec<char> = hexid::spell(c, &h, mask, own).chars().collect();
            for pos in 0..=base.len() {
                for x in (0u8..128).map(|b| b as char).chain(['é', '中', '😀', '０', 'Ａ']) {
                    k += 1;
                    if k % plan.shards != plan.shard {
                        continue;
                    }
                    let mut a = base.clone();
                    a.insert(pos, x);
                    let mut b = base.clone();
                    if pos < b.len() {
                        b[pos] = x;
                    }
                    if !emit(ci, a.into_iter().collect::<String>().into()) || !emit(ci, b.into_iter().collect::<String>().into()) {
                        return;
                    }
                }
            }
            for pos in 0..base.len() {
                let mut a = base.clone();
                a.remove(pos);
                if !emit(ci, a.iter().collect::<String>().into()) {
                    return;
                }
                a.truncate(pos);
                if !emit(ci, a.into_iter().collect::<String>().into()) {
                    return;
                }
            }
        }
    }
    for _ in 0..plan.n(3_000_000, 200_000_000) {
        let ci = r.below(cfgs.len());
        let c = &cfgs[ci];
        let v = value(r, c);
        if r.chance(1, 6) {
            if !emit(ci, Input::U(v)) {
                return;
            }
            continue;
        }
        let h = digits(r, c, v);
        let mask = match r.below(4) {
            0 => 0,
            1 => r.next() as u32,
            _ => !0,
        };
        let own = hexid::sep(c).unwrap_or(b':') as char;
        let sep = if r.chance(1, 8) { *r.pick(&[':', '-', '.', ' ', 'z']) } else { own };
        let mut s = hexid::spell(c, &h, mask, sep);
        if r.chance(1, 2) {
            let o = own.to_string();
            s = genstr::mutate(r, &s, &[&o, &o, "0", "f", "F", "g", "::", "é"]);
        }
        if r.chance(1, 12) {
            // doubled, leading or trailing separators
            s = match r.below(4) {
                0 => format!("{own}{s}"),
                1 => format!("{s}{own}"),
                2 => s.replacen(own, &format!("{own}{own}"), 1),
                _ => format!("{}{s}", own.to_string().repeat(r.below(8))),
            };
        }
        if !emit(ci, s.into()) {
            return;
        }
    }
}

pub fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    match i {
        Input::Str(s) => {
            let e = hexid::judge(c, s);
            let n: usize = hexid::groups(c.v).iter().sum();
            note.nontrivial = s.len() >= n - 1 && s.len() <= n + hexid::groups(c.v).len();
            note.class = if e.is_ok() { "accept" } else { "reject" };
            let out = c.exec(i);
            e.judge(&out)?;
            if let Some(p) = out.field("print") {
                let back = c.exec(&p.into());
                note.evals = 2;
                if back.field("value") != out.field("value") {
                    return Err(format!("printed as {p:?}, which parses back to {back:?}"));
                }
            }
            Ok(())
        }
        Input::U(v) => {
            let m = if c.v == "uuid" { u128::MAX } else { (1 << 48) - 1 };
            if *v > m {
                return Ok(());
            }
            note.nontrivial = true;
            note.class = "print";
            let out = c.exec(i);
            Exp::Ok(vec![("value", v.to_string()), ("print", hexid::print(c, *v))]).judge(&out)?;
            let back = c.exec(&out.field("print").unwrap().into());
            note.evals = 2;
            if back.field("value") != Some(v.to_string().as_str()) {
                return Err(format!("{v} is printed as {:?}, which parses back to {back:?}", out.field("print")));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
