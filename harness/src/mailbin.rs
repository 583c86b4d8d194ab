//! Shared by C17 and C18.
use vh::models::Exp;
use vh::*;

pub fn generate(cfgs: &'static [Cfg], quick: usize, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    for ci in 0..cfgs.len() {
        if ci % plan.shards == plan.shard {
            for s in mailgen::CURATED {
                if !emit(ci, (*s).into()) {
                    return;
                }
            }
        }
    }
    let mut k = 0;
    for ci in 0..cfgs.len() {
        for f in ["{}@b", "a{}@b", "a{}b@b", "\"{}\"@b", "\"a{}b\"@b", "\"\\{}\"@b", "\"a{}\"@b", "a@{}", "a@b{}c", "a@b{}", "({})a@b", "a({})@b", "a@({})b", "a@b({})", "a@[{}::1]", "a@[1.2.3.{}]", "\"a\"{}@b", "a@[1.2.3.4]{}"] {
            for c in (0u32..=0x7f).chain([0x80, 0xad, 0xdf, 0x130, 0x200c, 0x3002, 0xff0e, 0xff20, 0x1f600]) {
                k += 1;
                if k % plan.shards == plan.shard && !emit(ci, f.replace("{}", &char::from_u32(c).unwrap().to_string()).into()) {
                    return;
                }
            }
        }
    }
    // all short strings over the characters with a meaning
    let deep = if plan.quick() { 6 } else { 8 };
    let main: Vec<usize> = (0..cfgs.len()).filter(|i| cfgs[*i].attr.is_empty() || cfgs[*i].attr == "comment(Disallow)" || cfgs[*i].attr == "non_ascii(Disallow)").collect();
    for ci in main {
        for len in 0..=deep {
            let mut go = true;
            genstr::enumerate(&['a', '@', '(', ')', '"', '\\', '.', ' '], len, plan.shard, plan.shards, &mut |s| {
                go = emit(ci, s.into());
                go
            });
            if !go {
                return;
            }
        }
    }
    for _ in 0..plan.n(quick, quick * 60) {
        let ci = r.below(cfgs.len());
        if !emit(ci, mailgen::email(r).into()) {
            return;
        }
    }
}

#[allow(dead_code)]
pub fn note(e: &Exp, s: &str, note: &mut Note) {
    note.nontrivial = match e {
        Exp::Ok(_) => true,
        Exp::Err(v) => !v.is_empty() || s.len() > 3 && s.contains('@'),
    };
    note.class = match e {
        Exp::Ok(_) => "accept",
        Exp::Err(v) if v.is_empty() => "malformed",
        Exp::Err(v) if v.len() == 1 => "one-option-violated",
        _ => "several-options-violated",
    };
}
