//! Shared by the bins whose inputs are authorities.
use vh::models::Exp;
use vh::*;

pub fn generate(cfgs: &'static [Cfg], quick: usize, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    for ci in 0..cfgs.len() {
        if ci % plan.shards == plan.shard {
            for s in addrgen::CURATED {
                if !emit(ci, (*s).into()) {
                    return;
                }
            }
        }
    }
    // all ASCII and a few other characters in small frames
    let mut k = 0;
    for ci in 0..cfgs.len() {
        for f in ["{}", "a{}b", "a{}", "{}a", "a.{}", "{}.a", "1.2.3.4{}", "{}1.2.3.4", "1.2.3{}4", "[::1]{}", "[{}::1]:80", "[::1]:8{}0", "a.b:8{}0", "a.b{}80", "::{}1", "ab{}-c", "localhost{}"] {
            for c in (0u32..=0x7f).chain([0x80, 0xad, 0xb7, 0xdf, 0x130, 0x17f, 0x200c, 0x212a, 0x2024, 0x2460, 0x3002, 0xff0e, 0xff11, 0xff61, 0x1f600]) {
                k += 1;
                if k % plan.shards == plan.shard && !emit(ci, f.replace("{}", &char::from_u32(c).unwrap().to_string()).into()) {
                    return;
                }
            }
        }
    }
    for _ in 0..plan.n(quick, quick * 60) {
        let ci = r.below(cfgs.len());
        let c = &cfgs[ci];
        let s = match r.below(6) {
            0 | 1 if c.v == "ip" || c.v == "ipv4" => {
                let a = addrgen::v4(r).to_string();
                if r.bool() { format!("{a}:{}", r.below(65536)) } else { a }
            }
            0 | 1 if c.v == "ipv6" => {
                let a = addrgen::v6(r);
                let a = addrgen::spell6(r, a);
                match r.below(4) {
                    0 => a,
                    1 => format!("[{a}]"),
                    _ => format!("[{a}]:{}", r.below(65536)),
                }
            }
            0 | 1 if c.v == "domain" => {
                let a = addrgen::name(r);
                if r.bool() { format!("{a}:{}", r.below(65536)) } else { a }
            }
            _ => addrgen::authority(r),
        };
        if !emit(ci, s.into()) {
            return;
        }
    }
}

pub const RULE: &str = "for every option combination (each option alone, all together, none) a list of corner cases, every ASCII and several other characters in 17 frames, and random authorities: addresses at the edges of and inside reserved blocks in every spelling, names of random, long, numeric, internationalised, full-width, malformed labels with and without final dot, ports of every shape, mutated. Non-trivial: the input is well-formed, so that the options decide, or it is one edit away from a well-formed one of at least 3 characters";

#[allow(dead_code)]
pub fn note(e: &Exp, s: &str, note: &mut Note) {
    note.nontrivial = match e {
        Exp::Ok(_) => true,
        Exp::Err(v) => !v.is_empty() || s.len() > 2,
    };
    note.class = match e {
        Exp::Ok(_) => "accept",
        Exp::Err(v) if v.is_empty() => "malformed",
        Exp::Err(v) if v.len() == 1 => "one-option-violated",
        _ => "several-options-violated",
    };
}
