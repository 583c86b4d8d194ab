//! C07: collection lengths.
#[path = "../gen/lengths.rs"]
mod gen_;
use gen_::CFGS;
use vh::models::Exp;
use vh::*;

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    for ci in 0..CFGS.len() {
        if ci % plan.shards != plan.shard {
            continue;
        }
        if huge(&CFGS[ci]) {
            for k in 0..64 {
                for n in [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 3, u64::MAX - k] {
                    if !emit(ci, Input::U(n as u128)) {
                        return;
                    }
                }
            }
            continue;
        }
        for n in [65534, 65535, 65536, 65537] {
            let b: Vec<u8> = (0..n).map(|i| i as u8).collect();
            if !emit(ci, Input::Bytes(b)) {
                return;
            }
        }
        for n in (0..=20).chain(250..=259).chain(298..=303).chain(348..=352).chain(398..=403) {
            let b: Vec<u8> = (0..n).map(|i| i as u8).collect();
            if !emit(ci, Input::Bytes(b)) {
                return;
            }
        }
    }
    for _ in 0..plan.n(300_000, 20_000_000) {
        let ci = r.below(CFGS.len());
        if huge(&CFGS[ci]) {
            let p = |k: &str| CFGS[ci].opt(k).parse::<u64>().ok();
            let n = match (r.below(4), p("min"), p("max")) {
                (0, Some(m), _) | (1, _, Some(m)) => m.wrapping_add(r.below(5) as u64).wrapping_sub(2),
                // the same in the low bits
                (2, Some(m), _) => m.wrapping_add((1 + r.below(15) as u64) << r.range(8, 60)),
                (2, _, Some(m)) => (m.wrapping_add((1 + r.below(15) as u64) << r.range(8, 60))).wrapping_sub(1),
                _ => r.next() >> r.below(64),
            };
            if !emit(ci, Input::U(n as u128)) {
                return;
            }
            continue;
        }
        let n = if r.chance(1, 30) { r.below(420) } else { r.below(14) };
        let k = if r.bool() { 255 } else { 4 };
        let b: Vec<u8> = (0..n).map(|_| r.below(k + 1) as u8).collect();
        if !emit(ci, Input::Bytes(b)) {
            return;
        }
    }
}

/// collections that can have any number of items
fn huge(c: &Cfg) -> bool {
    matches!(c.ty, "units" | "own")
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    if huge(c) {
        let Input::U(n) = i else { return Ok(()) };
        let Ok(n) = usize::try_from(*n) else { return Ok(()) };
        return judge(c, n, vec![("len", n.to_string())], i, note);
    }
    let Input::Bytes(b) = i else { return Ok(()) };
    let items: Vec<u32> = match c.ty {
        "vec" | "nested" | "b64" => b.iter().map(|x| *x as u32).collect(),
        "heap" => {
            let mut v: Vec<u32> = keys(b).collect();
            v.sort_unstable();
            v
        }
        _ => keys(b).collect::<std::collections::BTreeSet<u32>>().into_iter().collect(),
    };
    let n = items.len();
    judge(c, n, vec![("items", digest(items.iter().copied(), false)), ("len", n.to_string())], i, note)
}

fn judge(c: &Cfg, n: usize, f: Fields, i: &Input, note: &mut Note) -> Result<(), String> {
    let p = |k: &str| c.opt(k).parse::<usize>().ok();
    let small = p("min").is_some_and(|m| n < m);
    let large = p("max").is_some_and(|m| n > m);
    let e = if small {
        Exp::err("TooSmall")
    } else if large {
        Exp::err("TooLarge")
    } else {
        Exp::Ok(f)
    };
    note.nontrivial = true;
    note.class = if small { "too-short" } else if large { "too-long" } else { "accept" };
    e.judge(&c.exec(i))
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C07",
        rule: "collections of eleven kinds, two of them with any number of items up to usize::MAX (items without a size, a type of the user), the others built from byte sequences (duplicates included, some with a past: elements removed and room to spare) of every size 0..20 and around the large bounds, and around 256 and 65536, in 21 to 33 min/max combinations. Every case is non-trivial; distinct ones are counted",
        assumptions: &[],
        cfgs: CFGS,
        generate,
        check,
    })
}
