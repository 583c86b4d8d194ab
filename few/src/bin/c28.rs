//! C28: relations between configurations of one validator that differ in one option.
use std::collections::BTreeMap;
use std::sync::LazyLock;
use vf::*;

#[path = "../../../harness/src/gen/basen.rs"]
mod g01;
#[path = "../../../harness/src/gen/basen_decoded.rs"]
mod g02;
#[path = "../../../harness/src/gen/host.rs"]
mod g04;
#[path = "../../../harness/src/gen/http_ftp_url.rs"]
mod g05;
#[path = "../../../harness/src/gen/http_url.rs"]
mod g06;
#[path = "../../../harness/src/gen/ip.rs"]
mod g07;
#[path = "../../../harness/src/gen/ipv4.rs"]
mod g08;
#[path = "../../../harness/src/gen/ipv6.rs"]
mod g09;
#[path = "../../../harness/src/gen/mac_address.rs"]
mod g11;
#[path = "../../../harness/src/gen/uuid.rs"]
mod g14;
#[path = "../../../harness/src/gen/domain.rs"]
mod g15;
#[path = "../../../harness/src/gen/email.rs"]
mod g16;
#[path = "../../../harness/src/gen/numbers.rs"]
mod g17;

type Key = Vec<(&'static str, &'static str)>;

/// configurations that differ in tri-state options (and letter case) only
struct Family {
    name: String,
    v: &'static str,
    cfgs: Vec<Cfg>,
    /// pairs with equal option values
    same: Vec<(usize, usize)>,
    /// option, configurations with it at Must, Allow, Disallow
    tri: Vec<(&'static str, [Option<usize>; 3])>,
    /// first accepts no more than the second
    within: Vec<(usize, usize)>,
}

const TRI: [&str; 3] = ["Must", "Allow", "Disallow"];

fn families(all: &[&'static [Cfg]]) -> Vec<Family> {
    let mut m: BTreeMap<String, Vec<Cfg>> = BTreeMap::new();
    let is_tri = |o: &(&str, &str)| TRI.contains(&o.1);
    let fixed = |c: &Cfg, sep: &str| {
        let f: Vec<String> = c.opts.iter().filter(|o| !is_tri(o) && o.0 != "case").map(|o| if o.0 == "sepbyte" { format!("sepbyte {sep}") } else { format!("{} {}", o.0, o.1) }).collect();
        format!("{} {} {}", c.v, c.ty, f.join(","))
    };
    for c in all.iter().flat_map(|l| l.iter()) {
        if c.opts.iter().any(|o| is_tri(o)) && c.opt("separator") != "Disallow" {
            m.entry(fixed(c, c.opt("sepbyte"))).or_default().push(*c);
        }
    }
    // no separator: neighbour of every separator
    for c in all.iter().flat_map(|l| l.iter()).filter(|c| c.opt("separator") == "Disallow") {
        for (k, l) in m.iter_mut() {
            if *k == fixed(c, l[0].opt("sepbyte")) {
                l.push(*c);
            }
        }
    }
    m.into_iter()
        .map(|(name, cfgs)| {
            let key = |c: &Cfg| -> Key { c.opts.iter().filter(|o| o.0 != "sepbyte").copied().collect() };
            let mut at: BTreeMap<Key, usize> = BTreeMap::new();
            let mut same = vec![];
            for (i, c) in cfgs.iter().enumerate() {
                match at.get(&key(c)) {
                    Some(j) => same.push((*j, i)),
                    None => {
                        at.insert(key(c), i);
                    }
                }
            }
            let with = |k: &Key, n: &str, v: &'static str| -> Option<usize> {
                let k: Key = k.iter().map(|o| if o.0 == n { (o.0, v) } else { *o }).collect();
                at.get(&k).copied()
            };
            let mut tri = vec![];
            let mut within = vec![];
            for (k, i) in &at {
                for o in k {
                    if o.1 == "Allow" {
                        let t = TRI.map(|v| with(k, o.0, v));
                        if t[0].is_some() || t[2].is_some() {
                            tri.push((o.0, t));
                        }
                    }
                    if o.0 == "case" && o.1 != "Any" {
                        within.extend(with(k, "case", "Any").map(|j| (*i, j)));
                    }
                }
            }
            Family { v: cfgs[0].v, name, cfgs, same, tri, within }
        })
        .collect()
}

static ALL: LazyLock<Vec<Family>> = LazyLock::new(|| {
    families(&[g01::CFGS, g02::CFGS, g04::CFGS, g05::CFGS, g06::CFGS, g07::CFGS, g08::CFGS, g09::CFGS, g11::CFGS, g14::CFGS, g15::CFGS, g16::CFGS, g17::CFGS])
});

/// the fields both have; how an identifier prints is itself a matter of the options
fn same_value(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(f), Out::Ok(g)) => f.iter().all(|x| x.0 == "print" || g.iter().find(|y| y.0 == x.0).is_none_or(|y| y.1 == x.1)),
        _ => false,
    }
}

struct C28;

impl Property for C28 {
    fn scale(&self) -> usize {
        2
    }
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> String {
        "each input runs through every option combination of a validator (host 27, domain 81, email 108, base-N 3, IP 9, URL 3, MAC and UUID 9 per separator byte, float 3 per range); combinations that differ in one tri-state option must partition it, equal combinations spelled differently must agree, a stricter letter case must accept no more. Non-trivial: some combination accepts the input".into()
    }
    fn cfg_names(&self) -> Vec<String> {
        ALL.iter().map(|f| f.name.clone()).collect()
    }
    fn extra(&self) -> serde_json::Value {
        serde_json::json!({ "families": ALL.iter().filter(|f| f.v != "number").map(|f| format!("{}: {} configurations, {} option triples", f.name, f.cfgs.len(), f.tri.len())).collect::<Vec<_>>() })
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        let mut k = 0;
        for (i, f) in ALL.iter().enumerate() {
            let list: &[&str] = match f.v {
                "email" => mailgen::CURATED,
                "host" | "domain" | "ip" | "ipv4" | "ipv6" => addrgen::CURATED,
                _ => &[],
            };
            for s in list {
                k += 1;
                if k % plan.shards == plan.shard && !emit(i, (*s).into()) {
                    return;
                }
            }
        }
        // a family's share of the cases
        let pick: Vec<usize> = ALL
            .iter()
            .enumerate()
            .flat_map(|(i, f)| {
                let n = match f.v {
                    "number" => 1,
                    "mac_address" | "uuid" => 20,
                    "host" | "domain" | "email" => 120,
                    _ => 60,
                };
                std::iter::repeat_n(i, n)
            })
            .collect();
        for _ in 0..plan.n(1_500_000, 100_000_000) {
            let i = *r.pick(&pick);
            let f = &ALL[i];
            let x = match f.v {
                "email" => mailgen::email(r).into(),
                "host" | "domain" => addrgen::authority(r).into(),
                "ip" | "ipv4" | "ipv6" => match r.below(4) {
                    0 => addrgen::authority(r),
                    1 => { let a = addrgen::v4(r); format!("{a}:{}", addrgen::port(r)) }
                    2 => { let a = addrgen::v6(r); let a = addrgen::spell6(r, a); if r.bool() { a } else { format!("[{a}]:{}", addrgen::port(r)) } }
                    _ => { let a = addrgen::v4(r); addrgen::spell4(r, a) }
                }.into(),
                "http_url" | "http_ftp_url" => urlgen::url(r).into(),
                "number" => match r.below(6) {
                    0 => Input::Str(r.pick(&["NaN", "nan", "-NaN", "+nan", "NAN", "inf", "-inf", "infinity", "nanx", ""]).to_string()),
                    1 if f.cfgs[0].ty == "f64" => Input::F64(f64::NAN.to_bits() | r.next() & 0x800f_ffff_ffff_ffff),
                    1 => Input::F32(f32::NAN.to_bits() | r.next() as u32 & 0x803f_ffff),
                    2 => Input::F64(f64::from(r.next() as i16).to_bits()),
                    3 => Input::F32((r.next() as i8 as f32 / 4.0).to_bits()),
                    _ => offer::text(r, f.v, f.cfgs[0].ty).into(),
                },
                v => {
                    let s = offer::text(r, v, "");
                    if r.chance(1, 4) {
                        let sep = f.cfgs.iter().find_map(|c| c.opt("sepbyte").parse::<u8>().ok()).unwrap_or(b'=');
                        genstr::mutate(r, &s, &["=", ":", "-", &(sep as char).to_string()])
                    } else {
                        s
                    }
                    .into()
                }
            };
            if !emit(i, x) {
                return;
            }
        }
    }
    fn check(&self, cfg: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let f = &ALL[cfg];
        if matches!(i, Input::F64(_)) && f.cfgs[0].ty == "f32" {
            return Ok(());
        }
        let out: Vec<Out> = f.cfgs.iter().map(|c| c.exec(i)).collect();
        note.evals = out.len() as u64;
        let n = out.iter().filter(|o| o.is_ok()).count();
        note.nontrivial = n > 0;
        note.class = if n == 0 { "never accepted" } else if n == out.len() { "always accepted" } else { "depends on the options" };
        for (c, o) in f.cfgs.iter().zip(&out) {
            if let Out::Panic(m) | Out::Broken(m) = o {
                return Err(format!("{}: {m}", c.name));
            }
        }
        let pair = |a: usize, b: usize| format!("{} gives {:?}, {} gives {:?}", f.cfgs[a].name, out[a], f.cfgs[b].name, out[b]);
        for (a, b) in &f.same {
            if out[*a] != out[*b] {
                return Err(format!("the same options: {}", pair(*a, *b)));
            }
        }
        for (a, b) in &f.within {
            if out[*a].is_ok() && !same_value(&out[*a], &out[*b]) {
                return Err(format!("the stricter accepts what the other does not: {}", pair(*a, *b)));
            }
        }
        for (o, [must, allow, dis]) in &f.tri {
            let allow = allow.unwrap();
            let all_ok = out[allow].is_ok();
            for x in [must, dis].into_iter().flatten() {
                if out[*x].is_ok() && !same_value(&out[*x], &out[allow]) {
                    return Err(format!("{o}: {}", pair(*x, allow)));
                }
            }
            let (Some(m), Some(d)) = (*must, *dis) else { continue };
            let (mo, dok) = (out[m].is_ok(), out[d].is_ok());
            // some of the separators but not all
            let some = *o == "separator" && matches!(i, Input::Str(s) if {
                let n = s.bytes().filter(|b| f.cfgs[allow].opt("sepbyte").parse() == Ok(*b)).count();
                n > 0 && n < if f.v == "uuid" { 4 } else { 5 }
            });
            if all_ok && !mo && !dok && !some {
                return Err(format!("{o}: accepted when allowed, neither when required nor when forbidden: {}, {}", pair(m, allow), pair(d, allow)));
            }
            if mo && dok {
                // local names have no say in the label count
                let local = |i: usize, want: Tri| match f.cfgs[i].tri("local") {
                    Tri::Allow => {
                        let at = f.tri.iter().find(|t| t.0 == "local" && t.1[1] == Some(i)).and_then(|t| t.1[if want == Tri::Must { 0 } else { 2 }]);
                        at.is_none_or(|j| out[j].is_ok())
                    }
                    t => t == want,
                };
                let excused = *o == "at_least_two_labels" && local(allow, Tri::Must) && local(m, Tri::Must) && local(d, Tri::Must)
                    // text that needs no padding
                    || *o == "padding" && matches!(i, Input::Str(s) if !s.contains('=') && s.len() % if f.v.starts_with("base32") { 8 } else { 4 } == 0);
                if !excused {
                    return Err(format!("{o}: accepted when required and when forbidden: {}", pair(m, d)));
                }
            }
        }
        Ok(())
    }
}

fn main() {
    vh::main(&C28)
}
