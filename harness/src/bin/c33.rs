//! C33: the public helper functions, the collection trait and the models.
#[path = "../gen/host.rs"]
mod gen_;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::sync::LazyLock;
use validators::functions as f;
use validators::models::Host;
use validators::traits::CollectionLength;
use vh::models::addr;
use vh::*;

static SUBJECTS: &[Cfg] = &[
    Cfg { name: "names and texts", v: "text", attr: "", opts: &[], ty: "", run: none },
    Cfg { name: "hosts", v: "hosts", attr: "", opts: &[], ty: "", run: none },
    Cfg { name: "collections", v: "len", attr: "", opts: &[], ty: "", run: none },
];

fn none(_: &Input) -> Out {
    Out::Err(String::new())
}

/// the host validator without restrictions
static FREE: LazyLock<&'static Cfg> = LazyLock::new(|| gen_::CFGS.iter().find(|c| ["port", "local", "at_least_two_labels"].iter().all(|o| matches!(c.opt(o), "" | "Allow"))).expect("HARNESS: host(Allow)"));

const DICT: &[&str] = &[".", "..", "localhost", "LOCALHOST", "local", "。", "．", "0", "255", "256", "127.0.0.1", "01", "+1", " ", "ſ", "\u{212a}", "ｌ", "\0", "-", "a"];

fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => genstr::recase(r, "localhost"),
        1 => genstr::mutate(r, "localhost.", DICT),
        2 => addrgen::v4(r).to_string(),
        3 => {
            let s = addrgen::v4(r).to_string();
            genstr::mutate(r, &s, DICT)
        }
        4 => addrgen::name(r),
        5 => (0..r.size(6)).map(|_| *r.pick(DICT)).collect(),
        6 => {
            let mut s = addrgen::v4(r).to_string();
            s.push_str(*r.pick(&[".", "..", ". ", ".\n", "。", ".0"]));
            s
        }
        _ => genstr::random(r, 12),
    }
}

fn host(r: &mut Rng) -> String {
    match r.below(5) {
        0 => addrgen::v4(r).to_string(),
        1 => addrgen::v6(r).to_string(),
        2 => genstr::recase(r, "localhost"),
        3 => r.pick(&["0.0.0.0", "::", "a", "z", "10.0.0.1", "9.0.0.1", "::1", "::ffff:1.2.3.4", "2::", "10::", "255.255.255.255", "ffff::", "xn--a"]).to_string(),
        _ => addrgen::name(r),
    }
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    let alpha: Vec<char> = ".a1 l。".chars().collect();
    let top = if plan.quick() { 6 } else { 8 };
    for n in 0..=top {
        if !genstr::enumerate(&alpha, n, plan.shard, plan.shards, &mut |s| emit(0, s.into())) {
            return;
        }
    }
    for n in (plan.shard..=260).step_by(plan.shards) {
        if !emit(2, Input::Bytes((0..n).map(|i| i as u8).collect())) {
            return;
        }
    }
    for _ in 0..plan.n(400_000, 20_000_000) {
        let ok = match r.below(8) {
            0..=3 => emit(0, text(r).into()),
            4..=6 => {
                let a = host(r);
                let b = if r.chance(1, 4) { genstr::recase(r, &a) } else { host(r) };
                emit(1, Input::List(vec![a.into(), b.into()]))
            }
            _ => {
                let n = r.size(40);
                let k = r.range(1, 255);
                emit(2, Input::Bytes((0..n).map(|_| r.below(k) as u8).collect()))
            }
        };
        if !ok {
            return;
        }
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} gives {got:?}, expected {want:?}")) }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn texts(s: &str, note: &mut Note) -> Result<(), String> {
    let base = match s.as_bytes().split_last() {
        Some((b'.', _)) => &s[..s.len() - 1],
        _ => s,
    };
    let local = base.to_ascii_lowercase() == "localhost";
    let two = base.bytes().any(|b| b == b'.');
    let v4 = addr::v4(base);
    note.class = if local { "local name" } else if v4.is_some() { "IPv4" } else if two { "two labels" } else { "one label" };
    note.nontrivial = local || two || v4.is_some() || base.len() < s.len();
    same("is_local_domain", f::is_local_domain(s), local)?;
    same("is_local_domain(String)", f::is_local_domain(s.to_string()), local)?;
    same("is_at_least_two_labels_domain", f::is_at_least_two_labels_domain(s), two)?;
    same("is_at_least_two_labels_domain(String)", f::is_at_least_two_labels_domain(s.to_string()), two)?;
    same("parse_ipv4_allow_an_ended_dot", f::parse_ipv4_allow_an_ended_dot(s).ok(), v4)?;
    if let Err(e) = f::parse_ipv4_allow_an_ended_dot(s) {
        same("the error of parse_ipv4_allow_an_ended_dot", Err(e), base.parse::<Ipv4Addr>())?;
    }
    if let Some(a) = v4 {
        same("is_local_ipv4", f::is_local_ipv4(a), addr::local4(a))?;
        same("is_local_ip", f::is_local_ip(IpAddr::V4(a)), addr::local4(a))?;
    }
    Ok(())
}

/// own rendering of a host: kind, sort key, printed text
fn want(s: &str) -> (Host, u8, Vec<u8>, String) {
    if let Some(a) = addr::v4(s) {
        (a.into(), 1, a.octets().to_vec(), a.to_string())
    } else if let Some(a) = addr::v6(s) {
        (a.into(), 2, a.octets().to_vec(), a.to_string())
    } else {
        (Host::Domain(s.to_string()), 0, s.as_bytes().to_vec(), s.to_string())
    }
}

fn hosts(a: &str, b: &str, note: &mut Note) -> Result<(), String> {
    let (ha, ka, ba, ta) = want(a);
    let (hb, kb, bb, tb) = want(b);
    note.nontrivial = true;
    note.class = if ka == kb { "hosts of one kind" } else { "hosts of two kinds" };
    match (ka, &ha) {
        (1, Host::IPv4(x)) => same("Host::from(Ipv4Addr)", x.octets().to_vec(), ba.clone())?,
        (2, Host::IPv6(x)) => same("Host::from(Ipv6Addr)", x.octets().to_vec(), ba.clone())?,
        (0, Host::Domain(_)) => (),
        _ => return Err(format!("the wrong kind of host: {ha:?}")),
    }
    for (h, t) in [(&ha, &ta), (&hb, &tb)] {
        same("the printed host", h.to_string(), t.clone())?;
        same("a clone of the host", h.clone(), h.clone())?;
        for w in [0, t.chars().count() + 3] {
            same("the padded host", format!("{h:>w$}|{h:<w$}"), format!("{t:>w$}|{t:<w$}"))?;
        }
        // a host of the validator's own form is the one it parses from its printed text
        let own = !matches!(h, Host::Domain(d) if addr::ascii_name(d).as_deref() != Some(d));
        if own && addr::host(t).is_some() {
            let got = FREE.exec(&t.as_str().into());
            same("the host parsed from the printed one", got.field("host"), Some(format!("{h:?}").as_str()))?;
        }
    }
    let eq = (ka, &ba) == (kb, &bb);
    same("a == b", ha == hb, eq)?;
    same("a.cmp(b) is Equal", ha.cmp(&hb).is_eq(), eq)?;
    same("b.cmp(a) is the reverse of a.cmp(b)", hb.cmp(&ha), ha.cmp(&hb).reverse())?;
    same("partial_cmp", ha.partial_cmp(&hb), Some(ha.cmp(&hb)))?;
    if eq {
        same("the hashes of equal hosts", hash(&ha), hash(&hb))?;
    }
    if ka == kb {
        same("the order of hosts of one kind", ha.cmp(&hb), ba.cmp(&bb))?;
    }
    Ok(())
}

fn lens(b: &[u8], note: &mut Note) -> Result<(), String> {
    let distinct = b.iter().collect::<BTreeSet<_>>().len();
    note.nontrivial = true;
    note.class = if b.is_empty() { "empty collection" } else { "collection" };
    fn both<C: CollectionLength>(what: &str, c: &C, n: usize) -> Result<(), String> {
        same(&format!("{what}::len"), CollectionLength::len(c), n)?;
        same(&format!("{what}::is_empty"), CollectionLength::is_empty(c), n == 0)
    }
    both("Vec", &b.to_vec(), b.len())?;
    both("Vec<()>", &vec![(); b.len()], b.len())?;
    both("BinaryHeap", &b.iter().copied().collect::<BinaryHeap<u8>>(), b.len())?;
    both("BTreeSet", &b.iter().copied().collect::<BTreeSet<u8>>(), distinct)?;
    both("BTreeMap", &b.iter().map(|k| (*k, ())).collect::<BTreeMap<u8, ()>>(), distinct)?;
    both("HashSet", &b.iter().copied().collect::<HashSet<u8>>(), distinct)?;
    both("HashMap", &b.iter().map(|k| (*k, ())).collect::<HashMap<u8, ()>>(), distinct)?;
    both("Map", &b.iter().map(|k| (k.to_string(), serde_json::Value::Null)).collect::<serde_json::Map<_, _>>(), distinct)
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    match (c.v, i) {
        ("text", Input::Str(s)) => texts(s, note),
        ("hosts", Input::List(l)) if l.len() == 2 => match (&l[0], &l[1]) {
            (Input::Str(a), Input::Str(b)) => hosts(a, b, note),
            _ => Ok(()),
        },
        ("len", Input::Bytes(b)) => lens(b, note),
        _ => Ok(()),
    }
}

fn main() {
    let _: fn(Ipv6Addr) -> bool = f::is_local_ipv6;
    vh::main(&Simple {
        long: LONG,
        id: "C33",
        rule: "every text up to 6 (thorough: 8) characters over `.a1 l。`, mutated names, addresses with final dots, pairs of hosts of all kinds, collections of every size to 260. Non-trivial: a local name, an address, a name with two labels or a final dot, or any host pair or collection; distinct ones are counted",
        assumptions: &["The order of hosts of different kinds is only required to be an order, not a particular one"],
        cfgs: SUBJECTS,
        generate,
        check,
    })
}
