//! C22: regex, semver, semver_req.
use std::sync::LazyLock;
use validators::prelude::*;
use validators::regex::{self as vregex, Regex};
use vh::*;

macro_rules! regexes {
    ($($n:ident $s:ident $pat:tt;)*) => {
        $(static $s: LazyLock<Regex> = LazyLock::new(|| Regex::new($pat).unwrap());)*
        mod lit { use super::*; $(#[derive(Debug, Clone, PartialEq, Validator)] #[validator(regex(regex = $pat))] pub struct $n(pub String);)* }
        mod lit2 { use super::*; $(#[derive(Debug, Clone, PartialEq, Validator)] #[validator(regex(regex($pat)))] pub struct $n(pub String);)* }
        mod exp { use super::*; $(#[derive(Debug, Clone, PartialEq, Validator)] #[validator(regex(regex = $s))] pub struct $n(pub String);)* }
        mod exp2 { use super::*; $(#[derive(Debug, Clone, PartialEq, Validator)] #[validator(regex(regex(*$s)))] pub struct $n(pub String);)* }
        mod exp3 { use super::*; $(#[derive(Debug, Clone, PartialEq, Validator)] #[validator(regex(regex(get(&$s))))] pub struct $n(pub String);)* }
        mod runs { #![allow(non_snake_case)] use super::*; $(
            pub fn $n(i: &Input) -> Out {
                let s = i.str();
                // building the pattern on every call is slow, so the other spellings take turns
                let a = run_str::<exp::$n>(s, |v| vec![("text", v.0.clone())]);
                let h = s.len() % 4;
                let b = match h {
                    0 => run_str::<lit::$n>(s, |v| vec![("text", v.0.clone())]),
                    1 => run_str::<lit2::$n>(s, |v| vec![("text", v.0.clone())]),
                    2 => run_str::<exp2::$n>(s, |v| vec![("text", v.0.clone())]),
                    _ => run_str::<exp3::$n>(s, |v| vec![("text", v.0.clone())]),
                };
                if a != b { Out::Broken(format!("a pattern behind a name gives {a:?}, in spelling {h} {b:?}")) } else { a }
            }
        )* }
        static REG: &[Cfg] = &[ $(Cfg { name: concat!("regex ", stringify!($pat)), v: "regex", attr: "", opts: &[], ty: $pat, run: runs::$n },)* ];
    };
}
fn get(r: &Regex) -> &Regex {
    r
}
regexes! {
    PA RA "^[0-9a-fA-F]+$";
    PB RB "ab";
    PC RC "";
    PD RD "(?i)^straße$";
    PE RE "\\bfoo\\b";
    PF RF r"^\d{3}-\d{4}$";
    PG RG "(?m)^x$";
    PH RH "(?s)^a.b$";
    PI RI "^a.b$";
    PJ RJ "^(a|b)*c$";
    PK RK "[^\n]";
    PL RL r#"^"[^"\\]*(\\.[^"\\]*)*"$"#;
    PM RM "^.{2,4}$";
    PN RN "\\p{Greek}";
    PO RO "中+";
    PP RP "^$";
    PQ RQ r"^\{#\}$";
    PR RR "x{2}";
    PS RS "(?x) ^ a b # comment
  c $";
    PT RT "(?-u:^[a-c]+$)";
    PU RU "\\A\\w+\\z";
    PV RV "^(?:[A-Z][a-z]*\\s?)+$";
    PW RW "^([AJQK1-9]|10)$";
    PX RX "$^";
    PY RY "[[:space:]]$";
}

mod ver {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Validator)]
    #[validator(semver)]
    pub struct Ver(pub validators::semver::Version);
    #[derive(Debug, Clone, PartialEq, Validator)]
    #[validator(semver_req)]
    pub struct Req(pub validators::semver::VersionReq);
}
fn run_ver(i: &Input) -> Out {
    run_str::<ver::Ver>(i.str(), |v| vec![("value", format!("{:?}", v.0)), ("text", v.0.to_string())])
}
fn run_req(i: &Input) -> Out {
    run_str::<ver::Req>(i.str(), |v| vec![("value", format!("{:?}", v.0)), ("text", v.0.to_string())])
}
static SEM: &[Cfg] = &[
    Cfg { name: "semver", v: "semver", attr: "", opts: &[], ty: "", run: run_ver },
    Cfg { name: "semver_req", v: "semver_req", attr: "", opts: &[], ty: "", run: run_req },
];
static CFGS: LazyLock<&'static [Cfg]> = LazyLock::new(|| join(&[SEM, REG]));

/// the SemVer 2.0.0 grammar; returns the three numbers, the pre-release and the build
fn semver_grammar(s: &str) -> Option<(u64, u64, u64, String, String)> {
    let (rest, build) = match s.split_once('+') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let (core, pre) = match rest.split_once('-') {
        Some((a, b)) => (a, Some(b)),
        None => (rest, None),
    };
    let num = |t: &str| -> Option<u64> {
        if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) || t.len() > 1 && t.starts_with('0') {
            return None;
        }
        t.parse().ok()
    };
    let idents = |t: &str, zeros: bool| {
        t.split('.').all(|x| {
            !x.is_empty() && x.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') && (zeros || x.len() == 1 || !x.starts_with('0') || !x.bytes().all(|c| c.is_ascii_digit()))
        })
    };
    let p: Vec<&str> = core.split('.').collect();
    let [a, b, c] = p[..] else { return None };
    if pre.is_some_and(|t| !idents(t, false)) || build.is_some_and(|t| !idents(t, true)) {
        return None;
    }
    Some((num(a)?, num(b)?, num(c)?, pre.unwrap_or("").into(), build.unwrap_or("").into()))
}

const NUMS: &[&str] = &["0", "1", "2", "10", "00", "01", "18446744073709551615", "18446744073709551616", "99999999999999999999", "", "x", "X", "*", "-1", "+1", "１", "a", " 1"];
const IDENTS: &[&str] = &["alpha", "beta", "rc1", "0", "1", "01", "00", "0a", "a0", "-", "--", "-1", "x-y", "", "é", "_", "99999999999999999999999", "0-0", "A.B"];
fn version(r: &mut Rng) -> String {
    let n = |r: &mut Rng| if r.chance(1, 5) { r.pick(NUMS).to_string() } else { (r.next() >> (r.below(60) + 4)).to_string() };
    let parts = if r.chance(1, 10) { 1 + r.below(4) } else { 3 };
    let mut s = (0..parts).map(|_| n(r)).collect::<Vec<_>>().join(".");
    let ids = |r: &mut Rng| {
        let k = 1 + r.below(3);
        (0..k)
            .map(|_| if r.bool() { r.pick(&["alpha", "1", "x-y", "0a", "rc"]).to_string() } else if r.chance(1, 3) { genstr::over(r, &['0', '9', 'a', 'Z', '-'], 12) } else { r.pick(IDENTS).to_string() })
            .collect::<Vec<_>>()
            .join(".")
    };
    if r.chance(1, 3) {
        s = format!("{s}-{}", ids(r));
    }
    if r.chance(1, 3) {
        s = format!("{s}+{}", ids(r));
    }
    if r.chance(1, 8) {
        s = genstr::mutate(r, &s, &[".", "-", "+", "0", " ", "v", "=", "\n"]);
    }
    s
}
fn req(r: &mut Rng) -> String {
    let n = if r.chance(1, 30) { 30 + r.below(5) } else { r.below(4) };
    let mut v = vec![];
    for _ in 0..n.max(usize::from(r.chance(19, 20))) {
        let op = r.pick(&["", "", "=", ">", ">=", "<", "<=", "~", "^", "~>", "==", "!=", "=>", "^^"]).to_string();
        let sp = *r.pick(&["", "", "", " ", "  ", "\t"]);
        let mut b = match r.below(6) {
            0 => "*".to_string(),
            1 => r.below(9).to_string(),
            2 => format!("{}.{}", r.below(9), r.pick(&["0", "3", "*", "x", "X", "01"])),
            3 => format!("{}.{}.{}", r.below(9), r.pick(&["0", "3", "*"]), r.pick(&["*", "x", "0", "1"])),
            _ => version(r),
        };
        if r.chance(1, 8) {
            b.push(' ');
        }
        v.push(format!("{op}{sp}{b}"));
    }
    let mut s = v.join(*r.pick(&[",", ", ", ",", ",,", " ", " || "]));
    if r.chance(1, 12) {
        s = genstr::mutate(r, &s, &[",", "*", "^", "~", ">", "<", "=", " ", ".", "x", "-a", "+b"]);
    }
    s
}
fn text(r: &mut Rng) -> String {
    const SEEDS: &[&str] = &["", "a", "ab", "xaby", "0aF9", "STRASSE", "straße", "STRAẞE", "foo", "a foo b", "food", "123-4567", "１２３-4567", "x", "y\nx\nz", "x\r\n", "a\nb", "axb", "a\rb", "abbac", "c", "\n", "\"a\\\"b\"", "\"\\", "中中", "αβγ", "Ω", "{#}", "xx", "abc", "a b c", "é_1", "Ab Cd ", "10", "K", "J\n", " ", "\u{a0}", "a\u{301}", "😀😀", "\u{85}", "0", "fo\u{301}o foo"];
    let s = r.pick(SEEDS).to_string();
    match r.below(5) {
        0 => s,
        1 => genstr::random(r, 8),
        2 => format!("{s}{}", r.pick(SEEDS)),
        3 => genstr::over(r, &['a', 'b', 'c', 'x', '\n', ' ', '1', 'F', '"', '\\', 'f', 'o', '-'], 9),
        _ => genstr::mutate(r, &s, SEEDS),
    }
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    let alpha = ['0', '1', '.', '-', '+', 'a', '*', '<', ' '];
    for n in 0..=5 {
        let ok = genstr::enumerate(&alpha, n, plan.shard, plan.shards, &mut |s| emit(1, s.clone().into()) && emit(0, format!("1.{s}").into()) && emit(0, format!("1.2.3{s}").into()));
        if !ok {
            return;
        }
    }
    for _ in 0..plan.n(400_000, 30_000_000) {
        let ok = match r.below(5) {
            0 | 1 => emit(0, version(r).into()),
            2 | 3 => emit(1, req(r).into()),
            _ => {
                let ci = 2 + r.below(REG.len());
                if plan.quick() && r.bool() {
                    continue;
                }
                emit(ci, text(r).into())
            }
        };
        if !ok {
            return;
        }
    }
}

thread_local! {
    static COMPILED: std::cell::RefCell<std::collections::HashMap<&'static str, regex::Regex>> = Default::default();
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let o = c.exec(i);
    note.nontrivial = o.is_ok() || s.len() > 2;
    match c.v {
        "regex" => {
            let m = COMPILED.with(|m| m.borrow_mut().entry(c.ty).or_insert_with(|| regex::Regex::new(c.ty).unwrap()).is_match(s));
            note.class = if m { "matches" } else { "does not match" };
            if m { models::Exp::Ok(vec![("text", s.clone())]).judge(&o) } else { models::Exp::err("RegexError").judge(&o) }
        }
        "semver" => {
            let g = semver_grammar(s);
            note.class = if g.is_some() { "version" } else { "not a version" };
            match g {
                None => models::Exp::err("SemverError").judge(&o),
                Some((a, b, d, p, q)) => {
                    let mut v = semver::Version::new(a, b, d);
                    v.pre = semver::Prerelease::new(&p).map_err(|_| "HARNESS".to_string())?;
                    v.build = semver::BuildMetadata::new(&q).map_err(|_| "HARNESS".to_string())?;
                    models::Exp::Ok(vec![("value", format!("{v:?}")), ("text", s.clone())]).judge(&o)
                }
            }
        }
        _ => match semver::VersionReq::parse(s) {
            Err(_) => {
                note.class = "not a requirement";
                models::Exp::err("SemverError").judge(&o)
            }
            Ok(q) => {
                note.class = "requirement";
                models::Exp::Ok(vec![("value", format!("{q:?}"))]).judge(&o)?;
                let t = o.field("text").unwrap();
                let back = c.exec(&t.into());
                note.evals = 2;
                if back != o { Err(format!("prints {t:?}, which parses to {back:?} instead of {o:?}")) } else { Ok(()) }
            }
        },
    }
}

fn main() {
    let _ = vregex::Regex::new("");
    vh::main(&Simple {
        long: LONG,
        id: "C22",
        rule: "every string of up to five characters over a nine-character alphabet as a requirement and as the tail of a version, generated versions and requirements (number limits, leading zeros, identifiers, operators, wildcards, blanks, up to 34 comparators), mutated; texts near the matches of 25 patterns, each pattern given in five spellings (two literal, three expressions). Non-trivial: accepted, or at least 3 bytes",
        assumptions: &["the regex crate decides matching, the semver crate the grammar of requirements; the version grammar is modelled independently"],
        cfgs: *CFGS,
        generate,
        check,
    })
}
