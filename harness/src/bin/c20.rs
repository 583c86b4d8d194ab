//! C20: json.
#![allow(clippy::type_complexity)]
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::*;
use validators::prelude::*;
use vh::models::{Exp, jsonm};
use vh::*;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Point {
    a: i64,
    #[serde(default)]
    b: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Strict {
    a: u8,
    b: String,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    #[serde(rename = "red")]
    Red,
    Blue,
    #[serde(rename = "a")]
    A(i64),
    #[serde(rename = "b")]
    B {
        a: bool,
    },
}

type Oracle = fn(&Input) -> Option<(String, String, String)>;

macro_rules! table {
    ($($n:ident $t:ty;)*) => {
        mod ty { use super::*; $(#[derive(Debug, Clone, PartialEq, Validator)] #[validator(json)] pub struct $n(pub $t);)* }
        mod runs { #![allow(non_snake_case)] use super::*; $(
            pub fn $n(i: &Input) -> Out {
                type T = ty::$n;
                let f: fn(&T) -> Fields = |v| vec![("value", format!("{:?}", v.0)), ("min", v.to_minified_json_string()), ("pretty", v.to_beautified_json_string())];
                match i {
                    Input::Str(s) => run_str::<T>(s, f),
                    Input::I(x) => run_signed::<T>(*x, f),
                    Input::U(x) => run_unsigned::<T>(*x, f),
                    Input::F64(x) => run_f64::<T>(f64::from_bits(*x), f),
                    Input::F32(x) => run_f32::<T>(f32::from_bits(*x), f),
                    Input::Bool(x) => run_bool::<T>(*x, f),
                    // the JSON value entry point
                    Input::List(l) => {
                        let v: Value = serde_json::from_str(l[0].str()).expect("HARNESS: value");
                        with_validate(res(T::parse_json_value(v.clone()), f), T::validate_json_value(v))
                    }
                    _ => bad_input(),
                }
            }
        )* }
        mod oracles { #![allow(non_snake_case)] use super::*; $(
            pub fn $n(i: &Input) -> Option<(String, String, String)> {
                fn via(v: Option<Value>) -> Option<$t> { serde_json::from_value(v?).ok() }
                let v: Option<$t> = match i {
                    Input::Str(s) => serde_json::from_slice(s.as_bytes()).ok(),
                    Input::I(x) => via(i64::try_from(*x).ok().map(Value::from).or(u64::try_from(*x).ok().map(Value::from))),
                    Input::U(x) => via(u64::try_from(*x).ok().map(Value::from)),
                    Input::F64(x) => via(Some(Value::from(f64::from_bits(*x)))),
                    Input::F32(x) => via(Some(Value::from(f32::from_bits(*x) as f64))),
                    Input::Bool(x) => via(Some(Value::Bool(*x))),
                    Input::List(l) => via(serde_json::from_str(l[0].str()).ok()),
                    _ => None,
                };
                v.map(|v| (format!("{v:?}"), serde_json::to_string(&v).unwrap(), serde_json::to_string_pretty(&v).unwrap()))
            }
        )* }
        static CFGS: &[Cfg] = &[ $(Cfg { name: concat!("json ", stringify!($t)), v: "json", attr: "", opts: &[], ty: stringify!($n), run: runs::$n },)* ];
        static ORACLES: &[Oracle] = &[ $(oracles::$n,)* ];
    };
}
table! {
    JValue Value;
    JString String;
    JBool bool;
    JF64 f64;
    JF32 f32;
    JI64 i64;
    JU64 u64;
    JU8 u8;
    JI128 i128;
    JU128 u128;
    JChar char;
    JUnit ();
    JOptI Option<i64>;
    JOptF Option<f64>;
    JVecI Vec<i64>;
    JVecS Vec<String>;
    JVecV Vec<Value>;
    JMapV BTreeMap<String, Value>;
    JMapI BTreeMap<i32, Vec<u8>>;
    JPair (f64, String);
    JBox Box<Option<Vec<bool>>>;
    JPoint Point;
    JStrict Strict;
    JKind Kind;
    JPoints Vec<Point>;
    JRange std::ops::Range<u16>;
    JSet BTreeSet<Vec<char>>;
    JRes Result<i8, String>;
}

fn typed(r: &mut Rng, ty: &str) -> Option<String> {
    let n = |r: &mut Rng| (r.below(600) as i64 - 150).to_string();
    Some(match ty {
        "JMapI" => format!("{{\"{}\":[{},{}],\"{}\":[]}}", n(r), n(r), n(r), n(r)),
        "JPair" => format!("[{}, {}]", jsongen::number(r), jsongen::string(r)),
        "JBox" => r.pick(&["null", "[]", "[true]", "[true, false ]", "[null]", "true"]).to_string(),
        "JPoint" | "JStrict" => match r.below(4) {
            0 => format!("{{\"a\":{},\"b\":{}}}", n(r), jsongen::string(r)),
            1 => format!("{{\"b\":{}, \"a\":{},\"c\":1}}", jsongen::string(r), n(r)),
            2 => format!("[{},{}]", n(r), jsongen::string(r)),
            _ => format!("{{\"a\":{}}}", jsongen::number(r)),
        },
        "JPoints" => format!("[{{\"a\":{}}},{{\"a\":{},\"b\":{}}}]", n(r), n(r), jsongen::string(r)),
        "JKind" => match r.below(4) {
            0 => r.pick(&["\"red\"", "\"Blue\"", "\"Red\"", "\"a\"", "{\"red\":null}", "{\"red\":1}"]).to_string(),
            1 => format!("{{\"a\":{}}}", n(r)),
            2 => format!("{{\"b\":{{\"a\":{}}}}}", r.pick(&["true", "false", "1"])),
            _ => format!("{{\"a\":{},\"b\":1}}", n(r)),
        },
        "JRange" => format!("{{\"start\":{},\"end\":{}}}", n(r), n(r)),
        "JSet" => r.pick(&["[]", "[[]]", "[[\"a\"],[\"b\",\"c\"],[\"a\"]]", "[[\"ab\"]]"]).to_string(),
        "JRes" => format!("{{\"{}\":{}}}", r.pick(&["Ok", "Err", "ok"]), if r.bool() { n(r) } else { jsongen::string(r) }),
        "JChar" => serde_json::to_string(&genstr::random(r, 2)).unwrap(),
        "JVecI" => format!("[{}, {} ,{}]", n(r), n(r), n(r)),
        _ => return None,
    })
}

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    if plan.shard == 0 {
        for ci in 0..CFGS.len() {
            for d in 124..131 {
                for (o, c) in [("[", "]"), ("{\"a\":", "}"), (" [ ", "\n]")] {
                    if !emit(ci, format!("{}1{}", o.repeat(d), c.repeat(d)).into()) {
                        return;
                    }
                }
            }
            for s in ["", " ", "null", "null null", "{}", "[]", "[1,]", "[,]", "{\"a\":1,}", "{\"a\" 1}", "{a:1}", "'a'", "\"", "[", "]", "{", "\u{feff}1", "1\u{0}", "//x\n1", "nan", "\"\\u\"", "tru", "truE"] {
                if !emit(ci, s.into()) {
                    return;
                }
            }
            for b in [false, true] {
                if !emit(ci, Input::Bool(b)) {
                    return;
                }
            }
            for f in [0.0, -0.0, 1.0, 0.5, 255.0, 256.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, f64::MIN_POSITIVE, 5e-324, f64::MAX, 3.4e38, 16777217.0, 9007199254740993.0] {
                if !emit(ci, Input::F64(f.to_bits())) || !emit(ci, Input::F32((f as f32).to_bits())) {
                    return;
                }
            }
            for e in [0, 7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 126, 127] {
                let p = if e == 127 { i128::MAX } else { 1i128 << e };
                for d in [-1, 0, 1] {
                    let x = p.saturating_add(d);
                    for x in [x, x.wrapping_neg()] {
                        if !emit(ci, Input::I(x)) || x >= 0 && !emit(ci, Input::U(x as u128)) {
                            return;
                        }
                    }
                }
            }
            if !emit(ci, Input::U(u128::MAX)) || !emit(ci, Input::I(i128::MIN)) {
                return;
            }
        }
    }
    for _ in 0..plan.n(600_000, 40_000_000) {
        let ci = if r.chance(1, 6) { 0 } else { r.below(CFGS.len()) };
        let i = match r.below(12) {
            0 => Input::I((r.u128() as i128) >> r.below(128)),
            1 => Input::U(r.u128() >> r.below(128)),
            2 => Input::F64(r.next()),
            3 => Input::F32(r.next() as u32),
            k => {
                let s = match typed(r, CFGS[ci].ty) {
                    Some(mut s) if r.bool() => {
                        if r.chance(1, 8) {
                            s = genstr::mutate(r, &s, jsongen::DICT);
                        }
                        s
                    }
                    _ => jsongen::document(r),
                };
                if k < 6 && serde_json::from_str::<Value>(&s).is_ok() { Input::List(vec![s.into()]) } else { s.into() }
            }
        };
        if !emit(ci, i) {
            return;
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    // a shrunk list may be no value any more
    if let Input::List(l) = i {
        match l.first() {
            Some(Input::Str(s)) if l.len() == 1 && serde_json::from_str::<Value>(s).is_ok() => {}
            _ => return Ok(()),
        }
    }
    let k = CFGS.iter().position(|x| x.name == c.name).unwrap();
    let want = ORACLES[k](i);
    let o = c.exec(i);
    let doc = match i {
        Input::Str(s) => Some(jsonm::parse(s)),
        _ => None,
    };
    note.evals = 1;
    note.nontrivial = want.is_some() || !matches!(doc, Some(None)) || matches!(i, Input::Str(s) if s.len() > 2);
    note.class = match (&want, &doc) {
        (Some(_), _) => "accept",
        (_, Some(None)) => "not one JSON document",
        (_, Some(Some(_))) => "a document of another type",
        _ => "not readable as the type",
    };
    match &want {
        None => Exp::err("SerdeJsonError").judge(&o)?,
        Some((v, m, p)) => Exp::Ok(vec![("value", v.clone()), ("min", m.clone()), ("pretty", p.clone())]).judge(&o)?,
    }
    // against the independent reader
    if let (Some(d), Input::Str(s)) = (&doc, i) {
        if o.is_ok() && !jsonm::grammatical(s) {
            return Err("accepted, but it is not one JSON document".into());
        }
        if c.ty == "JValue" {
            // serde_json gives up on some numbers just below the largest finite one
            let edge = !o.is_ok() && format!("{o:?}").contains("number out of range") && d.as_ref().is_some_and(jsonm::huge);
            if edge {
                return Ok(());
            }
            if o.is_ok() != d.is_some() {
                return Err(format!("{o:?}, but as a JSON document it is {d:?}"));
            }
            if let Some(d) = d {
                let v: Value = serde_json::from_str(s).unwrap();
                if !jsonm::same(d, &v) {
                    return Err(format!("read as {v:?}, but the document says {d:?}"));
                }
            }
        }
    }
    // printed forms
    if let (Some(m), Some(p)) = (o.field("min"), o.field("pretty")) {
        if jsonm::squeeze(m).as_deref() != Some(m) {
            return Err(format!("the minified text {m:?} has insignificant whitespace"));
        }
        if jsonm::squeeze(p).as_deref() != Some(m) {
            return Err(format!("the beautified text {p:?} is not the minified text {m:?} plus whitespace"));
        }
        let inner = |a: &str| m.len() > 2 && (m.starts_with(a)) && m != "[]" && m != "{}";
        if (inner("[") || inner("{")) && !p.contains('\n') {
            return Err(format!("the beautified text {p:?} is on one line"));
        }
        // an f32 field can overflow to an infinity, which JSON cannot express
        if c.ty == "JF32" && m == "null" {
            return Ok(());
        }
        for t in [m, p] {
            note.evals += 1;
            let back = c.exec(&t.into());
            let read = ORACLES[k](&t.into());
            // the JSON library may be a digit off when it reads a fraction
            let eps = if c.ty == "JF32" { 1.2e-7 } else { 1e-15 };
            let close = || match (back.field("min").and_then(jsonm::parse), jsonm::parse(m)) {
                (Some(a), Some(b)) => jsonm::close(&a, &b, eps),
                _ => false,
            };
            if back.field("value") != o.field("value") && !(back.field("value") == read.as_ref().map(|x| x.0.as_str()) && close()) {
                return Err(format!("prints {t:?}, which parses to {back:?} instead of {o:?}"));
            }
        }
    }
    Ok(())
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C20",
        rule: "JSON documents of nested generated values, typed documents for 28 field types, nesting around the limit of 128, malformed and mutated ones, and the integer, float, bool and JSON-value entry points with edge and random values. Non-trivial: accepted, a document of another type, or a malformed text of at least 3 bytes",
        assumptions: &["serde_json decides how a type is read from JSON; an independent reader decides what a JSON document is"],
        cfgs: CFGS,
        generate,
        check,
    })
}
