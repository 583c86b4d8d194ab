//! A representative set of validators of every kind, with everything serde, the capturing result and the
//! conversion traits need known about them.
#![allow(clippy::all)]
#[path = "gen.rs"]
pub mod offer;
pub mod byattr;
use vh::data::*;
pub use vh::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use validators::errors::*;
use validators::prelude::*;

/// what direct validation says about a piece of data
#[derive(Debug, Clone, PartialEq)]
pub enum Dir {
    Out(Out),
    /// there is no such entry point
    Reject,
    /// not specified
    Any,
}

pub struct Few {
    pub name: &'static str,
    pub kind: &'static str,
    pub v: &'static str,
    pub direct: fn(&D, bool) -> Dir,
    pub de: fn(De) -> Result<Out, String>,
    /// the capturing result, deserialised
    pub de_res: fn(De) -> Result<Out, String>,
    /// the capturing result, through its conversions
    /// every way to hand over the same thing
    pub every: fn(&D) -> Vec<(&'static str, Out)>,
    pub conv: fn(&D) -> Option<Vec<(&'static str, Out)>>,
    /// the error of direct validation as {:?} and as its message
    pub fault: fn(&D, bool) -> Option<(String, String)>,
    /// serialised form and the expected one, for the value directly validated from the data
    pub ser: fn(&D, bool) -> Option<(Out, Result<D, String>, Option<D>)>,
    pub json: fn(&str) -> Result<Out, String>,
    pub json_res: fn(&str) -> Result<Out, String>,
    /// bincode there and back of the directly validated value
    pub bin: Option<fn(&D) -> Option<(Out, Result<Out, String>)>>,
}

pub fn shown<T: Debug>(v: &T) -> String {
    let mut t = format!("{v:?}");
    if t.starts_with("PhoneMany") {
        // a map in no particular order
        let mut c: Vec<char> = t.chars().collect();
        c.sort();
        t = c.into_iter().collect();
    }
    t
}

fn dbg<T: Debug>(v: &T) -> Fields {
    vec![("value", shown(v))]
}

fn out<T: Debug, E: Debug>(r: &Result<T, E>) -> Out {
    match r {
        Ok(v) => Out::Ok(dbg(v)),
        Err(e) => Out::Err(format!("{e:?}")),
    }
}

fn s_direct<T: ValidateString + Debug>(d: &D) -> Dir
where
    T::Error: Debug,
{
    match d {
        D::Str(s) => Dir::Out(run_str::<T>(s, dbg::<T>)),
        D::Char(c) => Dir::Out(run_str::<T>(&c.to_string(), dbg::<T>)),
        _ => Dir::Reject,
    }
}

macro_rules! direct {
    (Sb $t:ty, $d:ident, $h:ident) => { match $d { D::Bytes(b) => Dir::Out(run_bytes::<$t>(b, dbg::<$t>)), _ => s_direct::<$t>($d) } };
    (Boolean $t:ty, $d:ident, $h:ident) => { match ($d, $d.int()) {
        (_, Some(Ok(i))) => Dir::Out(run_signed::<$t>(i, dbg::<$t>)),
        (_, Some(Err(u))) => Dir::Out(run_unsigned::<$t>(u, dbg::<$t>)),
        (D::Bool(b), _) => Dir::Out(run_bool::<$t>(*b, dbg::<$t>)),
        (D::Char(b), _) => Dir::Out(run_char::<$t>(*b, dbg::<$t>)),
        _ => s_direct::<$t>($d),
    } };
    (Sint $t:ty, $d:ident, $h:ident) => { match $d.int() {
        Some(Ok(i)) => Dir::Out(run_signed::<$t>(i, dbg::<$t>)),
        Some(Err(_)) => Dir::Out(Out::Err("TooLarge".into())),
        _ => s_direct::<$t>($d),
    } };
    (Uint $t:ty, $d:ident, $h:ident) => { match $d.int() {
        Some(Ok(i)) if i < 0 => Dir::Out(Out::Err("TooSmall".into())),
        Some(Ok(i)) => Dir::Out(run_unsigned::<$t>(i as u128, dbg::<$t>)),
        Some(Err(u)) => Dir::Out(run_unsigned::<$t>(u, dbg::<$t>)),
        _ => s_direct::<$t>($d),
    } };
    (Num $t:ty, $d:ident, $h:ident) => { match $d {
        D::F32(x) => Dir::Out(run_f32::<$t>(f32::from_bits(*x), dbg::<$t>)),
        D::F64(x) => Dir::Out(run_f64::<$t>(f64::from_bits(*x), dbg::<$t>)),
        D::I128(_) | D::U128(_) => Dir::Any,
        _ => match $d.int() {
            Some(Ok(i)) => Dir::Out(run_f64::<$t>(i as f64, dbg::<$t>)),
            _ => s_direct::<$t>($d),
        },
    } };
    (Size $t:ty, $d:ident, $h:ident) => { match ($d, $h) {
        (D::Str(_) | D::Char(_), true) => s_direct::<$t>($d),
        (D::U128(u), false) => Dir::Out(run_unsigned::<$t>(*u, dbg::<$t>)),
        (D::Str(_) | D::Char(_) | D::Bytes(_), _) => Dir::Any,
        (d, _) if d.int().is_some() => Dir::Any,
        _ => Dir::Reject,
    } };
    (Json $t:ty, $d:ident, $h:ident) => { match $d {
        D::I128(_) | D::U128(_) => Dir::Any,
        D::Bytes(_) => Dir::Reject,
        _ => match serde_json::Value::deserialize(De { d: $d, human: $h, own: Own::Transient }) {
            Ok(v) => Dir::Out(with_validate(out(&<$t>::parse_json_value(v.clone())), <$t>::validate_json_value(v))),
            Err(_) => Dir::Reject,
        },
    } };
    (Len $t:ty, $d:ident, $h:ident) => {{
        let w = serde::de::Deserialize::deserialize(De { d: $d, human: $h, own: Own::Transient });
        match w {
            Ok(v) => {
                let k = <$t>::validate_collection(&v);
                Dir::Out(with_validate(out(&<$t>::parse_collection(v)), k))
            }
            Err(_) => Dir::Reject,
        }
    }};
    ($k:ident $t:ty, $d:ident, $h:ident) => { s_direct::<$t>($d) };
}

macro_rules! every {
    (Sb $t:ty, $d:ident) => { match $d {
        D::Str(s) => vec![("text", run_str::<$t>(s, dbg::<$t>)), ("bytes", run_bytes::<$t>(s.as_bytes(), dbg::<$t>))],
        D::Bytes(b) => vec![("bytes", run_bytes::<$t>(b, dbg::<$t>))],
        _ => vec![],
    } };
    (Boolean $t:ty, $d:ident) => { match ($d, $d.int()) {
        (_, Some(Ok(i))) if i == 0 || i == 1 => vec![
            ("signed integer", run_signed::<$t>(i, dbg::<$t>)),
            ("unsigned integer", run_unsigned::<$t>(i as u128, dbg::<$t>)),
            ("bool", run_bool::<$t>(i == 1, dbg::<$t>)),
            ("char", run_char::<$t>((b'0' + i as u8) as char, dbg::<$t>)),
            ("text", run_str::<$t>(&i.to_string(), dbg::<$t>)),
        ],
        (_, Some(Ok(i))) => {
            let mut v = vec![("signed integer", run_signed::<$t>(i, dbg::<$t>)), ("text", run_str::<$t>(&i.to_string(), dbg::<$t>))];
            if i >= 0 {
                v.push(("unsigned integer", run_unsigned::<$t>(i as u128, dbg::<$t>)));
            }
            v
        }
        (_, Some(Err(u))) => vec![("unsigned integer", run_unsigned::<$t>(u, dbg::<$t>)), ("text", run_str::<$t>(&u.to_string(), dbg::<$t>))],
        (D::Char(b), _) => vec![("char", run_char::<$t>(*b, dbg::<$t>)), ("text", run_str::<$t>(&b.to_string(), dbg::<$t>))],
        (D::Str(s), _) => vec![("text", run_str::<$t>(s, dbg::<$t>))],
        _ => vec![],
    } };
    (Sint $t:ty, $d:ident) => { match ($d, $d.int()) {
        (_, Some(Ok(i))) => vec![("integer", run_signed::<$t>(i, dbg::<$t>)), ("text", run_str::<$t>(&i.to_string(), dbg::<$t>))],
        (D::Str(s), _) => vec![("text", run_str::<$t>(s, dbg::<$t>))],
        _ => vec![],
    } };
    (Uint $t:ty, $d:ident) => { match ($d, $d.int()) {
        (_, Some(Ok(i))) if i < 0 => vec![],
        (_, Some(i)) => { let u = i.map(|i| i as u128).unwrap_or_else(|u| u); vec![("integer", run_unsigned::<$t>(u, dbg::<$t>)), ("text", run_str::<$t>(&u.to_string(), dbg::<$t>))] }
        (D::Str(s), _) => vec![("text", run_str::<$t>(s, dbg::<$t>))],
        _ => vec![],
    } };
    (Num $t:ty, $d:ident) => { match $d {
        D::F32(x) => vec![("f32", run_f32::<$t>(f32::from_bits(*x), dbg::<$t>)), ("f64", run_f64::<$t>(f32::from_bits(*x) as f64, dbg::<$t>))],
        D::F64(x) => {
            let x = f64::from_bits(*x);
            let mut v = vec![("f64", run_f64::<$t>(x, dbg::<$t>))];
            if (x as f32) as f64 == x {
                v.push(("f32", run_f32::<$t>(x as f32, dbg::<$t>)));
            }
            v
        }
        D::Str(s) => vec![("text", run_str::<$t>(s, dbg::<$t>))],
        _ => vec![],
    } };
    (Size $t:ty, $d:ident) => { match ($d, $d.int()) {
        (D::Str(s), _) => vec![("text", run_str::<$t>(s, dbg::<$t>))],
        (_, Some(Ok(i))) if i < 0 => vec![],
        (_, Some(i)) => { let u = i.map(|i| i as u128).unwrap_or_else(|u| u); vec![("integer", run_unsigned::<$t>(u, dbg::<$t>)), ("text", run_str::<$t>(&u.to_string(), dbg::<$t>))] }
        _ => vec![],
    } };
    (Json $t:ty, $d:ident) => {{
        let mut v: Vec<(&'static str, Out)> = vec![];
        if let D::Str(s) = $d {
            // a JSON text, not a JSON string
            return vec![("text", run_str::<$t>(s, dbg::<$t>))];
        }
        if let Some(j) = $d.json() {
            let t = j.to_string();
            match ($d, $d.int()) {
                (_, Some(Ok(i))) => {
                    v.push(("signed integer", run_signed::<$t>(i, dbg::<$t>)));
                    if i >= 0 {
                        v.push(("unsigned integer", run_unsigned::<$t>(i as u128, dbg::<$t>)));
                    }
                }
                (D::F64(x), _) => v.push(("f64", run_f64::<$t>(f64::from_bits(*x), dbg::<$t>))),
                (D::Bool(b), _) => v.push(("bool", run_bool::<$t>(*b, dbg::<$t>))),
                _ => {}
            }
            v.push(("value", with_validate(out(&<$t>::parse_json_value(j.clone())), <$t>::validate_json_value(j.clone()))));
            if serde_json::from_str::<Value>(&t).ok() == Some(j) {
                v.push(("text", run_str::<$t>(&t, dbg::<$t>)));
            }
        } else if let D::F32(x) = $d {
            v.push(("f32", run_f32::<$t>(f32::from_bits(*x), dbg::<$t>)));
        } else if let D::F64(x) = $d {
            v.push(("f64", run_f64::<$t>(f64::from_bits(*x), dbg::<$t>)));
        } else if let Some(i) = $d.int() {
            match i {
                Ok(i) => v.push(("signed integer", run_signed::<$t>(i, dbg::<$t>))),
                Err(u) => v.push(("unsigned integer", run_unsigned::<$t>(u, dbg::<$t>))),
            }
        }
        v
    }};
    (Len $t:ty, $d:ident) => { match direct!(Len $t, $d, SELF) { Dir::Out(o) => vec![("collection", o)], _ => vec![] } };
    ($k:ident $t:ty, $d:ident) => { match $d { D::Str(s) => vec![("text", run_str::<$t>(s, dbg::<$t>))], _ => vec![] } };
}

const SELF: bool = true;

/// the directly validated value itself
macro_rules! value {
    (Sb $t:ty, $d:ident, $h:expr) => { match $d { D::Bytes(b) => <$t>::parse_u8_slice(b).ok(), D::Str(s) => <$t>::parse_str(s).ok(), _ => None } };
    (Boolean $t:ty, $d:ident, $h:expr) => { match $d { D::Bool(b) => <$t>::parse_bool(*b).ok(), D::Str(s) => <$t>::parse_str(s).ok(), _ => None } };
    (Sint $t:ty, $d:ident, $h:expr) => { match ($d, $d.int()) { (_, Some(Ok(i))) => <$t>::parse_i128(i).ok(), (D::Str(s), _) => <$t>::parse_str(s).ok(), _ => None } };
    (Uint $t:ty, $d:ident, $h:expr) => { match ($d, $d.int()) { (_, Some(Ok(i))) if i >= 0 => <$t>::parse_u128(i as u128).ok(), (_, Some(Err(u))) => <$t>::parse_u128(u).ok(), (D::Str(s), _) => <$t>::parse_str(s).ok(), _ => None } };
    (Num $t:ty, $d:ident, $h:expr) => { match $d { D::F64(x) => <$t>::parse_f64(f64::from_bits(*x)).ok(), D::F32(x) => <$t>::parse_f32(f32::from_bits(*x)).ok(), D::Str(s) => <$t>::parse_str(s).ok(), _ => None } };
    (Size $t:ty, $d:ident, $h:expr) => { match $d { D::U128(u) => <$t>::parse_u128(*u).ok(), D::Str(s) => <$t>::parse_str(s).ok(), _ => None } };
    (Json $t:ty, $d:ident, $h:expr) => { serde_json::Value::deserialize(De { d: $d, human: $h, own: Own::Owned }).ok().and_then(|v| <$t>::parse_json_value(v).ok()) };
    (Len $t:ty, $d:ident, $h:expr) => { serde::de::Deserialize::deserialize(De { d: $d, human: $h, own: Own::Owned }).ok().and_then(|v| <$t>::parse_collection(v).ok()) };
    ($k:ident $t:ty, $d:ident, $h:expr) => { match $d { D::Str(s) => <$t>::parse_str(s).ok(), _ => None } };
}

fn told<T, E: std::error::Error>(r: Result<T, E>) -> Option<(String, String)> {
    r.err().map(|e| (format!("{e:?}"), e.to_string()))
}

/// the error of the entry point the deserialiser uses
macro_rules! fault {
    (Sb $t:ty, $d:ident, $h:expr) => { match $d { D::Bytes(b) => told(<$t>::parse_u8_slice(b)), D::Str(s) => told(<$t>::parse_str(s)), D::Char(s) => told(<$t>::parse_string(*s)), _ => None } };
    (Boolean $t:ty, $d:ident, $h:expr) => { match ($d, $d.int()) { (_, Some(Ok(i))) => told(<$t>::parse_i128(i)), (D::Str(s), _) => told(<$t>::parse_str(s)), (D::Char(s), _) => told(<$t>::parse_char(*s)), _ => None } };
    (Sint $t:ty, $d:ident, $h:expr) => { match ($d, $d.int()) { (_, Some(Ok(i))) => told(<$t>::parse_i128(i)), (D::Str(s), _) => told(<$t>::parse_str(s)), (D::Char(s), _) => told(<$t>::parse_string(*s)), _ => None } };
    (Uint $t:ty, $d:ident, $h:expr) => { match ($d, $d.int()) { (_, Some(Ok(i))) if i >= 0 => told(<$t>::parse_u128(i as u128)), (_, Some(Err(u))) => told(<$t>::parse_u128(u)), (D::Str(s), _) => told(<$t>::parse_str(s)), _ => None } };
    (Num $t:ty, $d:ident, $h:expr) => { match $d { D::F64(x) => told(<$t>::parse_f64(f64::from_bits(*x))), D::F32(x) => told(<$t>::parse_f32(f32::from_bits(*x))), D::Str(s) => told(<$t>::parse_str(s)), _ => None } };
    (Size $t:ty, $d:ident, $h:expr) => { match ($d, $h) { (D::Str(s), true) => told(<$t>::parse_str(s)), _ => None } };
    (Json $t:ty, $d:ident, $h:expr) => { match $d { D::I128(_) | D::U128(_) => None, _ => serde_json::Value::deserialize(De { d: $d, human: $h, own: Own::Owned }).ok().and_then(|v| told(<$t>::parse_json_value(v))) } };
    (Len $t:ty, $d:ident, $h:expr) => { serde::de::Deserialize::deserialize(De { d: $d, human: $h, own: Own::Owned }).ok().and_then(|v| told(<$t>::parse_collection(v))) };
    ($k:ident $t:ty, $d:ident, $h:expr) => { match $d { D::Str(s) => told(<$t>::parse_str(s)), D::Char(s) => told(<$t>::parse_string(*s)), _ => None } };
}

fn float(v: impl Into<f64>) -> Option<D> {
    Some(D::F64(v.into().to_bits()))
}

/// the canonical serialised form
macro_rules! canon {
    (Text $v:ident, $h:expr) => { Some(D::Str($v.0.clone())) };
    (Base $v:ident, $h:expr) => { Some(D::Str($v.0.clone())) };
    (Dec $v:ident, $h:expr) => { Some(D::Bytes($v.0.clone())) };
    (Uri $v:ident, $h:expr) => { Some(D::Str($v.to_uri_authority_string().to_string())) };
    (Mail $v:ident, $h:expr) => { Some(D::Str($v.to_email_string().to_string())) };
    (Mac $v:ident, $h:expr) => { Some(D::Str($v.to_mac_address_string())) };
    (Uuid $v:ident, $h:expr) => { Some(D::Str($v.to_uuid_string())) };
    (Url $v:ident, $h:expr) => { Some(D::Str($v.0.as_str().to_string())) };
    (Http $v:ident, $h:expr) => { Some(D::Str($v.url.as_str().to_string())) };
    (Disp $v:ident, $h:expr) => { Some(D::Str($v.0.to_string())) };
    (Boolean $v:ident, $h:expr) => { Some(D::Bool($v.0)) };
    (Sint $v:ident, $h:expr) => { Some(D::I128($v.0 as i128)) };
    (Uint $v:ident, $h:expr) => { Some(D::U128($v.0 as u128)) };
    (Num $v:ident, $h:expr) => { float($v.0) };
    (Bits $v:ident, $h:expr) => { if $h { None } else { Some(D::U128($v.0.as_u128())) } };
    (Json $v:ident, $h:expr) => { Some(D::Str($v.to_minified_json_string())) };
    (Phone $v:ident, $h:expr) => { None };
    (Len $v:ident, $h:expr) => { $v.0.serialize(Rec($h)).ok() };
}

macro_rules! conv {
    (Sb $t:ty, $e:ty, $d:ident) => { match $d {
        D::Bytes(b) => vec![("From<&[u8]>", cap(validators::Result::<$t, $e>::from(b.as_slice()))), ("From<Vec<u8>>", cap(validators::Result::<$t, $e>::from(b.clone())))],
        _ => conv!(S $t, $e, $d),
    } };
    (Boolean $t:ty, $e:ty, $d:ident) => { match $d {
        D::Bool(b) => vec![("From<bool>", cap(validators::Result::<$t, $e>::from(*b)))],
        D::Char(b) => vec![("From<char>", cap(validators::Result::<$t, $e>::from(*b)))],
        _ if matches!($d, D::I8(_) | D::I16(_) | D::I32(_) | D::I64(_) | D::I128(_)) => conv!(Sint $t, $e, $d),
        _ => conv!(Uint $t, $e, $d),
    } };
    (Sint $t:ty, $e:ty, $d:ident) => { match $d {
        D::I8(b) => vec![("From<i8>", cap(validators::Result::<$t, $e>::from(*b)))],
        D::I16(b) => vec![("From<i16>", cap(validators::Result::<$t, $e>::from(*b)))],
        D::I32(b) => vec![("From<i32>", cap(validators::Result::<$t, $e>::from(*b)))],
        D::I64(b) => vec![("From<i64>", cap(validators::Result::<$t, $e>::from(*b))), ("From<isize>", cap(validators::Result::<$t, $e>::from(*b as isize)))],
        D::I128(b) => vec![("From<i128>", cap(validators::Result::<$t, $e>::from(*b)))],
        _ => conv!(S $t, $e, $d),
    } };
    (Uint $t:ty, $e:ty, $d:ident) => { match $d {
        D::U8(b) => vec![("From<u8>", cap(validators::Result::<$t, $e>::from(*b)))],
        D::U16(b) => vec![("From<u16>", cap(validators::Result::<$t, $e>::from(*b)))],
        D::U32(b) => vec![("From<u32>", cap(validators::Result::<$t, $e>::from(*b)))],
        D::U64(b) => vec![("From<u64>", cap(validators::Result::<$t, $e>::from(*b))), ("From<usize>", cap(validators::Result::<$t, $e>::from(*b as usize)))],
        D::U128(b) => vec![("From<u128>", cap(validators::Result::<$t, $e>::from(*b)))],
        _ => conv!(S $t, $e, $d),
    } };
    (Num $t:ty, $e:ty, $d:ident) => { match $d {
        D::F32(b) => vec![("From<f32>", cap(validators::Result::<$t, $e>::from(f32::from_bits(*b))))],
        D::F64(b) => vec![("From<f64>", cap(validators::Result::<$t, $e>::from(f64::from_bits(*b))))],
        _ => conv!(S $t, $e, $d),
    } };
    (Size $t:ty, $e:ty, $d:ident) => { conv!(Uint $t, $e, $d) };
    (Json $t:ty, $e:ty, $d:ident) => { match $d.json() {
        Some(v) if !matches!($d, D::F32(_)) => vec![("From<Value>", cap(validators::Result::<$t, $e>::from(v)))],
        _ => vec![],
    } };
    (Len $t:ty, $e:ty, $d:ident) => { vec![] };
    ($k:ident $t:ty, $e:ty, $d:ident) => { match $d {
        D::Str(s) => vec![
            ("FromStr", cap(s.parse::<validators::Result<$t, $e>>().expect("FromStr must not fail"))),
            ("From<&str>", cap(validators::Result::<$t, $e>::from(s.as_str()))),
            ("From<String>", cap(validators::Result::<$t, $e>::from(s.clone()))),
        ],
        _ => vec![],
    } };
}

/// everything that can be seen of a capturing result must agree
fn cap<T: Debug, E: Debug>(r: validators::Result<T, E>) -> Out {
    let a = out(r.as_std_result());
    let b = out(&*r);
    let d = format!("{r:?}");
    let want = format!("{:?}", r.as_std_result());
    let ok = r.is_ok();
    let mut r = r;
    let m: &mut Result<T, E> = &mut r;
    let e = out(&*m);
    let s: Result<T, E> = r.into_std_result();
    let c = out(&s);
    let back: validators::Result<T, E> = s.into();
    let s: Result<T, E> = back.into();
    let f = out(&s);
    let n: validators::Result<T, E> = validators::Result::new(s);
    let g = out(&*n);
    if b != a || c != a || e != a || f != a || g != a || d != want || ok != a.is_ok() {
        return Out::Broken(format!("views of a captured result differ: as_std_result {a:?}, deref {b:?}, deref_mut {e:?}, into_std_result {c:?}, there and back {f:?}, new {g:?}, {d}, is_ok {ok}"));
    }
    a
}

/// the same without the conversions, for results that remember the kind of collection
fn cap_kind<T: Debug, E: Debug, K>(r: validators::Result<T, E, K>) -> Out {
    let a = out(r.as_std_result());
    let s: Result<T, E> = r.into_std_result();
    let c = out(&s);
    let n: validators::Result<T, E, K> = validators::Result::new(s);
    let g = out(n.as_std_result());
    if c != a || g != a {
        return Out::Broken(format!("views of a captured result differ: as_std_result {a:?}, into_std_result {c:?}, new {g:?}"));
    }
    a
}

macro_rules! res {
    (Len $t:ty, $e:ty, $x:expr) => { $x.map(|r: validators::Result<$t, $e, _>| cap_kind(r)) };
    ($k:ident $t:ty, $e:ty, $x:expr) => { $x.map(|r: validators::Result<$t, $e>| cap(r)) };
}

macro_rules! bin {
    (no $t:ty, $kind:ident) => { None };
    (bin $t:ty, $kind:ident) => { Some(|d: &D| {
        let v: $t = value!($kind $t, d, false)?;
        let a = Out::Ok(dbg(&v));
        let r = bincode::serialize(&v).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize::<$t>(&b).map_err(|e| e.to_string()));
        Some((a, r.map(|v| Out::Ok(dbg(&v)))))
    }) };
}

/// the set: [name, error, kind of data, canonical form, whether bincode can read it] validator (attributes) => fields
#[macro_export]
macro_rules! few_rows {
    ($m:ident) => { $m! {
    [B32, Base32Error, Sb, Base, no] base32 () => (pub String)
    [B32M, Base32Error, Sb, Base, no] base32 (padding(Must)) => (pub String)
    [B32D, Base32Error, Sb, Base, no] base32 (padding(Disallow)) => (pub String)
    [B64, Base64Error, Sb, Base, no] base64 () => (pub String)
    [B64M, Base64Error, Sb, Base, no] base64 (padding(Must)) => (pub String)
    [B64U, Base64UrlError, Sb, Base, no] base64_url () => (pub String)
    [B64UD, Base64UrlError, Sb, Base, no] base64_url (padding(Disallow)) => (pub String)
    [D32, Base32DecodedError, Sb, Dec, no] base32_decoded () => (pub Vec<u8>)
    [D32M, Base32DecodedError, Sb, Dec, no] base32_decoded (padding(Must)) => (pub Vec<u8>)
    [D64, Base64DecodedError, Sb, Dec, no] base64_decoded () => (pub Vec<u8>)
    [D64D, Base64DecodedError, Sb, Dec, no] base64_decoded (padding(Disallow)) => (pub Vec<u8>)
    [D64U, Base64UrlDecodedError, Sb, Dec, no] base64_url_decoded () => (pub Vec<u8>)
    [D64UM, Base64UrlDecodedError, Sb, Dec, no] base64_url_decoded (padding(Must)) => (pub Vec<u8>)
    [Bit1, BitError, Size, Bits, bin] bit () => (pub byte_unit::Bit)
    [Bit2, BitError, Size, Bits, bin] bit (range(min = 1000, max = 1000000)) => (pub byte_unit::Bit)
    [Byte1, ByteError, Size, Bits, bin] byte () => (pub byte_unit::Byte)
    [Byte2, ByteError, Size, Bits, bin] byte (ignore_case = false, range(min = 1024, max = 1048576)) => (pub byte_unit::Byte)
    [Byte3, ByteError, Size, Bits, bin] byte (ignore_case = true) => (pub byte_unit::Byte)
    [Bool, BooleanError, Boolean, Boolean, no] boolean () => (pub bool)
    [Dom, DomainError, S, Uri, no] domain (ipv4(Allow), local(Allow), port(Allow)) => { pub domain: String, pub port: Option<u16> }
    [Dom1, DomainError, S, Uri, no] domain (ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Must)) => (pub String)
    [Dom2, DomainError, S, Uri, no] domain (ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Allow)) => { pub domain: String, pub port: u16 }
    [Dom3, DomainError, S, Uri, no] domain (ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Allow)) => (pub String)
    [Mail, EmailError, S, Mail, bin] email () => { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
    [Mail1, EmailError, S, Mail, bin] email (comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)) => { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
    [Mail2, EmailError, S, Mail, bin] email (comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)) => { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
    [Hst, HostError, S, Uri, bin] host (local(Allow), port(Allow)) => { pub host: Host, pub port: Option<u16> }
    [Hst1, HostError, S, Uri, bin] host (local(Allow), port(Must), at_least_two_labels(Allow)) => { pub host: Host, pub port: u16 }
    [Hst2, HostError, S, Uri, bin] host (local(Disallow), port(Disallow), at_least_two_labels(Must)) => (pub Host)
    [HUrl, HttpURLError, S, Http, bin] http_url () => { pub url: Url, pub is_https: bool }
    [HUrl1, HttpURLError, S, Http, bin] http_url (local(Disallow)) => { pub url: Url, pub is_https: bool }
    [FUrl, HttpFtpURLError, S, Http, bin] http_ftp_url () => { pub url: Url, pub protocol: Protocol }
    [FUrl1, HttpFtpURLError, S, Http, bin] http_ftp_url (local(Must)) => { pub url: Url, pub protocol: Protocol }
    [Ip, IpError, S, Uri, bin] ip (port(Allow)) => { pub ip: std::net::IpAddr, pub port: Option<u16> }
    [Ip1, IpError, S, Uri, bin] ip (local(Disallow), port(Disallow)) => (pub std::net::IpAddr)
    [Ip2, IpError, S, Uri, bin] ip (local(Allow), port(Must)) => { pub ip: std::net::IpAddr, pub port: u16 }
    [Ip4, Ipv4Error, S, Uri, bin] ipv4 (port(Allow)) => { pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }
    [Ip41, Ipv4Error, S, Uri, bin] ipv4 (local(Must), port(Disallow)) => (pub std::net::Ipv4Addr)
    [Ip6, Ipv6Error, S, Uri, bin] ipv6 (port(Allow)) => { pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }
    [Ip61, Ipv6Error, S, Uri, bin] ipv6 (local(Allow), port(Disallow)) => (pub std::net::Ipv6Addr)
    [JsV, JsonError, Json, Json, no] json () => (pub Value)
    [JsI, JsonError, Json, Json, no] json () => (pub i64)
    [JsS, JsonError, Json, Json, no] json () => (pub String)
    [JsO, JsonError, Json, Json, no] json () => (pub Option<f64>)
    [JsP, JsonError, Json, Json, no] json () => (pub Pt)
    [JsL, JsonError, Json, Json, no] json () => (pub Vec<u8>)
    [Len1, LengthError, Len, Len, bin] length (min = 1, max = 3) => (pub Vec<i32>)
    [Len2, LengthError, Len, Len, bin] length (max = 2) => (pub std::collections::BTreeMap<String, u8>)
    [Len3, LengthError, Len, Len, bin] length (min = 2) => (pub std::collections::BTreeSet<i16>)
    [Len4, LengthError, Len, Len, bin] length (min = 1, max = 2) => (pub Vec<ty::Line1>)
    [Line1, LineError, S, Text, bin] line () => (pub String)
    [Line2, LineError, S, Text, bin] line (char_length(trimmed_min = 1, min = 2, max = 5)) => (pub String)
    [Line3, LineError, S, Text, bin] line (byte_length(max = 6)) => (pub String)
    [Text1, TextError, S, Text, bin] text () => (pub String)
    [Text2, TextError, S, Text, bin] text (char_length(trimmed_min = 2, min = 3, max = 8)) => (pub String)
    [Text3, TextError, S, Text, bin] text (byte_length(min = 1)) => (pub String)
    [Mac1, MacAddressError, S, Mac, bin] mac_address (case(Any), separator(Allow(b':'))) => (pub u64)
    [Mac2, MacAddressError, S, Mac, bin] mac_address (case(Lower), separator(Must(b'-'))) => (pub u64)
    [Mac3, MacAddressError, S, Mac, bin] mac_address (case(Upper), separator(Disallow)) => (pub u64)
    [Uuid1, UuidError, S, Uuid, bin] uuid (case(Any), separator(Allow(b'-'))) => (pub u128)
    [Uuid2, UuidError, S, Uuid, bin] uuid (case(Lower), separator(Disallow)) => (pub u128)
    [Uuid3, UuidError, S, Uuid, bin] uuid (case(Upper), separator(Must(b':'))) => (pub u128)
    [Num1, NumberError, Num, Num, no] number () => (pub f64)
    [Num2, NumberError, Num, Num, no] number (nan(Disallow), range(Inside(min = 0, max = 1.5))) => (pub f64)
    [Num3, NumberError, Num, Num, no] number (nan(Allow), range(Outside(min = -1, max = 1))) => (pub f32)
    [Num4, NumberError, Num, Num, no] number (nan(Disallow)) => (pub f32)
    [Phone1, PhoneError, S, Phone, bin] phone () => (pub phonenumber::PhoneNumber)
    [Phone2, PhoneError, S, Phone, bin] phone (countries(TW)) => (pub phonenumber::PhoneNumber)
    [PhoneMany, PhoneError, S, Phone, bin] phone (countries(TW, US, JP)) => (pub std::collections::HashMap<phonenumber::country::Id, phonenumber::PhoneNumber>)
    [Re1, RegexError, S, Text, bin] regex (regex = RE_FEW) => (pub String)
    [Ver, SemverError, S, Disp, bin] semver () => (pub vsemver::Version)
    [Req, SemverError, S, Disp, bin] semver_req () => (pub vsemver::VersionReq)
    [I8, SignedIntegerError, Sint, Sint, no] signed_integer () => (pub i8)
    [I64, SignedIntegerError, Sint, Sint, no] signed_integer (range(Inside(min = -5, max = 1000))) => (pub i64)
    [I128, SignedIntegerError, Sint, Sint, no] signed_integer () => (pub i128)
    [Isz, SignedIntegerError, Sint, Sint, no] signed_integer (range(Outside(min = 0, max = 9))) => (pub isize)
    [I16, SignedIntegerError, Sint, Sint, no] signed_integer (range(Outside(min = -1, max = 1))) => (pub i16)
    [I32, SignedIntegerError, Sint, Sint, no] signed_integer (range(Inside(max = 1000))) => (pub i32)
    [U32, UnsignedIntegerError, Uint, Uint, no] unsigned_integer (range(Outside(min = 5, max = 1000))) => (pub u32)
    [Usz, UnsignedIntegerError, Uint, Uint, no] unsigned_integer (range(Outside(max = 9))) => (pub usize)
    [U8, UnsignedIntegerError, Uint, Uint, no] unsigned_integer () => (pub u8)
    [U16, UnsignedIntegerError, Uint, Uint, no] unsigned_integer (range(Inside(min = 5, max = 1000))) => (pub u16)
    [U64, UnsignedIntegerError, Uint, Uint, no] unsigned_integer () => (pub u64)
    [U128, UnsignedIntegerError, Uint, Uint, no] unsigned_integer (range(Inside(min = 1))) => (pub u128)
    [Url1, UrlError, S, Url, bin] url () => (pub Url)
    } };
}

macro_rules! few {
    ($([$n:ident, $e:ty, $kind:ident, $canon:ident, $bin:ident] $v:ident ($($attr:tt)*) => $body:tt)*) => {
        pub mod ty {
            use super::*;
            $(few!(@def $n, $v, ($($attr)*), $body);)*
        }
        mod f {
            #![allow(non_snake_case)]
            use super::*;
            $(pub mod $n {
                use super::*;
                type T = ty::$n;
                #[allow(unused_variables)]
                pub fn direct(d: &D, h: bool) -> Dir { direct!($kind T, d, h) }
                pub fn de(d: De) -> Result<Out, String> { T::deserialize(d).map(|v| Out::Ok(dbg(&v))).map_err(|e| e.0) }
                pub fn de_res(d: De) -> Result<Out, String> { res!($kind T, $e, Deserialize::deserialize(d)).map_err(|e| e.0) }
                #[allow(unused_variables)]
                pub fn every(d: &D) -> Vec<(&'static str, Out)> { every!($kind T, d) }
                #[allow(unused_variables)]
                pub fn conv(d: &D) -> Option<Vec<(&'static str, Out)>> { let v: Vec<(&'static str, Out)> = conv!($kind T, $e, d); if v.is_empty() { None } else { Some(v) } }
                #[allow(unused_variables)]
                pub fn fault(d: &D, h: bool) -> Option<(String, String)> { fault!($kind T, d, h) }
                #[allow(unused_variables)]
                pub fn ser(d: &D, h: bool) -> Option<(Out, Result<D, String>, Option<D>)> {
                    let v: T = value!($kind T, d, h)?;
                    Some((Out::Ok(dbg(&v)), v.serialize(Rec(h)).map_err(|e| e.0), canon!($canon v, h)))
                }
                pub fn json(s: &str) -> Result<Out, String> { serde_json::from_str::<T>(s).map(|v| Out::Ok(dbg(&v))).map_err(|e| e.to_string()) }
                pub fn json_res(s: &str) -> Result<Out, String> { res!($kind T, $e, serde_json::from_str(s)).map_err(|e| e.to_string()) }
                pub const BIN: Option<fn(&D) -> Option<(Out, Result<Out, String>)>> = bin!($bin T, $kind);
            })*
        }
        pub static FEW: &[Few] = &[$(Few {
            name: concat!(stringify!($n), " ", stringify!($v), " ", stringify!($($attr)*)), kind: stringify!($canon), v: stringify!($v),
            direct: f::$n::direct, de: f::$n::de, de_res: f::$n::de_res, every: f::$n::every, conv: f::$n::conv, fault: f::$n::fault, ser: f::$n::ser, json: f::$n::json, json_res: f::$n::json_res, bin: f::$n::BIN,
        },)*];
    };
    (@def $n:ident, $v:ident, ($($attr:tt)*), ($($b:tt)*)) => { #[derive(Debug, Clone, Validator)] #[validator($v($($attr)*))] pub struct $n($($b)*); };
    (@def $n:ident, $v:ident, ($($attr:tt)*), {$($b:tt)*}) => { #[derive(Debug, Clone, Validator)] #[validator($v($($attr)*))] pub struct $n { $($b)* } };
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Pt {
    a: i64,
    #[serde(default)]
    b: Option<String>,
}

use validators::{byte_unit, models::Host, models::Protocol, regex::Regex, semver as vsemver, serde_json::Value, url::Url};
pub static RE_FEW: std::sync::LazyLock<Regex> = std::sync::LazyLock::new(|| Regex::new("^[a-c]+$").unwrap());

few_rows!(few);
