// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded(padding(Must)))]
pub struct V0x(pub Vec<u8>);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded(padding(Allow)))]
pub struct V1x(pub Vec<u8>);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded(padding(Disallow)))]
pub struct V2x(pub Vec<u8>);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded)]
pub struct V3x(pub Vec<u8>);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded(padding(Must)))]
pub struct V4x(pub Vec<u8>);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded(padding(Allow)))]
pub struct V5x(pub Vec<u8>);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded(padding(Disallow)))]
pub struct V6x(pub Vec<u8>);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded)]
pub struct V7x(pub Vec<u8>);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded(padding(Must)))]
pub struct V8x(pub Vec<u8>);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct V9x(pub Vec<u8>);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded(padding(Disallow)))]
pub struct V10x(pub Vec<u8>);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded)]
pub struct V11x(pub Vec<u8>);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("bytes", hex(&v.0)), ("len", CollectionLength::len(v).to_string()), ("empty", CollectionLength::is_empty(v).to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "base32_decoded(padding(Must))", v: "base32_decoded", attr: "padding(Must)", opts: &[("padding", "Must")], ty: "Vec<u8>", run: run_0 },
    Cfg { name: "base32_decoded(padding(Allow))", v: "base32_decoded", attr: "padding(Allow)", opts: &[("padding", "Allow")], ty: "Vec<u8>", run: run_1 },
    Cfg { name: "base32_decoded(padding(Disallow))", v: "base32_decoded", attr: "padding(Disallow)", opts: &[("padding", "Disallow")], ty: "Vec<u8>", run: run_2 },
    Cfg { name: "base32_decoded()", v: "base32_decoded", attr: "", opts: &[("padding", "Allow")], ty: "Vec<u8>", run: run_3 },
    Cfg { name: "base64_decoded(padding(Must))", v: "base64_decoded", attr: "padding(Must)", opts: &[("padding", "Must")], ty: "Vec<u8>", run: run_4 },
    Cfg { name: "base64_decoded(padding(Allow))", v: "base64_decoded", attr: "padding(Allow)", opts: &[("padding", "Allow")], ty: "Vec<u8>", run: run_5 },
    Cfg { name: "base64_decoded(padding(Disallow))", v: "base64_decoded", attr: "padding(Disallow)", opts: &[("padding", "Disallow")], ty: "Vec<u8>", run: run_6 },
    Cfg { name: "base64_decoded()", v: "base64_decoded", attr: "", opts: &[("padding", "Allow")], ty: "Vec<u8>", run: run_7 },
    Cfg { name: "base64_url_decoded(padding(Must))", v: "base64_url_decoded", attr: "padding(Must)", opts: &[("padding", "Must")], ty: "Vec<u8>", run: run_8 },
    Cfg { name: "base64_url_decoded(padding(Allow))", v: "base64_url_decoded", attr: "padding(Allow)", opts: &[("padding", "Allow")], ty: "Vec<u8>", run: run_9 },
    Cfg { name: "base64_url_decoded(padding(Disallow))", v: "base64_url_decoded", attr: "padding(Disallow)", opts: &[("padding", "Disallow")], ty: "Vec<u8>", run: run_10 },
    Cfg { name: "base64_url_decoded()", v: "base64_url_decoded", attr: "", opts: &[("padding", "Allow")], ty: "Vec<u8>", run: run_11 },
];
