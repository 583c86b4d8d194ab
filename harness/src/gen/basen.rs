// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32(padding(Must)))]
pub struct V0x(pub String);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32(padding(Allow)))]
pub struct V1x(pub String);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32(padding(Disallow)))]
pub struct V2x(pub String);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32)]
pub struct V3x(pub String);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64(padding(Must)))]
pub struct V4x(pub String);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64(padding(Allow)))]
pub struct V5x(pub String);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64(padding(Disallow)))]
pub struct V6x(pub String);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64)]
pub struct V7x(pub String);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url(padding(Must)))]
pub struct V8x(pub String);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url(padding(Allow)))]
pub struct V9x(pub String);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url(padding(Disallow)))]
pub struct V10x(pub String);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url)]
pub struct V11x(pub String);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("text", v.0.clone())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Bytes(b) => run_bytes::<Vx>(b, f), _ => panic!("HARNESS: input") } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "base32(padding(Must))", v: "base32", attr: "padding(Must)", opts: &[("padding", "Must")], ty: "String", run: run_0 },
    Cfg { name: "base32(padding(Allow))", v: "base32", attr: "padding(Allow)", opts: &[("padding", "Allow")], ty: "String", run: run_1 },
    Cfg { name: "base32(padding(Disallow))", v: "base32", attr: "padding(Disallow)", opts: &[("padding", "Disallow")], ty: "String", run: run_2 },
    Cfg { name: "base32()", v: "base32", attr: "", opts: &[("padding", "Allow")], ty: "String", run: run_3 },
    Cfg { name: "base64(padding(Must))", v: "base64", attr: "padding(Must)", opts: &[("padding", "Must")], ty: "String", run: run_4 },
    Cfg { name: "base64(padding(Allow))", v: "base64", attr: "padding(Allow)", opts: &[("padding", "Allow")], ty: "String", run: run_5 },
    Cfg { name: "base64(padding(Disallow))", v: "base64", attr: "padding(Disallow)", opts: &[("padding", "Disallow")], ty: "String", run: run_6 },
    Cfg { name: "base64()", v: "base64", attr: "", opts: &[("padding", "Allow")], ty: "String", run: run_7 },
    Cfg { name: "base64_url(padding(Must))", v: "base64_url", attr: "padding(Must)", opts: &[("padding", "Must")], ty: "String", run: run_8 },
    Cfg { name: "base64_url(padding(Allow))", v: "base64_url", attr: "padding(Allow)", opts: &[("padding", "Allow")], ty: "String", run: run_9 },
    Cfg { name: "base64_url(padding(Disallow))", v: "base64_url", attr: "padding(Disallow)", opts: &[("padding", "Disallow")], ty: "String", run: run_10 },
    Cfg { name: "base64_url()", v: "base64_url", attr: "", opts: &[("padding", "Allow")], ty: "String", run: run_11 },
];
