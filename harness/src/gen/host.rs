// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host)]
pub struct V0x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must)))]
pub struct V1x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow)))]
pub struct V2x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow)))]
pub struct V3x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(port(Must)))]
pub struct V4x { pub host: validators::models::Host, pub port: u16 }
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(port(Allow)))]
pub struct V5x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(port(Disallow)))]
pub struct V6x(pub validators::models::Host);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(at_least_two_labels(Must)))]
pub struct V7x { pub host: validators::models::Host, pub is_local: bool, pub port: Option<u16> }
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(at_least_two_labels(Allow)))]
pub struct V8x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(at_least_two_labels(Disallow)))]
pub struct V9x { pub host: validators::models::Host, pub is_local: bool, pub port: Option<u16> }
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Must)))]
pub struct V10x { pub host: validators::models::Host, pub port: u16 }
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct V11x { pub host: validators::models::Host, pub port: u16 }
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Disallow)))]
pub struct V12x { pub host: validators::models::Host, pub port: u16 }
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct V13x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct V14x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Disallow)))]
pub struct V15x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct V16x(pub validators::models::Host);
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct V17x(pub validators::models::Host);
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V18x(pub validators::models::Host);
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct V19x { pub host: validators::models::Host, pub is_local: bool, pub port: u16 }
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct V20x { pub host: validators::models::Host, pub port: u16 }
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Disallow)))]
pub struct V21x { pub host: validators::models::Host, pub is_local: bool, pub port: u16 }
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct V22x { pub host: validators::models::Host, pub is_local: bool, pub port: Option<u16> }
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct V23x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Disallow)))]
pub struct V24x { pub host: validators::models::Host, pub is_local: bool, pub port: Option<u16> }
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct V25x { pub host: validators::models::Host, pub is_local: bool }
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", String::new()), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V26x(pub validators::models::Host);
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V27x { pub host: validators::models::Host, pub is_local: bool }
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", String::new()), ("is_local", v.is_local.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct V28x { pub host: validators::models::Host, pub port: u16 }
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct V29x { pub host: validators::models::Host, pub port: u16 }
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Disallow)))]
pub struct V30x { pub host: validators::models::Host, pub port: u16 }
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct V31x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct V32x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Disallow)))]
pub struct V33x { pub host: validators::models::Host, pub port: Option<u16> }
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.host)), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct V34x(pub validators::models::Host);
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V35x(pub validators::models::Host);
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V36x(pub validators::models::Host);
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("host", format!("{:?}", v.0)), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "host()", v: "host", attr: "", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_0 },
    Cfg { name: "host(local(Must))", v: "host", attr: "local(Must)", opts: &[("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_1 },
    Cfg { name: "host(local(Allow))", v: "host", attr: "local(Allow)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_2 },
    Cfg { name: "host(local(Disallow))", v: "host", attr: "local(Disallow)", opts: &[("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_3 },
    Cfg { name: "host(port(Must))", v: "host", attr: "port(Must)", opts: &[("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_4 },
    Cfg { name: "host(port(Allow))", v: "host", attr: "port(Allow)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_5 },
    Cfg { name: "host(port(Disallow))", v: "host", attr: "port(Disallow)", opts: &[("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_6 },
    Cfg { name: "host(at_least_two_labels(Must))", v: "host", attr: "at_least_two_labels(Must)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_7 },
    Cfg { name: "host(at_least_two_labels(Allow))", v: "host", attr: "at_least_two_labels(Allow)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_8 },
    Cfg { name: "host(at_least_two_labels(Disallow))", v: "host", attr: "at_least_two_labels(Disallow)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_9 },
    Cfg { name: "host(local(Must), port(Must), at_least_two_labels(Must))", v: "host", attr: "local(Must), port(Must), at_least_two_labels(Must)", opts: &[("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_10 },
    Cfg { name: "host(local(Must), port(Must), at_least_two_labels(Allow))", v: "host", attr: "local(Must), port(Must), at_least_two_labels(Allow)", opts: &[("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_11 },
    Cfg { name: "host(local(Must), port(Must), at_least_two_labels(Disallow))", v: "host", attr: "local(Must), port(Must), at_least_two_labels(Disallow)", opts: &[("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_12 },
    Cfg { name: "host(local(Must), port(Allow), at_least_two_labels(Must))", v: "host", attr: "local(Must), port(Allow), at_least_two_labels(Must)", opts: &[("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_13 },
    Cfg { name: "host(local(Must), port(Allow), at_least_two_labels(Allow))", v: "host", attr: "local(Must), port(Allow), at_least_two_labels(Allow)", opts: &[("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_14 },
    Cfg { name: "host(local(Must), port(Allow), at_least_two_labels(Disallow))", v: "host", attr: "local(Must), port(Allow), at_least_two_labels(Disallow)", opts: &[("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_15 },
    Cfg { name: "host(local(Must), port(Disallow), at_least_two_labels(Must))", v: "host", attr: "local(Must), port(Disallow), at_least_two_labels(Must)", opts: &[("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_16 },
    Cfg { name: "host(local(Must), port(Disallow), at_least_two_labels(Allow))", v: "host", attr: "local(Must), port(Disallow), at_least_two_labels(Allow)", opts: &[("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_17 },
    Cfg { name: "host(local(Must), port(Disallow), at_least_two_labels(Disallow))", v: "host", attr: "local(Must), port(Disallow), at_least_two_labels(Disallow)", opts: &[("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_18 },
    Cfg { name: "host(local(Allow), port(Must), at_least_two_labels(Must))", v: "host", attr: "local(Allow), port(Must), at_least_two_labels(Must)", opts: &[("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_19 },
    Cfg { name: "host(local(Allow), port(Must), at_least_two_labels(Allow))", v: "host", attr: "local(Allow), port(Must), at_least_two_labels(Allow)", opts: &[("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_20 },
    Cfg { name: "host(local(Allow), port(Must), at_least_two_labels(Disallow))", v: "host", attr: "local(Allow), port(Must), at_least_two_labels(Disallow)", opts: &[("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_21 },
    Cfg { name: "host(local(Allow), port(Allow), at_least_two_labels(Must))", v: "host", attr: "local(Allow), port(Allow), at_least_two_labels(Must)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_22 },
    Cfg { name: "host(local(Allow), port(Allow), at_least_two_labels(Allow))", v: "host", attr: "local(Allow), port(Allow), at_least_two_labels(Allow)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_23 },
    Cfg { name: "host(local(Allow), port(Allow), at_least_two_labels(Disallow))", v: "host", attr: "local(Allow), port(Allow), at_least_two_labels(Disallow)", opts: &[("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_24 },
    Cfg { name: "host(local(Allow), port(Disallow), at_least_two_labels(Must))", v: "host", attr: "local(Allow), port(Disallow), at_least_two_labels(Must)", opts: &[("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_25 },
    Cfg { name: "host(local(Allow), port(Disallow), at_least_two_labels(Allow))", v: "host", attr: "local(Allow), port(Disallow), at_least_two_labels(Allow)", opts: &[("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_26 },
    Cfg { name: "host(local(Allow), port(Disallow), at_least_two_labels(Disallow))", v: "host", attr: "local(Allow), port(Disallow), at_least_two_labels(Disallow)", opts: &[("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_27 },
    Cfg { name: "host(local(Disallow), port(Must), at_least_two_labels(Must))", v: "host", attr: "local(Disallow), port(Must), at_least_two_labels(Must)", opts: &[("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_28 },
    Cfg { name: "host(local(Disallow), port(Must), at_least_two_labels(Allow))", v: "host", attr: "local(Disallow), port(Must), at_least_two_labels(Allow)", opts: &[("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_29 },
    Cfg { name: "host(local(Disallow), port(Must), at_least_two_labels(Disallow))", v: "host", attr: "local(Disallow), port(Must), at_least_two_labels(Disallow)", opts: &[("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_30 },
    Cfg { name: "host(local(Disallow), port(Allow), at_least_two_labels(Must))", v: "host", attr: "local(Disallow), port(Allow), at_least_two_labels(Must)", opts: &[("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_31 },
    Cfg { name: "host(local(Disallow), port(Allow), at_least_two_labels(Allow))", v: "host", attr: "local(Disallow), port(Allow), at_least_two_labels(Allow)", opts: &[("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_32 },
    Cfg { name: "host(local(Disallow), port(Allow), at_least_two_labels(Disallow))", v: "host", attr: "local(Disallow), port(Allow), at_least_two_labels(Disallow)", opts: &[("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_33 },
    Cfg { name: "host(local(Disallow), port(Disallow), at_least_two_labels(Must))", v: "host", attr: "local(Disallow), port(Disallow), at_least_two_labels(Must)", opts: &[("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_34 },
    Cfg { name: "host(local(Disallow), port(Disallow), at_least_two_labels(Allow))", v: "host", attr: "local(Disallow), port(Disallow), at_least_two_labels(Allow)", opts: &[("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_35 },
    Cfg { name: "host(local(Disallow), port(Disallow), at_least_two_labels(Disallow))", v: "host", attr: "local(Disallow), port(Disallow), at_least_two_labels(Disallow)", opts: &[("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_36 },
];
