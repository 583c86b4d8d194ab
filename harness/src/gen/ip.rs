// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip)]
pub struct V0x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Must)))]
pub struct V1x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Allow)))]
pub struct V2x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Disallow)))]
pub struct V3x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(port(Must)))]
pub struct V4x { pub ip: std::net::IpAddr, pub port: u16 }
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(port(Allow)))]
pub struct V5x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(port(Disallow)))]
pub struct V6x(pub std::net::IpAddr);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.0.to_string()), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Must), port(Must)))]
pub struct V7x { pub ip: std::net::IpAddr, pub port: u16 }
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Must), port(Allow)))]
pub struct V8x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Must), port(Disallow)))]
pub struct V9x(pub std::net::IpAddr);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.0.to_string()), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Allow), port(Must)))]
pub struct V10x { pub ip: std::net::IpAddr, pub port: u16 }
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Allow), port(Allow)))]
pub struct V11x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Allow), port(Disallow)))]
pub struct V12x(pub std::net::IpAddr);
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.0.to_string()), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Disallow), port(Must)))]
pub struct V13x { pub ip: std::net::IpAddr, pub port: u16 }
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", v.port.to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Disallow), port(Allow)))]
pub struct V14x { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.ip.to_string()), ("port", opt_text(&v.port)), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(ip(local(Disallow), port(Disallow)))]
pub struct V15x(pub std::net::IpAddr);
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("ip", v.0.to_string()), ("port", String::new()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "ip()", v: "ip", attr: "", opts: &[("local", "Allow"), ("port", "Allow")], ty: "", run: run_0 },
    Cfg { name: "ip(local(Must))", v: "ip", attr: "local(Must)", opts: &[("local", "Must"), ("port", "Allow")], ty: "", run: run_1 },
    Cfg { name: "ip(local(Allow))", v: "ip", attr: "local(Allow)", opts: &[("local", "Allow"), ("port", "Allow")], ty: "", run: run_2 },
    Cfg { name: "ip(local(Disallow))", v: "ip", attr: "local(Disallow)", opts: &[("local", "Disallow"), ("port", "Allow")], ty: "", run: run_3 },
    Cfg { name: "ip(port(Must))", v: "ip", attr: "port(Must)", opts: &[("local", "Allow"), ("port", "Must")], ty: "", run: run_4 },
    Cfg { name: "ip(port(Allow))", v: "ip", attr: "port(Allow)", opts: &[("local", "Allow"), ("port", "Allow")], ty: "", run: run_5 },
    Cfg { name: "ip(port(Disallow))", v: "ip", attr: "port(Disallow)", opts: &[("local", "Allow"), ("port", "Disallow")], ty: "", run: run_6 },
    Cfg { name: "ip(local(Must), port(Must))", v: "ip", attr: "local(Must), port(Must)", opts: &[("local", "Must"), ("port", "Must")], ty: "", run: run_7 },
    Cfg { name: "ip(local(Must), port(Allow))", v: "ip", attr: "local(Must), port(Allow)", opts: &[("local", "Must"), ("port", "Allow")], ty: "", run: run_8 },
    Cfg { name: "ip(local(Must), port(Disallow))", v: "ip", attr: "local(Must), port(Disallow)", opts: &[("local", "Must"), ("port", "Disallow")], ty: "", run: run_9 },
    Cfg { name: "ip(local(Allow), port(Must))", v: "ip", attr: "local(Allow), port(Must)", opts: &[("local", "Allow"), ("port", "Must")], ty: "", run: run_10 },
    Cfg { name: "ip(local(Allow), port(Allow))", v: "ip", attr: "local(Allow), port(Allow)", opts: &[("local", "Allow"), ("port", "Allow")], ty: "", run: run_11 },
    Cfg { name: "ip(local(Allow), port(Disallow))", v: "ip", attr: "local(Allow), port(Disallow)", opts: &[("local", "Allow"), ("port", "Disallow")], ty: "", run: run_12 },
    Cfg { name: "ip(local(Disallow), port(Must))", v: "ip", attr: "local(Disallow), port(Must)", opts: &[("local", "Disallow"), ("port", "Must")], ty: "", run: run_13 },
    Cfg { name: "ip(local(Disallow), port(Allow))", v: "ip", attr: "local(Disallow), port(Allow)", opts: &[("local", "Disallow"), ("port", "Allow")], ty: "", run: run_14 },
    Cfg { name: "ip(local(Disallow), port(Disallow))", v: "ip", attr: "local(Disallow), port(Disallow)", opts: &[("local", "Disallow"), ("port", "Disallow")], ty: "", run: run_15 },
];
