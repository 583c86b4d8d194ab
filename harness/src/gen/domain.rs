// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain)]
pub struct V0x { pub domain: String, pub port: Option<u16> }
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must)))]
pub struct V1x { pub domain: String, pub port: Option<u16> }
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow)))]
pub struct V2x { pub domain: String, pub port: Option<u16> }
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow)))]
pub struct V3x { pub domain: String, pub port: Option<u16> }
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(local(Must)))]
pub struct V4x { pub domain: String, pub port: Option<u16> }
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(local(Allow)))]
pub struct V5x { pub domain: String, pub port: Option<u16> }
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(local(Disallow)))]
pub struct V6x { pub domain: String, pub port: Option<u16> }
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(port(Must)))]
pub struct V7x { pub domain: String, pub port: u16 }
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(port(Allow)))]
pub struct V8x { pub domain: String, pub port: Option<u16> }
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(port(Disallow)))]
pub struct V9x(pub String);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(at_least_two_labels(Must)))]
pub struct V10x { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(at_least_two_labels(Allow)))]
pub struct V11x { pub domain: String, pub port: Option<u16> }
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(at_least_two_labels(Disallow)))]
pub struct V12x { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Must)))]
pub struct V13x { pub domain: String, pub port: u16 }
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct V14x { pub domain: String, pub port: u16 }
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V15x { pub domain: String, pub port: u16 }
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct V16x { pub domain: String, pub port: Option<u16> }
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct V17x { pub domain: String, pub port: Option<u16> }
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V18x { pub domain: String, pub port: Option<u16> }
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct V19x(pub String);
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct V20x(pub String);
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V21x(pub String);
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct V22x { pub domain: String, pub is_local: bool, pub port: u16 }
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct V23x { pub domain: String, pub port: u16 }
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V24x { pub domain: String, pub is_local: bool, pub port: u16 }
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct V25x { pub domain: String, pub is_local: bool, pub port: Option<u16> }
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct V26x { pub domain: String, pub port: Option<u16> }
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V27x { pub domain: String, pub is_local: bool, pub port: Option<u16> }
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct V28x { pub domain: String, pub is_local: bool }
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", String::new()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V29x(pub String);
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V30x { pub domain: String, pub is_local: bool }
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", String::new()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct V31x { pub domain: String, pub port: u16 }
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct V32x { pub domain: String, pub port: u16 }
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V33x { pub domain: String, pub port: u16 }
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct V34x { pub domain: String, pub port: Option<u16> }
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct V35x { pub domain: String, pub port: Option<u16> }
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V36x { pub domain: String, pub port: Option<u16> }
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct V37x(pub String);
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V38x(pub String);
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct V39x(pub String);
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Must)))]
pub struct V40x { pub domain: String, pub port: u16 }
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct V41x { pub domain: String, pub port: u16 }
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Disallow)))]
pub struct V42x { pub domain: String, pub port: u16 }
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct V43x { pub domain: String, pub port: Option<u16> }
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct V44x { pub domain: String, pub port: Option<u16> }
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Disallow)))]
pub struct V45x { pub domain: String, pub port: Option<u16> }
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct V46x(pub String);
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct V47x(pub String);
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V48x(pub String);
fn run_48(i: &Input) -> Out { type Vx = V48x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct V49x { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: u16 }
fn run_49(i: &Input) -> Out { type Vx = V49x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct V50x { pub domain: String, pub port: u16 }
fn run_50(i: &Input) -> Out { type Vx = V50x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Disallow)))]
pub struct V51x { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: u16 }
fn run_51(i: &Input) -> Out { type Vx = V51x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct V52x { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
fn run_52(i: &Input) -> Out { type Vx = V52x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct V53x { pub domain: String, pub port: Option<u16> }
fn run_53(i: &Input) -> Out { type Vx = V53x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Disallow)))]
pub struct V54x { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
fn run_54(i: &Input) -> Out { type Vx = V54x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct V55x { pub domain: String, pub is_ipv4: bool, pub is_local: bool }
fn run_55(i: &Input) -> Out { type Vx = V55x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", String::new()), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V56x(pub String);
fn run_56(i: &Input) -> Out { type Vx = V56x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V57x { pub domain: String, pub is_ipv4: bool, pub is_local: bool }
fn run_57(i: &Input) -> Out { type Vx = V57x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", String::new()), ("is_local", v.is_local.to_string()), ("is_ipv4", v.is_ipv4.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct V58x { pub domain: String, pub port: u16 }
fn run_58(i: &Input) -> Out { type Vx = V58x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct V59x { pub domain: String, pub port: u16 }
fn run_59(i: &Input) -> Out { type Vx = V59x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Disallow)))]
pub struct V60x { pub domain: String, pub port: u16 }
fn run_60(i: &Input) -> Out { type Vx = V60x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct V61x { pub domain: String, pub port: Option<u16> }
fn run_61(i: &Input) -> Out { type Vx = V61x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct V62x { pub domain: String, pub port: Option<u16> }
fn run_62(i: &Input) -> Out { type Vx = V62x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Disallow)))]
pub struct V63x { pub domain: String, pub port: Option<u16> }
fn run_63(i: &Input) -> Out { type Vx = V63x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct V64x(pub String);
fn run_64(i: &Input) -> Out { type Vx = V64x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V65x(pub String);
fn run_65(i: &Input) -> Out { type Vx = V65x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V66x(pub String);
fn run_66(i: &Input) -> Out { type Vx = V66x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Must)))]
pub struct V67x { pub domain: String, pub port: u16 }
fn run_67(i: &Input) -> Out { type Vx = V67x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct V68x { pub domain: String, pub port: u16 }
fn run_68(i: &Input) -> Out { type Vx = V68x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Disallow)))]
pub struct V69x { pub domain: String, pub port: u16 }
fn run_69(i: &Input) -> Out { type Vx = V69x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct V70x { pub domain: String, pub port: Option<u16> }
fn run_70(i: &Input) -> Out { type Vx = V70x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct V71x { pub domain: String, pub port: Option<u16> }
fn run_71(i: &Input) -> Out { type Vx = V71x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Disallow)))]
pub struct V72x { pub domain: String, pub port: Option<u16> }
fn run_72(i: &Input) -> Out { type Vx = V72x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct V73x(pub String);
fn run_73(i: &Input) -> Out { type Vx = V73x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct V74x(pub String);
fn run_74(i: &Input) -> Out { type Vx = V74x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V75x(pub String);
fn run_75(i: &Input) -> Out { type Vx = V75x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct V76x { pub domain: String, pub is_local: bool, pub port: u16 }
fn run_76(i: &Input) -> Out { type Vx = V76x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct V77x { pub domain: String, pub port: u16 }
fn run_77(i: &Input) -> Out { type Vx = V77x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Disallow)))]
pub struct V78x { pub domain: String, pub is_local: bool, pub port: u16 }
fn run_78(i: &Input) -> Out { type Vx = V78x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct V79x { pub domain: String, pub is_local: bool, pub port: Option<u16> }
fn run_79(i: &Input) -> Out { type Vx = V79x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct V80x { pub domain: String, pub port: Option<u16> }
fn run_80(i: &Input) -> Out { type Vx = V80x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Disallow)))]
pub struct V81x { pub domain: String, pub is_local: bool, pub port: Option<u16> }
fn run_81(i: &Input) -> Out { type Vx = V81x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct V82x { pub domain: String, pub is_local: bool }
fn run_82(i: &Input) -> Out { type Vx = V82x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", String::new()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V83x(pub String);
fn run_83(i: &Input) -> Out { type Vx = V83x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V84x { pub domain: String, pub is_local: bool }
fn run_84(i: &Input) -> Out { type Vx = V84x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", String::new()), ("is_local", v.is_local.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct V85x { pub domain: String, pub port: u16 }
fn run_85(i: &Input) -> Out { type Vx = V85x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct V86x { pub domain: String, pub port: u16 }
fn run_86(i: &Input) -> Out { type Vx = V86x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Disallow)))]
pub struct V87x { pub domain: String, pub port: u16 }
fn run_87(i: &Input) -> Out { type Vx = V87x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", v.port.to_string()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct V88x { pub domain: String, pub port: Option<u16> }
fn run_88(i: &Input) -> Out { type Vx = V88x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct V89x { pub domain: String, pub port: Option<u16> }
fn run_89(i: &Input) -> Out { type Vx = V89x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Disallow)))]
pub struct V90x { pub domain: String, pub port: Option<u16> }
fn run_90(i: &Input) -> Out { type Vx = V90x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.domain.clone()), ("port", opt_text(&v.port)), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct V91x(pub String);
fn run_91(i: &Input) -> Out { type Vx = V91x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct V92x(pub String);
fn run_92(i: &Input) -> Out { type Vx = V92x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct V93x(pub String);
fn run_93(i: &Input) -> Out { type Vx = V93x; let f: fn(&Vx) -> Fields = |v| vec![("domain", v.0.clone()), ("port", String::new()), ("fq", v.is_fully_qualified().to_string()), ("nfq", v.get_domain_non_fully_qualified().to_string()), ("auth", v.to_uri_authority_string().to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "domain()", v: "domain", attr: "", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_0 },
    Cfg { name: "domain(ipv4(Must))", v: "domain", attr: "ipv4(Must)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_1 },
    Cfg { name: "domain(ipv4(Allow))", v: "domain", attr: "ipv4(Allow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_2 },
    Cfg { name: "domain(ipv4(Disallow))", v: "domain", attr: "ipv4(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_3 },
    Cfg { name: "domain(local(Must))", v: "domain", attr: "local(Must)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_4 },
    Cfg { name: "domain(local(Allow))", v: "domain", attr: "local(Allow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_5 },
    Cfg { name: "domain(local(Disallow))", v: "domain", attr: "local(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_6 },
    Cfg { name: "domain(port(Must))", v: "domain", attr: "port(Must)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_7 },
    Cfg { name: "domain(port(Allow))", v: "domain", attr: "port(Allow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_8 },
    Cfg { name: "domain(port(Disallow))", v: "domain", attr: "port(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_9 },
    Cfg { name: "domain(at_least_two_labels(Must))", v: "domain", attr: "at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_10 },
    Cfg { name: "domain(at_least_two_labels(Allow))", v: "domain", attr: "at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_11 },
    Cfg { name: "domain(at_least_two_labels(Disallow))", v: "domain", attr: "at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_12 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Must), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_13 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Must), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_14 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_15 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Must), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_16 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Must), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_17 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_18 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_19 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_20 },
    Cfg { name: "domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_21 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Allow), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_22 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Allow), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_23 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_24 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_25 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_26 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_27 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_28 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_29 },
    Cfg { name: "domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_30 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_31 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_32 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_33 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_34 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_35 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_36 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_37 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_38 },
    Cfg { name: "domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow))", v: "domain", attr: "ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)", opts: &[("ipv4", "Must"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_39 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Must), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_40 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Must), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_41 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Must), port(Must), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_42 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_43 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_44 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_45 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_46 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_47 },
    Cfg { name: "domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_48 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_49 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_50 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_51 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_52 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_53 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_54 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_55 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_56 },
    Cfg { name: "domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_57 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_58 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_59 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_60 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_61 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_62 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_63 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_64 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_65 },
    Cfg { name: "domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Allow"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_66 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_67 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_68 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_69 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_70 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_71 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_72 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_73 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_74 },
    Cfg { name: "domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Must"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_75 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_76 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_77 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_78 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_79 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_80 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_81 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_82 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_83 },
    Cfg { name: "domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Allow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_84 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Must")], ty: "", run: run_85 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Allow")], ty: "", run: run_86 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Must"), ("at_least_two_labels", "Disallow")], ty: "", run: run_87 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Must")], ty: "", run: run_88 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Allow")], ty: "", run: run_89 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Allow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_90 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Must))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Must)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Must")], ty: "", run: run_91 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Allow))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Allow)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Allow")], ty: "", run: run_92 },
    Cfg { name: "domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Disallow))", v: "domain", attr: "ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Disallow)", opts: &[("ipv4", "Disallow"), ("local", "Disallow"), ("port", "Disallow"), ("at_least_two_labels", "Disallow")], ty: "", run: run_93 },
];
